package hx

import "sync"

var point sync.Mutex

// Point is a place where another goroutine may run.
func Point() {
	point.Lock()
	//lint:ignore SA2001 nothing to protect
	point.Unlock()
}

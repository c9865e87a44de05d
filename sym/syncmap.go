package verif_sym

import "sync"

// The model of sync.Map that the engine runs: every operation is one atomic step.

type syncMap struct {
	m map[any]any
}

var (
	syncMaps   = map[*sync.Map]*syncMap{}
	syncMapsMu sync.Mutex
)

func lockMap(p *sync.Map) *syncMap {
	syncMapsMu.Lock()
	m := syncMaps[p]
	if m == nil {
		m = &syncMap{m: map[any]any{}}
		syncMaps[p] = m
	}
	return m
}

func SyncMapLoad(p *sync.Map, k any) (any, bool) {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func SyncMapStore(p *sync.Map, k, v any) { SyncMapSwap(p, k, v) }

func SyncMapSwap(p *sync.Map, k, v any) (any, bool) {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}

func SyncMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.m[k] = v
	return v, false
}

func SyncMapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	old, ok := m.m[k]
	delete(m.m, k)
	return old, ok
}

func SyncMapDelete(p *sync.Map, k any) { SyncMapLoadAndDelete(p, k) }

func SyncMapCompareAndSwap(p *sync.Map, k, was, v any) bool {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	if old, ok := m.m[k]; !ok || old != was {
		return false
	}
	m.m[k] = v
	return true
}

func SyncMapCompareAndDelete(p *sync.Map, k, was any) bool {
	m := lockMap(p)
	defer syncMapsMu.Unlock()
	if old, ok := m.m[k]; !ok || old != was {
		return false
	}
	delete(m.m, k)
	return true
}

func SyncMapRange(p *sync.Map, f func(k, v any) bool) {
	m := lockMap(p)
	ks := []any{}
	for k := range m.m {
		ks = append(ks, k)
	}
	syncMapsMu.Unlock()
	for _, k := range ks {
		if v, ok := SyncMapLoad(p, k); ok && !f(k, v) {
			return
		}
	}
}

func SyncMapClear(p *sync.Map) {
	m := lockMap(p)
	clear(m.m)
	syncMapsMu.Unlock()
}

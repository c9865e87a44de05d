//go:build verif

package c31

import (
	"context"
	"sync"
	"time"

	"github.com/DanLavine/willow/internal/heartbeater"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// monitor is a heartbeat monitor with what was observed of it.
type monitor struct {
	hb       heartbeater.Heartbeater
	cancel   func()
	timeout  int64
	last     int64 // no later than the start or the last accepted heartbeat
	finished bool  // the monitor's task returned

	stops, timeouts, shutdowns int
}

func newMonitor(timeout int64, onTimeout func()) *monitor {
	m := &monitor{timeout: timeout}
	ctx, cancel := context.WithCancel(context.Background())
	m.cancel = cancel
	hb, err := heartbeater.New(time.Duration(timeout), func() { m.shutdowns++ }, func() {
		m.timeouts++
		sym.Assert(m.timeouts == 1, "the timeout handler is called at most once")
		sym.Assert(m.stops == 0, "the timeout handler is not called after a stop succeeded")
		sym.Assert(sym.Now()-m.last >= m.timeout, "the timeout handler is called only after a full timeout")
		if onTimeout != nil {
			onTimeout()
		}
	})
	sym.Assert(err == nil, "a monitor can be created")
	m.hb = hb
	go func() {
		_ = hb.Execute(ctx)
		m.finished = true
	}()
	return m
}

func (m *monitor) stop() bool {
	ok := m.hb.Stop()
	if ok {
		m.stops++
		sym.Assert(m.stops == 1, "at most one stop succeeds")
		sym.Assert(m.timeouts == 0, "a stop succeeds only if the timeout handler was not called")
	}
	return ok
}

func (m *monitor) beat() bool {
	at := sym.Now()
	ok := m.hb.Heartbeat()
	if ok && m.last < at {
		m.last = at
	}
	return ok
}

func (m *monitor) start() bool {
	at := sym.Now()
	ok := m.hb.Start()
	if ok && m.last < at {
		m.last = at
	}
	return ok
}

const (
	second = int64(time.Second)
	most   = int64(1) << 12
)

const (
	waiting = iota
	running
	ended
	unsettled // shut down before the start
)

// Every history of calls, one at a time, with times passing between them.
//
// verif: ticks=12
func CheckHistory() {
	timeout := sym.Int64("timeout")
	sym.Assume(timeout >= 1 && timeout <= most)
	m := newMonitor(timeout, nil)
	state := waiting
	if sym.Choose("started", 2) == 1 {
		sym.Assert(m.start(), "the first start succeeds")
		state = running
	}
	timedOut := 0
	for i := 0; i < sym.Bound("calls", 4, 6); i++ {
		switch sym.Choose("call", 5) {
		case 0:
			d := sym.Int64("pass")
			sym.Assume(d >= 0 && d <= timeout)
			sym.Advance(time.Duration(d))
			if state == running && sym.Now()-m.last >= timeout {
				state = ended
				timedOut = 1
			}
		case 1:
			ok := m.beat()
			switch state {
			case running:
				sym.Assert(ok, "a heartbeat of a running monitor is accepted")
			case ended:
				sym.Assert(!ok, "a heartbeat of an ended monitor is not accepted")
			}
		case 2:
			ok := m.start()
			switch state {
			case waiting:
				sym.Assert(ok, "the first start succeeds")
				state = running
			case running, ended:
				sym.Assert(!ok, "only the first start succeeds")
			}
		case 3:
			ok := m.stop()
			switch state {
			case waiting, running:
				sym.Assert(ok, "a monitor that did not end can be stopped")
			case ended:
				sym.Assert(!ok, "a monitor that ended cannot be stopped")
			}
			if state != unsettled || ok {
				state = ended
			}
		case 4:
			m.cancel()
			switch state {
			case running:
				state = ended
				sym.Quiesce()
				sym.Assert(m.shutdowns == 1, "the shutdown handler is called")
			case waiting:
				state = unsettled
			}
		}
		sym.Quiesce()
		sym.Assert(m.timeouts == timedOut, "the timeout handler is called when a full timeout passed")
		switch state {
		case running:
			sym.Assert(!m.finished, "a running monitor keeps watching")
			sym.Assert(!m.hb.GetLastHeartbeat().Before(started.Add(time.Duration(m.last))) && !m.hb.GetLastHeartbeat().After(started.Add(time.Duration(m.last))), "the last heartbeat is reported")
		case ended:
			sym.Assert(m.finished, "an ended monitor returns")
		}
	}
	sym.Assert(m.shutdowns <= 1, "the shutdown handler is called at most once")
	sym.Reach("history")
}

var started = time.Now().Add(-time.Duration(sym.Now()))

const (
	stop = iota
	beat
	start
	shutdown
	twoBeats
	twoStops
	events
)

func (m *monitor) call(e int, done chan bool) {
	switch e {
	case stop:
		m.stop()
	case beat:
		m.beat()
	case start:
		m.start()
	case shutdown:
		m.cancel()
	case twoBeats:
		m.beat()
		m.beat()
	case twoStops:
		m.stop()
		sym.Assert(!m.stop(), "at most one stop succeeds")
	}
	done <- true
}

// concurrent makes calls at the same time, while the timer may fire.
func concurrent(calls, devs int) {
	m := newMonitor(second, nil)
	begun := sym.Choose("started", 2) == 1
	if begun {
		sym.Assert(m.start(), "the first start succeeds")
		sym.Quiesce()
	}
	done := make(chan bool, calls)
	e := []int{}
	for i := 0; i < calls; i++ {
		e = append(e, sym.Choose("call", events))
		if i > 0 {
			sym.Assume(e[i-1] <= e[i])
		}
	}
	sym.Preemptions(sym.Bound("deviations", devs, devs+1))
	for i := 0; i < calls; i++ {
		c := e[i]
		begun = begun || c == start
		go m.call(c, done)
	}
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(len(done) == calls, "every call returns")
	sym.Assert(m.stops+m.timeouts+m.shutdowns <= 1, "a monitor ends once")
	sym.Advance(time.Duration(3 * second))
	if begun {
		sym.Assert(m.stops+m.timeouts+m.shutdowns == 1 && m.finished, "a monitor without heartbeats ends")
	}
	sym.Assert(!m.beat() || !begun, "an ended monitor accepts nothing")
	sym.Reach("concurrent")
}

// Two calls at the same time, while the timer may fire.
//
// verif: timers=early ticks=12
func CheckTwoCalls() { concurrent(2, 4) }

// Three calls at the same time, while the timer may fire.
//
// verif: timers=early ticks=12
func CheckThreeCalls() { concurrent(3, 2) }

// A call made by somebody the timeout handler has to wait for.
//
// verif: timers=early ticks=12
func CheckHandlerWaits() {
	var lock sync.Mutex
	m := newMonitor(second, func() {
		lock.Lock()
		defer lock.Unlock()
	})
	sym.Assert(m.start(), "the first start succeeds")
	sym.Quiesce()
	e := sym.Choose("call", events)
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	done := make(chan bool, 1)
	go func() {
		lock.Lock()
		defer lock.Unlock()
		m.call(e, done)
	}()
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(len(done) == 1, "every call returns")
	sym.Reach("handler waits")
}

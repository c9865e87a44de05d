//go:build verif

package c33

import (
	"context"
	"encoding/json"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	"github.com/DanLavine/willow/internal/willow/api/v1/router"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	wil "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"go.uber.org/zap"
)

// live is the queue broker behind its API, and what it should answer.
type live struct {
	s     *hxw.Service
	mux   *urlrouter.Router
	exist map[string]bool
	ready map[int]int // waiting items of the queue "q" by channel
	held  map[string]int
	last  string
}

func newLive() *live {
	l := &live{s: hxw.NewService(), mux: urlrouter.New(), exist: map[string]bool{}, ready: map[int]int{}, held: map[string]int{}}
	router.AddV1WillowRoutes(zap.NewNop(), l.mux, handlers.NewV1QueueHandler(l.s.Q, "rule"))
	return l
}

// send makes one request and checks what every answer has to be.
func (l *live) send(method, path string, body any, codes ...int) *hxh.Recorder {
	w := serve(l.mux, context.Background(), method, path, body)
	sym.Quiesce()
	l.check(w, codes...)
	return w
}

func (l *live) check(w *hxh.Recorder, codes ...int) {
	sym.Assert(len(w.Status) == 1, "every request gets exactly one answer")
	sym.Assert(w.Code() < 500, "no request makes the service fail")
	ok := false
	for _, c := range codes {
		ok = ok || w.Code() == c
	}
	sym.Assert(ok, "the running service answers as documented")
	if w.Code() >= 400 {
		said(w)
	}
}

func (l *live) known(name string, code int) int {
	if l.exist[name] {
		return code
	}
	return 404
}

func (l *live) total() (n int) {
	for _, k := range l.ready {
		n += k
	}
	return
}

func (l *live) gone() {
	l.exist["q"] = false
	l.ready, l.held = map[int]int{}, map[string]int{}
}

// enqueue adds an item, which the limiter may refuse.
func (l *live) enqueue(k int, data byte, refuse bool) {
	l.s.L.RefuseEnqueue = func() bool { return refuse }
	it := item(hxw.Key(k), data, ptr(hxw.Long))
	it.Spec.Properties.Updateable = ptr(false)
	if refuse {
		w := serve(l.mux, context.Background(), "POST", "/v1/queues/q/channels/items", it)
		sym.Quiesce()
		sym.Assert(w.Code() != 201, "an item that was refused is not confirmed")
		said(w)
	} else {
		l.send("POST", "/v1/queues/q/channels/items", it, l.known("q", 201))
		if l.exist["q"] {
			l.ready[k]++
		}
	}
}

// dequeue asks for an item; the client may be gone when the answer is sent.
func (l *live) dequeue(gone bool) {
	ctx, cancel := context.WithCancel(context.Background())
	w := hxh.NewRecorder()
	w.Fail = gone
	back := false
	go func() {
		l.mux.ServeHTTP(w, hxh.Request(ctx, "GET", "/v1/queues/q/channels/items", hxh.Body(&qa.AssociatedActionQuery{}), true))
		back = true
	}()
	sym.Quiesce()
	if !back {
		sym.Assert(l.exist["q"] && l.total() == 0, "a request for an item waits only while there is none")
	}
	cancel()
	sym.Quiesce()
	sym.Assert(back, "a request for an item ends with its client")
	if l.exist["q"] && l.total() > 0 {
		sym.Assert(w.Code() == 200, "a waiting item is handed out")
	} else {
		sym.Assert(w.Code() != 200, "no item is handed out when there is none")
	}
	if !l.exist["q"] {
		sym.Assert(w.Code() == 404, "the running service answers as documented")
	}
	if w.Fail || w.Code() != 200 {
		return
	}
	got := &wil.Item{}
	sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil, "what the service shows is valid")
	k := got.Spec.DBDefinition.KeyValues["a"].Data.(int)
	sym.Assert(l.ready[k] > 0, "the item is shown with the key values of its channel")
	l.ready[k]--
	l.held[got.State.ID] = k
	l.last = got.State.ID
}

// target is the item that the next request is about.
func (l *live) target() (id string, k, code int) {
	if k, ok := l.held[l.last]; ok {
		return l.last, k, 200
	}
	return "unknown", 1, 404
}

func (l *live) ack(passed bool) {
	id, k, want := l.target()
	l.send("POST", "/v1/queues/q/channels/items/ack", &wil.ACK{ItemID: id, KeyValues: hxw.Key(k).Map(), Passed: passed}, want)
	if want == 200 {
		delete(l.held, id)
		if !passed {
			l.ready[k]++ // it is tried once more
		}
	}
}

func (l *live) step() {
	name := "q"
	op := sym.Choose("operation", 12)
	if op <= 6 && op != 1 && sym.Bool("another queue") {
		name = "r"
	}
	switch op {
	case 0:
		n := int64(5)
		q := queue(&name, &n)
		if sym.Bool("no properties") {
			q.Spec.Properties = nil
			w := serve(l.mux, context.Background(), "POST", "/v1/queues", q)
			sym.Quiesce()
			want := 201
			if l.exist[name] {
				want = 409
			}
			l.check(w, 400, want)
			if w.Code() == 201 {
				l.exist[name] = true
			}
			return
		}
		if l.exist[name] {
			l.send("POST", "/v1/queues", q, 409)
		} else {
			l.send("POST", "/v1/queues", q, 201)
			l.exist[name] = true
		}
	case 1:
		w := l.send("GET", "/v1/queues", nil, 200)
		var got wil.Queues
		sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
		n := 0
		for _, is := range l.exist {
			if is {
				n++
			}
		}
		sym.Assert(len(got) == n, "every queue is listed")
	case 2:
		w := l.send("GET", "/v1/queues/"+name, nil, l.known(name, 200))
		if w.Code() == 200 {
			got := &wil.Queue{}
			sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil, "what the service shows is valid")
		}
	case 3:
		n := int64(5)
		l.send("PUT", "/v1/queues/"+name, &wil.QueueProperties{MaxItems: &n}, l.known(name, 200))
	case 4:
		l.send("DELETE", "/v1/queues/"+name, nil, 204, l.known(name, 204))
		if name == "q" {
			l.gone()
		} else {
			l.exist[name] = false
		}
	case 5:
		q := &qa.AssociatedActionQuery{}
		if sym.Bool("select") {
			q = selectKey(hxw.Key(1))
		}
		w := l.send("GET", "/v1/queues/"+name+"/channels", q, l.known(name, 200))
		if w.Code() == 200 {
			var got wil.Channels
			sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
		}
	case 6:
		k := 1 + sym.Choose("channel", 2)
		l.send("DELETE", "/v1/queues/"+name+"/channels", hxw.Key(k).Map(), 204, 404)
		if name == "q" {
			delete(l.ready, k)
			for id, c := range l.held {
				if c == k {
					delete(l.held, id)
				}
			}
		}
	case 7:
		l.enqueue(1+sym.Choose("channel", 2), byte(1+sym.Choose("data", 2)), l.exist["q"] && sym.Bool("the limit is reached"))
	case 8:
		l.dequeue(sym.Bool("the client is gone"))
	case 9, 10:
		l.last = "unknown"
		for id := range l.held {
			l.last = id
		}
		if sym.Bool("another item") {
			l.last = "unknown"
		}
		if op == 9 {
			l.ack(sym.Bool("passed"))
		} else {
			id, k, want := l.target()
			l.send("POST", "/v1/queues/q/channels/items/heartbeat", &wil.Heartbeat{ItemID: id, KeyValues: hxw.Key(k).Map()}, want)
		}
	default:
		// requests that the checks of the other operations do not make
		b := [][]byte{[]byte(`{}`), []byte("null")}[sym.Choose("text", 2)]
		p := []string{"/v1/queues", "/v1/queues/q/channels/items", "/v1/queues/q/channels/items/ack", "/v1/queues/q/channels/items/heartbeat"}[sym.Choose("path", 4)]
		w := hxh.Serve(l.mux, context.Background(), "POST", p, b)
		l.check(w, 400)
	}
}

// CheckRunningQueues: whatever is asked, the broker behind the API answers and goes on.
//
// verif: devs=0 maporder=insertion
func CheckRunningQueues() {
	l := newLive()
	state := sym.Choose("state", 5)
	if state > 0 {
		l.send("POST", "/v1/queues", queue(ptr("q"), ptr(int64(5))), 201)
		l.exist["q"] = true
	}
	if state > 1 {
		l.enqueue(1, 1, state == 2)
	}
	if state > 2 {
		l.dequeue(false)
	}
	if state > 3 {
		l.ack(true)
	}
	for i, n := 0, sym.Bound("requests", 2, 3); i < n; i++ {
		l.step()
	}
	sym.Reach("end")
}

var _ = hx.FullRange

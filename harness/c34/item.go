//go:build verif

package c34

import (
	"context"
	"net/http"
	"strings"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	"github.com/DanLavine/willow/internal/willow/api/v1/router"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/clients"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	wil "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

// broker is the far end of a consumer.
type broker struct {
	queues.QueuesClient // any other call is a nil dereference

	outcome func(op string) int
	t       time.Duration
	beats   int
	acks    int
	passed  bool
	last    int64
}

func (b *broker) Dequeue(context.Context, string, *qa.AssociatedActionQuery) (*wil.Item, func(), func(), *errors.ServerError) {
	yes, n, pos := true, uint64(1), "front"
	return &wil.Item{
		Spec: &wil.ItemSpec{
			DBDefinition: &wil.ItemDBDefinition{KeyValues: dt.TypedKeyValues(set("a"))},
			Properties:   &wil.ItemProperties{Data: []byte{1}, Updateable: &yes, RetryAttempts: &n, RetryPosition: &pos, TimeoutDuration: &b.t},
		},
		State: &wil.ItemState{ID: "item"},
	}, func() {}, func() {}, nil
}

func (b *broker) answer() *errors.ServerError {
	switch now {
	case lost:
		return &errors.ServerError{StatusCode: []int{404, 409}[sym.Choose("code", 2)], Message: "not yours"}
	case fails:
		return &errors.ServerError{StatusCode: []int{500, 503}[sym.Choose("code", 2)], Message: "cannot"}
	}
	return nil
}

func (b *broker) Heartbeat(_ context.Context, q string, h *wil.Heartbeat) *errors.ServerError {
	sym.Assert(q == "q" && h.ItemID == "item", "a heartbeat names its item")
	return b.answer()
}

func (b *broker) Ack(_ context.Context, q string, a *wil.ACK) *errors.ServerError {
	sym.Assert(q == "q" && a.ItemID == "item", "an acknowledgement names its item")
	b.passed = a.Passed
	return b.answer()
}

func (b *broker) take() *willowclient.Item {
	mux := urlrouter.New()
	router.AddV1WillowRoutes(zap.NewNop(), mux, handlers.NewV1QueueHandler(b, "rule"))
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		op := ""
		switch {
		case strings.HasSuffix(r.URL.Path, "/ack"):
			op = "ack"
			b.acks++
		case strings.HasSuffix(r.URL.Path, "/heartbeat"):
			op = "beat"
			b.beats++
		}
		how := fine
		if op != "" {
			how = b.outcome(op)
		}
		now = how
		switch how {
		case broken:
			panic(http.ErrAbortHandler)
		case silent:
			<-r.Context().Done()
			return
		case unheard:
			mux.ServeHTTP(hxh.NewRecorder(), r)
			panic(http.ErrAbortHandler)
		}
		rec := hxh.NewRecorder()
		mux.ServeHTTP(rec, r)
		if op != "" && how == fine {
			sym.Assert(rec.Code() == 200, "the service accepts what the client sends")
		}
		if how == slow {
			time.Sleep(4 * time.Second)
		}
		if op == "beat" && (how == fine || how == slow) {
			if r.Context().Err() == nil { // otherwise the client did not wait for it
				b.last = sym.Now()
			}
		}
		for k, v := range rec.Headers {
			w.Header()[k] = v
		}
		w.WriteHeader(rec.Code())
		_, _ = w.Write(rec.Body)
	})
	c, err := willowclient.NewWillowClient(&clients.Config{URL: hxh.Listen(h)})
	sym.Assume(err == nil)
	it, err := c.DequeueQueueItem(context.Background(), "q", &qa.AssociatedActionQuery{})
	sym.Assert(err == nil && it != nil, "an item that was handed out is received")
	b.last = sym.Now()
	return it
}

// CheckItemHeld: as long as heartbeats are accepted an item is not given up, and when they are not, its
// consumer learns within the timeout that the item is lost.
//
// verif: native=off
func CheckItemHeld() {
	b := &broker{t: 30 * time.Second}
	b.outcome = func(string) int { return sym.Choose("outcome", outcomes_) }
	it := b.take()
	if sym.Bool("callback") {
		it.SetHeartbeatErrorCallback(func(err error) { sym.Assert(err != nil, "the callback is about an error") })
	}
	for i, n := 0, sym.Bound("steps", 8, 10); i < n; i++ {
		sym.Advance(5 * time.Second)
		sym.Quiesce()
		since := time.Duration(sym.Now() - b.last)
		if closed(it.Done()) {
			// the service may have said that the item is not the consumer's
			sym.Assert(since >= b.t*9/10 || b.beats > 0 && now == lost, "an item whose heartbeats are accepted is not given up")
			sym.Reach("lost")
			beats := b.beats
			sym.Advance(b.t)
			sym.Assert(b.beats == beats, "no heartbeats are sent for an item that is lost")
			return
		}
		sym.Assert(since <= b.t, "a consumer learns within the timeout that its item is lost")
	}
	sym.Reach("held")
}

// CheckItemAck: an acknowledgement is sent as given, its sender learns whether it was accepted, and there are
// no heartbeats from then on.
//
// verif: native=off
func CheckItemAck() {
	b := &broker{t: 30 * time.Second}
	acked := false
	result := fine
	b.outcome = func(op string) int {
		if op == "beat" {
			if acked {
				return sym.Choose("heartbeat", outcomes_)
			}
			return []int{fine, broken, silent}[sym.Choose("heartbeat", 3)]
		}
		result = sym.Choose("ack", silent)
		return result
	}
	it := b.take()
	if sym.Bool("callback") {
		it.SetHeartbeatErrorCallback(func(err error) { sym.Assert(err != nil, "the callback is about an error") })
	}
	sym.Advance([]time.Duration{0, 9 * time.Second, 20 * time.Second}[sym.Choose("after", 3)])
	passed := sym.Bool("passed")
	acked = true
	err := it.ACK(context.Background(), passed)
	sym.Assert(closed(it.Done()), "an item that was acknowledged is not held")
	sym.Assert(b.acks == 1 && (result == broken || b.passed == passed), "an item is acknowledged once, as asked")
	sym.Assert((err == nil) == (result == fine), "the consumer learns whether the acknowledgement was accepted")
	sym.Quiesce()
	beats := b.beats
	sym.Advance(2 * b.t)
	sym.Assert(b.beats == beats && b.acks == 1, "no heartbeats are sent for an item that was acknowledged")
}

// CheckShortTimeouts: locks and items with any timeout can be held.
//
// verif: native=off ticks=20
func CheckShortTimeouts() {
	t := time.Duration(sym.IntRange("timeout", 1, 30))
	if sym.Bool("lock") {
		s := &service{outcome: func(string) int { return fine }}
		l, err := s.client().ObtainLock(context.Background(), request(set("a"), t), nil)
		sym.Assert(l != nil && err == nil, "a lock that was handed out is obtained")
		_ = l.Release(context.Background())
		sym.Assert(s.releases == 1, "a lock is released once")
	} else {
		b := &broker{t: t, outcome: func(string) int { return fine }}
		it := b.take()
		_ = it.ACK(context.Background(), true)
		sym.Assert(b.acks == 1, "an item is acknowledged once")
	}
}

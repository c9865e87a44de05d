//go:build verif

package c29

import (
	"context"
	"strings"

	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/memory"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// names records what is counted: the key values and the number for each.
type names struct {
	limiterclient.LimiterClient
	kvs   []dt.KeyValues
	count []int64
}

func same(a, b dt.KeyValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w.Type != v.Type || w.Data != v.Data {
			return false
		}
	}
	return true
}

func (n *names) at(kvs dt.KeyValues) *int64 {
	for i := range n.kvs {
		if same(n.kvs[i], kvs) {
			return &n.count[i]
		}
	}
	n.kvs, n.count = append(n.kvs, kvs), append(n.count, 0)
	return &n.count[len(n.count)-1]
}

func (n *names) UpdateCounter(_ context.Context, c *v1limiter.Counter) error {
	*n.at(c.Spec.DBDefinition.KeyValues) += *c.Spec.Properties.Counters
	return nil
}

func (n *names) SetCounters(_ context.Context, c *v1limiter.Counter) error {
	*n.at(c.Spec.DBDefinition.KeyValues) = *c.Spec.Properties.Counters
	return nil
}

// total is what a rule for the queue's items of one kind would count: every counter that has both key values.
func (n *names) total(queue, kind string) (total int64) {
	for i, kvs := range n.kvs {
		q, ok := kvs["_willow_queue_name"]
		_, is := kvs[kind]
		if ok && is && q.Type == dt.T_string && q.Data.(string) == queue {
			total += n.count[i]
		}
	}
	return
}

// key is a name for a channel's key, many of them close to the names that the counters use themselves.
func key() string {
	k := strings.Repeat("_", sym.Choose("underscores", 3))
	if sym.Choose("prefixed", 2) == 1 {
		k += "willow" + strings.Repeat("_", 1+sym.Choose("more underscores", 2))
	}
	return k + []string{"queue_name", "enqueued", "running", "a"}[sym.Choose("name", 4)]
}

// CheckKeys: whatever the keys of the channels are called, what is counted for a queue is what that queue holds.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckKeys() {
	l := &names{}
	a := key()
	chans := []dt.KeyValues{{a: dt.String("q")}}
	if b := key(); b == a {
		chans = append(chans, dt.KeyValues{a: dt.String("true")})
	} else {
		chans = append(chans, dt.KeyValues{b: dt.String("q")})
	}
	queues := []string{"p", "q"}
	upd, max, pos, t := false, uint64(0), "front", hxw.Long
	var started []interface{ ForceDelete(context.Context) }
	which := sym.Choose("queues", 2) // of one queue or of two
	for i, kvs := range chans {
		q := queues[i*which]
		c := memory.New(l, func() {}, q, kvs)
		ctx, cancel := context.WithCancel(context.Background())
		go func() { _ = c.Execute(ctx) }()
		sym.Quiesce()
		for n := 0; n < 2; n++ {
			sym.Assert(c.Enqueue(hxl.Ctx(), &v1willow.Item{Spec: &v1willow.ItemSpec{
				DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kvs},
				Properties:   &v1willow.ItemProperties{Data: []byte{1}, Updateable: &upd, RetryAttempts: &max, RetryPosition: &pos, TimeoutDuration: &t},
			}}) == nil, "an item is accepted")
		}
		sym.Quiesce()
		item, ok, _ := (<-c.Dequeue())(hxl.Ctx())
		sym.Assert(item != nil, "an item that waits is handed out")
		ok()
		sym.Quiesce()
		sym.Assert(l.total(q, "_willow_enqueued") == int64(2*(1+i*(1-which))), "the enqueued total is the number of the queue's unfinished items")
		sym.Assert(l.total(q, "_willow_running") == int64(1+i*(1-which)), "the running total is the number of the queue's items being processed")
		started = append(started, c)
		_ = cancel
	}
	for i := range l.kvs {
		sym.Assert(l.count[i] == 1 || l.count[i] == 2, "each channel is counted for itself")
	}
	sym.Assert(len(l.kvs) == 4, "each channel is counted for itself")
	for i, c := range started {
		c.ForceDelete(hxl.Ctx())
		sym.Quiesce()
		rest := int64(1-which) * int64(1-i)
		sym.Assert(l.total(queues[i*which], "_willow_enqueued") == 2*rest, "nothing is counted for a channel that was deleted")
		sym.Assert(l.total(queues[i*which], "_willow_running") == rest, "nothing is counted for a channel that was deleted")
	}
	sym.Reach("keys")
}

//go:build verif

package c33

import (
	"context"
	"encoding/json"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	limhandlers "github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	limrouter "github.com/DanLavine/willow/internal/limiter/api/v1/router"
	lochandlers "github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	locrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	"github.com/DanLavine/willow/pkg/clients"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"go.uber.org/zap"
)

// liveLocker is the lock manager behind its API.
func liveLocker() (*hxk.Locker, *urlrouter.Router) {
	k := hxk.New()
	mux := urlrouter.New()
	t := 30 * time.Second
	locrouter.AddV1LockerRoutes(zap.NewNop(), mux, lochandlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &t}, k))
	return k, mux
}

// running is the limiter behind its API, with a locker service.
type running struct {
	live
	k        *hxk.Locker
	rule     [2]string // the id of the rule for "a" (any value), and for a = 1
	limit    [2]int64
	override [2]string // of the first rule: for a = 1, and for a = 2
	count    [2]int64  // for a = 1 and a = 2
}

func newRunning() *running {
	r := &running{}
	k, locks := liveLocker()
	r.k = k
	l := hxl.New()
	r.mux = urlrouter.New()
	limrouter.AddV1LimiterRoutes(zap.NewNop(), r.mux, limhandlers.NewGroupRuleHandler(context.Background(), &clients.Config{URL: hxh.Listen(locks)}, l.Rules, l.Counters))
	return r
}

func one(i int) hx.KV {
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.IntKey(i)
	return kv
}

func anyA() hx.KV {
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.Of("any", hx.KAny, 0)
	return kv
}

func (r *running) ruleKV(i int) hx.KV {
	if i == 0 {
		return anyA()
	}
	return one(1)
}

func (r *running) id(s string) string {
	if s == "" {
		return "unknown"
	}
	return s
}

func (r *running) code(id string, ok int) int {
	if id == "" {
		return 404
	}
	return ok
}

func (r *running) createRule(i int, n int64) {
	want := 201
	if r.rule[i] != "" {
		want = 409
	}
	w := r.send("POST", "/v1/limiter/rules", rule(r.ruleKV(i), &n), want)
	if want == 201 {
		got := &lim.Rule{}
		sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil && got.State != nil && got.State.ID != "", "what the service shows is valid")
		r.rule[i] = got.State.ID
	}
}

func (r *running) createOverride(j int, n int64) {
	want := 201
	if r.override[j] != "" {
		want = 409
	}
	if r.rule[0] == "" {
		want = 404
	}
	w := r.send("POST", "/v1/limiter/rules/"+r.id(r.rule[0])+"/overrides", over(one(j+1), &n), want)
	if want == 201 {
		got := &lim.Override{}
		sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil && got.State.ID != "", "what the service shows is valid")
		r.override[j] = got.State.ID
	}
}

func (r *running) add(j int, n int64) {
	w := serve(r.mux, context.Background(), "PUT", "/v1/limiter/counters", count(one(j+1), &n))
	sym.Quiesce()
	r.check(w, 200, 409)
	if w.Code() == 200 {
		r.count[j] = max(r.count[j]+n, 0)
	}
}

func (r *running) step() {
	i := 0
	switch op := sym.Choose("operation", 14); op {
	case 0:
		r.createRule(sym.Choose("rule", 2), int64(sym.Choose("limit", 3)-1))
	case 1:
		i = sym.Choose("rule", 2)
		n := int64(sym.Choose("limit", 3) - 1)
		r.send("PUT", "/v1/limiter/rules/"+r.id(r.rule[i]), &lim.RuleProperties{Limit: &n}, r.code(r.rule[i], 200))
	case 2:
		i = sym.Choose("rule", 2)
		r.send("DELETE", "/v1/limiter/rules/"+r.id(r.rule[i]), nil, 204, r.code(r.rule[i], 204))
		r.rule[i] = ""
		if i == 0 {
			r.override = [2]string{}
		}
	case 3:
		i = sym.Choose("rule", 2)
		w := r.send("GET", "/v1/limiter/rules/"+r.id(r.rule[i]), nil, r.code(r.rule[i], 200))
		if w.Code() == 200 {
			got := &lim.Rule{}
			sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil && got.State != nil && got.State.ID == r.rule[i], "what the service shows is valid")
		}
	case 4, 5:
		path, q := "/v1/limiter/rules/query", any(&qa.AssociatedActionQuery{})
		if op == 5 {
			path, q = "/v1/limiter/rules/match", matchKey(one(1))
		}
		w := r.send("GET", path, q, 200)
		var got lim.Rules
		sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
		n := 0
		for _, id := range r.rule {
			if id != "" {
				n++
			}
		}
		sym.Assert(len(got) == n, "every rule is shown")
	case 6:
		r.createOverride(sym.Choose("override", 2), int64(sym.Choose("limit", 3)-1))
	case 7, 8, 9:
		j := sym.Choose("override", 2)
		path := "/v1/limiter/rules/" + r.id(r.rule[0]) + "/overrides/" + r.id(r.override[j])
		id := r.override[j]
		switch op {
		case 7:
			n := int64(sym.Choose("limit", 3) - 1)
			r.send("PUT", path, &lim.OverrideProperties{Limit: &n}, r.code(id, 200))
		case 8:
			r.send("DELETE", path, nil, 204, r.code(id, 204))
			r.override[j] = ""
		default:
			w := r.send("GET", path, nil, r.code(id, 200))
			if w.Code() == 200 {
				got := &lim.Override{}
				sym.Assert(json.Unmarshal(w.Body, got) == nil && got.Validate() == nil && got.State.ID == id, "what the service shows is valid")
			}
		}
	case 10:
		path, q := "/v1/limiter/rules/"+r.id(r.rule[0])+"/overrides/query", any(&qa.AssociatedActionQuery{})
		if sym.Bool("match") {
			path, q = "/v1/limiter/rules/"+r.id(r.rule[0])+"/overrides/match", matchKey(one(1))
		}
		w := r.send("GET", path, q, r.code(r.rule[0], 200))
		if w.Code() == 200 {
			var got lim.Overrides
			sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
		}
	case 11:
		r.add(sym.Choose("counter", 2), int64(1-2*sym.Choose("down", 2)))
	case 12:
		j := sym.Choose("counter", 2)
		n := int64(sym.Choose("to", 3) - 1)
		r.send("PUT", "/v1/limiter/counters/set", count(one(j+1), &n), 200)
		r.count[j] = max(n, 0)
	default:
		w := r.send("GET", "/v1/limiter/counters/query", &qa.AssociatedActionQuery{}, 200)
		var got lim.Counters
		sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
		n := 0
		for _, c := range r.count {
			if c > 0 {
				n++
			}
		}
		sym.Assert(len(got) == n, "every counter is shown")
	}
	// whatever was asked, no lock is left behind
	left := serve(r.lockMux(), context.Background(), "GET", "/v1/locks", &qa.AssociatedActionQuery{})
	var locks loc.Locks
	sym.Assert(left.Code() == 200 && json.Unmarshal(left.Body, &locks) == nil && len(locks) == 0, "a request leaves no locks behind")
}

func (r *running) lockMux() *urlrouter.Router {
	mux := urlrouter.New()
	t := 30 * time.Second
	locrouter.AddV1LockerRoutes(zap.NewNop(), mux, lochandlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &t}, r.k))
	return mux
}

// CheckRunningLimiter: whatever is asked, the limiter behind its API, with a locker service behind its own,
// answers and goes on.
//
// verif: devs=0 maporder=insertion
func CheckRunningLimiter() {
	r := newRunning()
	state := sym.Choose("state", 4)
	if state > 0 {
		r.createRule(0, 1)
	}
	if state > 1 {
		r.createOverride(0, 2)
	}
	if state > 2 {
		r.add(0, 1)
	}
	for i, n := 0, sym.Bound("requests", 2, 3); i < n; i++ {
		r.step()
	}
	sym.Reach("end")
}

//go:build verif

// Package c33: what the HTTP APIs of the three services answer.
package c33

import (
	"context"
	"encoding/json"
	"net/http"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	wil "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// call is what a service was asked.
type call struct {
	op   string
	args []string
	body any
}

// service answers every call the way the harness says.
type service struct {
	calls []call
	err   *errors.ServerError
	reply any
}

func (s *service) took(op string, body any, args ...string) *errors.ServerError {
	s.calls = append(s.calls, call{op, args, body})
	return s.err
}

// endpoint is one operation of an API.
type endpoint struct {
	method, path string
	op           string
	args         []string
	body         any            // a well-formed request
	bad          any            // one that is not
	same         func(any) bool // whether the service received the request
	ok           int            // the answer when the service agrees
	reply        any            // what the service returns then
	shows        func([]byte) bool
	certain      bool // the service has no errors for it
}

// codes are the errors a service can return
var codes = []int{400, 404, 409, 500, 503}

// ask sends one request, in every way it can arrive, and checks the answer.
func ask(mux http.Handler, s *service, e endpoint) *hxh.Recorder {
	const (
		fine = iota
		noType
		noText
		wrong
	)
	kinds := 2
	if e.body != nil {
		kinds = 4
	}
	kind := sym.Choose("request", kinds)
	if !e.certain && sym.Bool("the service refuses") {
		s.err = &errors.ServerError{StatusCode: codes[sym.Choose("code", len(codes))], Message: "refused"}
	}
	s.reply = e.reply

	var body []byte
	switch {
	case kind == noText:
		body = [][]byte{nil, []byte("{"), []byte(`"text"`)}[sym.Choose("text", 3)]
	case kind == wrong:
		body = hxh.Body(e.bad)
	case e.body != nil:
		body = hxh.Body(e.body)
	}
	w := hxh.NewRecorder()
	w.Fail = sym.Bool("the client is gone")
	mux.ServeHTTP(w, hxh.Request(context.Background(), e.method, e.path, body, kind != noType))

	sym.Assert(len(w.Status) == 1, "every request gets exactly one answer")
	sym.Assert(w.Writes <= 1, "an answer has one body")
	if kind != fine {
		sym.Assert(w.Code() == http.StatusBadRequest, "a request that cannot be understood is answered with 400")
		sym.Assert(len(s.calls) == 0, "a request that cannot be understood changes nothing")
		said(w)
		return w
	}
	sym.Assert(len(s.calls) >= 1, "a request reaches the service")
	c := s.calls[0]
	ok := c.op == e.op && len(c.args) == len(e.args)
	for i := range e.args {
		ok = ok && c.args[i] == e.args[i]
	}
	sym.Assert(ok, "a request reaches the operation and the object it names")
	if e.same != nil {
		sym.Assert(e.same(c.body), "the service receives what was sent")
	}
	if s.err != nil {
		sym.Assert(w.Code() == s.err.StatusCode, "an error of the service is answered with its status")
		said(w)
		return w
	}
	sym.Assert(w.Code() == e.ok, "success is answered with the documented status")
	if e.shows != nil && !w.Fail {
		sym.Assert(e.shows(w.Body), "an answer shows what the service returned")
	}
	return w
}

// said checks that an error comes with an explanation
func said(w *hxh.Recorder) {
	if w.Fail {
		return
	}
	var e errors.Error
	err := json.Unmarshal(w.Body, &e)
	sym.Assert(err == nil && e.Message != "", "an error comes with an explanation")
}

func once(s *service) {
	sym.Assert(len(s.calls) <= 1, "a request is carried out once")
}

// ---- models ----

func ptr[T any](x T) *T { return &x }

func key() hx.KV {
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.IntKey(sym.IntRange("key", 0, 3))
	return kv
}

func selectKey(kv hx.KV) *qa.AssociatedActionQuery {
	return &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{"a": {Value: kv.Val[0].EV, Comparison: v1.Equals, TypeRestrictions: hx.FullRange}}}}
}

func isSelect(kv hx.KV) func(any) bool {
	return func(x any) bool {
		q, ok := x.(*qa.AssociatedActionQuery)
		if !ok || q == nil || q.Selection == nil || len(q.Selection.KeyValues) != 1 || len(q.And)+len(q.Or) != 0 {
			return false
		}
		v, ok := q.Selection.KeyValues["a"]
		return ok && v.Comparison == v1.Equals && hx.SameEV(v.Value, kv.Val[0])
	}
}

func badQuery() *qa.AssociatedActionQuery {
	return &qa.AssociatedActionQuery{Selection: &qa.Selection{}}
}

func matchKey(kv hx.KV) *qm.MatchActionQuery {
	return &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{"a": {Value: kv.Val[0].EV, TypeRestrictions: hx.FullRange}}}
}

func isMatch(kv hx.KV) func(any) bool {
	return func(x any) bool {
		q, ok := x.(*qm.MatchActionQuery)
		if !ok || q == nil || len(q.KeyValues) != 1 {
			return false
		}
		v, ok := q.KeyValues["a"]
		return ok && hx.SameEV(v.Value, kv.Val[0])
	}
}

func typed(kv hx.KV) dt.TypedKeyValues { return dt.TypedKeyValues(kv.Map()) }
func anys(kv hx.KV) dt.AnyKeyValues    { return dt.AnyKeyValues(kv.Map()) }

var none = hx.KV{}

func rule(kv hx.KV, limit *int64) *lim.Rule {
	return &lim.Rule{Spec: &lim.RuleSpec{DBDefinition: &lim.RuleDBDefinition{GroupByKeyValues: anys(kv)}, Properties: &lim.RuleProperties{Limit: limit}}}
}

func isRule(r *lim.Rule, kv hx.KV, limit int64) bool {
	return r != nil && r.Spec != nil && r.Spec.DBDefinition != nil && r.Spec.Properties != nil && r.Spec.Properties.Limit != nil &&
		sym.And(kv.IsKV(dt.KeyValues(r.Spec.DBDefinition.GroupByKeyValues)), *r.Spec.Properties.Limit == limit)
}

func over(kv hx.KV, limit *int64) *lim.Override {
	return &lim.Override{Spec: &lim.OverrideSpec{DBDefinition: &lim.OverrideDBDefinition{GroupByKeyValues: anys(kv)}, Properties: &lim.OverrideProperties{Limit: limit}}}
}

func isOver(r *lim.Override, kv hx.KV, limit int64) bool {
	return r != nil && r.Spec != nil && r.Spec.DBDefinition != nil && r.Spec.Properties != nil && r.Spec.Properties.Limit != nil &&
		sym.And(kv.IsKV(dt.KeyValues(r.Spec.DBDefinition.GroupByKeyValues)), *r.Spec.Properties.Limit == limit)
}

func count(kv hx.KV, n *int64) *lim.Counter {
	return &lim.Counter{Spec: &lim.CounterSpec{DBDefinition: &lim.CounterDBDefinition{KeyValues: typed(kv)}, Properties: &lim.CounteProperties{Counters: n}}}
}

func isCount(r *lim.Counter, kv hx.KV, n int64) bool {
	return r != nil && r.Spec != nil && r.Spec.DBDefinition != nil && r.Spec.Properties != nil && r.Spec.Properties.Counters != nil &&
		sym.And(kv.IsKV(dt.KeyValues(r.Spec.DBDefinition.KeyValues)), *r.Spec.Properties.Counters == n)
}

func lock(kv hx.KV, t *time.Duration) *loc.Lock {
	l := &loc.Lock{Spec: &loc.LockSpec{DBDefinition: &loc.LockDBDefinition{KeyValues: typed(kv)}}}
	if t != nil {
		l.Spec.Properties = &loc.LockProperties{Timeout: t}
	}
	return l
}

func isLock(l *loc.Lock, kv hx.KV, t time.Duration) bool {
	return l != nil && l.Spec != nil && l.Spec.DBDefinition != nil && l.Spec.Properties != nil && l.Spec.Properties.Timeout != nil &&
		sym.And(kv.IsKV(dt.KeyValues(l.Spec.DBDefinition.KeyValues)), *l.Spec.Properties.Timeout == t)
}

func queue(name *string, max *int64) *wil.Queue {
	return &wil.Queue{Spec: &wil.QueueSpec{DBDefinition: &wil.QueueDBDefinition{Name: name}, Properties: &wil.QueueProperties{MaxItems: max}}}
}

func isQueue(q *wil.Queue, max int64) bool {
	return q != nil && q.Spec != nil && q.Spec.DBDefinition != nil && q.Spec.DBDefinition.Name != nil && *q.Spec.DBDefinition.Name == "q" &&
		q.Spec.Properties != nil && q.Spec.Properties.MaxItems != nil && *q.Spec.Properties.MaxItems == max
}

func item(kv hx.KV, data byte, t *time.Duration) *wil.Item {
	return &wil.Item{Spec: &wil.ItemSpec{DBDefinition: &wil.ItemDBDefinition{KeyValues: typed(kv)},
		Properties: &wil.ItemProperties{Data: []byte{data}, Updateable: ptr(true), RetryAttempts: ptr(uint64(1)), RetryPosition: ptr("front"), TimeoutDuration: t}}}
}

func isItem(i *wil.Item, kv hx.KV, data byte) bool {
	return i != nil && i.Spec != nil && i.Spec.DBDefinition != nil && i.Spec.Properties != nil && len(i.Spec.Properties.Data) == 1 &&
		sym.And(kv.IsKV(dt.KeyValues(i.Spec.DBDefinition.KeyValues)), i.Spec.Properties.Data[0] == data)
}

// serve runs one request with a body
func serve(mux http.Handler, ctx context.Context, method, path string, body any) *hxh.Recorder {
	var b []byte
	if body != nil {
		b = hxh.Body(body)
	}
	return hxh.Serve(mux, ctx, method, path, b)
}

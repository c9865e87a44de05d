//go:build verif

// Package hxk drives the lock manager.
package hxk

import (
	"context"
	"net/http"
	"time"

	"github.com/DanLavine/willow/internal/locker/lock_manager"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

// Second is the unit timeouts are given in.
const Second = time.Second

// Locker is a running lock manager.
type Locker struct {
	lockmanager.ExcluiveLocker
	Ctx      context.Context
	Shutdown func()
	Stopped  chan bool
	Sessions []string
	Twice    bool // a session id was issued twice
}

// New starts a lock manager as the service does.
func New() *Locker {
	m := lockmanager.NewExclusiveLocker()
	ctx, cancel := context.WithCancel(context.Background())
	l := &Locker{ExcluiveLocker: m, Ctx: hxl.Ctx(), Shutdown: cancel, Stopped: make(chan bool, 1)}
	go func() {
		m.Execute(ctx)
		l.Stopped <- true
	}()
	sym.Quiesce()
	return l
}

// Client is one request for a lock.
type Client struct {
	l      *Locker
	KV     hx.KV
	ID     string
	Sess   string
	T      time.Duration
	Leave  func()
	Gone   bool  // the client disconnected
	Back   bool  // the request returned
	Got    bool  // it was granted
	Over   bool  // the client gave the lock back
	Since  int64 // no earlier than this the lock was granted, or the last heartbeat accepted
	At     int64 // when the grant or the last accepted heartbeat was answered
	Holder *Holder
}

// Holder is who holds a key-value set, by the clients' own account.
type Holder struct {
	C     *Client
	Clash bool // two clients held it at once
}

// Request is a lock request.
func Request(kv hx.KV, t time.Duration) *loc.Lock {
	r := hxl.LockOf(kv)
	r.Spec.Properties = &loc.LockProperties{Timeout: &t}
	return r
}

// Client prepares a request for the set.
func (l *Locker) Client(h *Holder, kv hx.KV, t time.Duration) *Client {
	return &Client{l: l, KV: kv, T: t, Holder: h}
}

// Obtain makes the request and waits for its answer.
func (c *Client) Obtain() bool {
	ctx, cancel := context.WithCancel(c.l.Ctx)
	c.Leave = func() { c.Gone = true; cancel() }
	return c.obtain(ctx)
}

// Go makes the request in the background.
func (c *Client) Go() *Client {
	ctx, cancel := context.WithCancel(c.l.Ctx)
	c.Leave = func() { c.Gone = true; cancel() }
	go c.obtain(ctx)
	return c
}

func (c *Client) obtain(ctx context.Context) bool {
	c.Since = sym.Now()
	got := c.l.ObtainLock(ctx, Request(c.KV, c.T))
	if c.Back = true; got == nil {
		return false
	}
	sym.Assert(got.State != nil && got.State.SessionID != "" && got.State.LockID != "", "a grant names the lock and its session")
	sym.Assert(got.Spec != nil && got.Spec.DBDefinition != nil && c.KV.IsKV(got.Spec.DBDefinition.KeyValues), "a grant is for the set that was asked for")
	for _, s := range c.l.Sessions {
		if s == got.State.SessionID {
			c.l.Twice = true
		}
	}
	c.l.Sessions = append(c.l.Sessions, got.State.SessionID)
	c.ID, c.Sess, c.Got = got.State.LockID, got.State.SessionID, true
	c.At = sym.Now()
	if c.Holder != nil {
		if h := c.Holder.C; h != nil && sym.Now() < h.Since+int64(h.T) {
			c.Holder.Clash = true
		}
		c.Holder.C = c
	}
	return true
}

// Holds tells whether the client was granted the lock and has not given it back.
func (c *Client) Holds() bool { return c.Got && !c.Over }

// Release gives the lock back.
func (c *Client) Release() *errors.ServerError {
	if c.Over = true; c.Holder != nil && c.Holder.C == c {
		c.Holder.C = nil
	}
	return c.l.Release(c.l.Ctx, c.ID, &loc.LockClaim{SessionID: c.Sess})
}

// Beat sends a heartbeat.
func (c *Client) Beat() *errors.ServerError {
	now := sym.Now()
	err := c.l.Heartbeat(c.l.Ctx, c.ID, &loc.LockClaim{SessionID: c.Sess})
	if err == nil {
		c.Since, c.At = now, sym.Now()
	}
	return err
}

// Lapse notes that the client's lock ran out.
func (c *Client) Lapse() {
	if c.Over = true; c.Holder != nil && c.Holder.C == c {
		c.Holder.C = nil
	}
}

// List is every lock the manager lists.
func (l *Locker) List() loc.Locks {
	return l.LocksQuery(l.Ctx, &qa.AssociatedActionQuery{})
}

// Find is the listing's entry for the set (nil when there is none) and the number of them.
func (l *Locker) Find(kv hx.KV) (*loc.Lock, int) {
	var f *loc.Lock
	n := 0
	for _, x := range l.List() {
		if kv.IsKV(x.Spec.DBDefinition.KeyValues) {
			f = x
			n++
		}
	}
	return f, n
}

// Listed checks the listing's entry for the set: there when clients hold or wait for it, counting them, with the
// session of the holder.
func (l *Locker) Listed(kv hx.KV, clients int, holder *Client, what string) {
	e, n := l.Find(kv)
	if clients == 0 {
		sym.Assert(n == 0, "a lock nobody holds or waits for is not listed ("+what+")")
		return
	}
	sym.Assert(n == 1, "a lock that is held or waited for is listed once ("+what+")")
	sym.Assert(e.State.LocksHeldOrWaiting == uint64(clients), "the listing counts the holder and those who wait ("+what+")")
	if holder != nil {
		sym.Assert(e.State.SessionID == holder.Sess && e.State.LockID == holder.ID, "the listing shows the holder's session ("+what+")")
	}
}

// Fresh checks that the set can be obtained at once, and gives it back.
func (l *Locker) Fresh(kv hx.KV) {
	c := l.Client(nil, kv, 1000*Second).Go()
	sym.Quiesce()
	sym.Assert(c.Back && c.Got, "a lock nobody holds can be obtained at once")
	sym.Assert(c.Release() == nil, "the holder can release")
	sym.Quiesce()
}

// Conflict, NotFound tell what a refusal was.
func Conflict(e *errors.ServerError) bool { return e != nil && e.StatusCode == http.StatusConflict }
func NotFound(e *errors.ServerError) bool { return e != nil && e.StatusCode == http.StatusNotFound }

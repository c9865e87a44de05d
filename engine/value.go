package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one slot. Scalars: P==nil means the concrete bits are in N, P=*Term means symbolic.
// Pointers: P=*Object with N the slot offset. Everything else: P holds a pointer to the representation,
// P==nil being the zero value.
type Value struct {
	P any
	N uint64
}

// Object is an allocation: a flat array of slots.
type Object struct {
	s    []Value
	init bool // created during package initialisation: writes are undone after each path
	id   int32
	t    *RType
	// data race / sharing information
	own   int32
	multi bool
}

type Str struct {
	s   string
	b   []*Term // symbolic bytes (len(b) = length) when non-nil
	tok *Tok    // formatted number whose digits are not expanded
}

// Tok stands for the canonical text of a number. The text itself is never expanded: the formatting
// functions are injective and Parse is their inverse.
type Tok struct {
	kind byte // 'i' signed, 'u' unsigned, 'f' float32, 'F' float64, 'o' opaque
	t    *Term
	w    uint8
	id   int
}

type SliceV struct {
	o   *Object
	off int
	len int
	cap int
}

type IfaceV struct {
	t *RType
	v Value
}

type Agg struct{ f []Value } // struct/array values (flattened) and tuples (per component)

type Closure struct {
	fn   *ssa.Function
	cf   *cfn
	bind []Value
	// bound native behaviour
	native func(m *Machine, g *Gor, args []Value) (Value, status)
	id     int32
}

type MapObj struct {
	kt, vt *RType
	keys   []Value
	vals   []Value
	dead   []bool
	live   int
	idx    map[uint64]int
	sidx   map[string]int
	sym    int // number of live entries with symbolic key
	init   bool
	saved  bool
	id     int32
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     *RType
	init   bool
	saved  bool
	id     int32
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KUint
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KUnsafe
	KComplex
)

type RType struct {
	t      types.Type
	id     int32
	kind   Kind
	w      uint8 // scalar width, 0 = bool
	size   int   // number of slots
	elem   *RType
	key    *RType
	n      int // array length
	fields []*RType
	offs   []int
	named  *types.Named
	str    string

	mu      sync.Mutex
	methods map[string]*ssa.Function
	impl    map[*RType]bool
}

var (
	rtMu   sync.Mutex
	rtMap  typeutil.Map
	rtNext int32
	rtFast sync.Map // types.Type -> *RType
)

func rtypeOf(t types.Type) *RType {
	if r, ok := rtFast.Load(t); ok {
		return r.(*RType)
	}
	rtMu.Lock()
	r := rtypeLocked(t)
	rtMu.Unlock()
	rtFast.Store(t, r)
	return r
}

func rtypeLocked(t types.Type) *RType {
	if r := rtMap.At(t); r != nil {
		return r.(*RType)
	}
	rtNext++
	r := &RType{t: t, id: rtNext, size: 1}
	rtMap.Set(t, r)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		r.named = n
	}
	r.str = types.TypeString(t, nil)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind, r.w = KBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w = KInt, 64
		case types.Int8:
			r.kind, r.w = KInt, 8
		case types.Int16:
			r.kind, r.w = KInt, 16
		case types.Int32, types.UntypedRune:
			r.kind, r.w = KInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = KUint, 64
		case types.Uint8:
			r.kind, r.w = KUint, 8
		case types.Uint16:
			r.kind, r.w = KUint, 16
		case types.Uint32:
			r.kind, r.w = KUint, 32
		case types.Float32:
			r.kind, r.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = KFloat, 64
		case types.String, types.UntypedString:
			r.kind = KString
		case types.UnsafePointer:
			r.kind = KUnsafe
		case types.UntypedNil:
			r.kind = KPtr
		default:
			r.kind = KComplex
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = rtypeLocked(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = rtypeLocked(u.Elem())
	case *types.Map:
		r.kind = KMap
		r.key = rtypeLocked(u.Key())
		r.elem = rtypeLocked(u.Elem())
	case *types.Chan:
		r.kind = KChan
		r.elem = rtypeLocked(u.Elem())
	case *types.Signature:
		r.kind = KFunc
	case *types.Interface:
		r.kind = KIface
	case *types.Array:
		r.kind = KArray
		r.n = int(u.Len())
		r.elem = rtypeLocked(u.Elem())
		r.size = r.n * r.elem.size
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := rtypeLocked(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.offs = append(r.offs, off)
			off += f.size
		}
		r.size = off
	case *types.Tuple:
		r.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, rtypeLocked(u.At(i).Type()))
		}
		r.size = 1
	default:
		r.kind = KUnsafe
	}
	return r
}

func (r *RType) scalar() bool { return r.kind <= KFloat }

func (r *RType) agg() bool { return r.kind == KStruct || r.kind == KArray }

var byteRT = rtypeOf(types.Typ[types.Uint8])
var strRT = rtypeOf(types.Typ[types.String])
var intRT = rtypeOf(types.Typ[types.Int])
var boolRT = rtypeOf(types.Typ[types.Bool])

// unsupportedErr ends a path as inconclusive.
type unsupportedErr struct{ what string }

func unsupported(f string, a ...any) unsupportedErr {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	return unsupportedErr{f}
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: &Str{s: s}}
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func intV(i int64) Value { return Value{N: uint64(i)} }

func zeroOf(t *RType) Value {
	if t.agg() {
		return Value{P: &Agg{f: make([]Value, t.size)}}
	}
	if t.kind == KTuple {
		f := make([]Value, len(t.fields))
		for i, ft := range t.fields {
			f[i] = zeroOf(ft)
		}
		return Value{P: &Agg{f: f}}
	}
	return Value{}
}

func strLen(v Value) int {
	if v.P == nil {
		return 0
	}
	s := v.P.(*Str)
	if s.tok != nil {
		panic(unsupported("length of an unexpanded formatted number"))
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

// concStr returns the concrete text of a string value.
func concStr(v Value) (string, bool) {
	if v.P == nil {
		return "", true
	}
	s := v.P.(*Str)
	if s.tok != nil || s.b != nil {
		return "", false
	}
	return s.s, true
}

func (b *Builder) strBytes(v Value) []*Term {
	if v.P == nil {
		return nil
	}
	s := v.P.(*Str)
	if s.tok != nil {
		panic(unsupported("bytes of an unexpanded formatted number"))
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = b.Const(8, uint64(s.s[i]))
	}
	return r
}

func (b *Builder) strFromBytes(bs []*Term) Value {
	if len(bs) == 0 {
		return Value{}
	}
	buf := make([]byte, len(bs))
	for i, t := range bs {
		if t.op != OConst {
			return Value{P: &Str{b: bs}}
		}
		buf[i] = byte(t.c)
	}
	return Value{P: &Str{s: string(buf)}}
}

func termV(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.c}
	}
	return Value{P: t}
}

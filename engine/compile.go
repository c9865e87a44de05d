package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	opNop opcode = iota
	opAlloc
	opBin
	opLoad
	opNot
	opNeg
	opXor
	opRecv
	opCall
	opCopy
	opConvert
	opDefer
	opExtract
	opField
	opFieldAddr
	opGo
	opIf
	opIndex
	opIndexAddr
	opJump
	opLookup
	opMakeChan
	opMakeClosure
	opMakeIface
	opMakeMap
	opMakeSlice
	opMapUpdate
	opNext
	opPanic
	opRange
	opReturn
	opRunDefers
	opSelect
	opSend
	opSlice
	opStore
	opTypeAssert
	opSliceToArr
	opUnsupported
)

type move struct{ dst, src int32 }

type cinstr struct {
	op      opcode
	w       uint8
	flag    bool
	commaOk bool
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	t, t2   *RType
	n       int
	tok     token.Token
	sub     []selState
	call    *callInfo
	succ    [2]*cblock
	mv      [2][]move
	src     ssa.Instruction
	racy    bool
	what    string
}

type selState struct {
	send bool
	ch   int32
	val  int32
	t    *RType
}

type callInfo struct {
	static  *ssa.Function
	cf      *cfn
	intr    intrinsic
	builtin string
	fnv     int32 // operand for dynamic
	invoke  *types.Func
	mname   string
	sig     *types.Signature
	argT    []*RType
	resT    *RType
}

type cblock struct {
	idx    int
	instrs []cinstr
}

type cfn struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	nfree   int
	blocks  []*cblock
	recover *cblock
	consts  []Value
	globals []*ssa.Global // operand index for globals: consts with P=*globalRef
	resT    *RType
	ready   bool
	mu      sync.Mutex
	err     string
	willow  bool
	intr    intrinsic
	intrOK  bool
}

type globalRef struct{ g *ssa.Global }

var cfnTab sync.Map // *ssa.Function -> *cfn

func getCfn(fn *ssa.Function) *cfn {
	if c, ok := cfnTab.Load(fn); ok {
		return c.(*cfn)
	}
	if r := redirectOf(fn); r != nil {
		c := getCfn(r)
		act, _ := cfnTab.LoadOrStore(fn, c)
		return act.(*cfn)
	}
	c := &cfn{fn: fn, name: fn.String()}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		c.willow = true
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil && strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), modPath) {
		c.willow = true
	}
	c.intr = findIntrinsic(fn)
	act, _ := cfnTab.LoadOrStore(fn, c)
	return act.(*cfn)
}

func (c *cfn) compile() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.ready {
		return
	}
	defer func() { c.ready = true }()
	fn := c.fn
	if len(fn.Blocks) == 0 {
		c.err = "function without a body: " + c.name
		return
	}
	cc := &compiler{c: c, regs: map[ssa.Value]int32{}, consts: map[string]int32{}, blocks: map[*ssa.BasicBlock]*cblock{}}
	for _, p := range fn.Params {
		cc.reg(p)
	}
	c.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		cc.reg(p)
	}
	c.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index}
		cc.blocks[b] = cb
		c.blocks = append(c.blocks, cb)
	}
	for _, b := range fn.Blocks {
		cc.block(b)
	}
	if fn.Recover != nil {
		c.recover = cc.blocks[fn.Recover]
		if c.recover == nil {
			cb := &cblock{idx: fn.Recover.Index}
			cc.blocks[fn.Recover] = cb
			cc.block(fn.Recover)
			c.recover = cb
		}
	}
	c.nregs = int(cc.next)
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		c.resT = rtypeOf(res.At(0).Type())
	default:
		c.resT = rtypeOf(res)
	}
}

type compiler struct {
	c      *cfn
	regs   map[ssa.Value]int32
	consts map[string]int32
	blocks map[*ssa.BasicBlock]*cblock
	next   int32
}

func (cc *compiler) reg(v ssa.Value) int32 {
	if r, ok := cc.regs[v]; ok {
		return r
	}
	r := cc.next
	cc.next++
	cc.regs[v] = r
	return r
}

func (cc *compiler) addConst(key string, v Value) int32 {
	if i, ok := cc.consts[key]; ok {
		return i
	}
	cc.c.consts = append(cc.c.consts, v)
	i := -int32(len(cc.c.consts))
	cc.consts[key] = i
	return i
}

func constValue(c *ssa.Const) Value {
	t := rtypeOf(c.Type())
	if c.Value == nil {
		return zeroOf(t)
	}
	switch t.kind {
	case KBool:
		return boolV(constant.BoolVal(c.Value))
	case KInt, KUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(t.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return Value{N: uint64(math.Float32bits(f32))}
		}
		return Value{N: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return mkStr(string(rune(i)))
	case KUnsafe:
		return Value{}
	}
	panic(fmt.Sprintf("constant %v of type %v", c, c.Type()))
}

func (cc *compiler) operand(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		key := "c:" + v.Type().String() + ":nil"
		if v.Value != nil {
			key = "c:" + v.Type().String() + ":" + v.Value.ExactString()
		}
		if i, ok := cc.consts[key]; ok {
			return i
		}
		t := rtypeOf(v.Type())
		if t.kind == KComplex && v.Value != nil {
			return cc.addConst(key, Value{P: "complex"})
		}
		return cc.addConst(key, constValue(v))
	case *ssa.Global:
		return cc.addConst("g:"+v.String(), Value{P: &globalRef{v}})
	case *ssa.Function:
		return cc.addConst("f:"+v.String()+fmt.Sprintf("%p", v), Value{P: &Closure{fn: v, cf: getCfn(v)}})
	case *ssa.Builtin:
		return cc.addConst("b:"+v.Name(), Value{P: &Closure{}})
	}
	return cc.reg(v)
}

func (cc *compiler) callInfo(cm *ssa.CallCommon) (*callInfo, []int32) {
	ci := &callInfo{sig: cm.Signature()}
	var args []int32
	if cm.IsInvoke() {
		ci.invoke = cm.Method
		ci.mname = cm.Method.Name()
		ci.fnv = cc.operand(cm.Value)
	} else {
		switch f := cm.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = f.Name()
		case *ssa.Function:
			ci.static = f
			ci.cf = getCfn(f)
			ci.intr = ci.cf.intr
		default:
			ci.fnv = cc.operand(cm.Value)
		}
	}
	for _, a := range cm.Args {
		args = append(args, cc.operand(a))
		ci.argT = append(ci.argT, rtypeOf(a.Type()))
	}
	res := cm.Signature().Results()
	if res.Len() == 1 {
		ci.resT = rtypeOf(res.At(0).Type())
	} else if res.Len() > 1 {
		ci.resT = rtypeOf(res)
	}
	return ci, args
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (cc *compiler) block(b *ssa.BasicBlock) {
	cb := cc.blocks[b]
	for _, in := range b.Instrs {
		var ci cinstr
		ci.src = in
		ci.dst = math.MinInt32
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); isPhi {
				cc.reg(v)
				continue
			}
			ci.dst = cc.reg(v)
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Alloc:
			ci.op = opAlloc
			ci.t = rtypeOf(deref(in.Type()))
			ci.flag = in.Heap
		case *ssa.BinOp:
			ci.op = opBin
			ci.tok = in.Op
			ci.a, ci.b = cc.operand(in.X), cc.operand(in.Y)
			ci.t, ci.t2 = rtypeOf(in.X.Type()), rtypeOf(in.Y.Type())
		case *ssa.UnOp:
			ci.a = cc.operand(in.X)
			ci.t = rtypeOf(in.Type())
			switch in.Op {
			case token.MUL:
				ci.op = opLoad
			case token.NOT:
				ci.op = opNot
			case token.SUB:
				ci.op = opNeg
			case token.XOR:
				ci.op = opXor
			case token.ARROW:
				ci.op = opRecv
				ci.commaOk = in.CommaOk
				ci.t = rtypeOf(in.X.Type().Underlying().(*types.Chan).Elem())
			}
		case *ssa.Call:
			ci.op = opCall
			ci.call, ci.args = cc.callInfo(&in.Call)
		case *ssa.ChangeInterface:
			ci.op, ci.a = opCopy, cc.operand(in.X)
		case *ssa.ChangeType:
			ci.op, ci.a = opCopy, cc.operand(in.X)
		case *ssa.Convert:
			ci.op, ci.a = opConvert, cc.operand(in.X)
			ci.t, ci.t2 = rtypeOf(in.X.Type()), rtypeOf(in.Type())
		case *ssa.MultiConvert:
			ci.op, ci.a = opConvert, cc.operand(in.X)
			ci.t, ci.t2 = rtypeOf(in.X.Type()), rtypeOf(in.Type())
		case *ssa.Defer:
			ci.op = opDefer
			ci.call, ci.args = cc.callInfo(&in.Call)
			if in.DeferStack != nil {
				ci.op, ci.what = opUnsupported, "defer in range-over-func body"
			}
		case *ssa.Extract:
			ci.op, ci.a, ci.n = opExtract, cc.operand(in.Tuple), in.Index
		case *ssa.Field:
			ci.op, ci.a = opField, cc.operand(in.X)
			st := rtypeOf(in.X.Type())
			ci.n = st.offs[in.Field]
			ci.t = st.fields[in.Field]
		case *ssa.FieldAddr:
			ci.op, ci.a = opFieldAddr, cc.operand(in.X)
			st := rtypeOf(deref(in.X.Type()))
			ci.n = st.offs[in.Field]
		case *ssa.Go:
			ci.op = opGo
			ci.call, ci.args = cc.callInfo(&in.Call)
		case *ssa.If:
			ci.op, ci.a = opIf, cc.operand(in.Cond)
			for i := 0; i < 2; i++ {
				ci.succ[i] = cc.blocks[b.Succs[i]]
				ci.mv[i] = cc.phis(b, b.Succs[i], i)
			}
		case *ssa.Index:
			ci.op, ci.a, ci.b = opIndex, cc.operand(in.X), cc.operand(in.Index)
			ci.t, ci.t2 = rtypeOf(in.X.Type()), rtypeOf(in.Index.Type())
		case *ssa.IndexAddr:
			ci.op, ci.a, ci.b = opIndexAddr, cc.operand(in.X), cc.operand(in.Index)
			ci.t2 = rtypeOf(in.Index.Type())
			if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				ci.t = rtypeOf(p.Elem())
				ci.flag = true
			} else {
				ci.t = rtypeOf(in.X.Type())
			}
		case *ssa.Jump:
			ci.op = opJump
			ci.succ[0] = cc.blocks[b.Succs[0]]
			ci.mv[0] = cc.phis(b, b.Succs[0], 0)
		case *ssa.Lookup:
			ci.op, ci.a, ci.b = opLookup, cc.operand(in.X), cc.operand(in.Index)
			ci.t, ci.t2 = rtypeOf(in.X.Type()), rtypeOf(in.Index.Type())
			ci.commaOk = in.CommaOk
		case *ssa.MakeChan:
			ci.op, ci.a, ci.t = opMakeChan, cc.operand(in.Size), rtypeOf(in.Type())
		case *ssa.MakeClosure:
			ci.op = opMakeClosure
			ci.call = &callInfo{static: in.Fn.(*ssa.Function), cf: getCfn(in.Fn.(*ssa.Function))}
			for _, x := range in.Bindings {
				ci.args = append(ci.args, cc.operand(x))
			}
		case *ssa.MakeInterface:
			ci.op, ci.a, ci.t = opMakeIface, cc.operand(in.X), rtypeOf(in.X.Type())
		case *ssa.MakeMap:
			ci.op, ci.t = opMakeMap, rtypeOf(in.Type())
		case *ssa.MakeSlice:
			ci.op, ci.a, ci.b, ci.t = opMakeSlice, cc.operand(in.Len), cc.operand(in.Cap), rtypeOf(in.Type())
		case *ssa.MapUpdate:
			ci.op, ci.a, ci.b, ci.c = opMapUpdate, cc.operand(in.Map), cc.operand(in.Key), cc.operand(in.Value)
			ci.t = rtypeOf(in.Map.Type())
		case *ssa.Next:
			ci.op, ci.a, ci.flag = opNext, cc.operand(in.Iter), in.IsString
			ci.t = rtypeOf(in.Type())
		case *ssa.Panic:
			ci.op, ci.a = opPanic, cc.operand(in.X)
		case *ssa.Range:
			ci.op, ci.a, ci.t = opRange, cc.operand(in.X), rtypeOf(in.X.Type())
		case *ssa.Return:
			ci.op = opReturn
			for _, x := range in.Results {
				ci.args = append(ci.args, cc.operand(x))
			}
		case *ssa.RunDefers:
			ci.op = opRunDefers
		case *ssa.Select:
			ci.op = opSelect
			ci.flag = in.Blocking
			for _, s := range in.States {
				st := selState{send: s.Dir == types.SendOnly, ch: cc.operand(s.Chan), val: math.MinInt32, t: rtypeOf(s.Chan.Type().Underlying().(*types.Chan).Elem())}
				if s.Send != nil {
					st.val = cc.operand(s.Send)
				}
				ci.sub = append(ci.sub, st)
			}
			ci.t = rtypeOf(in.Type())
		case *ssa.Send:
			ci.op, ci.a, ci.b = opSend, cc.operand(in.Chan), cc.operand(in.X)
		case *ssa.Slice:
			ci.op, ci.a = opSlice, cc.operand(in.X)
			ci.b, ci.c, ci.d = math.MinInt32, math.MinInt32, math.MinInt32
			if in.Low != nil {
				ci.b = cc.operand(in.Low)
			}
			if in.High != nil {
				ci.c = cc.operand(in.High)
			}
			if in.Max != nil {
				ci.d = cc.operand(in.Max)
			}
			if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				ci.t = rtypeOf(p.Elem())
				ci.flag = true
			} else {
				ci.t = rtypeOf(in.X.Type())
			}
		case *ssa.SliceToArrayPointer:
			ci.op, ci.a = opSliceToArr, cc.operand(in.X)
			ci.t = rtypeOf(deref(in.Type()))
		case *ssa.Store:
			ci.op, ci.a, ci.b = opStore, cc.operand(in.Addr), cc.operand(in.Val)
			ci.t = rtypeOf(in.Val.Type())
		case *ssa.TypeAssert:
			ci.op, ci.a, ci.t = opTypeAssert, cc.operand(in.X), rtypeOf(in.AssertedType)
			ci.t2 = rtypeOf(in.X.Type())
			ci.commaOk = in.CommaOk
		default:
			ci.op, ci.what = opUnsupported, fmt.Sprintf("instruction %T", in)
		}
		cb.instrs = append(cb.instrs, ci)
	}
}

// phis lists the register moves of the edge b -> s. succIdx tells apart duplicate edges.
func (cc *compiler) phis(b, s *ssa.BasicBlock, succIdx int) []move {
	pred := -1
	seen := 0
	dup := 0
	for i := 0; i < succIdx; i++ {
		if b.Succs[i] == s {
			dup++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if seen == dup {
				pred = i
				break
			}
			seen++
		}
	}
	var mv []move
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, move{cc.reg(phi), cc.operand(phi.Edges[pred])})
	}
	return mv
}

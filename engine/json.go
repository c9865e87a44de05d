package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JSON is modelled as the identity: Marshal keeps a snapshot of the value and returns bytes that name it,
// Unmarshal of such bytes copies the snapshot into the target, matching struct fields by their JSON names.
// What the real text looks like is the business of the encoding properties, not of this model.

type jsonVal struct {
	t *RType
	v []Value // t.size slots
}

const jsonMark = "\x01json#"

func (m *Machine) jsonErr(msg string) Value {
	t := rtypeOf(m.prog.allPkgs["errors"].Type("errorString").Type())
	o := m.newObj(t.size, t)
	o.s[0] = mkStr(msg)
	return Value{P: &IfaceV{t: rtypeOf(types.NewPointer(t.t)), v: Value{P: o}}}
}

func jsonName(st *types.Struct, i int) (string, bool) {
	f := st.Field(i)
	if !f.Exported() {
		return "", false
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n, _, _ := strings.Cut(tag, ",")
	if n == "-" {
		return "", false
	}
	if n == "" {
		n = f.Name()
	}
	return n, true
}

// jsonCopy copies the value src (of type st) into dst (of type dt); both have their type's slots.
func (m *Machine) jsonCopy(src []Value, st *RType, dst []Value, dt *RType, opts func(*RType) bool) string {
	for st.kind == KPtr && dt.kind != KPtr {
		if src[0].P == nil {
			return ""
		}
		o := src[0].P.(*Object)
		src, st = o.s[src[0].N:int(src[0].N)+st.elem.size], st.elem
	}
	if dt.kind == KPtr {
		if st.kind == KPtr {
			if src[0].P == nil {
				dst[0] = Value{}
				return ""
			}
			o := src[0].P.(*Object)
			src, st = o.s[src[0].N:int(src[0].N)+st.elem.size], st.elem
		}
		o := m.newObj(dt.elem.size, dt.elem)
		dst[0] = Value{P: o}
		return m.jsonCopy(src, st, o.s, dt.elem, opts)
	}
	if st.kind != dt.kind {
		return "json: cannot unmarshal " + st.str + " into " + dt.str
	}
	switch dt.kind {
	case KStruct:
		su, du := st.t.Underlying().(*types.Struct), dt.t.Underlying().(*types.Struct)
		for i := 0; i < du.NumFields(); i++ {
			n, ok := jsonName(du, i)
			if !ok {
				continue
			}
			for j := 0; j < su.NumFields(); j++ {
				k, ok := jsonName(su, j)
				if !ok || !strings.EqualFold(n, k) {
					continue
				}
				a, b := st.fields[j], dt.fields[i]
				if e := m.jsonCopy(src[st.offs[j]:st.offs[j]+a.size], a, dst[dt.offs[i]:dt.offs[i]+b.size], b, opts); e != "" {
					return e
				}
			}
		}
	case KArray:
		for i := 0; i < dt.n && i < st.n; i++ {
			a, b := st.elem.size, dt.elem.size
			if e := m.jsonCopy(src[i*a:(i+1)*a], st.elem, dst[i*b:(i+1)*b], dt.elem, opts); e != "" {
				return e
			}
		}
	case KSlice:
		if src[0].P == nil {
			dst[0] = Value{}
			return ""
		}
		from := m.sliceElems(src[0], st)
		n := src[0].P.(*SliceV).len
		to := make([]Value, n*dt.elem.size)
		for i := 0; i < n; i++ {
			a, b := st.elem.size, dt.elem.size
			if e := m.jsonCopy(from[i*a:(i+1)*a], st.elem, to[i*b:(i+1)*b], dt.elem, opts); e != "" {
				return e
			}
		}
		dst[0] = m.mkSlice(to, dt)
	case KMap:
		if src[0].P == nil {
			dst[0] = Value{}
			return ""
		}
		o := src[0].P.(*MapObj)
		m.nextObj++
		c := &MapObj{kt: dt.key, vt: dt.elem, id: m.nextObj}
		for i := range o.keys {
			if o.dead[i] {
				continue
			}
			var from []Value
			if st.elem.agg() {
				from = o.vals[i].P.(*Agg).f
			} else {
				from = []Value{o.vals[i]}
			}
			to := make([]Value, dt.elem.size)
			if e := m.jsonCopy(from, st.elem, to, dt.elem, opts); e != "" {
				return e
			}
			v := to[0:1:1]
			if dt.elem.agg() {
				m.mapAdd(c, o.keys[i], Value{P: &Agg{f: to}})
			} else {
				m.mapAdd(c, o.keys[i], v[0])
			}
		}
		dst[0] = Value{P: c}
	case KIface:
		if src[0].P == nil {
			dst[0] = Value{}
			return ""
		}
		iv := src[0].P.(*IfaceV)
		var from []Value
		if iv.t.agg() {
			from = iv.v.P.(*Agg).f
		} else {
			from = []Value{iv.v}
		}
		to := make([]Value, iv.t.size)
		if e := m.jsonCopy(from, iv.t, to, iv.t, opts); e != "" {
			return e
		}
		if iv.t.agg() {
			dst[0] = Value{P: &IfaceV{t: iv.t, v: Value{P: &Agg{f: to}}}}
		} else {
			dst[0] = Value{P: &IfaceV{t: iv.t, v: to[0]}}
		}
	case KChan, KFunc, KUnsafe, KComplex:
		return "json: unsupported type: " + dt.str
	default:
		dst[0] = src[0]
	}
	return ""
}

func (m *Machine) jsonTab() *[]jsonVal {
	t, _ := m.side["json"].(*[]jsonVal)
	if t == nil {
		t = &[]jsonVal{}
		m.side["json"] = t
	}
	return t
}

func (m *Machine) jsonMarshal(iv Value) (Value, Value) {
	var jv jsonVal
	if iv.P != nil {
		i := iv.P.(*IfaceV)
		from := []Value{i.v}
		if i.t.agg() {
			from = i.v.P.(*Agg).f
		}
		jv = jsonVal{t: i.t, v: make([]Value, i.t.size)}
		if e := m.jsonCopy(from, i.t, jv.v, i.t, nil); e != "" {
			return Value{}, m.jsonErr(e)
		}
	}
	tab := m.jsonTab()
	id := len(*tab)
	*tab = append(*tab, jv)
	text := jsonMark + string(rune('A'+id/26%26)) + string(rune('A'+id%26))
	b := make([]Value, len(text))
	for i := range text {
		b[i] = Value{N: uint64(text[i])}
	}
	return m.mkSlice(b, rtypeOf(types.NewSlice(byteRT.t))), Value{}
}

func (m *Machine) jsonUnmarshal(data Value, target Value) Value {
	if target.P == nil {
		return m.jsonErr("json: Unmarshal(nil)")
	}
	tv := target.P.(*IfaceV)
	if tv.t.kind != KPtr || tv.v.P == nil {
		return m.jsonErr("json: Unmarshal(non-pointer " + tv.t.str + ")")
	}
	var text []byte
	if data.P != nil {
		s := data.P.(*SliceV)
		for _, v := range s.o.s[s.off : s.off+s.len] {
			if v.P != nil {
				panic(unsupported("decoding JSON text with symbolic bytes"))
			}
			text = append(text, byte(v.N))
		}
	}
	o := tv.v.P.(*Object)
	dt := tv.t.elem
	to := make([]Value, dt.size)
	off := int(tv.v.N)
	copy(to, o.s[off:off+dt.size])
	e := ""
	if t := strings.TrimSpace(string(text)); strings.HasPrefix(t, jsonMark) && len(t) == len(jsonMark)+2 {
		id := int(t[len(jsonMark)]-'A')*26 + int(t[len(jsonMark)+1]-'A')
		jv := (*m.jsonTab())[id]
		if jv.t == nil {
			return Value{}
		}
		e = m.jsonCopy(jv.v, jv.t, to, dt, nil)
	} else {
		var x any
		if err := json.Unmarshal(text, &x); err != nil {
			return m.jsonErr(err.Error())
		}
		e = m.jsonPlain(x, to, dt)
	}
	for i := range to {
		m.store1(o, off+i, to[i])
	}
	if e != "" {
		return m.jsonErr(e)
	}
	return Value{}
}

// jsonPlain stores a concrete JSON value made of objects and strings.
func (m *Machine) jsonPlain(x any, dst []Value, dt *RType) string {
	switch x := x.(type) {
	case nil:
		return ""
	case string:
		if dt.kind != KString {
			return "json: cannot unmarshal string into " + dt.str
		}
		dst[0] = mkStr(x)
		return ""
	case map[string]any:
		if dt.kind == KPtr {
			o := m.newObj(dt.elem.size, dt.elem)
			dst[0] = Value{P: o}
			return m.jsonPlain(x, o.s, dt.elem)
		}
		if dt.kind == KMap && len(x) == 0 {
			m.nextObj++
			dst[0] = Value{P: &MapObj{kt: dt.key, vt: dt.elem, id: m.nextObj}}
			return ""
		}
		if dt.kind != KStruct {
			return "json: cannot unmarshal object into " + dt.str
		}
		du := dt.t.Underlying().(*types.Struct)
		for i := 0; i < du.NumFields(); i++ {
			n, ok := jsonName(du, i)
			if !ok {
				continue
			}
			for k, v := range x {
				if strings.EqualFold(k, n) {
					if e := m.jsonPlain(v, dst[dt.offs[i]:dt.offs[i]+dt.fields[i].size], dt.fields[i]); e != "" {
						return e
					}
				}
			}
		}
		return ""
	}
	panic(unsupported("decoding literal JSON text into " + dt.str))
}

func regJSON(reg func(intrinsic, ...string)) {
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		b, e := m.jsonMarshal(a[0])
		return tuple(b, e), stDone
	}, "encoding/json.Marshal", "encoding/json.MarshalIndent")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return m.jsonUnmarshal(a[0], a[1]), stDone
	}, "encoding/json.Unmarshal")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		t := rtypeOf(m.prog.allPkgs["encoding/json"].Pkg.Scope().Lookup("Decoder").Type())
		o := m.newObj(t.size, t)
		m.side["dec"+strconv.Itoa(int(o.id))] = a[0]
		return Value{P: o}, stDone
	}, "encoding/json.NewDecoder")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		t := rtypeOf(m.prog.allPkgs["encoding/json"].Pkg.Scope().Lookup("Encoder").Type())
		o := m.newObj(t.size, t)
		m.side["dec"+strconv.Itoa(int(o.id))] = a[0]
		return Value{P: o}, stDone
	}, "encoding/json.NewEncoder")
	reg(noop, "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent")
	// the reader of a json.Decoder, the writer of a json.Encoder
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return m.side["dec"+strconv.Itoa(int(a[0].P.(*Object).id))].(Value), stDone
	}, harnessPath+"/hxh.reader", harnessPath+"/hxh.writer")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		o := m.newObj(int(a[0].N), byteRT)
		return Value{P: &SliceV{o: o, len: int(a[0].N), cap: int(a[0].N)}}, stDone
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return a[0], stDone
	}, "internal/abi.NoEscape")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return tuple(Value{}, mkStr("/src/file.go"), intV(1), boolV(true)), stDone
	}, "runtime.Caller")
}

// commands are run through these functions.
var commands = map[string]string{
	harnessPath + "/hxh.Willow":  modPath + "/cmd/willow",
	harnessPath + "/hxh.Limiter": modPath + "/cmd/limiter",
	harnessPath + "/hxh.Locker":  modPath + "/cmd/locker",
}

// redirects replaces library functions by models written in Go (package hxh), when that package is loaded.
var redirects = map[string]string{
	"(*encoding/json.Decoder).Decode": "ModelDecode",
	"(*encoding/json.Encoder).Encode": "ModelEncode",
	"(*net/http.Client).Do":           "ModelDo",
	harnessPath + "/hxh.Listen":       "ModelListen",
	"os.Getenv":                       "ModelGetenv",
	"os.LookupEnv":                    "ModelLookupEnv",
	"os.Setenv":                       "ModelSetenv",
	"os.Unsetenv":                     "ModelUnsetenv",

	"os.ReadFile":                                "ModelReadFile",
	"crypto/tls.LoadX509KeyPair":                 "ModelLoadX509KeyPair",
	"crypto/x509.NewCertPool":                    "ModelNewCertPool",
	"(*crypto/x509.CertPool).AppendCertsFromPEM": "ModelAppendCerts",
	"encoding/pem.Decode":                        "ModelPEM",
	"crypto/x509.ParseCertificate":               "ModelParseCertificate",
	"(*crypto/x509.Certificate).Verify":          "ModelVerify",
	"(*net/http.Server).ListenAndServe":          "ModelListenAndServe",
	"(*net/http.Server).ListenAndServeTLS":       "ModelListenAndServeTLS",
	"(*net/http.Server).Shutdown":                "ModelShutdown",
	"(*net/http.Server).Close":                   "ModelClose",
	"golang.org/x/net/http2.ConfigureServer":     "ModelConfigureServer",

	"os.Exit":                         "ModelExit",
	"log.Fatal":                       "ModelLogFatal",
	"(*go.uber.org/zap.Logger).Fatal": "ModelFatal",
	"os/signal.NotifyContext":         "ModelNotifyContext",
	modPath + "/internal/reporting.NewZapLogger": "ModelNewZapLogger",
}

func redirectOf(fn *ssa.Function) *ssa.Function {
	if cmd, ok := commands[fn.String()]; ok {
		if p := fn.Prog.ImportedPackage(cmd); p != nil {
			return p.Func("main")
		}
	}
	if n, ok := strings.CutPrefix(fn.String(), "(*sync.Map)."); ok {
		if p := fn.Prog.ImportedPackage(symPath); p != nil {
			return p.Func("SyncMap" + n)
		}
	}
	n, ok := redirects[fn.String()]
	if !ok {
		return nil
	}
	if p := fn.Prog.ImportedPackage(harnessPath + "/hxh"); p != nil {
		return p.Func(n)
	}
	return nil
}

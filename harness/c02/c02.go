package c02

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// back rebuilds the parts of a decoded value by its Go type.
func back(data any) (hx.V, bool) {
	switch x := data.(type) {
	case nil:
		return hx.V{K: hx.KAny}, true
	case uint8:
		return hx.V{K: hx.KUint8, U: uint64(x)}, true
	case uint16:
		return hx.V{K: hx.KUint16, U: uint64(x)}, true
	case uint32:
		return hx.V{K: hx.KUint32, U: uint64(x)}, true
	case uint64:
		return hx.V{K: hx.KUint64, U: x}, true
	case uint:
		return hx.V{K: hx.KUint, U: uint64(x)}, true
	case int8:
		return hx.V{K: hx.KInt8, I: int64(x)}, true
	case int16:
		return hx.V{K: hx.KInt16, I: int64(x)}, true
	case int32:
		return hx.V{K: hx.KInt32, I: int64(x)}, true
	case int64:
		return hx.V{K: hx.KInt64, I: x}, true
	case int:
		return hx.V{K: hx.KInt, I: int64(x)}, true
	case float32:
		return hx.V{K: hx.KFloat32, F: x}, true
	case float64:
		return hx.V{K: hx.KFloat64, D: x}, true
	case string:
		return hx.V{K: hx.KString, S: x}, true
	}
	return hx.V{}, false
}

// Every value of every type: encode then decode gives it back.
func CheckRoundTrip() {
	v := hx.Of("v", sym.Choose("kind", hx.NKinds), sym.Bound("string bytes", 3, 6))
	enc := dt.StringEncoding(v.EV.Type, v.EV.Data)
	if v.K == hx.KAny {
		sym.Assert(enc == nil, "any encodes to nothing")
	} else {
		_, ok := enc.(string)
		sym.Assert(ok, "encodes to text")
	}
	dec, err := dt.StringDecoding(v.EV.Type, enc)
	sym.Assert(err == nil, "its own encoding decodes")
	w, ok := back(dec)
	sym.Assert(ok && w.K == v.K, "same type back")
	sym.Assert(hx.Same(v, w), "same data back")
	sym.Reach("round trip")
}

func bits(k int) (lo int64, hi uint64) {
	switch k {
	case hx.KUint8:
		return 0, 1<<8 - 1
	case hx.KUint16:
		return 0, 1<<16 - 1
	case hx.KUint32:
		return 0, 1<<32 - 1
	case hx.KUint64, hx.KUint:
		return 0, 1<<64 - 1
	case hx.KInt8:
		return -1 << 7, 1<<7 - 1
	case hx.KInt16:
		return -1 << 15, 1<<15 - 1
	case hx.KInt32:
		return -1 << 31, 1<<31 - 1
	}
	return -1 << 63, 1<<63 - 1
}

func signed(k int) bool { return k >= hx.KInt8 && k <= hx.KInt }

// fits tells whether the integer of v lies in the range of kind k.
func fits(v hx.V, k int) bool {
	lo, hi := bits(k)
	if signed(v.K) {
		if v.I < 0 {
			return lo < 0 && v.I >= lo
		}
		return uint64(v.I) <= hi
	}
	return v.U <= hi
}

// Every integer text offered under every integer type: accepted exactly when it fits, and then unchanged.
func CheckFit() {
	v := hx.Of("v", sym.Choose("from", hx.KFloat32), 0)
	k := sym.Choose("to", hx.KFloat32)
	dec, err := dt.StringDecoding(hx.Types[k], dt.StringEncoding(v.EV.Type, v.EV.Data))
	sym.Assert((err == nil) == fits(v, k), "accepted exactly when it fits")
	if err != nil {
		sym.Reach("refused")
		return
	}
	w, ok := back(dec)
	sym.Assert(ok && w.K == k, "decoded as the declared type")
	var got, want int64
	if signed(k) {
		got = w.I
	} else {
		got = int64(w.U)
	}
	if signed(v.K) {
		want = v.I
	} else {
		want = int64(v.U)
	}
	sym.Assert(got == want, "number unchanged")
	sym.Reach("accepted")
}

// refParse is the reference decimal reading of a short text.
func refParse(s string, sgn bool) (int64, bool) {
	i, neg := 0, false
	if sgn && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return 0, false
	}
	var n int64
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// Every short text offered under every integer type: only in-range decimal numbers are accepted, and mean what they say.
func CheckText() {
	k := sym.Choose("to", hx.KFloat32)
	s := sym.String("text", sym.Bound("text bytes", 4, 5))
	dec, err := dt.StringDecoding(hx.Types[k], s)
	n, ok := refParse(s, signed(k))
	lo, hi := bits(k)
	if ok {
		ok = n >= lo && (n < 0 || uint64(n) <= hi)
	}
	sym.Assert((err == nil) == ok, "accepts exactly the decimal numbers in range")
	if err != nil {
		return
	}
	w, isOf := back(dec)
	sym.Assert(isOf && w.K == k, "decoded as the declared type")
	if signed(k) {
		sym.Assert(w.I == n, "number read")
	} else {
		sym.Assert(w.U == uint64(n), "number read")
	}
	sym.Reach("number")
}

// Unknown types and missing or non-text data are refused.
func CheckRefuses() {
	t := dt.DataType(sym.Int("type"))
	known := false
	for _, x := range hx.Types {
		known = sym.Or(known, t == x)
	}
	if sym.Choose("data", 2) == 0 {
		_, err := dt.StringDecoding(t, nil)
		sym.Assert((err == nil) == (t == dt.T_any), "missing data only for any")
		sym.Reach("missing")
		return
	}
	v := hx.Of("v", sym.Choose("kind", hx.NKinds-1), 2)
	if v.K == hx.KString {
		sym.Assume(!known)
		_, err := dt.StringDecoding(t, v.S)
		sym.Assert(err != nil, "unknown type refused")
		sym.Reach("unknown")
		return
	}
	_, err := dt.StringDecoding(t, v.EV.Data)
	sym.Assert(err != nil, "data that is not text refused")
	sym.Reach("not text")
}

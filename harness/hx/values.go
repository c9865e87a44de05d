// Package hx holds what the harnesses share: symbolic typed values and their independent reference order.
package hx

import (
	dt "github.com/DanLavine/willow/pkg/models/datatypes"

	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// Kinds of typed values.
const (
	KUint8 = iota
	KUint16
	KUint32
	KUint64
	KUint
	KInt8
	KInt16
	KInt32
	KInt64
	KInt
	KFloat32
	KFloat64
	KString
	KAny
	NKinds
)

// Types lists the data type of each kind, in the documented order.
var Types = [NKinds]dt.DataType{dt.T_uint8, dt.T_uint16, dt.T_uint32, dt.T_uint64, dt.T_uint, dt.T_int8, dt.T_int16,
	dt.T_int32, dt.T_int64, dt.T_int, dt.T_float32, dt.T_float64, dt.T_string, dt.T_any}

// V is a typed value with its raw parts.
type V struct {
	K  int
	EV dt.EncapsulatedValue
	U  uint64
	I  int64
	F  float32
	D  float64
	S  string
}

// Of builds a symbolic value of kind k. Floats are numbers, not NaN.
func Of(name string, k int, strlen int) V {
	v := V{K: k}
	switch k {
	case KUint8:
		x := sym.Uint8(name)
		v.U, v.EV = uint64(x), dt.Uint8(x)
	case KUint16:
		x := sym.Uint16(name)
		v.U, v.EV = uint64(x), dt.Uint16(x)
	case KUint32:
		x := sym.Uint32(name)
		v.U, v.EV = uint64(x), dt.Uint32(x)
	case KUint64:
		x := sym.Uint64(name)
		v.U, v.EV = x, dt.Uint64(x)
	case KUint:
		x := sym.Uint(name)
		v.U, v.EV = uint64(x), dt.Uint(x)
	case KInt8:
		x := sym.Int8(name)
		v.I, v.EV = int64(x), dt.Int8(x)
	case KInt16:
		x := sym.Int16(name)
		v.I, v.EV = int64(x), dt.Int16(x)
	case KInt32:
		x := sym.Int32(name)
		v.I, v.EV = int64(x), dt.Int32(x)
	case KInt64:
		x := sym.Int64(name)
		v.I, v.EV = x, dt.Int64(x)
	case KInt:
		x := sym.Int(name)
		v.I, v.EV = int64(x), dt.Int(x)
	case KFloat32:
		x := sym.Float32(name)
		sym.Assume(x == x)
		v.F, v.EV = x, dt.Float32(x)
	case KFloat64:
		x := sym.Float64(name)
		sym.Assume(x == x)
		v.D, v.EV = x, dt.Float64(x)
	case KString:
		x := sym.String(name, strlen)
		v.S, v.EV = x, dt.String(x)
	default:
		v.EV = dt.Any()
	}
	return v
}

// Same reports equal type and equal data.
func Same(a, b V) bool {
	if a.K != b.K {
		return false
	}
	switch {
	case a.K <= KUint:
		return a.U == b.U
	case a.K <= KInt:
		return a.I == b.I
	case a.K == KFloat32:
		return a.F == b.F
	case a.K == KFloat64:
		return a.D == b.D
	case a.K == KString:
		return a.S == b.S
	}
	return true
}

// Below is the reference strict order: kind first, then data; any is the greatest kind.
func Below(a, b V) bool {
	if a.K != b.K {
		return a.K < b.K
	}
	switch {
	case a.K <= KUint:
		return a.U < b.U
	case a.K <= KInt:
		return a.I < b.I
	case a.K == KFloat32:
		return a.F < b.F
	case a.K == KFloat64:
		return a.D < b.D
	case a.K == KString:
		return a.S < b.S
	}
	return false
}

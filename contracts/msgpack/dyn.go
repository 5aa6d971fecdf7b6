//verif:pkg msgpack
//verif:common
package msgpack

import (
	"math"
	"time"
)

// vIsInt: got is the integer v, whatever integer type it was read as.
func vIsInt(got any, v int64) bool {
	switch g := got.(type) {
	case int8:
		return int64(g) == v
	case int16:
		return int64(g) == v
	case int32:
		return int64(g) == v
	case int64:
		return g == v
	case uint8:
		return int64(g) == v
	case uint16:
		return int64(g) == v
	case uint32:
		return int64(g) == v
	case uint64:
		return v >= 0 && g == uint64(v)
	}
	return false
}

func vIsUint(got any, v uint64) bool {
	if v <= math.MaxInt64 {
		return vIsInt(got, int64(v))
	}
	g, ok := got.(uint64)
	return ok && g == v
}

func vIsBool(got any, v bool) bool {
	g, ok := got.(bool)
	return ok && g == v
}

func vIsFloat32(got any, v float32) bool {
	g, ok := got.(float32)
	return ok && math.Float32bits(g) == math.Float32bits(v)
}

func vIsFloat64(got any, v float64) bool {
	g, ok := got.(float64)
	return ok && math.Float64bits(g) == math.Float64bits(v)
}

func vIsString(got any, v string) bool {
	g, ok := got.(string)
	return ok && g == v
}

func vIsBytes(got any, v []byte) bool {
	g, ok := got.([]byte)
	return ok && vEq(g, v)
}

func vIsTime(got any, v time.Time) bool {
	g, ok := got.(time.Time)
	return ok && g.Equal(v)
}

func vIsList(got any, n int) ([]any, bool) {
	g, ok := got.([]any)
	return g, ok && len(g) == n
}

// vKeyI: m's only entry is the integer k with value v.
func vKeyI(m map[any]any, k int64, v bool) bool {
	ok := true
	for mk, mv := range m {
		ok = vAnd(ok, vIsInt(mk, k))
		g, is := mv.(bool)
		ok = ok && is && g == v
	}
	return ok
}

func vKeyU(m map[any]any, k uint64, v bool) bool {
	ok := true
	for mk, mv := range m {
		ok = vAnd(ok, vIsUint(mk, k))
		g, is := mv.(bool)
		ok = ok && is && g == v
	}
	return ok
}

type vCodec struct {
	a   int32
	err error
}

func (c vCodec) Decode(r Reader) error { return c.err }
func (c vCodec) Encode(w Writer) error {
	w.WriteInt32(c.a)
	return c.err
}

func make20(a bool) []any {
	l := make([]any, 20)
	l[19] = a
	return l
}

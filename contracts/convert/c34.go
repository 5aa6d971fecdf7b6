//verif:pkg msgpack/convert
package convert

import (
	"errors"
	"time"
)

var vErr = errors.New("given")

type vStr string
type vBoo bool
type vBytes []byte
type vI8 int8
type vU16 uint16
type vF64 float64

func vGiven(bad bool) error {
	if bad {
		return vErr
	}
	return nil
}

//verif:prop C34
func H_String(s string, nilled, bad bool) {
	e := vGiven(bad)
	v, err := String[vStr](s, e)
	vEnsures("error", err == e)
	vEnsures("value", bad || string(v) == s)
	p := &s
	if nilled {
		p = nil
	}
	q, err := NillableString[vStr](p, e)
	vEnsures("nillable error", err == e)
	if !bad {
		vEnsures("presence", (q == nil) == nilled)
		if q != nil {
			vEnsures("nillable value", string(*q) == s)
		}
	}
}

//verif:prop C34
func H_Bool(s bool, nilled, bad bool) {
	e := vGiven(bad)
	v, err := Bool[vBoo](s, e)
	vEnsures("error", err == e)
	vEnsures("value", bad || bool(v) == s)
	p := &s
	if nilled {
		p = nil
	}
	q, err := NillableBool[vBoo](p, e)
	vEnsures("nillable error", err == e)
	if !bad {
		vEnsures("presence", (q == nil) == nilled)
		if q != nil {
			vEnsures("nillable value", bool(*q) == s)
		}
	}
}

//verif:prop C34
func H_ByteArray(s []byte, bad bool, k int) {
	e := vGiven(bad)
	v, err := ByteArray[vBytes](s, e)
	vEnsures("error", err == e)
	if !bad {
		vEnsures("length", len(v) == len(s) && (v == nil) == (s == nil))
		if 0 <= k && k < len(s) {
			vEnsures("value", v[k] == s[k])
		}
	}
}

func vNum[T, I numberic](s I, nilled, bad bool) {
	e := vGiven(bad)
	v, err := Numeric[T](s, e)
	vEnsures("error", err == e)
	vEnsures("value", bad || v == T(s) || T(s) != T(s))
	p := &s
	if nilled {
		p = nil
	}
	q, err := NillableNumeric[T](p, e)
	vEnsures("nillable error", err == e)
	if !bad {
		vEnsures("presence", (q == nil) == nilled)
		if q != nil {
			vEnsures("nillable value", *q == T(s) || T(s) != T(s))
		}
	}
}

func vNums[I numberic](s I, nilled, bad bool) {
	vNum[int8](s, nilled, bad)
	vNum[int16](s, nilled, bad)
	vNum[int32](s, nilled, bad)
	vNum[int64](s, nilled, bad)
	vNum[int](s, nilled, bad)
	vNum[uint8](s, nilled, bad)
	vNum[uint16](s, nilled, bad)
	vNum[uint32](s, nilled, bad)
	vNum[uint64](s, nilled, bad)
	vNum[uint](s, nilled, bad)
	vNum[vI8](s, nilled, bad)
	vNum[vU16](s, nilled, bad)
}

//verif:prop C34
func H_NumericInt64(s int64, nilled, bad bool) { vNums(s, nilled, bad) }

//verif:prop C34
func H_NumericInt32(s int32, nilled, bad bool) { vNums(s, nilled, bad) }

//verif:prop C34
func H_NumericUint64(s uint64, nilled, bad bool) { vNums(s, nilled, bad) }

//verif:prop C34
func H_NumericUint8(s uint8, nilled, bad bool) { vNums(s, nilled, bad) }

//verif:prop C34
func H_NumericInt8(s int8, nilled, bad bool) { vNums(s, nilled, bad) }

//verif:prop C34
func H_NumericFloat(s float64, t float32, nilled, bad bool) {
	vNum[float64](s, nilled, bad)
	vNum[float32](s, nilled, bad)
	vNum[vF64](s, nilled, bad)
	vNum[float64](t, nilled, bad)
	vNum[float32](t, nilled, bad)
}

//verif:prop C34
func H_Format(s string, nilled bool) {
	p := &s
	if nilled {
		p = nil
	}
	q := Format(func(v *string) string { return *v + "!" })(p)
	vEnsures("presence", (q == nil) == nilled)
	if q != nil {
		vEnsures("value", *q == s+"!")
	}
}

//verif:prop C34
func H_Parse(s string, bad, fails bool, r int) {
	e := vGiven(bad)
	own := errors.New("own")
	called := 0
	fn := func(v string) (int, error) {
		called++
		vEnsures("argument", v == s)
		if fails {
			return r, own
		}
		return r, nil
	}
	v, err := Parse(fn)(s, e)
	if bad {
		vEnsures("given error", err == e && called == 0)
	} else if fails {
		vEnsures("own error", err == own && called == 1)
	} else {
		vEnsures("value", err == nil && v == r && called == 1)
	}
}

//verif:prop C34
func H_NillableParse(s string, nilled, bad, fails bool, r int) {
	e := vGiven(bad)
	own := errors.New("own")
	called := 0
	fn := func(v string) (int, error) {
		called++
		vEnsures("argument", v == s)
		if fails {
			return r, own
		}
		return r, nil
	}
	p := &s
	if nilled {
		p = nil
	}
	v, err := NillableParse(fn)(p, e)
	switch {
	case bad:
		vEnsures("given error", err == e && called == 0)
	case nilled:
		vEnsures("absent", v == nil && err == nil && called == 0)
	case fails:
		vEnsures("own error", err == own && called == 1)
	default:
		vEnsures("value", err == nil && v != nil && *v == r && called == 1)
	}
}

//verif:prop C34
func H_StringToTime(s string, nilled, bad bool) {
	e := vGiven(bad)
	want, perr := time.Parse(time.RFC3339Nano, s)
	v, err := StringToTime(s, e)
	if bad {
		vEnsures("given error", err == e)
	} else {
		vEnsures("parse error", (err == nil) == (perr == nil))
		vEnsures("value", err != nil || v == want)
	}
	p := &s
	if nilled {
		p = nil
	}
	q, err := StringToTimePtr(p, e)
	switch {
	case bad:
		vEnsures("nillable given error", err == e)
	case nilled:
		vEnsures("absent", q == nil && err == nil)
	default:
		vEnsures("nillable parse error", (err == nil) == (perr == nil))
		vEnsures("nillable value", err != nil || q != nil && *q == want)
	}
}

//verif:prop C34
func H_TimeToString(t time.Time, nilled bool) {
	want := t.Format(time.RFC3339Nano)
	vEnsures("text", TimeToString(t) == want)
	p := &t
	if nilled {
		p = nil
	}
	q := TimeToStringPtr(p)
	vEnsures("presence", (q == nil) == nilled)
	if q != nil {
		vEnsures("text of the pointer", *q == want)
	}
}

//verif:pkg transport/wasmrs/customsections
package customsections

import (
	"bytes"
	"unicode/utf8"

	"github.com/tetratelabs/wabin/leb128"
	"github.com/tetratelabs/wabin/wasm"
)

func vpAt(b []byte, i int) uint32 {
	if i < 0 || i >= len(b) {
		return 0
	}
	return uint32(b[i])
}

// voLebLen: how many bytes the number at p takes, 0 when there is none.
func voLebLen(b []byte, p int) int {
	n := len(b) - p
	if p < 0 {
		return 0
	}
	if n >= 1 && vpAt(b, p) < 0x80 {
		return 1
	}
	if n >= 2 && vpAt(b, p) >= 0x80 && vpAt(b, p+1) < 0x80 {
		return 2
	}
	if n >= 3 && vpAt(b, p) >= 0x80 && vpAt(b, p+1) >= 0x80 && vpAt(b, p+2) < 0x80 {
		return 3
	}
	if n >= 4 && vpAt(b, p) >= 0x80 && vpAt(b, p+1) >= 0x80 && vpAt(b, p+2) >= 0x80 && vpAt(b, p+3) < 0x80 {
		return 4
	}
	if n >= 5 && vpAt(b, p) >= 0x80 && vpAt(b, p+1) >= 0x80 && vpAt(b, p+2) >= 0x80 && vpAt(b, p+3) >= 0x80 && vpAt(b, p+4) < 0x10 {
		return 5
	}
	return 0
}

// voLeb: the number at p, which takes k bytes.
func voLeb(b []byte, p int, k int) uint32 {
	v := vpAt(b, p) & 0x7f
	if k > 1 {
		v |= vpAt(b, p+1) & 0x7f << 7
	}
	if k > 2 {
		v |= vpAt(b, p+2) & 0x7f << 14
	}
	if k > 3 {
		v |= vpAt(b, p+3) & 0x7f << 21
	}
	if k > 4 {
		v |= vpAt(b, p+4) & 0x7f << 28
	}
	return v
}

// Facts about the two functions; elsewhere they are opaque.
//
//verif:prop C32
//verif:contract customsections.voLebLen
func C_LebLen(b []byte, p int) int {
	vRequires(p <= 1<<50)
	k := voLebLen(b, p)
	vEnsures("range", 0 <= k && k <= 5 && (k == 0 || p+k <= len(b)))
	return k
}

//verif:prop C32
//verif:contract customsections.voLeb
func C_Leb(b []byte, p int, k int) uint32 {
	v := voLeb(b, p, k)
	vEnsures("first byte", k != 1 || v < 0x80)
	return v
}

// The numbers of a module are read as LEB128.
//
//verif:prop C32
//verif:contract leb128.DecodeUint32
func C_DecodeUint32(r *bytes.Reader) (uint32, uint64, error) {
	i, s := vPtr[int64](r, "i"), vPtr[[]byte](r, "s")
	vRequires(0 <= *i && *i <= int64(len(*s)))
	p := int(*i)
	k := voLebLen(*s, p)
	vModifies(i, vPtr[int](r, "prevRune"))
	v, n, err := leb128.DecodeUint32(r)
	vEnsures("malformed", (err == nil) == (k > 0))
	if err == nil {
		vEnsures("value", v == voLeb(*s, p, k))
		vEnsures("length", n == uint64(k))
		vEnsures("position", *i == int64(p+k))
		return v, n, err
	}
	vEnsures("in range", p <= int(*i) && int(*i) <= len(*s))
	return v, n, err
}

// vSection is what the specification says about the section at p.
type vSection struct {
	ok           bool
	next         int
	custom       bool
	name, data   []byte
}

func vParse(m []byte, p int) (s vSection) {
	k := voLebLen(m, p+1)
	if k == 0 {
		return
	}
	start := p + 1 + k
	s.next = start + int(voLeb(m, p+1, k))
	if s.next > len(m) {
		return
	}
	if m[p] != 0 {
		s.ok = true
		return
	}
	k = voLebLen(m, start)
	if k == 0 {
		return
	}
	end := start + k + int(voLeb(m, start, k))
	if end > s.next {
		return
	}
	s.custom, s.name, s.data = true, m[start+k:end], m[end:s.next]
	s.ok = utf8.Valid(s.name)
	return
}

func vMagic(m []byte) bool {
	return m[0] == 0 && m[1] == 'a' && m[2] == 's' && m[3] == 'm' && m[4] == 1 && m[5] == 0 && m[6] == 0 && m[7] == 0
}

// Anything that is not a module is an error.
//
//verif:prop C32
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_NoModule(m []byte, want string) {
	vRequires(len(m) < 8 || !vMagic(m))
	got, err := Read(m, want)
	vEnsures("error", err != nil && got == nil)
}

// A module without sections.
//
//verif:prop C32
func H_Empty(m []byte, want string) {
	vRequires(len(m) == 8 && vMagic(m))
	got, err := Read(m, want)
	vEnsures("empty", err == nil && len(got) == 0)
}

// One section or something malformed in its place, whatever its contents, and a
// section asked for by any name.
//
//verif:prop C32
//verif:bounded modules of at most two sections, malformed ones up to the first
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_One(m []byte, want string) {
	vRequires(len(m) > 8 && vMagic(m))
	a := vParse(m, 8)
	vRequires(!a.ok || a.next == len(m))
	got, err := Read(m, want)
	vEnsures("well-formed", (err == nil) == a.ok)
	if !a.ok {
		return
	}
	if !a.custom || !vEqS(want, a.name) {
		vEnsures("absent", len(got) == 0)
		return
	}
	vFound(got, want, a.data)
}

func vFound(got map[string]*wasm.CustomSection, want string, data []byte) {
	c := got[want]
	vEnsures("found", len(got) == 1 && c != nil)
	vEnsures("name", c.Name == want)
	vEnsures("content", vEq(c.Data, data))
}

// Two well-formed sections: the one asked for is found at either place, and the
// later one wins.
func vTwo(m []byte, want string, customA, customB bool) {
	vRequires(len(m) > 8 && vMagic(m))
	a := vParse(m, 8)
	vRequires(a.ok && a.next < len(m) && a.custom == customA)
	b := vParse(m, a.next)
	vRequires(b.ok && b.next == len(m) && b.custom == customB)
	got, err := Read(m, want)
	vEnsures("well-formed", err == nil)
	if b.custom && vEqS(want, b.name) {
		vFound(got, want, b.data)
		return
	}
	if a.custom && vEqS(want, a.name) {
		vFound(got, want, a.data)
		return
	}
	vEnsures("absent", len(got) == 0)
}

//verif:prop C32
//verif:bounded modules of at most two sections, malformed ones up to the first
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_OtherOther(m []byte, want string) { vTwo(m, want, false, false) }

//verif:prop C32
//verif:bounded modules of at most two sections, malformed ones up to the first
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_OtherCustom(m []byte, want string) { vTwo(m, want, false, true) }

//verif:prop C32
//verif:bounded modules of at most two sections, malformed ones up to the first
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_CustomOther(m []byte, want string) { vTwo(m, want, true, false) }

//verif:prop C32
//verif:bounded modules of at most two sections, malformed ones up to the first
//verif:use C_DecodeUint32 C_LebLen C_Leb
//verif:unroll 3
func H_CustomCustom(m []byte) { vTwo(m, "o", true, true) }

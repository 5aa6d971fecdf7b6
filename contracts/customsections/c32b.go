//verif:pkg transport/wasmrs/customsections
package customsections

import (
	"unicode/utf8"
)

// vBuild writes a module of small custom sections and one of another kind.
func vBuild(kind byte, name1, data1, name2, data2, other []byte) []byte {
	m := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	m = vAddSection(m, name1, data1)
	m = append(m, kind, byte(len(other)))
	m = append(m, other...)
	return vAddSection(m, name2, data2)
}

func vAddSection(m, name, data []byte) []byte {
	m = append(m, 0, byte(1+len(name)+len(data)), byte(len(name)))
	m = append(m, name...)
	return append(m, data...)
}

// Modules of small sections are read; of two sections of one name the later counts.
//
//verif:prop C32
//verif:bounded two small custom sections with another one between them
//verif:unroll 4
func H_Small(kind byte, name1, name2, wanted [1]byte, data1, data2 []byte) {
	vRequires(kind != 0 && len(data1) < 64 && len(data2) < 64)
	vRequires(utf8.Valid(name1[:]) && utf8.Valid(name2[:]))
	want := string(wanted[:])
	got, err := Read(vBuild(kind, name1[:], data1, name2[:], data2, []byte{1, 2, 3}), want)
	vEnsures("well-formed", err == nil)
	switch {
	case wanted == name2:
		vFound(got, want, data2)
	case wanted == name1:
		vFound(got, want, data1)
	default:
		vEnsures("absent", len(got) == 0)
	}
}

// Two names are wanted.
//
//verif:prop C32
//verif:bounded two small custom sections
//verif:unroll 4
func H_SmallBoth(data1, data2 []byte, swap bool) {
	vRequires(len(data1) < 64 && len(data2) < 64)
	vRequires(utf8.Valid([]byte("a")) && utf8.Valid([]byte("bc")))
	m := vAddSection(vAddSection([]byte{0, 'a', 's', 'm', 1, 0, 0, 0}, []byte("a"), data1), []byte("bc"), data2)
	want := []string{"a", "bc"}
	if swap {
		want = []string{"bc", "a"}
	}
	got, err := Read(m, want...)
	vEnsures("well-formed", err == nil && len(got) == 2)
	a, b := got["a"], got["bc"]
	vEnsures("both", a != nil && b != nil && vEq(a.Data, data1) && vEq(b.Data, data2) && a.Name == "a" && b.Name == "bc")
}

// A name that is not text is refused.
//
//verif:prop C32
//verif:bounded a name of two bytes
//verif:unroll 4
func H_BadName(x byte) {
	name := []byte{'a', x}
	vRequires(x >= 0x80)
	vRequires(!utf8.Valid(name))
	_, err := Read(vAddSection([]byte{0, 'a', 's', 'm', 1, 0, 0, 0}, name, []byte{1}), "a")
	vEnsures("refused", err != nil)
}

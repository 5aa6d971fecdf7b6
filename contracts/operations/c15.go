//verif:pkg operations
package operations

import "errors"

func vMagic(b []byte) bool { return b[0] == 0 && b[1] == 'w' && b[2] == 'r' && b[3] == 's' }

// Any bytes are parsed or refused, without panic and without allocating more
// operations than the input has room for.
//
//verif:prop C15
func H_Malformed(buf []byte) {
	t, err := FromBytes(buf)
	vEnsures("short is an error", len(buf) >= 10 || err != nil)
	if len(buf) >= 10 {
		vEnsures("wrong magic number", vMagic(buf) || errors.Is(err, ErrInvalidMagicNumber))
		vEnsures("wrong version", buf[4] == 0 && buf[5] == 1 || err != nil)
		n := int(buf[6])<<24 | int(buf[7])<<16 | int(buf[8])<<8 | int(buf[9])
		vEnsures("as many as announced", err != nil || len(t) == n)
		vEnsures("no more than there is room for", err != nil || 12*len(t) <= len(buf)-10)
	}
	vEnsures("nothing on error", err == nil || t == nil)
}

// vShort: the strings of the operation fit their 16-bit lengths.
func vShort(o Operation) bool { return len(o.Namespace) <= 65535 && len(o.Operation) <= 65535 }

// vRound: writing t and parsing it back gives t; every strictly shorter prefix is refused.
func vRound(t Table, cut int) {
	for _, o := range t {
		vRequires(vShort(o))
	}
	b := t.ToBytes()
	u, err := FromBytes(b)
	vEnsures("parsed", err == nil && len(u) == len(t))
	for i := range t {
		vEnsures("same operation", u[i] == t[i])
	}
	vRequires(0 <= cut && cut < len(b))
	_, err = FromBytes(b[:cut])
	vEnsures("truncated is an error", err != nil)
}

//verif:prop C15
func H_RoundEmpty(cut int) { vRound(Table{}, cut) }

//verif:prop C15
func H_RoundOne(a Operation, cut int) { vRound(Table{a}, cut) }

//verif:prop C15
//verif:bounded tables of at most 3 operations
func H_RoundTwo(a, b Operation, cut int) { vRound(Table{a, b}, cut) }

//verif:prop C15
//verif:bounded tables of at most 3 operations
func H_RoundThree(a, b, c Operation, cut int) { vRound(Table{a, b, c}, cut) }

func vU16(b []byte, p int) int { return int(b[p])<<8 | int(b[p+1]) }

// vEntry: o is what the bytes at p say, and the result is the offset behind them,
// with whatever is reserved in between.
func vEntry(b []byte, p int, o Operation) int {
	n := vU16(b, p+6)
	m := vU16(b, p+8+n)
	q := p + 10 + n + m
	vEnsures("kind and direction", byte(o.Type) == b[p] && byte(o.Direction) == b[p+1])
	vEnsures("index", o.Index == uint32(b[p+2])<<24|uint32(b[p+3])<<16|uint32(b[p+4])<<8|uint32(b[p+5]))
	vEnsures("namespace", vEqS(o.Namespace, b[p+8:p+8+n]))
	vEnsures("name", vEqS(o.Operation, b[p+10+n:q]))
	return q + 2 + vU16(b, q)
}

// What is parsed is what the bytes say.
//
//verif:prop C15
//verif:bounded tables of at most 2 operations
//verif:unroll 4
func H_Parse(buf []byte) {
	vRequires(len(buf) >= 10 && vMagic(buf) && vU16(buf, 4) == 1 && vU16(buf, 6) == 0 && vU16(buf, 8) <= 2)
	n := vU16(buf, 8)
	t, err := FromBytes(buf)
	if err != nil {
		return
	}
	vCover("parsed")
	vEnsures("length", len(t) == n)
	p := 10
	if n > 0 {
		p = vEntry(buf, p, t[0])
	}
	if n > 1 {
		p = vEntry(buf, p, t[1])
	}
	vEnsures("complete", p <= len(buf))
}

// A table that is whole is not refused, whatever its reserved parts hold.
//
//verif:prop C15
func H_ParseReserved(a Operation, reserved []byte) {
	vRequires(vShort(a) && len(reserved) <= 65535)
	b := Table{a}.ToBytes()
	b[len(b)-2], b[len(b)-1] = byte(len(reserved)>>8), byte(len(reserved))
	t, err := FromBytes(append(b, reserved...))
	vEnsures("accepted", err == nil && len(t) == 1 && t[0] == a)
}

// The codes of kinds and directions are part of the format.
//
//verif:prop C15
func H_Codes() {
	t := Table{
		{Type: RequestResponse, Direction: Export},
		{Type: FireAndForget, Direction: Import},
		{Type: RequestStream, Direction: Export},
		{Type: RequestChannel, Direction: Import},
	}
	b := t.ToBytes()
	vEnsures("size", len(b) == 10+4*12)
	for i := 0; i < 4; i++ {
		vEnsures("kind", int(b[10+12*i]) == i+1)
		vEnsures("direction", int(b[11+12*i]) == i%2+1)
	}
}

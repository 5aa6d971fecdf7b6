//verif:pkg types/uuid
//verif:common
package uuid

import "errors"

// vpHexVal is the value of a hexadecimal digit, or 255.
func vpHexVal(b byte) byte {
	switch {
	case b >= '0' && b <= '9':
		return b - '0'
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10
	}
	return 255
}

// vDigit is the lower-case hexadecimal digit of n.
func vpDigit(n byte) byte {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

// vGroup is the position of byte i of a UUID in its canonical text.
func vGroup(i int) int {
	p := 2 * i
	if i >= 4 {
		p++
	}
	if i >= 6 {
		p++
	}
	if i >= 8 {
		p++
	}
	if i >= 10 {
		p++
	}
	return p
}

// vCanon: at p, s holds the canonical text of u.
func vCanon(s string, p int, u UUID) bool {
	ok := s[p+8] == '-' && s[p+13] == '-' && s[p+18] == '-' && s[p+23] == '-'
	for i := 0; i < 16; i++ {
		q := p + vGroup(i)
		ok = vAnd(ok, vAnd(s[q] == vpDigit(u[i]>>4), s[q+1] == vpDigit(u[i]&15)))
	}
	return ok
}

// vSource hands out the bytes of src, each at most once, in reads that may be
// short, and may fail.
type vSource struct {
	src   []byte
	pos   int
	short int
	fail  bool
}

func (r *vSource) Read(p []byte) (int, error) {
	if r.fail {
		return 0, errors.New("no randomness")
	}
	n := len(p)
	if n > r.short {
		n = r.short
	}
	if n == 0 {
		n = len(p)
	}
	r.short = 0
	copy(p, r.src[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

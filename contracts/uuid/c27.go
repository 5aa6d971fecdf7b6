//verif:pkg types/uuid
package uuid

//verif:prop C27
func H_String(u UUID) {
	s := u.String()
	vEnsures("length", len(s) == 36)
	vEnsures("canonical", vCanon(s, 0, u))
	b, err := u.MarshalText()
	vEnsures("marshal text", err == nil && len(b) == 36 && vCanon(string(b), 0, u))
	n := u.URN()
	vEnsures("urn", len(n) == 45 && n[:9] == "urn:uuid:")
	vEnsures("urn canonical", vCanon(n, 9, u))
}

//verif:prop C27
func H_Roundtrip(u UUID) {
	s := u.String()
	p, err := Parse(s)
	vEnsures("canonical", err == nil && p == u)
	p, err = Parse(u.URN())
	vEnsures("urn", err == nil && p == u)
	p, err = Parse("{" + s + "}")
	vEnsures("braced", err == nil && p == u)
	p, err = Parse(s[0:8] + s[9:13] + s[14:18] + s[19:23] + s[24:])
	vEnsures("raw", err == nil && p == u)
	p = MustParse(s)
	vEnsures("must", p == u)
}

//verif:prop C27
func H_RoundtripBytes(u UUID) {
	s, _ := u.MarshalText()
	p, err := ParseBytes(s)
	vEnsures("canonical", err == nil && p == u)
	p, err = ParseBytes([]byte(u.URN()))
	vEnsures("urn", err == nil && p == u)
	t := string(s)
	p, err = ParseBytes([]byte("{" + t + "}"))
	vEnsures("braced", err == nil && p == u)
	p, err = ParseBytes([]byte(t[0:8] + t[9:13] + t[14:18] + t[19:23] + t[24:]))
	vEnsures("raw", err == nil && p == u)
	var q UUID
	err = q.UnmarshalText(s)
	vEnsures("text", err == nil && q == u)
}

//verif:prop C27
func H_Binary(u UUID, raw []byte) {
	b, err := u.MarshalBinary()
	vEnsures("marshal", err == nil && len(b) == 16)
	var q UUID
	err = q.UnmarshalBinary(b)
	vEnsures("roundtrip", err == nil && q == u)
	p, err := FromBytes(raw)
	vEnsures("length", (err == nil) == (len(raw) == 16))
	vEnsures("bytes", err != nil || vEq(p[:], raw))
}

// vHyphens: the hyphens of the canonical form are in place behind p.
func vHyphens(s string, p int) bool {
	return vAnd(vAnd(s[p+8] == '-', s[p+13] == '-'), vAnd(s[p+18] == '-', s[p+23] == '-'))
}

func vHexAt(s string, q int) bool {
	return vAnd(vpHexVal(s[q]) != 255, vpHexVal(s[q+1]) != 255)
}
func vHexPair(s string, q int) byte { return vpHexVal(s[q])<<4 | vpHexVal(s[q+1]) }

func vLowerIs(b, lower byte) bool { return vOr(b == lower, b == lower-32) }

// vpWellFormed: text s is one of the four forms; the digits of byte i are at vpDigits(s, i).
func vpWellFormed(s string) bool {
	p := 0
	ok := true
	switch len(s) {
	case 32:
		for i := 0; i < 16; i++ {
			ok = vAnd(ok, vHexAt(s, 2*i))
		}
		return ok
	case 36:
	case 38:
		p = 1
		ok = vAnd(s[0] == '{', s[37] == '}')
	case 45:
		p = 9
		ok = vAnd(vAnd(vLowerIs(s[0], 'u'), vLowerIs(s[1], 'r')), vAnd(vLowerIs(s[2], 'n'), s[3] == ':'))
		ok = vAnd(ok, vAnd(vAnd(vLowerIs(s[4], 'u'), vLowerIs(s[5], 'u')), vAnd(vLowerIs(s[6], 'i'), vLowerIs(s[7], 'd'))))
		ok = vAnd(ok, s[8] == ':')
	default:
		return false
	}
	ok = vAnd(ok, vHyphens(s, p))
	for i := 0; i < 16; i++ {
		ok = vAnd(ok, vHexAt(s, p+vGroup(i)))
	}
	return ok
}

func vpDigits(s string, i int) int {
	switch len(s) {
	case 32:
		return 2 * i
	case 38:
		return 1 + vGroup(i)
	case 45:
		return 9 + vGroup(i)
	}
	return vGroup(i)
}

//verif:prop C27
func H_Parse(s string) {
	u, err := Parse(s)
	vEnsures("accepts exactly the forms", (err == nil) == vpWellFormed(s))
	if err == nil {
		for i := 0; i < 16; i++ {
			vEnsures("value", u[i] == vHexPair(s, vpDigits(s, i)))
		}
	}
}

//verif:prop C27
func H_ParseBytes(s []byte) {
	was := vSnap(s)
	u, err := ParseBytes(s)
	vEnsures("source unchanged", vEqS(was, s))
	vEnsures("accepts exactly the forms", (err == nil) == vpWellFormed(was))
	if err == nil {
		for i := 0; i < 16; i++ {
			vEnsures("value", u[i] == vHexPair(was, vpDigits(was, i)))
		}
	}
}

//verif:prop C27
func H_UnmarshalText(s []byte, q UUID) {
	was := q
	err := q.UnmarshalText(s)
	u, err2 := ParseBytes(s)
	vEnsures("as ParseBytes", (err == nil) == (err2 == nil))
	vEnsures("value", (err != nil || q == u) && (err == nil || q == was))
}

// MustParse gives what Parse gives, or else panics; so does Must.
//
//verif:prop C27
func H_MustParse(s string) {
	u, err := Parse(s)
	var p UUID
	panicked := vCatch(func() { p = MustParse(s) })
	vEnsures("panics for what is no UUID", panicked == (err != nil))
	vEnsures("value", panicked || p == u)
	panicked = vCatch(func() { p = Must(u, err) })
	vEnsures("Must panics for an error", panicked == (err != nil))
	vEnsures("Must keeps the value", panicked || p == u)
}

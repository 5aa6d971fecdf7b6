//verif:pkg internal/frames
package frames

//verif:prop C03
func H_bad_Payload(h FrameHeader, raw []byte) {
	var g Payload
	err := g.Decode(&h, raw)
	need := 0
	if h.Flag()&FlagMetadata != 0 {
		need = 3
		if len(raw) >= 3 {
			need += int(vBE(raw, 0, 3))
		}
	}
	vEnsures("truncated is an error, complete is not", (err != nil) == (len(raw) < need))
}

//verif:prop C03
func H_bad_RequestPayload(h FrameHeader, raw []byte) {
	var g RequestPayload
	err := g.Decode(&h, raw)
	need := 0
	if vHasN(h.Type()) {
		need = 4
	}
	if h.Flag()&FlagMetadata != 0 {
		p := need
		need += 3
		if len(raw) >= need {
			need += int(vBE(raw, p, 3))
		}
	}
	vEnsures("truncated is an error, complete is not", (err != nil) == (len(raw) < need))
}

//verif:prop C03
func H_bad_RequestN(h FrameHeader, raw []byte) {
	var g RequestN
	err := g.Decode(&h, raw)
	vEnsures("truncated is an error, complete is not", (err != nil) == (len(raw) < 4))
}

//verif:prop C03
func H_bad_Cancel(h FrameHeader, raw []byte) {
	var g Cancel
	err := g.Decode(&h, raw)
	vEnsures("decodes", err == nil)
}

//verif:prop C03
func H_bad_Error(h FrameHeader, raw []byte) {
	var g Error
	err := g.Decode(&h, raw)
	vEnsures("truncated is an error, complete is not", (err != nil) == (len(raw) < 4))
}

//verif:prop C03
func H_bad_Setup(h FrameHeader, raw []byte) {
	var g Setup
	err := g.Decode(&h, raw)
	n := len(raw)
	p := 12
	ok := p <= n
	if ok && h.Flag()&FlagResume != 0 {
		ok = p+2 <= n
		if ok {
			p += 2 + int(vBE(raw, p, 2))
			ok = p <= n
		}
	}
	for i := 0; i < 2; i++ {
		if ok {
			ok = p+1 <= n
		}
		if ok {
			p += 1 + int(raw[p])
			ok = p <= n
		}
	}
	if ok && h.Flag()&FlagMetadata != 0 {
		ok = p+3 <= n
		if ok {
			p += 3 + int(vBE(raw, p, 3))
			ok = p <= n
		}
	}
	vEnsures("truncated is an error, complete is not", (err == nil) == ok)
}

//verif:prop C03
func H_bad_Header(raw []byte) {
	vRequires(len(raw) >= FrameHeaderLen)
	h := ParseFrameHeader(raw)
	vEnsures("bytes", vEq(h.Bytes(), raw[:FrameHeaderLen]))
}

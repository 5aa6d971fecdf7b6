//verif:pkg internal/frames
package frames

import "time"

// The wire layout of RSocket 1.0.

func vHeaderIs(b []byte, id uint32, typ int, flags int) bool {
	return vBE(b, 0, 4) == uint64(id) && vBE(b, 4, 2) == uint64(typ)<<10|uint64(flags)
}

func vFlag(c bool, f int) int {
	if c {
		return f
	}
	return 0
}

const (
	vMetadata = 0x100
	vFollows  = 0x80
	vComplete = 0x40
	vNext     = 0x20
	vResume   = 0x80
	vLease    = 0x40
)

//verif:prop C02
func H_wire_Payload(f Payload, buf []byte) {
	vRequires(vFits(len(f.Metadata), len(f.Data), 0) && f.StreamID <= 0x7fffffff)
	n := int(f.Size())
	vRequires(len(buf) >= n)
	f.Encode(buf)
	flags := vFlag(len(f.Metadata) > 0, vMetadata) | vFlag(f.Follows, vFollows) | vFlag(f.Complete, vComplete) | vFlag(f.Next, vNext)
	vEnsures("header", vHeaderIs(buf, f.StreamID, 0x0a, flags))
	vEnsures("body", vBodyAt(buf, 6, n, f.Metadata, f.Data))
}

//verif:prop C02
func H_wire_RequestPayload(f RequestPayload, buf []byte) {
	vRequires(vFits(len(f.Metadata), len(f.Data), 0) && f.StreamID <= 0x7fffffff && vIsRequest(f.FrameType))
	n := int(f.Size())
	vRequires(len(buf) >= n)
	f.Encode(buf)
	flags := vFlag(len(f.Metadata) > 0, vMetadata) | vFlag(f.Follows, vFollows) | vFlag(f.Complete && f.FrameType == FrameTypeRequestChannel, vComplete)
	vEnsures("kinds", FrameTypeRequestResponse == 4 && FrameTypeRequestFNF == 5 && FrameTypeRequestStream == 6 && FrameTypeRequestChannel == 7)
	vEnsures("header", vHeaderIs(buf, f.StreamID, int(f.FrameType), flags))
	p := 6
	if f.FrameType == 6 || f.FrameType == 7 {
		vEnsures("initial request n", vBE(buf, 6, 4) == uint64(f.InitialN))
		p = 10
	}
	vEnsures("body", vBodyAt(buf, p, n, f.Metadata, f.Data))
}

//verif:prop C02
func H_wire_RequestN(f RequestN, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff && len(buf) >= int(f.Size()))
	f.Encode(buf)
	vEnsures("header", vHeaderIs(buf, f.StreamID, 0x08, 0))
	vEnsures("body", f.Size() == 10 && vBE(buf, 6, 4) == uint64(f.N))
}

//verif:prop C02
func H_wire_Cancel(f Cancel, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff && len(buf) >= int(f.Size()))
	f.Encode(buf)
	vEnsures("header", f.Size() == 6 && vHeaderIs(buf, f.StreamID, 0x09, 0))
}

//verif:prop C02
func H_wire_Error(f Error, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff && vFits(0, len(f.Data), 0))
	n := int(f.Size())
	vRequires(len(buf) >= n)
	f.Encode(buf)
	vEnsures("header", vHeaderIs(buf, f.StreamID, 0x0b, 0))
	vEnsures("body", n == 10+len(f.Data) && vBE(buf, 6, 4) == uint64(f.Code) && vHasS(buf, 10, f.Data))
}

//verif:prop C02
func H_wire_Setup(f Setup, keepalive, lifetime uint32, buf []byte) {
	vRequires(vSetupFits2(&f))
	f.TimeBetweenKeepalive = time.Duration(keepalive) * time.Millisecond
	f.MaxLifetime = time.Duration(lifetime) * time.Millisecond
	n := int(f.Size())
	vRequires(len(buf) >= n)
	f.Encode(buf)
	flags := vFlag(len(f.Metadata) > 0, vMetadata) | vFlag(len(f.Token) > 0, vResume) | vFlag(f.Lease, vLease)
	vEnsures("header", vHeaderIs(buf, 0, 0x01, flags))
	vEnsures("versions", vBE(buf, 6, 2) == uint64(f.MajorVersion) && vBE(buf, 8, 2) == uint64(f.MinorVersion))
	vEnsures("intervals", vBE(buf, 10, 4) == uint64(keepalive) && vBE(buf, 14, 4) == uint64(lifetime))
	p := 18
	if len(f.Token) > 0 {
		vEnsures("token", vBE(buf, p, 2) == uint64(len(f.Token)) && vHas(buf, p+2, f.Token))
		p += 2 + len(f.Token)
	}
	vEnsures("metadata type", int(buf[p]) == len(f.MimeMetadata) && vHasS(buf, p+1, f.MimeMetadata))
	p += 1 + len(f.MimeMetadata)
	vEnsures("data type", int(buf[p]) == len(f.MimeData) && vHasS(buf, p+1, f.MimeData))
	p += 1 + len(f.MimeData)
	vEnsures("body", vBodyAt(buf, p, n, f.Metadata, f.Data))
}

func vSetupFits2(f *Setup) bool {
	return len(f.Token) <= 0xffff && len(f.MimeMetadata) <= 255 && len(f.MimeData) <= 255 && vFits(len(f.Metadata), len(f.Data), 0)
}

//verif:prop C02
func H_wire_FlagValues(h FrameHeader) {
	vEnsures("flag bits", FlagMetadata == vMetadata && FlagFollow == vFollows && FlagComplete == vComplete && FlagNext == vNext && FlagIgnore == 0x200 && FlagResume == vResume && FlagLease == vLease)
	w := int(vBE(h[:], 4, 2))
	vEnsures("stream id", uint64(h.StreamID()) == vBE(h[:], 0, 4)&0x7fffffff)
	vEnsures("type", int(h.Type()) == w>>10)
	vEnsures("flags", int(h.Flag()) == w&0x3ff)
	vEnsures("check", h.Flag().Check(FlagMetadata) == (w&0x100 != 0) && h.Flag().Check(FlagComplete) == (w&0x40 != 0))
}

// Decoding reads the layout back, whoever wrote it.
//
//verif:prop C02
func H_read_Payload(raw []byte) {
	vRequires(len(raw) >= FrameHeaderLen && raw[0] < 0x80)
	h := ParseFrameHeader(raw)
	vRequires(h.Type() == FrameTypePayload)
	w := int(vBE(raw, 4, 2))
	var g Payload
	err := g.Decode(&h, raw[FrameHeaderLen:])
	if err == nil {
		vEnsures("stream", uint64(g.StreamID) == vBE(raw, 0, 4))
		vEnsures("flags", g.Follows == (w&vFollows != 0) && g.Complete == (w&vComplete != 0) && g.Next == (w&vNext != 0))
		p := 6
		if w&vMetadata != 0 {
			vEnsures("metadata", vBE(raw, p, 3) == uint64(len(g.Metadata)) && vHas(raw, p+3, g.Metadata))
			p += 3 + len(g.Metadata)
		} else {
			vEnsures("metadata", len(g.Metadata) == 0)
		}
		vEnsures("data", p+len(g.Data) == len(raw) && vHas(raw, p, g.Data))
	}
}

//verif:prop C02
func H_read_RequestPayload(raw []byte) {
	vRequires(len(raw) >= FrameHeaderLen && raw[0] < 0x80)
	h := ParseFrameHeader(raw)
	vRequires(vIsRequest(h.Type()))
	w := int(vBE(raw, 4, 2))
	var g RequestPayload
	err := g.Decode(&h, raw[FrameHeaderLen:])
	if err == nil {
		vEnsures("stream", uint64(g.StreamID) == vBE(raw, 0, 4))
		vEnsures("kind", int(g.FrameType) == w>>10)
		vEnsures("flags", g.Follows == (w&vFollows != 0) && (g.FrameType != 7 || g.Complete == (w&vComplete != 0)))
		p := 6
		if vHasN(g.FrameType) {
			vEnsures("demand", vBE(raw, p, 4) == uint64(g.InitialN))
			p += 4
		}
		if w&vMetadata != 0 {
			vEnsures("metadata", vBE(raw, p, 3) == uint64(len(g.Metadata)) && vHas(raw, p+3, g.Metadata))
			p += 3 + len(g.Metadata)
		} else {
			vEnsures("metadata", len(g.Metadata) == 0)
		}
		vEnsures("data", p+len(g.Data) == len(raw) && vHas(raw, p, g.Data))
	}
}

// The codes are those of the RSocket specification.
//
//verif:prop C02
func H_wire_codes() {
	types := []FrameType{FrameTypeReserved, FrameTypeSetup, FrameTypeLease, FrameTypeKeepalive, FrameTypeRequestResponse, FrameTypeRequestFNF, FrameTypeRequestStream, FrameTypeRequestChannel, FrameTypeRequestN, FrameTypeCancel, FrameTypePayload, FrameTypeError, FrameTypeMetadataPush, FrameTypeResume, FrameTypeResumeOK}
	for i, t := range types {
		vEnsures("frame types", int(t) == i)
	}
	vEnsures("extension type", FrameTypeExt == 0x3f)
	vEnsures("setup errors", ErrCodeInvalidSetup == 1 && ErrCodeUnsupportedSetup == 2 && ErrCodeRejectedSetup == 3 && ErrCodeRejectedResume == 4)
	vEnsures("connection errors", ErrCodeConnectionError == 0x101 && ErrCodeConnectionClose == 0x102)
	vEnsures("stream errors", ErrCodeApplicationError == 0x201 && ErrCodeRejected == 0x202 && ErrCodeCanceled == 0x203 && ErrCodeInvalid == 0x204)
}

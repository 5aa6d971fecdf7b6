//verif:pkg internal/frames
package frames

import "time"

//verif:prop C01
func H_rt_Payload(f Payload, buf []byte) {
	vRequires(vFits(len(f.Metadata), len(f.Data), 0) && f.StreamID <= 0x7fffffff)
	n := int(f.Size())
	vRequires(len(buf) >= n)
	md, data, tail := vSnap(f.Metadata), vSnap(f.Data), vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == FrameTypePayload && f.Type() == FrameTypePayload)
	var g Payload
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("stream", g.StreamID == f.StreamID && g.GetStreamID() == f.StreamID)
	vEnsures("flags", g.Follows == f.Follows && g.Complete == f.Complete && g.Next == f.Next)
	vEnsures("metadata", vEqS(md, g.Metadata))
	vEnsures("data", vEqS(data, g.Data))
	vEnsures("source unchanged", vEqS(md, f.Metadata) && vEqS(data, f.Data))
}

//verif:prop C01
func H_rt_RequestPayload(f RequestPayload, buf []byte) {
	vRequires(vFits(len(f.Metadata), len(f.Data), 0) && f.StreamID <= 0x7fffffff && vIsRequest(f.FrameType))
	n := int(f.Size())
	vRequires(len(buf) >= n)
	md, data, tail := vSnap(f.Metadata), vSnap(f.Data), vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == f.FrameType && f.Type() == f.FrameType)
	var g RequestPayload
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("kind", g.FrameType == f.FrameType && g.Type() == f.FrameType)
	vEnsures("stream", g.StreamID == f.StreamID && g.GetStreamID() == f.StreamID)
	vEnsures("follows", g.Follows == f.Follows)
	if f.FrameType == FrameTypeRequestChannel {
		vEnsures("complete", g.Complete == f.Complete)
	} else {
		vEnsures("complete", g.Complete)
	}
	if vHasN(f.FrameType) {
		vEnsures("demand", g.InitialN == f.InitialN)
	} else {
		vEnsures("demand", g.InitialN == 1)
	}
	vEnsures("metadata", vEqS(md, g.Metadata))
	vEnsures("data", vEqS(data, g.Data))
	vEnsures("source unchanged", vEqS(md, f.Metadata) && vEqS(data, f.Data))
}

//verif:prop C01
func H_rt_RequestN(f RequestN, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff)
	n := int(f.Size())
	vRequires(len(buf) >= n)
	tail := vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == FrameTypeRequestN && f.Type() == FrameTypeRequestN)
	var g RequestN
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("fields", g == f && g.GetStreamID() == f.StreamID)
}

//verif:prop C01
func H_rt_Cancel(f Cancel, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff)
	n := int(f.Size())
	vRequires(len(buf) >= n)
	tail := vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == FrameTypeCancel && f.Type() == FrameTypeCancel)
	var g Cancel
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("fields", g == f && g.GetStreamID() == f.StreamID)
}

//verif:prop C01
func H_rt_Error(f Error, buf []byte) {
	vRequires(f.StreamID <= 0x7fffffff && vFits(0, len(f.Data), 0))
	n := int(f.Size())
	vRequires(len(buf) >= n)
	tail := vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == FrameTypeError && f.Type() == FrameTypeError)
	var g Error
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("fields", g.StreamID == f.StreamID && g.Code == f.Code && g.GetStreamID() == f.StreamID)
	vEnsures("text", g.Data == f.Data)
}

// vSetupFits: the fields a setup frame can express.
func vSetupFits(f *Setup) bool {
	return len(f.Token) <= 0xffff && len(f.MimeMetadata) <= 255 && len(f.MimeData) <= 255 && vFits(len(f.Metadata), len(f.Data), 0)
}

//verif:prop C01
func H_rt_Setup(f Setup, keepalive, lifetime uint32, buf []byte) {
	vRequires(vSetupFits(&f))
	f.TimeBetweenKeepalive = time.Duration(keepalive) * time.Millisecond
	f.MaxLifetime = time.Duration(lifetime) * time.Millisecond
	n := int(f.Size())
	vRequires(len(buf) >= n)
	md, data, token, tail := vSnap(f.Metadata), vSnap(f.Data), vSnap(f.Token), vSnap(buf[n:])
	f.Encode(buf)
	vEnsures("stays in its size", vEqS(tail, buf[n:]))
	h := ParseFrameHeader(buf)
	vEnsures("type", h.Type() == FrameTypeSetup && f.Type() == FrameTypeSetup && f.GetStreamID() == 0)
	var g Setup
	err := g.Decode(&h, buf[FrameHeaderLen:n])
	vEnsures("decodes", err == nil)
	vEnsures("versions", g.MajorVersion == f.MajorVersion && g.MinorVersion == f.MinorVersion)
	vEnsures("intervals", g.TimeBetweenKeepalive == f.TimeBetweenKeepalive && g.MaxLifetime == f.MaxLifetime)
	vEnsures("token", vEqS(token, g.Token))
	vEnsures("metadata type", g.MimeMetadata == f.MimeMetadata)
	vEnsures("data type", g.MimeData == f.MimeData)
	vEnsures("metadata", vEqS(md, g.Metadata))
	vEnsures("data", vEqS(data, g.Data))
	vEnsures("lease", g.Lease == f.Lease)
}

// Frame headers by themselves.
//
//verif:prop C01
func H_rt_Header(id uint32, t FrameType, fg FrameFlag) {
	vRequires(id <= 0x7fffffff && t <= 0x3f && fg <= 0x3ff)
	h := NewFrameHeader(id, t, fg)
	vEnsures("fields", h.StreamID() == id && h.Type() == t && h.Flag() == fg)
	var b [FrameHeaderLen]byte
	ResetFrameHeader(b[:], id, t, fg)
	g := ParseFrameHeader(b[:])
	vEnsures("reset", g == h)
	vEnsures("bytes", vEq(h.Bytes(), b[:]))
}

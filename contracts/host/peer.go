//verif:pkg transport/wasmrs/host
//verif:common
package host

import (
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
)

// VInstance is an instance with these operations whose guest is in the hands of the
// contract.
func VInstance(t operations.Table) *Instance {
	i := vNew(&vGuest{})
	i.operations = t
	return i
}

// VReceive takes a frame from the guest.
func (i *Instance) VReceive(f frames.Frame) { i.recvOne(vEnc(f)) }

// VSent is the next frame for the guest, if there is one.
func (i *Instance) VSent() frames.Frame {
	if len(i.sendCh) == 0 {
		return nil
	}
	return <-i.sendCh
}

//verif:pkg transport/wasmrs/host
package host

import (
	"context"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// VGuardImports: the handlers of the imports are used by several goroutines.
func (i *Instance) VGuardImports() {
	vGuardedAll("the handlers", &i.importedRR, &i.importedRFNF, &i.importedRS, &i.importedRC)
}

// Handlers set for any two operations, with any indices, while requests are looked up.
//
//verif:prop C31
//verif:bounded indices below four
//verif:unroll 5
func H_Handlers(kind int, first, second, wanted uint32) {
	vRequires(kind >= 0 && kind <= 3 && first < 4 && second < 4 && wanted < 4)
	i := vNew(&vGuest{})
	i.VGuardImports()
	ran := 0
	set := func(index uint32, k int) {
		switch kind {
		case 0:
			i.SetRequestResponseHandler(index, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { ran = k; return nil })
		case 1:
			i.SetFireAndForgetHandler(index, func(context.Context, payload.Payload) { ran = k })
		case 2:
			i.SetRequestStreamHandler(index, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { ran = k; return nil })
		case 3:
			i.SetRequestChannelHandler(index, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				ran = k
				return nil
			})
		}
	}
	set(first, 1)
	set(second, 2)
	found := false
	switch kind {
	case 0:
		if h := i.getRequestResponseHandler(wanted); h != nil {
			found = true
			h(nil, nil)
		}
	case 1:
		if h := i.getFireAndForgetHandler(wanted); h != nil {
			found = true
			h(nil, nil)
		}
	case 2:
		if h := i.getRequestStreamHandler(wanted); h != nil {
			found = true
			h(nil, nil)
		}
	case 3:
		if h := i.getRequestChannelHandler(wanted); h != nil {
			found = true
			h(nil, nil, nil)
		}
	}
	switch wanted {
	case second:
		vEnsures("the last handler set", found && ran == 2)
	case first:
		vEnsures("its own handler", found && ran == 1)
	default:
		vEnsures("no other operation has one", !found)
	}
	vEnsures("no lock is kept", vUnlocked())
}

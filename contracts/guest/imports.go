//verif:pkg transport/wasmrs/guest
//verif:common
//verif:replace imports.go
package guest

// What the host imports do outside of WebAssembly: nothing. Here they are the host
// that the contracts observe.

var vHost func(n uint32)

func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) {}

func opList(opPtr uintptr, opSize uint32) {}

func hostSend(nextSendPos uint32) {
	if vHost != nil {
		vHost(nextSendPos)
	}
}

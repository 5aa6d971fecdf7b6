//verif:pkg invoke
package invoke

import (
	"context"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Registering at any number n of earlier registrations takes index n, and leaves
// the earlier ones (here: nil handlers) and their names where they are.

//verif:prop C16
func H_ExportRequestResponse(spare int, infos []HandlerInfo, ns, op, ns2, op2 string, k uint32) {
	infos = vSpare(infos, spare)
	n := len(infos)
	vRequires(n < 1<<31)
	requestResponseHandlers = make([]RequestResponseHandler, n, n+spare)
	requestResponseHandlerInfo = infos
	ran := 0
	ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { ran = 1; return nil })
	ExportRequestResponse(ns2, op2, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { ran = 2; return nil })
	got := GetOperations().Exported.RequestResponse
	vEnsures("one name per handler", len(got) == n+2 && len(requestResponseHandlers) == n+2)
	vEnsures("names", got[n] == HandlerInfo{ns, op} && got[n+1] == HandlerInfo{ns2, op2})
	h := GetRequestResponseHandler(k)
	switch {
	case int(k) < n:
		vEnsures("earlier ones stay", h == nil && got[k] == infos[k])
	case int(k) > n+1:
		vEnsures("no handler behind the last", h == nil)
	default:
		vEnsures("registered", h != nil)
		h(nil, nil)
		vEnsures("its own handler", ran == int(k)-n+1)
	}
}

//verif:prop C16
func H_ExportFireAndForget(spare int, infos []HandlerInfo, ns, op, ns2, op2 string, k uint32) {
	infos = vSpare(infos, spare)
	n := len(infos)
	vRequires(n < 1<<31)
	fireAndForgetHandlers = make([]FireAndForgetHandler, n, n+spare)
	fireAndForgetHandlerInfo = infos
	ran := 0
	ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { ran = 1 })
	ExportFireAndForget(ns2, op2, func(context.Context, payload.Payload) { ran = 2 })
	got := GetOperations().Exported.FireAndForget
	vEnsures("one name per handler", len(got) == n+2 && len(fireAndForgetHandlers) == n+2)
	vEnsures("names", got[n] == HandlerInfo{ns, op} && got[n+1] == HandlerInfo{ns2, op2})
	h := GetFireAndForgetHandler(k)
	switch {
	case int(k) < n:
		vEnsures("earlier ones stay", h == nil && got[k] == infos[k])
	case int(k) > n+1:
		vEnsures("no handler behind the last", h == nil)
	default:
		vEnsures("registered", h != nil)
		h(nil, nil)
		vEnsures("its own handler", ran == int(k)-n+1)
	}
}

//verif:prop C16
func H_ExportRequestStream(spare int, infos []HandlerInfo, ns, op, ns2, op2 string, k uint32) {
	infos = vSpare(infos, spare)
	n := len(infos)
	vRequires(n < 1<<31)
	requestStreamHandlers = make([]RequestStreamHandler, n, n+spare)
	requestStreamHandlerInfo = infos
	ran := 0
	ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { ran = 1; return nil })
	ExportRequestStream(ns2, op2, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { ran = 2; return nil })
	got := GetOperations().Exported.RequestStream
	vEnsures("one name per handler", len(got) == n+2 && len(requestStreamHandlers) == n+2)
	vEnsures("names", got[n] == HandlerInfo{ns, op} && got[n+1] == HandlerInfo{ns2, op2})
	h := GetRequestStreamHandler(k)
	switch {
	case int(k) < n:
		vEnsures("earlier ones stay", h == nil && got[k] == infos[k])
	case int(k) > n+1:
		vEnsures("no handler behind the last", h == nil)
	default:
		vEnsures("registered", h != nil)
		h(nil, nil)
		vEnsures("its own handler", ran == int(k)-n+1)
	}
}

//verif:prop C16
func H_ExportRequestChannel(spare int, infos []HandlerInfo, ns, op, ns2, op2 string, k uint32) {
	infos = vSpare(infos, spare)
	n := len(infos)
	vRequires(n < 1<<31)
	requestChannelHandlers = make([]RequestChannelHandler, n, n+spare)
	requestChannelHandlerInfo = infos
	ran := 0
	ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		ran = 1
		return nil
	})
	ExportRequestChannel(ns2, op2, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		ran = 2
		return nil
	})
	got := GetOperations().Exported.RequestChannel
	vEnsures("one name per handler", len(got) == n+2 && len(requestChannelHandlers) == n+2)
	vEnsures("names", got[n] == HandlerInfo{ns, op} && got[n+1] == HandlerInfo{ns2, op2})
	h := GetRequestChannelHandler(k)
	switch {
	case int(k) < n:
		vEnsures("earlier ones stay", h == nil && got[k] == infos[k])
	case int(k) > n+1:
		vEnsures("no handler behind the last", h == nil)
	default:
		vEnsures("registered", h != nil)
		h(nil, nil, nil)
		vEnsures("its own handler", ran == int(k)-n+1)
	}
}

func vImport(kind int, ns, op string) uint32 {
	switch kind {
	case 1:
		return ImportRequestResponse(ns, op)
	case 2:
		return ImportFireAndForget(ns, op)
	case 3:
		return ImportRequestStream(ns, op)
	}
	return ImportRequestChannel(ns, op)
}

func vImports(kind int, h Handlers) []HandlerInfo {
	switch kind {
	case 1:
		return h.RequestResponse
	case 2:
		return h.FireAndForget
	case 3:
		return h.RequestStream
	}
	return h.RequestChannel
}

func vKind(n int) int {
	switch n {
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	}
	return 4
}

// vTables sets the four import lists to arbitrary contents; the one of the kind is returned.
// vSpare is the list with room for n more behind it.
func vSpare(l []HandlerInfo, n int) []HandlerInfo {
	vRequires(0 <= n && n <= len(l))
	return l[:len(l)-n]
}

func vTables(kind, spare int, a, b, c, d []HandlerInfo) []HandlerInfo {
	switch kind {
	case 1:
		a = vSpare(a, spare)
	case 2:
		b = vSpare(b, spare)
	case 3:
		c = vSpare(c, spare)
	default:
		d = vSpare(d, spare)
	}
	requestResponseImports, requestFNFImports, requestStreamImports, requestChannelImports = a, b, c, d
	old := vImports(kind, Handlers{a, b, c, d})
	vRequires(len(old) < 1<<31)
	return old
}

//verif:prop C16
func H_ImportRequestResponse(spare int, a, b, c, d []HandlerInfo, ns, op string, k int) {
	old := vTables(1, spare, a, b, c, d)
	id := vImport(1, ns, op)
	list := vImports(1, GetOperations().Imported)
	vEnsures("advertised under its index", int(id) < len(list) && list[id] == HandlerInfo{ns, op})
	if 0 <= k && k < len(old) {
		vEnsures("earlier ones stay", k < len(list) && list[k] == old[k])
		vEnsures("the first of its name", k >= int(id) || list[k].Namespace != ns || list[k].Operation != op)
	}
}

//verif:prop C16
func H_ImportRequestResponseAnother(spare int, a, b, c, d []HandlerInfo, ns, op, ns2, op2 string) {
	vTables(1, spare, a, b, c, d)
	id := vImport(1, ns, op)
	id2 := vImport(1, ns2, op2)
	list := vImports(1, GetOperations().Imported)
	vEnsures("second advertised under its index", int(id2) < len(list) && list[id2] == HandlerInfo{ns2, op2})
	vEnsures("first still is", list[id] == HandlerInfo{ns, op})
	vEnsures("different operations have different indexes", ns == ns2 && op == op2 || id != id2)
}

//verif:prop C16
func H_ImportFireAndForget(spare int, a, b, c, d []HandlerInfo, ns, op string, k int) {
	old := vTables(2, spare, a, b, c, d)
	id := vImport(2, ns, op)
	list := vImports(2, GetOperations().Imported)
	vEnsures("advertised under its index", int(id) < len(list) && list[id] == HandlerInfo{ns, op})
	if 0 <= k && k < len(old) {
		vEnsures("earlier ones stay", k < len(list) && list[k] == old[k])
		vEnsures("the first of its name", k >= int(id) || list[k].Namespace != ns || list[k].Operation != op)
	}
}

//verif:prop C16
func H_ImportFireAndForgetAnother(spare int, a, b, c, d []HandlerInfo, ns, op, ns2, op2 string) {
	vTables(2, spare, a, b, c, d)
	id := vImport(2, ns, op)
	id2 := vImport(2, ns2, op2)
	list := vImports(2, GetOperations().Imported)
	vEnsures("second advertised under its index", int(id2) < len(list) && list[id2] == HandlerInfo{ns2, op2})
	vEnsures("first still is", list[id] == HandlerInfo{ns, op})
	vEnsures("different operations have different indexes", ns == ns2 && op == op2 || id != id2)
}

//verif:prop C16
func H_ImportRequestStream(spare int, a, b, c, d []HandlerInfo, ns, op string, k int) {
	old := vTables(3, spare, a, b, c, d)
	id := vImport(3, ns, op)
	list := vImports(3, GetOperations().Imported)
	vEnsures("advertised under its index", int(id) < len(list) && list[id] == HandlerInfo{ns, op})
	if 0 <= k && k < len(old) {
		vEnsures("earlier ones stay", k < len(list) && list[k] == old[k])
		vEnsures("the first of its name", k >= int(id) || list[k].Namespace != ns || list[k].Operation != op)
	}
}

//verif:prop C16
func H_ImportRequestStreamAnother(spare int, a, b, c, d []HandlerInfo, ns, op, ns2, op2 string) {
	vTables(3, spare, a, b, c, d)
	id := vImport(3, ns, op)
	id2 := vImport(3, ns2, op2)
	list := vImports(3, GetOperations().Imported)
	vEnsures("second advertised under its index", int(id2) < len(list) && list[id2] == HandlerInfo{ns2, op2})
	vEnsures("first still is", list[id] == HandlerInfo{ns, op})
	vEnsures("different operations have different indexes", ns == ns2 && op == op2 || id != id2)
}

//verif:prop C16
func H_ImportRequestChannel(spare int, a, b, c, d []HandlerInfo, ns, op string, k int) {
	old := vTables(4, spare, a, b, c, d)
	id := vImport(4, ns, op)
	list := vImports(4, GetOperations().Imported)
	vEnsures("advertised under its index", int(id) < len(list) && list[id] == HandlerInfo{ns, op})
	if 0 <= k && k < len(old) {
		vEnsures("earlier ones stay", k < len(list) && list[k] == old[k])
		vEnsures("the first of its name", k >= int(id) || list[k].Namespace != ns || list[k].Operation != op)
	}
}

//verif:prop C16
func H_ImportRequestChannelAnother(spare int, a, b, c, d []HandlerInfo, ns, op, ns2, op2 string) {
	vTables(4, spare, a, b, c, d)
	id := vImport(4, ns, op)
	id2 := vImport(4, ns2, op2)
	list := vImports(4, GetOperations().Imported)
	vEnsures("second advertised under its index", int(id2) < len(list) && list[id2] == HandlerInfo{ns2, op2})
	vEnsures("first still is", list[id] == HandlerInfo{ns, op})
	vEnsures("different operations have different indexes", ns == ns2 && op == op2 || id != id2)
}

// Importing an operation that is in the list answers with the first index of its
// name, which is the index its first import was given.

//verif:prop C16
func H_ImportRequestResponseAgain(spare int, a, b, c, d []HandlerInfo, ns, op string, id int) {
	old := vTables(1, spare, a, b, c, d)
	vRequires(0 <= id && id < len(old) && old[id] == HandlerInfo{ns, op})
	vRequires(vForall(0, id, func(j int) bool { return old[j].Namespace != ns || old[j].Operation != op }))
	vEnsures("the same index", int(vImport(1, ns, op)) == id)
	vEnsures("nothing added", len(vImports(1, GetOperations().Imported)) == len(old))
}

//verif:prop C16
func H_ImportFireAndForgetAgain(spare int, a, b, c, d []HandlerInfo, ns, op string, id int) {
	old := vTables(2, spare, a, b, c, d)
	vRequires(0 <= id && id < len(old) && old[id] == HandlerInfo{ns, op})
	vRequires(vForall(0, id, func(j int) bool { return old[j].Namespace != ns || old[j].Operation != op }))
	vEnsures("the same index", int(vImport(2, ns, op)) == id)
	vEnsures("nothing added", len(vImports(2, GetOperations().Imported)) == len(old))
}

//verif:prop C16
func H_ImportRequestStreamAgain(spare int, a, b, c, d []HandlerInfo, ns, op string, id int) {
	old := vTables(3, spare, a, b, c, d)
	vRequires(0 <= id && id < len(old) && old[id] == HandlerInfo{ns, op})
	vRequires(vForall(0, id, func(j int) bool { return old[j].Namespace != ns || old[j].Operation != op }))
	vEnsures("the same index", int(vImport(3, ns, op)) == id)
	vEnsures("nothing added", len(vImports(3, GetOperations().Imported)) == len(old))
}

//verif:prop C16
func H_ImportRequestChannelAgain(spare int, a, b, c, d []HandlerInfo, ns, op string, id int) {
	old := vTables(4, spare, a, b, c, d)
	vRequires(0 <= id && id < len(old) && old[id] == HandlerInfo{ns, op})
	vRequires(vForall(0, id, func(j int) bool { return old[j].Namespace != ns || old[j].Operation != op }))
	vEnsures("the same index", int(vImport(4, ns, op)) == id)
	vEnsures("nothing added", len(vImports(4, GetOperations().Imported)) == len(old))
}

//verif:prop C16
func H_Table(e1, e2, e3, e4, i1, i2, i3, i4 []HandlerInfo, kind int, imp bool, k int) {
	for _, l := range [][]HandlerInfo{e1, e2, e3, e4, i1, i2, i3, i4} {
		vRequires(len(l) < 1<<28)
	}
	requestResponseHandlerInfo, fireAndForgetHandlerInfo, requestStreamHandlerInfo, requestChannelHandlerInfo = e1, e2, e3, e4
	requestResponseImports, requestFNFImports, requestStreamImports, requestChannelImports = i1, i2, i3, i4
	vRequires(kind >= 1 && kind <= 4)
	kind = vKind(kind)
	t := GetOperationsTable()
	vEnsures("every operation once", len(t) == len(e1)+len(e2)+len(e3)+len(e4)+len(i1)+len(i2)+len(i3)+len(i4))
	l := vImports(kind, Handlers{e1, e2, e3, e4})
	dir := operations.Export
	at := 0
	for i := 1; i < kind; i++ {
		at += len(vImports(i, Handlers{e1, e2, e3, e4}))
	}
	if imp {
		l = vImports(kind, Handlers{i1, i2, i3, i4})
		dir = operations.Import
		at = len(e1) + len(e2) + len(e3) + len(e4)
		for i := 1; i < kind; i++ {
			at += len(vImports(i, Handlers{i1, i2, i3, i4}))
		}
	}
	if 0 <= k && k < len(l) {
		o := t[at+k]
		vEnsures("index, kind and direction", o.Index == uint32(k) && o.Type == operations.RequestType(kind) && o.Direction == dir)
		vEnsures("names", o.Namespace == l[k].Namespace && o.Operation == l[k].Operation)
	}
}

// At first nothing is registered, so that the tables of handlers and of their names,
// which grow together, match from the start.
//
//verif:prop C16
func H_Initial() {
	vEnsures("nothing is advertised", len(GetOperationsTable()) == 0)
	vEnsures("no handler of a request", len(requestResponseHandlers) == 0 && GetRequestResponseHandler(0) == nil)
	vEnsures("no handler of a fire and forget", len(fireAndForgetHandlers) == 0 && GetFireAndForgetHandler(0) == nil)
	vEnsures("no handler of a stream", len(requestStreamHandlers) == 0 && GetRequestStreamHandler(0) == nil)
	vEnsures("no handler of a channel", len(requestChannelHandlers) == 0 && GetRequestChannelHandler(0) == nil)
}

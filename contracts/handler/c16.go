//verif:pkg handler
package handler

import (
	"github.com/nanobus/iota/go/operations"
)

func vImport(h *Handler, kind operations.RequestType, ns, op string) uint32 {
	switch kind {
	case operations.RequestResponse:
		return h.ImportRequestResponse(ns, op)
	case operations.FireAndForget:
		return h.ImportFireAndForget(ns, op)
	case operations.RequestStream:
		return h.ImportRequestStream(ns, op)
	}
	return h.ImportRequestChannel(ns, op)
}

func vIs(o operations.Operation, kind operations.RequestType, ns, op string) bool {
	return vAnd(vAnd(o.Direction == operations.Export, o.Type == kind), vAnd(o.Namespace == ns, o.Operation == op))
}

// An import has the index of the operation the other side exports, whatever else is in its table.
//
//verif:prop C16
func H_Import(table operations.Table, kind operations.RequestType, ns, op string, k int) {
	vRequires(kind >= 1 && kind <= 4 && k >= 0 && k < len(table))
	vRequires(vIs(table[k], kind, ns, op))
	vRequires(vForall(0, k, func(i int) bool { return !vIs(table[i], kind, ns, op) }))
	vRequires(vForall(k+1, len(table), func(i int) bool { return !vIs(table[i], kind, ns, op) }))
	h := &Handler{opTable: table}
	vEnsures("the index of the export", vImport(h, kind, ns, op) == table[k].Index)
}

// Without such an operation it has index 0.
//
//verif:prop C16
func H_ImportAbsent(table operations.Table, kind operations.RequestType, ns, op string) {
	vRequires(kind >= 1 && kind <= 4)
	vRequires(vForall(0, len(table), func(i int) bool { return !vIs(table[i], kind, ns, op) }))
	h := &Handler{opTable: table}
	vEnsures("none", vImport(h, kind, ns, op) == 0)
}

// Two operations in the table.
//
//verif:prop C16
//verif:bounded a table of two operations
func H_ImportTwo(a, b operations.Operation, kind operations.RequestType, ns, op string) {
	vRequires(kind >= 1 && kind <= 4)
	h := &Handler{opTable: operations.Table{a, b}}
	got := vImport(h, kind, ns, op)
	is, isToo := vIs(a, kind, ns, op), vIs(b, kind, ns, op)
	vRequires(!is || !isToo)
	switch {
	case is:
		vEnsures("the first", got == a.Index)
	case isToo:
		vEnsures("the second", got == b.Index)
	default:
		vEnsures("none", got == 0)
	}
}

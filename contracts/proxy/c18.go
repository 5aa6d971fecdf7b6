//verif:pkg proxy
package proxy

import (
	"context"
	"sync"

	"github.com/nanobus/iota/go/payload"
)

type vStream struct{ id uint32 }

func (s *vStream) Context() context.Context { return nil }
func (s *vStream) StreamID() uint32         { return s.id }
func (s *vStream) OnNext(p payload.Payload) {}
func (s *vStream) OnComplete()              {}
func (s *vStream) OnError(err error)        {}

// vIs: the table answers for id with s, or with nothing when s is nil.
func vIs(l *Lookup, id uint32, s *vStream) bool {
	n := vSections(&l.mu)
	got, ok := l.Get(id)
	vEnsures("looked up in one step", vSections(&l.mu)-n <= 1)
	if s == nil {
		return !ok && got == nil
	}
	return ok && got == Stream(s)
}

func vGuard(l *Lookup) { vGuarded("the stream table", &l.mu, &l.head, &l.tail, &l.count) }

// The table agrees with its abstract map before and after the operations.
func vTable(l *Lookup, k uint32, ids []uint32, ss []*vStream) {
	var want *vStream
	n := 0
	for i := range ids {
		if ss[i] != nil {
			n++
			if ids[i] == k {
				want = ss[i]
			}
		}
	}
	vEnsures("lookup", vIs(l, k, want))
	vEnsures("size", l.Size() == n && l.IsEmpty() == (n == 0))
	vEnsures("unlocked", vUnlocked())
}

// vEach turns n into a constant, one case after the other.
func vEach(n int) int {
	switch n {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	}
	return 4
}

func vAdd(l *Lookup, ids *[]uint32, ss *[]*vStream, id uint32) {
	for i, x := range *ids {
		vRequires((*ss)[i] == nil || x != id)
	}
	s := &vStream{id: id}
	k := vSections(&l.mu)
	l.Add(s)
	vEnsures("registered in one step", vSections(&l.mu)-k <= 1)
	*ids = append(*ids, id)
	*ss = append(*ss, s)
}

func vRemove(l *Lookup, ids []uint32, ss []*vStream, id uint32) {
	n := vSections(&l.mu)
	l.Remove(id)
	vEnsures("removed in one step", vSections(&l.mu)-n <= 1)
	for i, x := range ids {
		if x == id {
			ss[i] = nil
		}
	}
}

//verif:prop C18
//verif:bounded tables of at most 4 streams
func H_RemoveOne(n int, a, b, c, d, r, k uint32) {
	vRequires(n >= 0 && n <= 4)
	n = vEach(n)
	var l Lookup
	vGuard(&l)
	var ids []uint32
	var ss []*vStream
	for i := 0; i < n; i++ {
		vAdd(&l, &ids, &ss, []uint32{a, b, c, d}[i])
	}
	vTable(&l, k, ids, ss)
	vRemove(&l, ids, ss, r)
	vTable(&l, k, ids, ss)
}

//verif:prop C18
//verif:bounded tables of at most 3 streams, two removals, two registrations
func H_RemoveTwoAddTwo(n int, a, b, c, r, q, d, e, k uint32) {
	vRequires(n >= 0 && n <= 3)
	n = vEach(n)
	var l Lookup
	vGuard(&l)
	var ids []uint32
	var ss []*vStream
	for i := 0; i < n; i++ {
		vAdd(&l, &ids, &ss, []uint32{a, b, c}[i])
	}
	vRemove(&l, ids, ss, r)
	vAdd(&l, &ids, &ss, d)
	vRemove(&l, ids, ss, q)
	vAdd(&l, &ids, &ss, e)
	vTable(&l, k, ids, ss)
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C18
//verif:stress
func R_Lookup() {
	var l Lookup
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	check := func(name string, ok bool) {
		if !ok {
			select {
			case bad <- name:
			default:
			}
		}
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				s := &vStream{id: uint32(1000*w + i)}
				l.Add(s)
				got, ok := l.Get(s.id)
				check("lookup", ok && got == Stream(s))
				check("size", l.Size() > 0 && !l.IsEmpty())
				l.Remove(s.id)
				_, ok = l.Get(s.id)
				check("removed", !ok)
			}
		}(w)
	}
	wg.Wait()
	check("empty", l.Size() == 0 && l.IsEmpty())
	select {
	case name := <-bad:
		vEnsures(name, false)
	default:
	}
}

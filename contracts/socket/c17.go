//verif:pkg internal/socket
package socket

import "sync"

// Other goroutines take ids at any time: the counter only grows, by fewer than
// 2^29 during one call. Every step of the code under contract grows it too.
func vRely(start uint64) func(old, new uint64) bool {
	return func(old, new uint64) bool { return old <= new && new < start+1<<29 }
}
func vGrow(old, new uint64) bool { return new > old && new-old <= 1<<20 }

//verif:prop C17
func H_Server(start uint64) {
	vRequires(start < 1<<62)
	p := ServerStreamIDs(start)
	vShared((*uint64)(&p), vRely(start), vGrow)
	id, _ := p.Next()
	vEnsures("not zero", id != 0)
	vEnsures("31 bits", id < 1<<31)
	vEnsures("even", id%2 == 0)
	vEnsures("takes a number", vWritten((*uint64)(&p)) > start)
}

//verif:prop C17
func H_Client(start uint64) {
	vRequires(start < 1<<62)
	p := ClientStreamIDs(start)
	vShared((*uint64)(&p), vRely(start), vGrow)
	id, _ := p.Next()
	vEnsures("31 bits", id < 1<<31)
	vEnsures("odd", id%2 == 1)
	vEnsures("takes a number", vWritten((*uint64)(&p)) > start)
}

// The numbers taken by two calls differ (each is the counter right after a step
// that grew it); ids of numbers less than a whole id space apart differ too.
//
//verif:prop C17
func H_ServerUnique(start, other uint64) {
	vRequires(start < 1<<62 && other < 1<<62)
	p, q := ServerStreamIDs(start), ServerStreamIDs(other)
	vShared((*uint64)(&p), vRely(start), vGrow)
	vShared((*uint64)(&q), vRely(other), vGrow)
	a, _ := p.Next()
	b, _ := q.Next()
	x, y := vWritten((*uint64)(&p)), vWritten((*uint64)(&q))
	if x < y && y-x < 1<<30 {
		vEnsures("different ids", a != b)
	}
}

//verif:prop C17
func H_ClientUnique(start, other uint64) {
	vRequires(start < 1<<62 && other < 1<<62)
	p, q := ClientStreamIDs(start), ClientStreamIDs(other)
	vShared((*uint64)(&p), vRely(start), vGrow)
	vShared((*uint64)(&q), vRely(other), vGrow)
	a, _ := p.Next()
	b, _ := q.Next()
	x, y := vWritten((*uint64)(&p)), vWritten((*uint64)(&q))
	if x < y && y-x < 1<<30 {
		vEnsures("different ids", a != b)
	}
}

// Without interference: from the first id on, every id space is used up in order.
//
//verif:prop C17
func H_First() {
	var s ServerStreamIDs
	var c ClientStreamIDs
	a, f := s.Next()
	vEnsures("server starts with 2", a == 2 && f)
	a, f = c.Next()
	vEnsures("client starts with 1", a == 1 && f)
}

//verif:prop C17
func H_WholeSpace(start uint64) {
	vRequires(start < 1<<62)
	s, c := ServerStreamIDs(start), ClientStreamIDs(start)
	a, _ := s.Next()
	b, _ := s.Next()
	vEnsures("the next even id, around the end", b == a+2 || a == 1<<31-2 && b == 2)
	a, _ = c.Next()
	b, _ = c.Next()
	vEnsures("the next odd id, around the end", b == a+2 || a == 1<<31-1 && b == 1)
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C17
//verif:stress
func R_Next() {
	var s ServerStreamIDs
	var c ClientStreamIDs
	const workers, each = 8, 200
	var got [2 * workers][]uint32
	var wg sync.WaitGroup
	for w := 0; w < 2*workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				var id uint32
				if w%2 == 0 {
					id, _ = s.Next()
				} else {
					id, _ = c.Next()
				}
				got[w] = append(got[w], id)
			}
		}(w)
	}
	wg.Wait()
	seen := map[uint32]bool{}
	for _, l := range got {
		for _, id := range l {
			vEnsures("not zero", id != 0)
			vEnsures("different ids", !seen[id])
			seen[id] = true
		}
	}
}

//verif:pkg internal/buffer
package buffer

import "sync"

// vQueue is a queue in any state its operations can reach: the items not yet read
// are the one in the channel (when full) and then the backlog.
func vQueue(full bool, first int, backlog []int, disposed bool) *Unbounded[int] {
	b := NewUnbounded[int]()
	if full {
		b.c <- first
	}
	b.backlog = backlog
	b.disposed = disposed
	if disposed && len(backlog) == 0 {
		close(b.c)
	}
	vGuarded("the queue", &b.mu, &b.backlog, &b.disposed, b.c)
	return b
}

// vItem is what the reader gets from the channel next.
func vItem(b *Unbounded[int]) (item int, has, end bool) {
	select {
	case v, ok := <-b.Get():
		if !ok {
			return 0, false, true
		}
		return v, true, false
	default:
		return 0, false, false
	}
}

func vSameInts(a, b []int) bool {
	return vAnd(len(a) == len(b), vForall(0, len(a), func(i int) bool { return a[i] == b[i] }))
}

func vCopyInts(a []int) []int { return append([]int{}, a...) }

// Sending appends the item to what is waiting and never blocks.
//
//verif:prop C19
func H_Put(full bool, first int, backlog []int, disposed bool, t int) {
	was := vCopyInts(backlog)
	b := vQueue(full, first, backlog, disposed)
	ok := b.Put(t)
	vEnsures("in one step", vSections(&b.mu) <= 1)
	vEnsures("unlocked", vUnlocked())
	vEnsures("refused only after close", ok == !disposed)
	rest := vCopyInts(b.backlog)
	v, has, end := vItem(b)
	vEnsures("close is as it was", !end || disposed)
	if !ok {
		vEnsures("channel as it was", has == full && (!full || v == first))
		vEnsures("backlog as it was", vSameInts(rest, was))
		return
	}
	switch {
	case full:
		vEnsures("the first item stays first", has && v == first)
		vEnsures("the item joins the end of the backlog", len(rest) == len(was)+1 && rest[len(was)] == t && vSameInts(rest[:len(was)], was))
	case len(was) > 0:
		vEnsures("nothing overtakes the backlog", !has)
		vEnsures("the item joins the end of the backlog", len(rest) == len(was)+1 && rest[len(was)] == t && vSameInts(rest[:len(was)], was))
	default:
		vEnsures("the item is next", has && v == t && len(rest) == 0)
	}
}

// After reading an item the reader calls Load: the next item becomes available.
//
//verif:prop C19
func H_Load(full bool, first int, backlog []int, disposed bool) {
	was := vCopyInts(backlog)
	b := vQueue(full, first, backlog, disposed)
	b.Load()
	vEnsures("in one step", vSections(&b.mu) <= 1)
	vEnsures("unlocked", vUnlocked())
	rest := vCopyInts(b.backlog)
	v, has, end := vItem(b)
	if full {
		vEnsures("the first item stays first", has && v == first)
		vEnsures("the rest stays", vSameInts(rest, was))
		return
	}
	if len(was) > 0 {
		vEnsures("the oldest item is next", has && v == was[0])
		vEnsures("the rest stays in order", vSameInts(rest, was[1:]))
		return
	}
	vEnsures("nothing to read", !has && len(rest) == 0)
	vEnsures("the end is reported exactly after close", end == disposed)
}

// Closing keeps what is waiting; the end is only reported after it.
//
//verif:prop C19
func H_Dispose(full bool, first int, backlog []int, disposed bool, t int) {
	was := vCopyInts(backlog)
	b := vQueue(full, first, backlog, disposed)
	b.Dispose()
	vEnsures("in one step", vSections(&b.mu) <= 1)
	vEnsures("unlocked", vUnlocked())
	vEnsures("nothing is accepted after close", !b.Put(t))
	rest := vCopyInts(b.backlog)
	v, has, end := vItem(b)
	vEnsures("the first item stays first", has == full && (!full || v == first))
	vEnsures("the rest stays", vSameInts(rest, was))
	vEnsures("the end is reported when nothing is left", end == (!full && len(was) == 0))
	if full {
		_, has, end = vItem(b)
		vEnsures("the end follows the last item", !has && end == (len(was) == 0))
	}
}

// Operations from an empty queue to its end, with the reader in between.
//
//verif:prop C19
//verif:bounded three items
func H_Drain(x, y, z int, readEarly bool) {
	b := NewUnbounded[int]()
	got := []int{}
	read := func() bool {
		v, has, end := vItem(b)
		if has {
			got = append(got, v)
			b.Load()
		}
		return end
	}
	vEnsures("sent", b.Put(x) && b.Put(y))
	if readEarly {
		vEnsures("not the end", !read())
	}
	vEnsures("sent too", b.Put(z))
	b.Dispose()
	for !read() {
	}
	vEnsures("every item once and in order", len(got) == 3 && got[0] == x && got[1] == y && got[2] == z)
}

// Concurrent use on the real code, run when an obligation above has failed: every
// item arrives once, those of one sender in their order, then the end.
//
//verif:prop C19
//verif:stress
func R_Queue() {
	b := NewUnbounded[int]()
	const workers, each = 4, 100
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				b.Put(w*each + i)
			}
		}(w)
	}
	next := [workers]int{}
	for n := 0; n < workers*each; n++ {
		v, ok := <-b.Get()
		vEnsures("arrives", ok)
		b.Load()
		vEnsures("in order, once", v%each == next[v/each])
		next[v/each]++
	}
	wg.Wait()
	_, has, end := vItem(b)
	vEnsures("nothing else", !has && !end)
}

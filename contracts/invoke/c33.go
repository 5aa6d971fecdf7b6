//verif:pkg invoke
package invoke

import (
	"sync"
	"sync/atomic"
)

// vHolds: the table answers id with want, or with nothing when there is no want.
func vHolds(t *LiveInstances[string], id uint64, has bool, want string) bool {
	n := vSections(&t.mu)
	got, ok := t.Get(id)
	vEnsures("looked up in one step", vSections(&t.mu)-n <= 1)
	return ok == has && (!has || got == want)
}

//verif:prop C33
//verif:bounded histories of two or three stores, lookups and removals in between
func H_Instances(a, b, c string, id uint64, removeB bool) {
	t := NewLiveInstances[string]()
	vGuarded("the instance table", &t.mu, t.instances)
	vEnsures("empty", vHolds(t, id, false, ""))
	n := vSections(&t.mu)
	p := t.Put(a)
	vEnsures("stored in one step", vSections(&t.mu)-n <= 1)
	vEnsures("stored", vHolds(t, p, true, a))
	vEnsures("unknown", id == p || vHolds(t, id, false, ""))
	q := t.Put(b)
	vEnsures("different ids", p != q)
	vEnsures("both stored", vHolds(t, p, true, a) && vHolds(t, q, true, b))
	n = vSections(&t.mu)
	_, ok := t.Remove(id)
	vEnsures("removed in one step", vSections(&t.mu)-n <= 1)
	vEnsures("unknown is not removed", ok == (id == p || id == q))
	vEnsures("only that one removed", vHolds(t, p, id != p, a) && vHolds(t, q, id != q, b))
	r := t.Put(c)
	vEnsures("different from what is stored", (id == p || r != p) && (id == q || r != q))
	vEnsures("stored next to the others", vHolds(t, r, true, c) && (r == p || vHolds(t, p, id != p, a)) && (r == q || vHolds(t, q, id != q, b)))
	z := p
	if removeB {
		z = q
	}
	got, ok := t.Remove(z)
	vEnsures("removal returns it", ok == (id != z) && (!ok || got == a && !removeB || got == b && removeB))
	vEnsures("gone", vHolds(t, z, false, ""))
	got, ok = t.Remove(z)
	vEnsures("not twice", !ok && got == "")
	vEnsures("last one stays", vHolds(t, r, true, c))
	vEnsures("unlocked", vUnlocked())
}

// Instances that hold nothing are different instances, too.
//
//verif:prop C33
//verif:bounded histories of two stores
func H_Nothing(first bool) {
	t := NewLiveInstances[struct{}]()
	p := t.Put(struct{}{})
	q := t.Put(struct{}{})
	vEnsures("different ids", p != q)
	r, s := p, q
	if !first {
		r, s = q, p
	}
	_, ok := t.Remove(r)
	vEnsures("removed", ok)
	_, ok = t.Get(r)
	vEnsures("gone", !ok)
	_, ok = t.Get(s)
	vEnsures("the other one stays", ok)
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C33
//verif:stress
func R_Instances() {
	t := NewLiveInstances[string]()
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	check := func(name string, ok bool) {
		if !ok {
			select {
			case bad <- name:
			default:
			}
		}
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			name := string(rune('a' + w))
			for i := 0; i < 100; i++ {
				id := t.Put(name)
				got, ok := t.Get(id)
				check("stored", ok && got == name)
				got, ok = t.Remove(id)
				check("removed", ok && got == name)
				_, ok = t.Get(0)
				check("unknown", !ok)
			}
		}(w)
	}
	// every instance is removed exactly once
	ids := make([]uint64, 64)
	for i := range ids {
		ids[i] = t.Put("x")
	}
	var removed int64
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, id := range ids {
				if _, ok := t.Remove(id); ok {
					atomic.AddInt64(&removed, 1)
				}
			}
		}()
	}
	wg.Wait()
	check("removed once", removed == int64(len(ids)))
	select {
	case name := <-bad:
		vEnsures(name, false)
	default:
	}
}

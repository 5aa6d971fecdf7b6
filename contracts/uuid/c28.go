//verif:pkg types/uuid
package uuid

import (
	"io"
	"sync"
)

func vpSame(i int, u, raw byte) bool {
	switch i {
	case 6:
		return u == 0x40|raw&0x0f
	case 8:
		return u == 0x80|raw&0x3f
	}
	return u == raw
}

// vMade: u is the version 4 UUID of the 16 random bytes at p.
func vMade(u UUID, src []byte, p int) bool {
	ok := true
	for i := 0; i < 16; i++ {
		ok = vAnd(ok, vpSame(i, u[i], src[p+i]))
	}
	return ok
}

//verif:prop C28
func H_FromReader(src []byte, pos, short int) {
	vRequires(pos >= 0 && short >= 0 && len(src) >= pos && len(src)-pos >= 32)
	r := &vSource{src: src, pos: pos, short: short}
	u, err := NewRandomFromReader(r)
	vEnsures("no error", err == nil)
	vEnsures("version and variant", u.Version() == 4 && u.Variant() == RFC4122)
	vEnsures("random bits", vMade(u, src, pos))
	vEnsures("consumed", r.pos == pos+16)
	w, err := NewRandomFromReader(r)
	vEnsures("next", err == nil && vMade(w, src, pos+16) && r.pos == pos+32)
	r.fail = true
	w, err = NewRandomFromReader(r)
	vEnsures("failure", err != nil && w == UUID{})
}

//verif:prop C28
func H_New(src []byte, pos, short int, str bool) {
	vRequires(pos >= 0 && short >= 0 && len(src) >= pos && len(src)-pos >= 48)
	r := &vSource{src: src, pos: pos, short: short}
	SetRand(r)
	DisableRandPool()
	var u UUID
	if str {
		u = MustParse(NewString())
	} else {
		u = New()
	}
	vEnsures("version and variant", u.Version() == 4 && u.Variant() == RFC4122)
	vEnsures("random bits", vMade(u, src, pos))
	w := New()
	vEnsures("next", vMade(w, src, pos+16) && r.pos == pos+32)
	r.fail = true
	w, err := NewRandom()
	vEnsures("failure", err != nil && w == UUID{})
	SetRand(nil)
}

// vPoolInv: the pool position is where newRandomFromPool leaves it.
func vPoolInv() bool { return poolPos >= 0 && poolPos <= randPoolSize && poolPos%16 == 0 }

// The pool holds the random bytes drawn from base on, of which the first poolPos are used up.
func vPooled(src []byte, base int) bool {
	return vForall(poolPos, randPoolSize, func(i int) bool { return pool[i] == src[base+i] })
}

//verif:prop C28
func H_PoolStep(src []byte, base, short, at int) {
	// an arbitrary reachable pool: any position, the unused bytes are those of the source
	vRequires(base >= 0 && short >= 0 && len(src) >= base && len(src)-base >= 2*randPoolSize)
	r := &vSource{src: src, pos: base, short: short}
	rander = io.Reader(r)
	DisableRandPool()
	vEnsures("disabling drops the pool", poolPos == randPoolSize)
	EnableRandPool()
	if at >= 0 {
		vRequires(at <= randPoolSize && at%16 == 0)
		r.pos += randPoolSize
		copy(pool[:], src[base:base+randPoolSize])
		poolPos = at
	} else {
		poolPos = randPoolSize
	}
	vGuarded("the pool", &poolMu, &poolPos, &pool)
	want := base + at
	if at < 0 {
		want = base
	}
	r0 := r.pos
	filled := poolPos == randPoolSize
	locked := vSections(&poolMu)
	u, err := NewRandom()
	vEnsures("bytes are taken in one step", vSections(&poolMu)-locked <= 1)
	vEnsures("no error", err == nil)
	vEnsures("version and variant", u.Version() == 4 && u.Variant() == RFC4122)
	vEnsures("next unused bytes", vMade(u, src, want))
	if filled {
		vEnsures("refilled", r.pos == r0+randPoolSize && poolPos == 16)
		vEnsures("pool", vForall(16, randPoolSize, func(i int) bool { return pool[i] == src[r0+i] }))
	} else {
		vEnsures("not refilled", r.pos == r0 && poolPos == at+16)
		vEnsures("pool", vForall(at+16, randPoolSize, func(i int) bool { return pool[i] == src[base+i] }))
	}
	vEnsures("invariant", vPoolInv())
	DisableRandPool()
	SetRand(nil)
}

//verif:prop C28
func H_PoolFail(src []byte, at int) {
	r := &vSource{src: src, fail: true}
	SetRand(r)
	vGuarded("the pool", &poolMu, &poolPos, &pool)
	EnableRandPool()
	poolPos = randPoolSize
	u, err := NewRandom()
	vEnsures("failure", err != nil && u == UUID{})
	vEnsures("nothing is used", poolPos == randPoolSize)
	DisableRandPool()
	SetRand(nil)
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C28
//verif:stress
func R_Pool() {
	EnableRandPool()
	defer DisableRandPool()
	const workers, each = 8, 200
	var got [workers][]UUID
	var wg sync.WaitGroup
	for w := range got {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				if u, err := NewRandom(); err == nil {
					got[w] = append(got[w], u)
				}
			}
		}(w)
	}
	wg.Wait()
	seen := map[UUID]bool{}
	for _, l := range got {
		vEnsures("no error", len(l) == each)
		for _, u := range l {
			vEnsures("version 4", u[6]>>4 == 4 && u[8]>>6 == 2)
			vEnsures("different", !seen[u])
			seen[u] = true
		}
	}
}

//verif:pkg types/uuid
package uuid

import (
	"sync"
	"time"
)

//verif:prop C29
func H_Fields(u UUID, t uint64, seq uint16) {
	vRequires(t < 1<<60 && seq < 1<<14)
	// the layout of RFC 4122: low 32 bits, mid 16 bits, high 12 bits under the version
	u[0], u[1], u[2], u[3] = byte(t>>24), byte(t>>16), byte(t>>8), byte(t)
	u[4], u[5] = byte(t>>40), byte(t>>32)
	u[6], u[7] = u[6]&0xf0|byte(t>>56), byte(t>>48)
	u[8], u[9] = u[8]&0xc0|byte(seq>>8), byte(seq)
	vEnsures("time", u.Time() == Time(t))
	vEnsures("clock sequence", u.ClockSequence() == int(seq))
}

//verif:prop C29
func H_UnixTime(t Time) {
	vRequires(t >= 0 && t < 1<<60)
	sec, nsec := t.UnixTime()
	vEnsures("whole ticks", nsec%100 == 0 && nsec > -1000000000 && nsec < 1000000000)
	vEnsures("exact", sec*10000000+nsec/100 == int64(t)-0x01B21DD213814000)
}

// vNow makes the package's clock read ns nanoseconds since 1970.
func vNow(ns int64) { timeNow = func() time.Time { return time.Unix(0, ns) } }

//verif:prop C29
func H_GetTime(last uint64, seq uint16, ns int64) {
	vRequires(ns >= 0 && last < 1<<62 && seq&0xc000 == 0x8000)
	lasttime, clockSeq = last, seq
	vNow(ns)
	vGuarded("the clock state", &timeMu, &lasttime, &clockSeq)
	t, s, err := GetTime()
	vEnsures("in one step", vSections(&timeMu) <= 1)
	vEnsures("no error", err == nil)
	vEnsures("the clock's time", uint64(t) == uint64(ns/100)+0x01B21DD213814000)
	vEnsures("variant", s&0xc000 == 0x8000)
	vEnsures("strictly later or another sequence", s != seq || uint64(t) > last)
	vEnsures("same sequence when later", s == seq || uint64(t) <= last)
	vEnsures("remembered", lasttime == uint64(t) && clockSeq == s)
}

//verif:prop C29
func H_GetTimeFirst(last uint64, ns int64, src []byte) {
	vRequires(ns >= 0 && last < 1<<62 && len(src) >= 2)
	SetRand(&vSource{src: src})
	lasttime, clockSeq = last, 0
	vNow(ns)
	vGuarded("the clock state", &timeMu, &lasttime, &clockSeq)
	t, s, err := GetTime()
	vEnsures("in one step", vSections(&timeMu) <= 1)
	vEnsures("no error", err == nil)
	vEnsures("the clock's time", uint64(t) == uint64(ns/100)+0x01B21DD213814000)
	vEnsures("random sequence", s == 0x8000|(uint16(src[0])<<8|uint16(src[1]))&0x3fff)
	vEnsures("remembered", lasttime == uint64(t) && clockSeq == s)
	SetRand(nil)
}

// Asking for the clock sequence, or setting it to -1, draws a random one, which the
// times that follow have.
//
//verif:prop C29
func H_ClockSequenceFirst(last uint64, old uint16, ns int64, again bool, src []byte) {
	vRequires(ns >= 0 && last < 1<<62 && len(src) >= 2 && old&0xc000 == 0x8000)
	SetRand(&vSource{src: src})
	lasttime, clockSeq = last, 0
	vNow(ns)
	if again {
		clockSeq = old
	}
	vGuarded("the clock state", &timeMu, &lasttime, &clockSeq)
	if again {
		SetClockSequence(-1)
	}
	want := (uint16(src[0])<<8 | uint16(src[1])) & 0x3fff
	vEnsures("random sequence", ClockSequence() == int(want) && ClockSequence() == int(want))
	vEnsures("times restart only with another sequence", vOr(clockSeq != old && lasttime == 0, clockSeq == old && lasttime == vLast(again, last)))
	if lasttime == 0 {
		_, s, err := GetTime()
		vEnsures("kept by the times that follow", err == nil && s == 0x8000|want)
	}
	SetRand(nil)
}

func vLast(again bool, last uint64) uint64 {
	if again {
		return last
	}
	return 0
}

//verif:prop C29
func H_SetClockSequence(last uint64, old uint16, seq int) {
	vRequires(seq >= 0 && old&0xc000 == 0x8000)
	lasttime, clockSeq = last, old
	vGuarded("the clock state", &timeMu, &lasttime, &clockSeq)
	SetClockSequence(seq)
	vEnsures("set", ClockSequence() == seq&0x3fff && clockSeq&0xc000 == 0x8000)
	vEnsures("times restart only with another sequence", clockSeq != old || lasttime == last)
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C29
//verif:stress
func R_Time() {
	type stamp struct {
		t   Time
		seq uint16
	}
	const workers, each = 8, 200
	var got [workers][]stamp
	var wg sync.WaitGroup
	for w := range got {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				if t, seq, err := GetTime(); err == nil {
					got[w] = append(got[w], stamp{t, seq})
				}
				ClockSequence()
			}
		}(w)
	}
	wg.Wait()
	seen := map[stamp]bool{}
	for _, l := range got {
		vEnsures("no error", len(l) == each)
		for _, s := range l {
			vEnsures("different", !seen[s])
			seen[s] = true
		}
	}
	for w := range got {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			SetClockSequence(w)
			ClockSequence()
		}(w)
	}
	wg.Wait()
}

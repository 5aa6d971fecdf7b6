//verif:pkg rx/flux
package flux

import "github.com/nanobus/iota/go/rx"

// vSink takes items into a list with room for all of them.
type vSink struct {
	got      []int
	n        int
	complete int
	early    bool // completed before the last item
	fail     int
	sub      OnSubscribe
}

func (s *vSink) Next(v int) {
	s.early = s.early || s.complete > 0
	s.got[s.n] = v
	s.n++
}
func (s *vSink) Complete()                   { s.complete++ }
func (s *vSink) Error(err error)             { s.fail++ }
func (s *vSink) OnSubscribe(sub OnSubscribe) { s.sub = sub }

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// vBatch: the sink got the items from..to of the list, in order.
func vGot(s *vSink, values []int, n int) bool {
	return vAnd(s.n == n, vForall(0, n, func(i int) bool { return s.got[i] == values[i] }))
}

func vDemand(n, have int) int {
	if n < 0 {
		return 0
	}
	return vMin(n, have)
}

// Two requests to a stream over any list: what the first leaves is itself a list.
//
//verif:prop C21
func H_FromSlice(values []int, n, m int) {
	vRequires(len(values) <= 1<<40 && (n > 0 || len(values) > 0))
	was := append([]int{}, values...)
	s := &vSink{got: make([]int, len(values))}
	FromSlice(values).(*flux[int]).source(s)
	s.sub.Request(n)
	k := vDemand(n, len(was))
	vEnsures("the items asked for, in order", vGot(s, was, k))
	vEnsures("complete exactly after the last item", s.complete == vOne(k == len(was)) && !s.early && s.fail == 0)
	if k == len(was) {
		return
	}
	s.sub.Request(m)
	k2 := k + vDemand(m, len(was)-k)
	vEnsures("the following items, in order", vGot(s, was, k2))
	vEnsures("still complete exactly after the last item", s.complete == vOne(k2 == len(was)) && !s.early && s.fail == 0)
}

// Every subscriber of a stream gets the list from its beginning, whatever others asked for.
//
//verif:prop C21
func H_TwoSubscribers(values []int, n, m int) {
	vRequires(len(values) <= 1<<40 && len(values) > 0)
	was := append([]int{}, values...)
	f := FromSlice(values).(*flux[int])
	s, t := &vSink{got: make([]int, len(values))}, &vSink{got: make([]int, len(values))}
	f.source(s)
	s.sub.Request(n)
	f.source(t)
	t.sub.Request(m)
	k := vDemand(m, len(was))
	vEnsures("the items asked for, in order", vGot(t, was, k))
	vEnsures("complete exactly after the last item", t.complete == vOne(k == len(was)) && !t.early && t.fail == 0)
}

//verif:prop C21
func H_SliceResponse(values []int, n, m int) {
	vRequires(len(values) <= 1<<40 && (n > 0 || len(values) > 0))
	was := append([]int{}, values...)
	s := &vSink{got: make([]int, len(values))}
	request := SliceResponse[int](s, values)
	request(n)
	k := vDemand(n, len(was))
	vEnsures("the items asked for, in order", vGot(s, was, k))
	vEnsures("complete exactly after the last item", s.complete == vOne(k == len(was)) && !s.early && s.fail == 0)
	if k == len(was) {
		return
	}
	request(m)
	k2 := k + vDemand(m, len(was)-k)
	vEnsures("the following items, in order", vGot(s, was, k2))
	vEnsures("still complete exactly after the last item", s.complete == vOne(k2 == len(was)) && !s.early && s.fail == 0)
}

// A subscriber that cancels at some item gets no item after it.
//
//verif:prop C21
//verif:timeout 60
func H_CancelInside(values []int, n, stop int) {
	vRequires(len(values) <= 1<<40 && stop >= 0 && stop <= 1<<40)
	was := append([]int{}, values...)
	got := make([]int, len(values))
	c := 0
	var f Flux[int]
	ended := 0
	f = FromSlice(values)
	f.Subscribe(Subscribe[int]{
		OnNext: func(v int) {
			got[c] = v
			c++
			if c > stop {
				f.Subscription().Cancel()
			}
		},
		OnComplete: func() { ended++ },
		NoRequest:  true,
	})
	s := f.(*flux[int]).subscriber
	vInv("delivered", func(k int) bool {
		return vAnd(c == vMin(k, stop+1), s.closed == (k > stop))
	})
	vInv("delivered items", func(k int) bool {
		return vForall(0, c, func(i int) bool { return got[i] == was[i] })
	})
	f.Subscription().Request(n)
	vRunGo()
	k := vDemand(n, len(was))
	if k > stop {
		k = stop + 1
		vEnsures("no completion after cancelling", ended == 0)
	}
	vEnsures("the items up to the cancellation", c == k && vForall(0, k, func(i int) bool { return got[i] == was[i] }))
}

// Demand given through the subscription, and after the end or the cancellation nothing.
//
//verif:prop C21
//verif:timeout 60
func H_Subscription(values []int, n, m int, cancel bool) {
	vRequires(len(values) <= 1<<40 && (n > 0 || len(values) > 0))
	was := append([]int{}, values...)
	got := make([]int, len(values))
	c, ended := 0, 0
	f := FromSlice(values)
	var sub rx.Subscription
	f.Subscribe(Subscribe[int]{
		OnNext:     func(v int) { got[c] = v; c++ },
		OnComplete: func() { ended++ },
		OnRequest:  func(s rx.Subscription) { sub = s },
	})
	vRunGo()
	vEnsures("nothing before it is asked for", c == 0 && ended == 0)
	sub.Request(n)
	vRunGo()
	k := vDemand(n, len(was))
	vEnsures("the items asked for, in order", c == k && vForall(0, k, func(i int) bool { return got[i] == was[i] }))
	if cancel {
		sub.Cancel()
		sub.Request(m)
		vRunGo()
		vEnsures("nothing after cancelling", c == k && ended == vOne(k == len(was)))
	}
}

// A subscriber that says nothing about demand asks for everything, whenever the source
// has nothing left to satisfy.
//
//verif:prop C21
func H_DefaultDemand(v int) {
	asked, last := 0, 0
	var sink Sink[int]
	f := Create(func(s Sink[int]) {
		sink = s
		s.OnSubscribe(OnSubscribe{Request: func(n int) { asked++; last = n }})
	})
	c := 0
	f.Subscribe(Subscribe[int]{OnNext: func(int) { c++ }})
	vRunGo()
	vEnsures("asks for everything", asked == 1 && last == rx.RequestMax)
	sink.Next(v)
	vRunGo()
	vEnsures("and waits for it", asked == 1 && c == 1)
}

// Demand given before the source is ready reaches it once it is; two demands add up.
//
//verif:prop C21
func H_Demand(n, m int, early bool) {
	vRequires(n > 0 && m > 0 && n <= 1<<40 && m <= 1<<40)
	asked := 0
	var sub rx.Subscription
	request := OnSubscribe{Request: func(n int) { asked += n }}
	var sink Sink[int]
	f := Create(func(s Sink[int]) {
		sink = s
		if early {
			s.OnSubscribe(request)
		}
	})
	f.Subscribe(Subscribe[int]{OnRequest: func(s rx.Subscription) { sub = s }})
	sub.Request(n)
	vRunGo()
	if !early {
		vEnsures("nothing to ask yet", asked == 0)
		sink.OnSubscribe(request)
		vRunGo()
	}
	vEnsures("the demand reaches the source", asked == n)
	sub.Request(m)
	vRunGo()
	vEnsures("further demand reaches the source", asked == n+m)
}

// vAgain requests more at one of the items.
type vAgain struct {
	vSink
	at, more int
	request  func(n int)
}

func (s *vAgain) Next(v int) {
	s.vSink.Next(v)
	if s.n-1 == s.at {
		s.request(s.more)
	}
}

// A sink requests more while it takes an item.
//
//verif:prop C21
//verif:bounded lists of at most four items
//verif:unroll 6
func H_Again(a, b, c, d, have, n, at, more int, response bool) {
	vRequires(have >= 1 && have <= 4 && at >= 0 && at < 4)
	values := []int{a, b, c, d}[:have]
	was := []int{a, b, c, d}
	s := &vAgain{vSink: vSink{got: make([]int, 4)}, at: at, more: more}
	if response {
		s.request = SliceResponse[int](s, values)
	} else {
		FromSlice(values).(*flux[int]).source(s)
		s.request = s.sub.Request
	}
	s.request(n)
	k := vDemand(n, have)
	if at < k {
		k += vDemand(more, have-k)
	}
	vEnsures("the items asked for", s.n == k)
	for i := 0; i < k; i++ {
		vEnsures("in order", s.got[i] == was[i])
	}
	vEnsures("complete after the last", (s.complete > 0) == (k == have) && !s.early && s.fail == 0)
}

// A subscriber that asks for a page whenever it is told to, which is when it has got
// what it asked for, receives the whole list.
//
//verif:prop C21
//verif:bounded lists of at most four items
//verif:unroll 8
func H_Pages(a, b, c, d, have, page int) {
	vRequires(have >= 0 && have <= 4 && page >= 1)
	values := []int{a, b, c, d}[:have]
	got, asked, complete, fin := 0, 0, 0, 0
	FromSlice(values).Subscribe(Subscribe[int]{
		OnRequest: func(s rx.Subscription) {
			vEnsures("asked for more when it got what it asked for", got == asked)
			asked += page
			s.Request(page)
		},
		OnNext: func(v int) {
			vEnsures("in order and no more than there are", got < have && v == []int{a, b, c, d}[got])
			vEnsures("no more than asked for", got < asked)
			got++
		},
		OnComplete: func() { complete++ },
		Finally:    func(rx.SignalType) { fin++ },
	})
	for i := 0; i < 6; i++ {
		vRunGo()
	}
	vEnsures("everything, and the end", got == have && complete == 1 && fin == 1)
}

//verif:pkg proxy
//verif:common
package proxy

// vAnswer is the subscription to the answer of a request.
type vAnswer struct{ asked, cancelled int }

func (a *vAnswer) Request(n int) { a.asked += n }
func (a *vAnswer) Cancel()       { a.cancelled++ }

func vIf(b bool, n int) int {
	if b {
		return n
	}
	return 0
}

package vs

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"slices"
	"sync"
	"unsafe"
)

// offset of hchan.closed for go1.25 (checked by init).
const closedOff = 28

func init() {
	for _, c := range []int{0, 1, 3} {
		ch := make(chan [3]int64, c)
		if chanClosed(chanPtr(ch)) {
			panic("vs: hchan layout")
		}
		close(ch)
		if !chanClosed(chanPtr(ch)) {
			panic("vs: hchan layout")
		}
	}
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
//go:noinline
func chanClosed(p unsafe.Pointer) bool {
	return *(*uint32)(unsafe.Add(p, closedOff)) != 0
}

//go:norace
func chanQ(p unsafe.Pointer) (n, c uint) {
	return *(*uint)(p), *(*uint)(unsafe.Add(p, 8))
}

// Case is one communication of a select.
type Case interface {
	ptr() unsafe.Pointer
	isSend() bool
	try() bool           // performs the operation if possible (running thread)
	give(peer Case) bool // send case: hand value to a blocked receive case
}

type selState struct {
	cases     []Case
	committed int
	mu        sync.Mutex // real; carries the happens-before edge of a rendezvous
}

type SendC[T any] struct {
	ch chan T
	v  T
}

type RecvC[T any] struct {
	ch chan T
	V  T
	Ok bool
}

func CaseSend[T any](ch chan<- T, v T) *SendC[T] {
	return &SendC[T]{*(*chan T)(unsafe.Pointer(&ch)), v}
}

func CaseRecv[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{ch: *(*chan T)(unsafe.Pointer(&ch))}
}

//go:norace
func (c *SendC[T]) ptr() unsafe.Pointer { return chanPtr(c.ch) }

//go:norace
func (c *RecvC[T]) ptr() unsafe.Pointer { return chanPtr(c.ch) }
func (c *SendC[T]) isSend() bool        { return true }
func (c *RecvC[T]) isSend() bool        { return false }

func (c *SendC[T]) try() bool {
	select {
	case c.ch <- c.v: // panics on a closed channel, as it must
		return true
	default:
		return false
	}
}

func (c *RecvC[T]) try() bool {
	select {
	case v, ok := <-c.ch:
		c.V, c.Ok = v, ok
		return true
	default:
		return false
	}
}

func (c *SendC[T]) give(peer Case) bool {
	r := peer.(*RecvC[T])
	r.V, r.Ok = c.v, true
	return true
}

func (c *RecvC[T]) give(peer Case) bool {
	s := peer.(*SendC[T])
	c.V, c.Ok = s.v, true
	return true
}

// peerFor finds a thread blocked on the opposite operation of an unbuffered channel.
//
//go:norace
func peerFor(c Case, self *thread) (*thread, int) {
	p := c.ptr()
	if p == nil {
		return nil, 0
	}
	if _, cp := chanQ(p); cp != 0 {
		return nil, 0
	}
	for i := 0; i < ex.nthreads; i++ {
		t := ex.threads[i]
		if t == self || t.done || t.sel == nil || t.sel.committed >= 0 {
			continue
		}
		for j, o := range t.sel.cases {
			if o.isSend() != c.isSend() && o.ptr() == p {
				return t, j
			}
		}
	}
	return nil, 0
}

//go:norace
func caseReady(c Case, self *thread) bool {
	p := c.ptr()
	if p == nil {
		return false
	}
	if chanClosed(p) {
		return true
	}
	n, cp := chanQ(p)
	if c.isSend() {
		if cp > 0 {
			return n < cp
		}
	} else if n > 0 {
		return true
	}
	if cp == 0 {
		t, _ := peerFor(c, self)
		return t != nil
	}
	return false
}

//go:norace
func (s *selState) Ready(t *thread) bool {
	if s.committed >= 0 {
		return true
	}
	for _, c := range s.cases {
		if caseReady(c, t) {
			return true
		}
	}
	return false
}

//go:norace
func readyCases(cases []Case, self *thread, out []int) int {
	n := 0
	for i, c := range cases {
		if caseReady(c, self) {
			out[n] = i
			n++
		}
	}
	return n
}

//go:norace
func curThread() *thread { return ex.cur }

//go:norace
func setSel(t *thread, s *selState) { t.sel = s }

//go:norace
func newSel(cases []Case) *selState {
	s := new(selState)
	s.cases, s.committed = cases, -1
	return s
}

//go:norace
func committed(s *selState) int { return s.committed }

//go:norace
func commit(t *thread, j int) { t.sel.committed = j }

// Select performs one of the ready cases; -1 means default.
func Select(hasDefault bool, cases ...Case) int {
	switch Mode() {
	case 0:
		return realSelect(hasDefault, cases)
	case 2:
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	point()
	self := curThread()
	var buf [32]int
	for {
		n := readyCases(cases, self, buf[:])
		if n == 0 {
			if hasDefault {
				return -1
			}
			s := newSel(cases)
			s.mu.Lock()
			s.mu.Unlock()
			setSel(self, s)
			block(s, selDesc(cases))
			setSel(self, nil)
			if k := committed(s); k >= 0 {
				s.mu.Lock()
				s.mu.Unlock()
				return k
			}
			continue
		}
		k := buf[pickCase(n)]
		c := cases[k]
		if t, j := peerFor(c, self); t != nil {
			t.sel.mu.Lock()
			c.give(t.sel.cases[j])
			t.sel.mu.Unlock()
			commit(t, j)
			return k
		}
		if c.try() {
			return k
		}
		panic("vs: ready case failed")
	}
}

// pickCase: which of several ready cases fires is an environment choice that
// costs one deviation (the runtime picks uniformly at random).
//
//go:norace
func pickCase(n int) int {
	if n == 1 || ex.opt.FreeSched {
		return 0
	}
	return choose(n, false, true, 1)
}

func selDesc(cases []Case) string {
	s := ""
	for _, c := range cases {
		if c.isSend() {
			s += "send "
		} else {
			s += "recv "
		}
	}
	return "channel " + s
}

func realSelect(hasDefault bool, cases []Case) int {
	for {
		for i, c := range cases {
			if c.ptr() != nil && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Gosched()
	}
}

func Send[T any](ch chan<- T, v T) {
	if Mode() == 0 {
		ch <- v
		return
	}
	Select(false, CaseSend(ch, v))
}

func Recv[T any](ch <-chan T) T {
	if Mode() == 0 {
		return <-ch
	}
	c := CaseRecv(ch)
	Select(false, c)
	return c.V
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if Mode() == 0 {
		v, ok := <-ch
		return v, ok
	}
	c := CaseRecv(ch)
	Select(false, c)
	return c.V, c.Ok
}

func Close[T any](ch chan<- T) {
	if Mode() == 2 {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		if p == nil || chanClosed(p) {
			return
		}
		close(ch)
		return
	}
	point()
	close(ch)
}

func ChanLen(ch any) int {
	point()
	return reflect.ValueOf(ch).Len()
}

func ChanCap(ch any) int {
	return reflect.ValueOf(ch).Cap()
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

type never struct{}

func (never) Ready(*thread) bool { return false }

func BlockForever() {
	if Mode() == 0 {
		select {}
	}
	if Mode() == 2 {
		runtime.Goexit()
	}
	block(never{}, "select{}")
}

// MapOrder is the iteration order used for maps: 0 ascending, 1 descending.
var mapOrder int

//go:norace
func SetMapOrder(o int) { mapOrder = o }

//go:norace
func getMapOrder() int { return mapOrder }

// RangeMap iterates in a deterministic order, honouring deletions and ignoring
// insertions made during the iteration (both allowed by the language).
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		SortKeys(keys)
		if getMapOrder() == 1 {
			slices.Reverse(keys)
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// SortKeys orders keys of basic kinds; other kinds are ordered by their printed form.
func SortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	slices.SortFunc(keys, func(a, b K) int { return compareAny(any(a), any(b)) })
}

func compareAny(a, b any) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return cmp.Compare(va.String(), vb.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return cmp.Compare(va.Int(), vb.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return cmp.Compare(va.Uint(), vb.Uint())
		case reflect.Float32, reflect.Float64:
			return cmp.Compare(va.Float(), vb.Float())
		}
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

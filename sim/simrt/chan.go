package simrt

import (
	"reflect"
	"runtime"
	"time"
)

// Channels. Buffered elements stay in the real channel, which is only used
// without waiting; who waits is kept here, in order of arrival, and every wait
// is a decision of the scheduler.

// waiter is one client waiting on one channel. The cases of one select share sel.
type waiter struct {
	c    Client
	sel  *fired
	idx  int
	v    interface{}         // the value sent, or handed over to a receiver
	ok   bool                // the receiver got a value, the sender's was taken
	push func(v interface{}) // puts the sender's value into the real channel
}

type fired struct {
	w *waiter // the case that went on
}

type chState struct {
	ref          interface{} // keeps the address from being used again
	recvq, sendq []*waiter
}

var chans map[uintptr]*chState

// tidy forgets the waiters that went on elsewhere, and the channel when nobody
// is left.
func tidy(ch interface{}) {
	p := reflect.ValueOf(ch).Pointer()
	st := chans[p]
	if st == nil {
		return
	}
	r, s := trim(&st.recvq), trim(&st.sendq)
	if r && s {
		delete(chans, p)
	}
}

func trim(q *[]*waiter) bool {
	var l []*waiter
	for _, w := range *q {
		if w.sel.w == nil && w.c.state != sDone {
			l = append(l, w)
		}
	}
	*q = l
	return l == nil
}

func chOf(ch interface{}) *chState {
	p := reflect.ValueOf(ch).Pointer()
	st := chans[p]
	if st == nil {
		st = &chState{ref: ch}
		if chans == nil {
			chans = map[uintptr]*chState{}
		}
		chans[p] = st
	}
	return st
}

// pop takes the first waiter that still waits.
func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.w == nil && w.c.state != sDone {
			return w
		}
	}
	return nil
}

// popSend and popRecv do it without leaving a trace of a channel on which
// nobody waits.
func popSend(ch interface{}) *waiter {
	if st := chans[reflect.ValueOf(ch).Pointer()]; st != nil {
		w := pop(&st.sendq)
		st.drop(ch)
		return w
	}
	return nil
}

func popRecv(ch interface{}) *waiter {
	if st := chans[reflect.ValueOf(ch).Pointer()]; st != nil {
		w := pop(&st.recvq)
		st.drop(ch)
		return w
	}
	return nil
}

func (st *chState) drop(ch interface{}) {
	if len(st.recvq) == 0 && len(st.sendq) == 0 {
		delete(chans, reflect.ValueOf(ch).Pointer())
	}
}

// fire lets a waiter go on.
func (w *waiter) fire(ok bool) {
	w.ok = ok
	w.sel.w = w
	Wake(w.c)
}

// park waits until one of the waiters of f has been fired.
func park(f *fired, why string) *waiter {
	for f.w == nil {
		Block(why)
	}
	return f.w
}

func nilChan() {
	for {
		Block("a nil channel")
	}
}

// outside waits for a channel operation done while no simulation runs.
func outside(try func() bool, what string) {
	end := time.Now().Add(time.Second)
	for !try() {
		if time.Now().After(end) {
			panic("simulator: a channel " + what + " that nobody answers")
		}
		runtime.Gosched()
	}
}

// tryRecv: done is false when nothing can be received now.
func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	fireDue(cur)
	select {
	case v, ok = <-ch:
		if w := popSend(ch); w != nil && ok {
			w.push(w.v)
			w.fire(true)
		}
		return v, ok, true
	default:
	}
	if cur == nil {
		return
	}
	if w := popSend(ch); w != nil {
		v, _ = w.v.(T)
		w.fire(true)
		return v, true, true
	}
	return
}

// trySend: done is false when nobody and no buffer takes the value now. It
// panics when the channel is closed, as it must.
func trySend[T any](ch chan<- T, v T) bool {
	if ch == nil {
		return false
	}
	if cur != nil {
		if w := popRecv(ch); w != nil {
			w.v = v
			w.fire(true)
			return true
		}
	}
	select {
	case ch <- v:
		return true
	default:
	}
	return false
}

func pusher[T any](ch chan<- T) func(interface{}) {
	return func(x interface{}) {
		v, _ := x.(T)
		ch <- v
	}
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	done := false
	if cur == nil {
		outside(func() bool { v, ok, done = tryRecv(ch); return done }, "receive")
		return v, ok
	}
	Y(harness)
	if ch == nil {
		nilChan()
	}
	if v, ok, done = tryRecv(ch); done {
		return v, ok
	}
	f := &fired{}
	st := chOf(ch)
	st.recvq = append(st.recvq, &waiter{c: Me(), sel: f})
	w := park(f, "a channel receive")
	v, _ = w.v.(T)
	return v, w.ok
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Send replaces ch <- v: Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if cur == nil {
			outside(func() bool { return trySend(ch, v) }, "send")
			return
		}
		Y(harness)
		if ch == nil {
			nilChan()
		}
		if trySend(ch, v) {
			return
		}
		f := &fired{}
		st := chOf(ch)
		st.sendq = append(st.sendq, &waiter{c: Me(), sel: f, v: v, push: pusher(ch)})
		if !park(f, "a channel send").ok {
			panic("send on closed channel")
		}
	}
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	if cur == nil {
		return
	}
	for w := popRecv(ch); w != nil; w = popRecv(ch) {
		w.v = nil
		w.fire(false)
	}
	for w := popSend(ch); w != nil; w = popSend(ch) {
		w.fire(false)
	}
}

// Sel is one execution of a select statement.
type Sel struct {
	cases []selCase
}

type selCase struct {
	try  func() bool
	wait func(f *fired, idx int)
	tidy func()
	got  func(w *waiter)
}

func NewSel() *Sel { return &Sel{} }

type RecvCase[T any] struct {
	v  T
	ok bool
}

func (c *RecvCase[T]) Val() T          { return c.v }
func (c *RecvCase[T]) Val2() (T, bool) { return c.v, c.ok }

func SelRecv[T any](s *Sel, ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	s.cases = append(s.cases, selCase{
		try: func() bool {
			v, ok, done := tryRecv(ch)
			if done {
				c.v, c.ok = v, ok
			}
			return done
		},
		wait: func(f *fired, idx int) {
			if ch != nil {
				st := chOf(ch)
				st.recvq = append(st.recvq, &waiter{c: Me(), sel: f, idx: idx})
			}
		},
		tidy: func() { tidy(ch) },
		got: func(w *waiter) {
			c.v, _ = w.v.(T)
			c.ok = w.ok
		},
	})
	return c
}

func SelSend[T any](s *Sel, ch chan<- T) func(T) {
	return func(v T) {
		s.cases = append(s.cases, selCase{
			try: func() bool { return trySend(ch, v) },
			wait: func(f *fired, idx int) {
				if ch != nil {
					st := chOf(ch)
					st.sendq = append(st.sendq, &waiter{c: Me(), sel: f, idx: idx, v: v, push: pusher(ch)})
				}
			},
			tidy: func() { tidy(ch) },
			got: func(w *waiter) {
				if !w.ok {
					panic("send on closed channel")
				}
			},
		})
	}
}

// choices counts the selects of the process.
var choices uint64

// Choose waits until a case can go on and does it; -1 is the default. The
// first ready case after a pseudo-random start is taken.
func (s *Sel) Choose(def bool) int {
	Y(harness)
	n := len(s.cases)
	chosen := -1
	choices++
	h := choices * 0x9e3779b97f4a7c15
	h = (h ^ h>>32) * 0xbf58476d1ce4e5b9
	first := int(h >> 40)
	try := func() bool {
		for i := 0; i < n; i++ {
			k := (i + first) % n
			if s.cases[k].try() {
				chosen = k
				return true
			}
		}
		return false
	}
	if try() || def {
		return chosen
	}
	if cur == nil {
		outside(try, "select")
		return chosen
	}
	f := &fired{}
	for i := range s.cases {
		s.cases[i].wait(f, i)
	}
	w := park(f, "a select")
	for i := range s.cases {
		s.cases[i].tidy()
	}
	s.cases[w.idx].got(w)
	return w.idx
}

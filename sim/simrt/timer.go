package simrt

import "time"

// Timers on the simulated clock. They fire when the steps have brought the
// clock to their time, or when nobody can run and time passes.

type Timer struct {
	C <-chan time.Time

	ch     chan time.Time
	f      func()
	when   time.Time
	period time.Duration
	on     bool
}

type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// timers holds the running ones, earliest first.
var timers []*Timer

func (t *Timer) start(d time.Duration) {
	if clkRate > time.Microsecond {
		// where time is measured out, no step takes a second
		clkBase += time.Duration(Now()) * (clkRate - time.Microsecond)
		clkRate = time.Microsecond
	}
	t.when = TimeNow().Add(d)
	t.on = true
	i := len(timers)
	for i > 0 && timers[i-1].when.After(t.when) {
		i--
	}
	timers = append(timers, nil)
	copy(timers[i+1:], timers[i:])
	timers[i] = t
}

func (t *Timer) stop() bool {
	was := t.on
	t.on = false
	for i := len(timers) - 1; i >= 0; i-- {
		if timers[i] == t {
			copy(timers[i:], timers[i+1:])
			timers[len(timers)-1] = nil
			timers = timers[:len(timers)-1]
			break
		}
	}
	return was
}

// drop empties the channel, as stopping and setting a timer do since Go 1.23.
func (t *Timer) drop() {
	select {
	case <-t.ch:
	default:
	}
}

// fire is called by the client that runs, between two of its steps.
func (t *Timer) fire(s *sim) {
	timers = timers[1:]
	t.on = false
	now := TimeNow()
	if t.f != nil {
		if s != nil {
			s.add(t.f).root = -1
		} else {
			go t.f()
		}
		return
	}
	trySend(chan<- time.Time(t.ch), now)
	if t.period > 0 {
		d := t.period - now.Sub(t.when)%t.period
		t.start(d)
	}
}

func fireDue(s *sim) {
	for len(timers) > 0 && !timers[0].when.After(TimeNow()) {
		timers[0].fire(s)
	}
}

// fireNext lets the time pass that is missing for the next timer.
func fireNext(s *sim) bool {
	if len(timers) == 0 {
		return false
	}
	if d := timers[0].when.Sub(TimeNow()); d > 0 {
		clkBase += d
	}
	fireDue(s)
	return true
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	t.drop()
	return t.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	t.drop()
	was := t.stop()
	t.start(d)
	return was
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch, period: d}
	t.start(d)
	return &Ticker{C: ch, t: t}
}

func (k *Ticker) Stop() {
	k.t.drop()
	k.t.stop()
}

func (k *Ticker) Reset(d time.Duration) {
	k.Stop()
	k.t.period = d
	k.t.start(d)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

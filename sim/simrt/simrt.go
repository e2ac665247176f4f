// Package simrt is the simulator's scheduler. The instrumented library calls Y
// before every statement; exactly one client goroutine runs at any time, and
// the plan's schedule alone decides when it is parked and who goes on.
package simrt

import (
	"fmt"
	"time"
)

// Segment: let the current client run N steps, then act.
type Seg struct {
	N int64 `json:"n"`           // steps before the action
	K int   `json:"k"`           // which other runnable client goes on (modulo their number)
	F int   `json:"f,omitempty"` // 0 switch, 1 freeze the current client until nobody else can run
	S int64 `json:"s,omitempty"` // act at the latest at the S-th access to shared state
	C int   `json:"c,omitempty"` // kind of shared state: 0 variables of the package, maps, locks; 1 fields of objects
}

const (
	sRunnable = iota
	sBlocked
	sFrozen
	sDone
)

type client struct {
	id     int
	root   int // the plan's client this one was started by
	fn     func()
	ch     chan struct{}
	state  int
	why    string
	steps  int64
	site   int32
	thawed bool
	held   int // setting something up once: it is not stalled now
}

// Client names a client across runs, for whoever wakes it.
type Client = *client

// Event is one context switch, for the trace.
type Event struct {
	Step int64  `json:"step"` // global step (the simulator's logical time)
	From int    `json:"from"`
	Site int32  `json:"site"`
	To   int    `json:"to"`
	Why  string `json:"why"`
}

// Report describes one execution.
type Report struct {
	Steps      int64
	Switches   int
	Freezes    int
	Blocks     int
	Aborted    string // "" or "steps" or "deadlock: ..."
	Starved    string // a client could not go on while another was frozen
	ClientStep []int64
	Events     []Event
	Panics     []string // panics that escaped a client function (harness fault)
	Spawned    int
	Left       int      // goroutines of the library that outlived the clients
	Shared     [2]int64 // accesses to shared state, by kind
}

type abortT struct{}

// Aborted reports whether a recovered panic value is the simulator's own
// unwinding; it must be passed on.
func Aborted(p interface{}) bool { _, ok := p.(abortT); return ok }

type sim struct {
	clients  []*client
	roots    int   // the plan's clients come first
	open     int   // those that have not ended
	free     []int // places of helpers that have ended
	idle     int   // timers fired since one of the plan's clients ran
	yields   int   // by which somebody let others run while a client was stalled
	cur      *client
	sched    []Seg
	pos      int
	quantum  int64
	used     int64 // steps before the current quantum
	max      int64
	abort    string
	main     chan struct{}
	onSwitch func(client int, site int32)
	rep      *Report
	keep     int // events kept
}

const (
	never   = int64(1) << 60
	round   = int64(50000)  // round-robin quantum once the schedule is used up
	drain   = int64(100000) // steps the library's goroutines get after the last client
	maxLeft = 1000          // goroutines kept from one run to the next
	harness = int32(0)
)

// left is the number of steps the running client may still take before the
// scheduler is asked. Only the running client touches it.
var left = never
var cur *sim

// lingering are goroutines of the library that outlived the clients of the runs
// before: they go on with the next one.
var lingering []*client

// Hit marks the sites reached.
var Hit [1 << 14]bool

// Y is the preemption point.
func Y(site int32) {
	Hit[site&(1<<14-1)] = true
	left--
	if Probe != nil {
		Probe()
	}
	if left < 0 {
		slow(site)
	}
}

// Probe, when set, is called before every statement, for invariants that must
// hold at each of them.
var Probe func()

// YS is a preemption point at an access to shared state: kind 0 is state of the
// whole process, kind 1 that of an object.
func YS(site int32, kind int) {
	Hit[site&(1<<14-1)] = true
	left--
	if Probe != nil {
		Probe()
	}
	shared[kind]++
	if shared[kind] == until[kind] && left >= 0 {
		// the quantum ends here
		if s := cur; s != nil {
			s.quantum -= left + 1
			left = -1
		}
	}
	if left < 0 {
		slow(site)
	}
}

// shared counts accesses, until says at which the running quantum ends.
var shared, until [2]int64

// Active says whether a simulation is running.
func Active() bool { return cur != nil }

// Self returns the id of the running client, -1 outside a simulation.
func Self() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.id
}

// Root returns the id of the plan's client on whose behalf the running one
// works, -1 when there is none.
func Root() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.root
}

// Now is the logical time: the number of steps taken so far.
func Now() int64 {
	if cur == nil {
		return 0
	}
	return cur.used + (cur.quantum - left)
}

// MySteps is the number of steps the running client has taken.
func MySteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.cur.steps + (cur.quantum - left)
}

// Run executes the client functions under the schedule.
func Run(fns []func(), sched []Seg, first int, maxSteps int64, keepEvents int, onSwitch func(client int, site int32)) *Report {
	s := &sim{sched: sched, max: maxSteps, main: make(chan struct{}, 1), onSwitch: onSwitch, rep: &Report{}, keep: keepEvents}
	if len(fns) == 0 {
		return s.rep
	}
	for i, f := range fns {
		s.add(f).root = i
	}
	s.roots, s.open = len(fns), len(fns)
	for _, c := range lingering {
		c.id, c.root, c.steps, c.thawed = len(s.clients), -1, 0, false
		s.clients = append(s.clients, c)
	}
	lingering = nil
	shared = [2]int64{}
	cur = s
	s.cur = s.clients[first%s.roots]
	s.arm()
	s.cur.ch <- struct{}{}
	<-s.main
	cur = nil
	left = never
	until = [2]int64{-1, -1}
	clkBase += time.Duration(s.used) * clkRate
	s.rep.Steps = s.used
	s.rep.Shared = shared
	for i, c := range s.clients {
		if i < s.roots {
			s.rep.ClientStep = append(s.rep.ClientStep, c.steps)
			continue
		}
		if c.state != sDone {
			s.rep.Left++
			if len(lingering) < maxLeft {
				lingering = append(lingering, c)
			}
		}
	}
	s.rep.Aborted = s.abort
	if s.abort != "" {
		mapUses = nil // the clients have been unwound, wherever they were
	}
	return s.rep
}

func (s *sim) add(f func()) *client {
	c := &client{id: len(s.clients), fn: f, ch: make(chan struct{}, 1)}
	if n := len(s.free); n > 0 {
		c.id = s.free[n-1]
		s.free = s.free[:n-1]
		s.clients[c.id] = c
	} else {
		s.clients = append(s.clients, c)
	}
	go func() {
		<-c.ch
		defer exit(c)
		if cur.abort == "" || c.id >= cur.roots {
			c.fn()
		}
	}()
	return c
}

func exit(c *client) {
	s := cur
	if p := recover(); p != nil && !Aborted(p) {
		s.rep.Panics = append(s.rep.Panics, fmt.Sprint(p))
	}
	s.account()
	c.state = sDone
	c.fn = nil
	if c.id >= s.roots {
		s.free = append(s.free, c.id)
	} else if s.open--; s.open == 0 && s.max > s.used+drain {
		s.max = s.used + drain
	}
	n := s.next()
	if n == nil {
		s.main <- struct{}{}
		return
	}
	s.event(c, n, "end")
	s.hand(n)
}

// account books the steps of the quantum that ends now.
func (s *sim) account() {
	d := s.quantum - left
	if d < 0 {
		d = 0
	}
	s.used += d
	s.cur.steps += d
	s.quantum, left = 0, 0
	fireDue(s)
}

// arm starts a quantum for the current client.
func (s *sim) arm() {
	q := round
	if s.pos < len(s.sched) {
		q = s.sched[s.pos].N
	}
	until = [2]int64{-1, -1}
	if s.pos < len(s.sched) && s.sched[s.pos].S > 0 {
		k := s.sched[s.pos].C & 1
		until[k] = shared[k] + s.sched[s.pos].S
	}
	if r := s.max - s.used; q > r {
		q = r + 1
	}
	if q < 0 {
		q = 0
	}
	if s.abort != "" || q < 0 {
		q = 0
	}
	s.quantum, left = q, q
}

// next picks a client to go on after the current one cannot: the lowest-numbered
// runnable one after it, else a frozen one.
func (s *sim) next() *client {
	if s.abort != "" {
		// the plan's clients are unwound, the library's goroutines stay where
		// they are
		for _, c := range s.clients[:s.roots] {
			if c.state != sDone {
				c.state = sRunnable
				return c
			}
		}
		return nil
	}
	n := len(s.clients)
	base := s.cur.id
	for i := 1; i <= n; i++ {
		c := s.clients[(base+i)%n]
		if c.state == sRunnable {
			return c
		}
	}
	// nobody can run: time passes, a little while somebody is stalled, else as
	// much as it takes
	most := 10000
	for _, c := range s.clients {
		if c.state == sFrozen {
			most = 5
		}
	}
	timed := len(timers) > 0
	if s.open > 0 {
		for s.idle < most && fireNext(s) {
			s.idle++
			for i := 1; i <= len(s.clients); i++ {
				c := s.clients[(base+i)%len(s.clients)]
				if c.state == sRunnable {
					return c
				}
			}
		}
	}
	// thaw; waiting for a stalled helper is nobody's fault
	if c := s.thawHelper(); c != nil {
		return c
	}
	blocked := -1
	for i := 0; i < s.roots; i++ {
		if s.clients[i].state == sBlocked {
			blocked = i
		}
	}
	for i := 0; i < s.roots; i++ {
		c := s.clients[i]
		if c.state == sFrozen {
			if blocked >= 0 && !timed && s.rep.Starved == "" {
				s.rep.Starved = fmt.Sprintf("client %d waits for %s while client %d is stalled", blocked, s.clients[blocked].why, c.id)
			}
			c.state = sRunnable
			c.thawed = true
			return c
		}
	}
	if blocked >= 0 {
		s.abort = fmt.Sprintf("deadlock: client %d waits for %s and nobody can run", blocked, s.clients[blocked].why)
		c := s.clients[blocked]
		c.state = sRunnable
		return c
	}
	return nil
}

func (s *sim) thawHelper() *client {
	for _, c := range s.clients[s.roots:] {
		if c.state == sFrozen {
			c.state = sRunnable
			c.thawed = true
			return c
		}
	}
	return nil
}

func (s *sim) hand(c *client) {
	s.cur = c
	if c.id < s.roots {
		s.idle = 0
	}
	s.arm()
	c.ch <- struct{}{}
}

func (s *sim) event(from, to *client, why string) {
	if len(s.rep.Events) < s.keep {
		s.rep.Events = append(s.rep.Events, Event{Step: s.used, From: from.id, Site: from.site, To: to.id, Why: why})
	}
}

// switchTo parks the current client and lets another go on.
func (s *sim) switchTo(to *client, why string) {
	me := s.cur
	s.event(me, to, why)
	s.rep.Switches++
	if s.onSwitch != nil && s.abort == "" && me.root >= 0 {
		s.onSwitch(me.root, me.site)
	}
	s.hand(to)
	me.wait()
}

// wait parks the client until it is handed the run, maybe a later one.
func (c *client) wait() {
	<-c.ch
	if cur.abort != "" && c.id < cur.roots {
		panic(abortT{})
	}
}

func slow(site int32) {
	s := cur
	if s == nil {
		left = never
		return
	}
	me := s.cur
	me.site = site
	left++ // the step that asked has not been taken yet
	s.account()
	if s.abort == "" && s.used >= s.max {
		if s.open == 0 {
			// a goroutine of the library that goes on: so it does in the next run
			s.main <- struct{}{}
			me.wait()
			left--
			return
		}
		s.abort = "steps"
	}
	if s.abort != "" {
		if me.id < s.roots {
			panic(abortT{})
		}
		s.switchTo(s.next(), "abort")
		left--
		return
	}
	if s.pos < len(s.sched) {
		g := s.sched[s.pos]
		s.pos++
		var others []*client
		for _, c := range s.clients {
			if c != me && c.state == sRunnable {
				others = append(others, c)
			}
		}
		if len(others) == 0 {
			s.arm()
			left--
			return
		}
		k := g.K % len(others)
		if k < 0 {
			k += len(others)
		}
		if g.F == 1 && !me.thawed && me.held == 0 {
			me.state = sFrozen
			me.why = "stall"
			s.rep.Freezes++
			s.switchTo(others[k], "stall")
		} else {
			s.switchTo(others[k], "preempt")
		}
		left--
		return
	}
	// schedule used up: round robin, so that a spinning client cannot starve the rest
	s.thawHelper()
	for i := 1; i < len(s.clients); i++ {
		c := s.clients[(me.id+i)%len(s.clients)]
		if c.state == sRunnable {
			s.switchTo(c, "round")
			left--
			return
		}
	}
	s.arm()
	left--
}

// Gosched lets another client go on.
func Gosched() {
	s := cur
	if s == nil {
		return
	}
	s.account()
	me := s.cur
	if s.used++; s.used >= s.max {
		left = -1
		slow(harness)
		return
	}
	if s.yields++; s.yields > 2000 {
		s.yields = 0
		s.thawHelper()
		for _, c := range s.clients[:s.roots] {
			if c.state == sFrozen {
				if me.id < s.roots && s.rep.Starved == "" {
					s.rep.Starved = fmt.Sprintf("client %d keeps asking while client %d is stalled", me.id, c.id)
				}
				c.state = sRunnable
				c.thawed = true
				break
			}
		}
	}
	for i := 1; i < len(s.clients); i++ {
		c := s.clients[(me.id+i)%len(s.clients)]
		if c.state == sRunnable {
			s.switchTo(c, "yield")
			return
		}
	}
	s.arm()
}

// Hold says that the running client sets something up that everybody needs
// once: it may be interrupted, but not stalled.
func Hold() {
	if cur != nil {
		cur.cur.held++
	}
}

func Release() {
	if cur != nil {
		cur.cur.held--
	}
}

// Block parks the running client until it is woken.
func Block(why string) {
	s := cur
	if s == nil {
		panic("simulator: lock contention outside a simulation: " + why)
	}
	s.account()
	s.rep.Blocks++
	s.used++ // waiting in circles takes time too
	me := s.cur
	if s.used >= s.max && s.abort == "" && s.open > 0 {
		s.abort = "steps"
	}
	if s.abort != "" && me.id < s.roots {
		panic(abortT{})
	}
	me.state = sBlocked
	me.why = why
	n := s.next()
	if n == nil {
		// only goroutines of the library are left, and they all wait
		s.main <- struct{}{}
		me.wait()
		return
	}
	if n == me {
		me.state = sRunnable
		s.arm()
		if s.abort != "" {
			panic(abortT{})
		}
		return
	}
	s.switchTo(n, "blocked on "+why)
}

// Wake makes a blocked client runnable again.
func Wake(c Client) {
	if c != nil && c.state == sBlocked {
		c.state = sRunnable
	}
}

// Me is the running client, nil outside a simulation.
func Me() Client {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Go replaces a go statement.
func Go(f func()) {
	s := cur
	if s == nil {
		go f()
		return
	}
	s.rep.Spawned++
	s.add(f).root = s.cur.root
}

// Clock seams: simulated time goes on with the steps, at the rate of the run,
// and by every sleep. It is the process's, runs do not set it back.
var (
	epoch   = time.Date(2020, 4, 6, 0, 0, 0, 0, time.UTC)
	clkBase time.Duration
	clkRate = time.Microsecond
)

// ResetClock starts a run: its seed says how fast the clock goes and whether
// time has passed since the run before.
func ResetClock(seed uint64) {
	h := seed * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	clkRate = [...]time.Duration{time.Microsecond, time.Microsecond, time.Millisecond, time.Second}[h&3]
	if clkBase > 90*365*24*time.Hour {
		clkRate = time.Nanosecond // the end of time.Duration
		return
	}
	clkBase += [...]time.Duration{0, 0, time.Minute, 25 * time.Hour}[h>>2&3]
}

func TimeNow() time.Time                  { return epoch.Add(clkBase + time.Duration(Now())*clkRate) }
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeSleep(d time.Duration) {
	if d > 0 {
		clkBase += d
	}
	Gosched()
}
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Map iteration order, chosen by the plan.
var mapSeed uint64
var MapRanges, MapPermuted int64

// SetMapOrder chooses the order of every map range until the next call:
// 0 sorted, 1 reverse, else a permutation drawn from the seed.
func SetMapOrder(seed uint64) { mapSeed = seed }

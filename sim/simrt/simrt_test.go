package simrt

import (
	"testing"
	"time"
)

func run(fns ...func()) *Report { return Run(fns, nil, 0, 1000000, 0, nil) }

func TestTimers(t *testing.T) {
	var got []string
	rep := run(func() {
		tick := NewTicker(time.Second)
		for i := 0; i < 3; i++ {
			Recv(tick.C)
			got = append(got, "tick")
		}
		tick.Stop()
		s := NewSel()
		a := SelRecv(s, After(time.Hour))
		SelRecv(s, make(chan int))
		if s.Choose(false) == 0 && !a.Val().IsZero() {
			got = append(got, "after")
		}
		tm := NewTimer(time.Second)
		if !tm.Stop() || tm.Reset(time.Second) {
			t.Error("stop")
		}
		Recv(tm.C)
		done := make(chan int)
		AfterFunc(time.Minute, func() { Close(done) })
		Recv(done)
		got = append(got, "func")
	})
	if rep.Aborted != "" || len(rep.Panics) > 0 || len(got) != 5 || len(timers) != 0 {
		t.Fatal(rep, got, len(timers))
	}
}

// A pool of workers that outlives the client that started it.
func TestLingering(t *testing.T) {
	jobs := make(chan int)
	out := make(chan int)
	work := func() {
		for {
			v := Recv(jobs)
			Send(out)(2 * v)
		}
	}
	started := false
	call := func() {
		if !started {
			started = true
			Go(work)
			Go(work)
		}
		Send(jobs)(21)
		if v := Recv(out); v != 42 {
			t.Error(v)
		}
	}
	for i := 0; i < 50; i++ {
		rep := run(call, call)
		if rep.Aborted != "" || rep.Left != 2 || rep.Starved != "" || len(rep.Panics) > 0 {
			t.Fatal(i, rep)
		}
	}
	// one that goes on for ever
	x := 0
	spin := func() {
		for {
			Y(0)
			x++
		}
	}
	rep := run(func() { Go(spin); Y(0) })
	if rep.Aborted != "" || rep.Left != 3 || x == 0 {
		t.Fatal(rep, x)
	}
	y := x
	rep = run(call)
	if rep.Aborted != "" || rep.Left != 3 || x == y {
		t.Fatal(rep, x)
	}
	// an abort unwinds the clients only
	rep = run(func() { Recv(make(chan int)) })
	if rep.Aborted == "" || rep.Left != 3 {
		t.Fatal(rep)
	}
	rep = run(func() { Send(jobs)(1); Recv(make(chan int)) }, func() {
		for {
			Y(0)
		}
	})
	if rep.Aborted != "steps" || rep.Left != 3 {
		t.Fatal(rep)
	}
	rep = run(func() { Recv(out); call() }, call)
	if rep.Aborted != "" || rep.Left != 3 {
		t.Fatal(rep)
	}
	lingering, chans = nil, nil
}

// Time passes while a client is stalled, but not for ever.
func TestTickerAndStall(t *testing.T) {
	ticks := 0
	rep := Run([]func(){func() {
		Go(func() {
			k := NewTicker(time.Minute)
			for {
				Recv(k.C)
				ticks++
			}
		})
		Y(0)
		Y(0)
		Recv(After(time.Hour))
	}, func() { Y(0) }}, []Seg{{N: 1, F: 1}}, 0, 1000000, 0, nil)
	if rep.Aborted != "" || rep.Starved != "" || ticks < 5 || ticks > 100 || rep.Left != 1 {
		t.Fatal(rep, ticks)
	}
	rep = run(func() { Recv(make(chan int)) })
	if rep.Aborted == "" {
		t.Fatal(rep)
	}
	timers, lingering, chans = nil, nil, nil
}

func TestHelpersLeaveNoTrace(t *testing.T) {
	n := 0
	rep := run(func() {
		for i := 0; i < 1000; i++ {
			ch := make(chan int)
			Go(func() { Send(ch)(1) })
			Recv(ch)
			s := NewSel()
			SelRecv(s, make(chan int))
			SelRecv(s, After(time.Second))
			s.Choose(false)
		}
		n = len(cur.clients)
	})
	if rep.Aborted != "" || n > 5 || len(chans) > 0 {
		t.Fatal(rep, n, len(chans))
	}
}

func TestStalled(t *testing.T) {
	ch := make(chan int)
	rep := Run([]func(){func() { Y(0); Y(0); Send(ch)(1) }, func() { Recv(ch) }}, []Seg{{N: 1, F: 1}}, 0, 1000000, 0, nil)
	if rep.Starved == "" || rep.Aborted != "" {
		t.Fatal(rep)
	}
	rep = Run([]func(){func() { Y(0); Y(0) }, func() { Recv(After(time.Hour)) }}, []Seg{{N: 1, F: 1}}, 0, 1000000, 0, nil)
	if rep.Starved != "" || rep.Aborted != "" {
		t.Fatal(rep)
	}
	flag := false
	rep = Run([]func(){func() { Y(0); Y(0); flag = true }, func() {
		for !flag {
			Gosched()
		}
	}}, []Seg{{N: 1, F: 1}}, 0, 1000000, 0, nil)
	if rep.Starved == "" || rep.Aborted != "" {
		t.Fatal(rep)
	}
}

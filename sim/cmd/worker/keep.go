package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"verif.local/sim/model"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World K (keep): the same small pieces of work again and again, with ever new
// arguments. Reference: the live heap after earlier rounds.

func init() {
	worlds["C20"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genKeep(prop, seed, cold)
			return p, runKeep(p)
		},
		run: runKeep,
	}
}

const phases = 4

// live is the size of everything that can be reached.
func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runKeep(p *Plan) *Result {
	begin(p)
	simfs.Serve(serveFiles)
	defer simfs.Serve(nil)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	shape := hashStr(p.Prop)
	bodies := make([]*body, len(p.Clients))
	calls := 0
	var kinds []string
	for ci, cl := range p.Clients {
		bodies[ci] = newBody(cl.Kind)
		for _, o := range cl.Ops {
			kinds = append(kinds, o.F)
			shape = model.Mix(shape, hashStr(o.F), uint64(ci))
		}
	}
	var heap, took [phases]int64
	n := 0
	simrt.SetMapOrder(p.Order)
	for ph := range heap {
		var fnList []func()
		for ci := range p.Clients {
			ci := ci
			fnList = append(fnList, func() {
				simrt.Y(0)
				for k := 0; k < p.Rounds; k++ {
					for _, o := range p.Clients[ci].Ops {
						n++
						calls++
						bodies[ci].do(o.F, tag6(n))
					}
				}
			})
		}
		rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
			if ph == 0 {
				shape = model.Mix(shape, uint64(cl), uint64(site))
			}
			if site != 0 {
				res.Cov["preempt-inside-call"]++
			}
		})
		if ph == 0 {
			finish(res, rep, &log, shape)
		} else {
			res.Steps += rep.Steps
		}
		if rep.Aborted != "" {
			viol("noreturn", "a call did not return: %s", rep.Aborted)
			break
		}
		took[ph] = rep.Steps
		heap[ph] = live()
	}
	fmt.Fprintln(&log, took)
	res.Cov["round"] += p.Rounds * phases
	res.Cov["item"] += calls
	if res.Viol == "" {
		grows := heap[phases-1]-heap[0] > int64((phases-1)*p.Rounds*8+16<<10)
		for ph := 1; ph < phases; ph++ {
			grows = grows && heap[ph]-heap[ph-1] > int64(p.Rounds*4)
		}
		if grows {
			who := "the package keeps"
			for ci := range bodies {
				bodies[ci] = nil
			}
			if live() < heap[0]+(heap[phases-1]-heap[0])/4 {
				who = "the objects keep"
			}
			sort.Strings(kinds)
			viol("grows", "%s more and more memory while %s are repeated with new arguments of the same size", who, strings.Join(kinds, " "))
		}
	}
	res.Hash = hashStr(log.String())
	res.Triv = calls == 0
	return res
}

func genKeep(prop string, seed uint64, cold bool) *Plan {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	p.Order = uint64(r.N(3))
	nc := 1
	if r.P(1, 3) {
		nc = 2
	}
	p.Rounds = []int{200, 300, 500, 1000}[r.N(4)]
	for ci := 0; ci < nc; ci++ {
		cl := Client{Kind: []string{"proc", "proc", "jo", "parser", "scheme"}[r.N(5)]}
		for k := r.Range(1, 3); k > 0; k-- {
			l := itemNames[cl.Kind]
			cl.Ops = append(cl.Ops, Op{F: l[r.N(len(l))]})
		}
		p.Clients = append(p.Clients, cl)
	}
	if nc > 1 {
		g.schedule(nc, int64(p.Rounds)*2000, false)
	}
	return p
}

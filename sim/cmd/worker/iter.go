package main

import (
	"fmt"
	"strings"

	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World K: clients iterate and walk shared documents and JSON objects with
// scripted callbacks (stop, error, panic, slow, nested calls, callbacks that
// append to what they are given). Reference: the tree and the script.

func init() {
	for _, p := range []string{"C09", "C10"} {
		worlds[p] = world{
			gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
				p := genIter(prop, seed, cold)
				return p, runIter(p)
			},
			run: runIter,
		}
	}
}

// visits lists the calls an iteration makes when nobody stops it.
func visits(f string, t *model.Node, path []string) (vs []Visit, nodes []*model.Node, ok bool) {
	if i := strings.IndexByte(f, '.'); i >= 0 {
		f = f[i+1:]
	}
	n := t.At(path)
	switch f {
	case "IterateArray":
		if n == nil || n.Kind != model.Arr {
			return nil, nil, false
		}
		for _, k := range n.Kids {
			vs = append(vs, Visit{})
			nodes = append(nodes, k)
		}
	case "IterateKeyValue":
		if n == nil || n.Kind != model.Obj {
			return nil, nil, false
		}
		for i, k := range n.Kids {
			vs = append(vs, Visit{K: n.Keys[i]})
			nodes = append(nodes, k)
		}
	case "Walk":
		for _, p := range t.Paths() {
			x := t.At(p)
			if !x.Scalar() || len(p) == 0 {
				continue
			}
			vs = append(vs, Visit{K: p[len(p)-1], P: p})
			nodes = append(nodes, x)
		}
	}
	return vs, nodes, true
}

// checkIter judges one iteration.
func checkIter(p *Plan, trees []*model.Node, o *Op, path []string, doc int, out *Out) string {
	t := trees[doc]
	if t == nil {
		return ""
	}
	vs, nodes, ok := visits(o.F, t, path)
	if !ok {
		if len(out.Calls) > 0 {
			return fmt.Sprintf("called its callback %d times although there is no such container", len(out.Calls))
		}
		if out.Err == nil || out.Panic != "" {
			return fmt.Sprintf("reports success although there is no such container (%s)", out.Text)
		}
		return ""
	}
	want := len(vs)
	end := "" // how it must end
	if cb := o.CB; cb != nil {
		for _, x := range []struct {
			at  int
			how string
		}{{cb.Panic, "panic"}, {cb.Err, "error"}, {cb.Stop, "stop"}} {
			if x.at > 0 && (x.at < want || (x.at == want && end == "")) {
				want, end = x.at, x.how
			}
		}
	}
	desc := func(i int) string {
		if i >= len(vs) {
			return "nothing"
		}
		return fmt.Sprintf("key %q, value %s, path %q", vs[i].K, clip(nodes[i].Compact()), vs[i].P)
	}
	for i, v := range out.Calls {
		if i >= want {
			if end == "stop" || end == "error" {
				return fmt.Sprintf("call %d happens after the callback ended the iteration with its %d. call (%s): key %q, value %s", i+1, want, end, v.K, clip(v.raw))
			}
			return fmt.Sprintf("call %d is one too many: key %q, value %s, path %q", i+1, v.K, clip(v.raw), v.P)
		}
		if v.K != vs[i].K || !matchText(v.raw, nodes[i]) || fmt.Sprintf("%q", v.P) != fmt.Sprintf("%q", vs[i].P) {
			return fmt.Sprintf("call %d got key %q, value %s, path %q instead of %s", i+1, v.K, clip(v.raw), v.P, desc(i))
		}
	}
	if len(out.Calls) < want {
		return fmt.Sprintf("made %d calls instead of %d (error %v, panic %q): call for %s is missing", len(out.Calls), want, out.Err, out.Panic, desc(len(out.Calls)))
	}
	switch end {
	case "panic":
		if out.Panic != "callback panics" {
			return fmt.Sprintf("the callback's panic became %q, %v", out.Panic, out.Err)
		}
		return ""
	case "error":
		if out.Err != errCallback {
			return fmt.Sprintf("returned %v instead of the error of its callback in call %d of %d", out.Err, want, len(vs))
		}
	default:
		if len(vs) == 0 && strings.HasSuffix(o.F, "IterateKeyValue") && emptyErr(out.Err) {
			break
		}
		if out.Err != nil {
			return fmt.Sprintf("returned %v instead of nil", out.Err)
		}
	}
	if out.Panic != "" {
		return "panicked: " + out.Panic
	}
	return ""
}

func runIter(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	env := newEnv(p)
	trees := make([]*model.Node, len(p.Docs))
	for i, d := range p.Docs {
		trees[i], _ = model.ParseDoc(d)
	}
	docOf := func(o *Op) int {
		if fns[o.F].Roles[0] == 'j' {
			return p.JOs[pickI(o.O, len(p.JOs))]
		}
		return o.D
	}
	pathOf := func(o *Op) []string {
		if o.P < 0 {
			return nil
		}
		return p.Paths[o.P]
	}
	shape := hashStr(p.Prop)
	var ctxs []*Ctx
	paths := func(where string) {
		if p.Prop != "C10" || res.Viol != "" {
			return
		}
		for ci, c := range ctxs {
			for _, v := range c.handed {
				if len(v.p) != len(v.P) {
					continue
				}
				for i := range v.p {
					if v.p[i] != v.P[i] {
						viol("path", "%s: a path handed to a callback of client %d changed from %q to %q", where, ci, v.P, v.p)
						return
					}
				}
			}
		}
	}
	calls := 0
	iterations := 0
	inOp := make([]string, len(p.Clients))
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		c := newCtx(env, ci, false)
		c.cov = res.Cov
		c.keepPaths = p.Prop == "C10"
		ctxs = append(ctxs, c)
		fnList = append(fnList, func() {
			for i := range p.Clients[ci].Ops {
				o := &p.Clients[ci].Ops[i]
				if res.Viol != "" {
					return
				}
				if o.F == "#junk" {
					junk(o, res.Cov)
					continue
				}
				if fns[o.F] == nil {
					continue
				}
				simrt.Y(0)
				inOp[ci] = o.F
				out := c.call(o)
				inOp[ci] = ""
				fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
				if k := fns[o.F].Kind; k != "I" && k != "ji" {
					continue
				}
				iterations++
				judge := func(o *Op, out *Out, how string) {
					d := docOf(o)
					calls += len(out.Calls)
					if x := checkIter(p, trees, o, pathOf(o), d, out); x != "" {
						viol("iter", "client %d, call %d%s: %s of %s at %q: %s", ci, i, how, o.F, clip(p.Docs[d]), pathOf(o), x)
					}
					shape = model.Mix(shape, hashStr(o.F), uint64(len(out.Calls)), b2u(out.Failed), hashStr(p.Docs[d]))
				}
				judge(o, out, "")
				for _, v := range out.Calls {
					if v.inner != nil && o.CB != nil && o.CB.Inner != nil {
						if k := fns[o.CB.Inner.F].Kind; k == "I" || k == "ji" {
							judge(o.CB.Inner, v.inner, " (inside a callback)")
						}
					}
				}
				paths(fmt.Sprintf("after %s by client %d", o.F, ci))
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
		paths("at a context switch")
	})
	paths("at the end")
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "an iteration did not return: %s", rep.Aborted)
	}
	res.Cov["callback-call"] += calls
	res.Cov["iteration"] += iterations
	res.Hash = hashStr(log.String())
	res.Triv = calls == 0
	return res
}

func genIter(prop string, seed uint64, cold bool) *Plan {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	g.swarmShape()
	for i := r.Range(1, 3); i > 0; i-- {
		n := g.doc()
		for k := 0; !g.fits(n, 3000) && k < 6; k++ {
			n = g.doc()
		}
		if !g.fits(n, 8000) {
			n = &model.Node{Kind: model.Arr}
		}
		g.addDoc(n)
	}
	for i := range p.Docs {
		g.somePaths(i, r.Range(1, 4))
		// containers, so that most iterations find something
		for _, q := range g.trees[i].Paths() {
			if !g.trees[i].At(q).Scalar() && r.P(1, 2) && len(p.Paths) < 30 {
				g.addPath(i, append([]string{}, q...))
			}
		}
		g.addPath(i, []string{})
	}
	p.Vals = append(p.Vals, g.valText())
	p.Lists = append(p.Lists, []string{"a", "b"})
	p.Order = uint64(r.N(3))
	p.JOs = []int{r.N(len(p.Docs))}
	if r.P(1, 2) {
		p.JOs = append(p.JOs, r.N(len(p.Docs)))
	}
	pool := []string{"IterateArray", "IterateKeyValue", "JO.IterateArray", "JO.IterateKeyValue"}
	if prop == "C10" {
		pool = []string{"Walk", "JO.Walk"}
	}
	iterOp := func() Op {
		f := pool[r.N(len(pool))]
		d := r.N(len(p.Docs))
		o := Op{F: f, D: d, P: -1, O: r.N(len(p.JOs))}
		dd := d
		if strings.HasPrefix(f, "JO.") {
			dd = p.JOs[o.O]
		}
		if prop == "C09" {
			o.P = g.pathFor(dd, wantKinds(f))
		}
		vs, _, _ := visits(f, g.trees[dd], func() []string {
			if o.P < 0 {
				return nil
			}
			return p.Paths[o.P]
		}())
		at := func() int {
			switch r.N(4) {
			case 0:
				return 1
			case 1:
				return len(vs)
			case 2:
				return len(vs) + 1
			}
			return r.Range(1, len(vs)+1)
		}
		o.CB = &CB{Steps: r.N(3)}
		switch r.N(7) {
		case 0:
			o.CB.Stop = at()
		case 1:
			o.CB.Err = at()
		case 2:
			o.CB.Panic = at()
		case 3:
			o.CB.Stop, o.CB.Err = at(), at()
			if r.P(1, 2) {
				o.CB.Stop = o.CB.Err // false and an error at once
			}
		}
		if r.P(1, 10) {
			o.CB.Steps = r.Range(10, 300)
		}
		o.CB.Grow = r.P(1, 3)
		return o
	}
	nc := 1
	if r.P(3, 5) {
		nc = r.Range(2, 4)
	}
	for ci := 0; ci < nc; ci++ {
		var cl Client
		for i := r.Range(1, 5); i > 0; i-- {
			o := iterOp()
			if r.P(1, 4) {
				in := iterOp()
				if r.P(1, 4) && in.CB != nil {
					in2 := iterOp()
					in2.CB.Panic = 0
					in.CB.At, in.CB.Inner = r.Range(1, 3), &in2
				}
				o.CB.At, o.CB.Inner = r.Range(1, 4), &in
			}
			cl.Ops = append(cl.Ops, o)
			if r.P(1, 8) {
				cl.Ops = append(cl.Ops, Op{F: []string{"Flatten", "Indent", "GetKeys", "Get"}[r.N(4)], D: r.N(len(p.Docs)), P: o.P})
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	g.sprinkle()
	if nc > 1 {
		total := int64(0)
		for _, d := range p.Docs {
			total += int64(len(d)) * 15
		}
		g.schedule(nc, total*int64(nc)+int64(r.LogN(3000)), false)
	}
	return p
}

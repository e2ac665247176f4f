package main

import (
	"fmt"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World A (age): documents and objects go through long histories. Reference: the
// same call on a fresh object that holds the same text or keys, and a fixed set
// of calls timed when the process was young.

func init() {
	worlds["C19"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			young()
			p := genSoak(prop, seed, cold)
			return p, runSoak(p)
		},
		run: func(p *Plan) *Result { young(); return runSoak(p) },
	}
}

// aged is one call as it was met in the history.
type aged struct {
	ci, i int
	kind  string
	text  string
	keys  []string
	op    *Op
	steps int64
}

// steps runs f alone and measures it.
func alone(f func()) (n int64, ok bool) {
	simrt.Weigh, simrt.Work = true, 0
	rep := simrt.Run([]func(){f}, nil, 0, 20000000, 0, nil)
	simrt.Weigh = false
	// what takes place within a single statement counts too
	return rep.Steps + simrt.Work/16, rep.Aborted == "" && len(rep.Panics) == 0
}

func alone2(f func()) { simrt.Run([]func(){f}, nil, 0, 400000000, 0, nil) }

// fresh measures the call on an object that never saw another one.
func (a *aged) fresh(p *Plan) (n int64, ok bool) {
	env := newEnv(&Plan{Lists: p.Lists})
	var c *Ctx
	_, ok = alone(func() {
		c = newCtx(env, 0, false)
		c.lit = true
		switch a.kind {
		case "jo":
			c.jos = []*jin.JO{jin.New([]byte(a.text))}
		case "parser":
			q, err := jin.Parse([]byte(a.text))
			if err != nil {
				return
			}
			c.parsers = []*jin.Parser{q}
		case "scheme":
			c.schemes = []*jin.Scheme{jin.MakeScheme(append([]string{}, a.keys...)...)}
		default:
		}
		c.cur = []byte(a.text)
		if a.kind == "scheme" {
			c.cur = []byte(p.Docs[a.op.D])
		}
		n = c.call(a.op).Steps
	})
	return n, ok
}

// canary is a fixed set of calls; it gives the steps of each. Some have
// arguments that nobody has seen before.
func canary(all bool) []int64 {
	simfs.Serve(serveFiles)
	defer simfs.Serve(nil)
	const doc = `{"a":[1,2,{"b":"c"}],"d":{"e":null,"f":[]},"g":"h"}`
	var out []int64
	step := func(f func()) {
		n, _ := alone(func() { swallow(f) })
		out = append(out, n)
	}
	d := func() []byte { return []byte(doc) }
	step(func() { jin.Get(d(), "a", "2", "b") })
	step(func() { jin.GetStringArray(d(), "a") })
	step(func() { jin.GetKeysValues(d(), "d") })
	step(func() { jin.GetMap(d(), "d") })
	step(func() { jin.GetAll(d(), []string{"e", "f"}, "d") })
	step(func() { jin.Set(d(), []byte("5"), "d", "e") })
	step(func() { jin.SetKey(d(), "k", "d", "e") })
	step(func() { jin.AddKeyValueString(d(), "n", "1.5") })
	step(func() { jin.StoreString(d(), "g", "x y") })
	step(func() { jin.Insert(d(), 1, []byte("7"), "a") })
	step(func() { jin.Delete(d(), "a", "1") })
	step(func() { jin.Flatten(d()) })
	step(func() { jin.Indent(d()) })
	step(func() { jin.IterateArray(d(), goOn, "a") })
	step(func() { jin.IterateKeyValue(d(), goOnKV) })
	step(func() { jin.Walk(d(), goOnWalk) })
	step(func() { jin.GetType(d(), "a") })
	step(func() { jin.Length(d(), "a") })
	step(func() { jin.MakeJsonString([]string{"a", "b"}, []string{"1", "x"}) })
	step(func() { jin.MakeArrayFloat([]float64{1, 2.5}) })
	fixed = len(out)
	if all {
		for _, i := range procItems {
			i := i
			unseen++
			step(func() { i.f(tag6(unseen)) })
		}
	}
	return out
}

var fixed int

// unseen counts the arguments that were used up.
var unseen int

// canaryName names a call of the fixed set.
func canaryName(i int) string {
	if i >= fixed {
		return procItems[i-fixed].name
	}
	return "call " + strconv.Itoa(i)
}

var youth []int64

// older tells whether a call takes more than it took when the process was young.
func older(now []int64) bool {
	for i, n := range now {
		if n > youth[i]+youth[i]/2+300 {
			return true
		}
	}
	return false
}

// young measures the canary when the process has done nothing else.
func young() {
	if youth == nil {
		canary(true) // whatever is set up once is set up now
		youth = canary(true)
	}
}

func runSoak(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	env := newEnv(p)
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	shape := hashStr(p.Prop)
	hs := make([]*hclient, len(p.Clients))
	recs := make([][]*aged, len(p.Clients))
	var fnList []func()
	calls, longest := 0, 0
	for ci := range p.Clients {
		ci := ci
		h := &hclient{c: newCtx(env, ci, false), cl: &p.Clients[ci]}
		h.c.lit = true
		h.c.cov = res.Cov
		hs[ci] = h
		if len(h.cl.Ops) > longest {
			longest = len(h.cl.Ops)
		}
		fnList = append(fnList, func() {
			simrt.Y(0)
			doc := env.docs[h.cl.Doc].arg()
			switch h.cl.Kind {
			case "jo":
				h.c.jos = []*jin.JO{jin.New(doc)}
			case "parser":
				q, err := jin.Parse(doc)
				if err != nil {
					return
				}
				h.c.parsers = []*jin.Parser{q}
			case "scheme":
				h.c.schemes = []*jin.Scheme{jin.MakeScheme(env.lists[h.cl.Doc%len(env.lists)].arg()...)}
			default:
				h.c.cur = doc
			}
			for i := range h.cl.Ops {
				o := &h.cl.Ops[i]
				if fns[o.F] == nil {
					continue
				}
				a := &aged{ci: ci, i: i, kind: h.cl.Kind, op: o}
				if a.kind == "scheme" {
					a.keys = h.c.schemes[0].GetCurrentKeys()
					h.c.cur = env.docs[o.D].arg()
				} else {
					a.text = h.text()
				}
				out := h.c.call(o)
				a.steps = out.Steps
				calls++
				if out.Failed {
					res.Cov["failing-call"]++
				} else {
					res.Cov["call"]++
				}
				if f := fns[o.F]; f.Kind == "F" {
					if b, ok := out.Raw[0].([]byte); ok {
						h.c.cur = b
					}
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed), uint64(out.Steps))
				fmt.Fprintf(&log, "%d %d %d %s\n", ci, i, out.Steps, out.Text)
				recs[ci] = append(recs[ci], a)
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	rep := simrt.Run(fnList, p.Sched, p.First, 200000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 {
			res.Cov["preempt-inside-call"]++
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "a call did not return: %s", rep.Aborted)
	}
	if longest >= 300 {
		res.Cov["long-history"]++
	}
	for _, l := range recs {
		// the last calls, and some on the way
		for i, a := range l {
			if !(i >= len(l)-12 || i%37 == 5) {
				continue
			}
			n, ok := a.fresh(p)
			if !ok {
				continue
			}
			res.Cov["compared"]++
			var parse int64 // an object may put off parsing its text
			if a.kind != "scheme" {
				parse, _ = alone(func() { jin.Parse([]byte(a.text)) })
			}
			if max := 3*(n+parse) + 500; a.steps > max {
				viol("slow", "client %d, call %d: %s(%s) took %d steps; on a fresh object with the same content it takes %d", a.ci, a.i, a.op.F, opArgs(a.op), a.steps, n)
			}
		}
	}
	if p.Rounds > 0 {
		// many calls with arguments of their own
		b := newBody(churnKind(p.Churn))
		simfs.Serve(serveFiles)
		alone2(func() {
			for k := 0; k < p.Rounds; k++ {
				for _, o := range p.Churn {
					unseen++
					b.do(o, tag6(unseen))
				}
			}
		})
		res.Cov["churn"] += p.Rounds * len(p.Churn)
		// the object is as good as one with its content that never saw a call
		for _, o := range p.Churn {
			if b.jo == nil && b.parser == nil && b.scheme == nil {
				break
			}
			o := o
			unseen++
			fresh := b.again()
			// whatever is put off until the first calls is done before
			alone(func() { fresh.do(o, tag6(unseen-1)); fresh.do(o, tag6(unseen)) })
			unseen++
			n, _ := alone(func() { fresh.do(o, tag6(unseen)) })
			k, _ := alone(func() { b.do(o, tag6(unseen)) })
			for again := 0; again < 3 && k > n+n/2+300; again++ {
				// work that is done once in a while is no growth
				unseen++
				if l, _ := alone(func() { b.do(o, tag6(unseen)) }); l < k {
					k = l
				}
			}
			res.Cov["compared"]++
			if k > n+n/2+300 {
				viol("slow", "%s takes %d steps on an object that saw it %d times; on a fresh object with the same content it takes %d", o, k, p.Rounds, n)
			}
		}
	}
	now := canary(p.Rounds > 0)
	for again := 0; again < 3 && older(now); again++ {
		for i, n := range canary(p.Rounds > 0) {
			if n < now[i] {
				now[i] = n
			}
		}
	}
	for i, n := range now {
		if n > youth[i]+youth[i]/2+300 {
			viol("aged", "%s of the fixed set takes %d steps now, it took %d when the process was young", canaryName(i), n, youth[i])
		}
	}
	res.Hash = hashStr(log.String())
	res.Triv = calls < 5
	return res
}

func genSoak(prop string, seed uint64, cold bool) *Plan {
	histFns()
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	for len(p.Docs) < 2 {
		g.swarmShape()
		n := g.doc()
		if len(n.Compact()) > 200 {
			continue
		}
		g.addDoc(n)
	}
	for i := 0; i < 2; i++ {
		var l []string
		for k := r.Range(0, 4); k > 0; k-- {
			l = append(l, "k"+string(rune('a'+r.N(8))))
		}
		p.Lists = append(p.Lists, uniq(l))
	}
	nc := 1
	if r.P(1, 4) {
		nc = r.Range(2, 3)
	}
	if r.P(1, 4) {
		p.Rounds = r.LogN(3000)
		kind := []string{"proc", "proc", "proc", "jo", "parser", "scheme"}[r.N(6)]
		if kind != "proc" {
			p.Rounds = r.LogN(8000)
		}
		for k := r.Range(1, 4); k > 0; k-- {
			p.Churn = append(p.Churn, itemNames[kind][r.N(len(itemNames[kind]))])
		}
	}
	p.Order = uint64(r.N(3))
	var total int64
	for ci := 0; ci < nc; ci++ {
		cl := Client{Doc: r.N(len(p.Docs)), Kind: []string{"bytes", "jo", "parser", "parser", "scheme"}[r.N(5)]}
		n := r.LogN(2000)
		total += int64(n * 500)
		if cl.Kind == "scheme" {
			names := kindNames("se", "se", "sr")
			var pick []string
			for i := r.Range(1, 6); i > 0; i-- {
				pick = append(pick, names[r.N(len(names))])
			}
			pick = append(pick, "Scheme.Add", "Scheme.Remove")
			span := []int{10, 10, 40, 4000}[r.N(4)] // how many names there are
			name := func(i int) string {
				return "k" + string(rune('a'+i%10)) + strings.Repeat("x", i/10%7) + strconv.Itoa(i/70)
			}
			var live []string
			for i := 0; i < n; i++ {
				o := Op{F: pick[r.N(len(pick))], KK: p.Lists[r.N(2)], M: r.N(2), D: r.N(2)}
				if o.F == "Scheme.Add" && len(live) > 8 {
					o.F = "Scheme.Remove"
				}
				switch {
				case o.F == "Scheme.Remove" && len(live) > 0 && r.P(9, 10):
					k := r.N(len(live))
					if r.P(1, 2) {
						k = []int{0, len(live) - 1}[r.N(2)]
					}
					o.K = live[k]
					live = append(live[:k:k], live[k+1:]...)
				default:
					o.K = name(r.N(span))
					if o.F == "Scheme.Add" {
						live = append(live, o.K)
					}
				}
				cl.Ops = append(cl.Ops, o)
			}
			p.Clients = append(p.Clients, cl)
			continue
		}
		t := g.trees[cl.Doc].Clone()
		pool, rp := editFns[cl.Kind], readFns[cl.Kind]
		var pick []string
		for i := r.Range(1, 5); i > 0; i-- {
			pick = append(pick, pool[r.N(len(pool))])
		}
		prefix := map[string]string{"bytes": "", "jo": "JO.", "parser": "Parser."}[cl.Kind]
		pick = append(pick, prefix+"Delete")
		everNew := r.P(1, 3) // no key comes twice
		if everNew {
			for k := r.Range(1, 5); k > 0; k-- {
				pick = append(pick, prefix+[]string{"AddKeyValueInt", "AddKeyValueString", "AddKeyValue", "SetKey", "Delete"}[r.N(5)])
			}
		}
		for i := 0; i < n; i++ {
			f := pick[r.N(len(pick))]
			if _, b, _ := splitEdit(f); (b == "Set" || b == "SetKey") && len(t.Kids) == 0 {
				f = prefix + "AddKeyValueInt"
			}
			bad := r.P(1, 10)
			o := g.histOp(f, t, bad)
			for k := 0; k < 6 && !bad; k++ {
				if _, ok, known := applyModel(&o, t); ok && known {
					break
				}
				o = g.histOp(f, t, false)
			}
			if len(o.W) > 60 {
				o.W = "1"
			}
			if len(o.S) > 60 {
				o.S = "s"
			}
			if len(o.K) > 20 {
				o.K = "k"
			}
			if everNew && o.K != "" && r.P(9, 10) {
				o.K = "k" + strconv.Itoa(i)
			}
			nt, ok, known := applyModel(&o, t)
			if !known || (ok && len(nt.Compact()) > 400) {
				// make room
				o = g.histOp(prefix+"Delete", t, false)
				nt, ok, known = applyModel(&o, t)
				if !known {
					continue
				}
			}
			if ok {
				t = nt
			}
			cl.Ops = append(cl.Ops, o)
			if r.P(1, 4) {
				cl.Ops = append(cl.Ops, g.histRead(rp[r.N(len(rp))], t))
			}
			if cl.Kind == "bytes" && r.P(1, 100) {
				cl.Ops = append(cl.Ops, Op{F: "Flatten", D: -2})
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	if nc > 1 {
		g.schedule(nc, total, false)
	}
	return p
}

// churnKind is the kind of object that a list of items works on.
func churnKind(l []string) string {
	for _, o := range l {
		if i := strings.IndexByte(o, '.'); i > 0 && o[1:i] != "proc" {
			return o[1:i]
		}
	}
	return ""
}

func uniq(l []string) []string {
	out := []string{}
	for _, s := range l {
		dup := false
		for _, x := range out {
			dup = dup || x == s
		}
		if !dup {
			out = append(out, s)
		}
	}
	return out
}

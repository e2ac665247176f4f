package main

import (
	"fmt"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World X: clients use every function and method on documents that storage and
// networks have damaged, and go on after the damage: edits of damaged documents,
// objects and Parsers over them, further damage in between.

func init() {
	worlds["C13"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genHostile(prop, seed, cold)
			return p, runHostile(p)
		},
		run: runHostile,
	}
}

// stepBound is the number of steps a call may take on n bytes of input.
func stepBound(n int) int64 {
	b := 20000 + 100*int64(n+1)*int64(n+1)
	if b > 100000000 {
		b = 100000000
	}
	return b
}

func runHostile(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	env := &Env{}
	if pan := protect(func() { env = newEnv(p) }); pan != "" {
		viol("panic", "creating the shared objects over %q panicked: %s", p.Docs, pan)
		return res
	}
	shape := hashStr(p.Prop)
	nc := len(p.Clients)
	inOp := make([]string, nc)
	opStart := make([]int64, nc)
	opSize := make([]int, nc)
	calls := 0
	// dumps of every object except the one being edited
	type obj struct {
		name string
		x    interface{}
	}
	objects := func(c *Ctx, but interface{}) (out []obj) {
		add := func(x interface{}, f string, i int) {
			if x != but {
				out = append(out, obj{fmt.Sprintf(f, i), x})
			}
		}
		for i, x := range c.jos {
			add(x, "own JSON object %d", i)
		}
		for i, x := range c.parsers {
			add(x, "own Parser %d", i)
		}
		for i, x := range c.schemes {
			add(x, "own Scheme %d", i)
		}
		for i, x := range env.jos {
			add(x, "shared JSON object %d", i)
		}
		for i, x := range env.parsers {
			if x != nil {
				add(x, "shared Parser %d", i)
			}
		}
		for i, x := range env.schemes {
			add(x, "shared Scheme %d", i)
		}
		return
	}
	dump := func(x interface{}) string {
		switch t := x.(type) {
		case *jin.JO:
			return string(t.JSON())
		case *jin.Parser:
			return string(t.JSON()) + "\x00" + t.Tree() + "\x00" + t.TreeFull()
		case *jin.Scheme:
			return dumpScheme(t)
		}
		return ""
	}
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		cl := &p.Clients[ci]
		fnList = append(fnList, func() {
			c := newCtx(env, ci, false)
			c.cov = res.Cov
			for i := range cl.Ops {
				o := &cl.Ops[i]
				if res.Viol != "" {
					return
				}
				simrt.Y(0)
				where := fmt.Sprintf("client %d, call %d: %s", ci, i, o.F)
				if o.F == "#damage" {
					// what the client holds is stored, damaged and loaded again
					r := model.NewRng(uint64(o.I))
					c.cur = newBuf(damage(r, string(c.cur), r.Range(1, 2)), 0).arg()
					if len(c.jos) > 0 {
						k := len(c.jos) - 1
						c.jos[k] = jin.New(newBuf(damage(r, string(c.jos[k].JSON()), 1), 0).arg())
					}
					if len(c.parsers) > 0 {
						k := len(c.parsers) - 1
						s := damage(r, string(c.parsers[k].JSON()), 1)
						inOp[ci], opStart[ci], opSize[ci] = "Parse", simrt.MySteps(), len(s)
						pan := protect(func() {
							if q, err := jin.Parse(newBuf(s, 0).arg()); err == nil && q != nil {
								c.parsers[k] = q
							}
						})
						inOp[ci] = ""
						if pan != "" {
							viol("panic", "%s: Parse(%s) panicked: %s", where, clip(s), pan)
						}
					}
					res.Cov["damage-again"]++
					continue
				}
				f := fns[o.F]
				if f == nil {
					continue
				}
				// the size of what the call works on
				var target interface{}
				text := ""
				if f.Roles != "" {
					switch f.Roles[0] {
					case 'd':
						text = string(c.doc(o))
					case 'j':
						if j := c.jo(o); j != nil {
							target, text = j, string(j.JSON())
						}
					case 'q':
						if q := c.parser(o); q != nil {
							target, text = q, string(q.JSON())
						}
					case 'c':
						if s := c.scheme(o); s != nil {
							target = s
						}
					}
				}
				size := len(text) + len(o.S) + len(o.K)
				if strings.Contains(f.Roles, "c") && o.D >= 0 {
					size += len(p.Docs[o.D])
				}
				for _, l := range p.Lists {
					for _, s := range l {
						size += len(s) + 4
					}
				}
				for _, s := range p.Vals {
					size += len(s)
				}
				for _, m := range p.Maps {
					for k, v := range m {
						size += len(k) + len(v) + 6
					}
				}
				var before []string
				var objs []obj
				if o.B || f.Kind == "je" || f.Kind == "pe" || f.Kind == "se" {
					objs = objects(c, target)
					for _, x := range objs {
						s := ""
						if pan := protect(func() { s = strings.Clone(dump(x.x)) }); pan != "" {
							viol("panic", "reading %s panicked: %s", x.name, pan)
							return
						}
						before = append(before, s)
					}
				}
				inOp[ci], opStart[ci], opSize[ci] = o.F, simrt.MySteps(), size
				out := c.call(o)
				inOp[ci] = ""
				if out.Text == "no object" {
					continue
				}
				calls++
				fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
				desc := func() string {
					pa := []string{}
					if o.P >= 0 && o.P < len(p.Paths) {
						pa = p.Paths[o.P]
					}
					v := ""
					if o.V >= 0 && o.V < len(p.Vals) {
						v = p.Vals[o.V]
					}
					return fmt.Sprintf("%s (path %q, key %q, string %q, value %q, index %d) on %q", where, pa, o.K, clip(o.S), clip(v), o.I, clip(text))
				}
				if out.Panic != "" {
					if !(o.CB != nil && out.Panic == "callback panics") {
						viol("panic", "%s panicked: %s", desc(), out.Panic)
						return
					}
				}
				inner := int64(0)
				if o.CB != nil {
					inner = int64(len(out.Calls)) * int64(o.CB.Steps+2)
				}
				if out.Steps-inner > stepBound(size) {
					viol("slow", "%s took %d steps for %d bytes", desc(), out.Steps, size)
				}
				for k, x := range objs {
					s := ""
					if pan := protect(func() { s = dump(x.x) }); pan != "" {
						viol("panic", "%s; then reading %s panicked: %s", desc(), x.name, pan)
						return
					}
					if s != before[k] {
						viol("other", "%s changed %s from %q to %q", desc(), x.name, clip(before[k]), clip(s))
					}
				}
				if out.Failed {
					res.Cov["call-failed"]++
				} else {
					res.Cov["call-succeeded"]++
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed), uint64(len(out.Calls)), hashStr(text))
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	intact := func(when string) {
		if s := env.inputsIntact(); s != "" {
			viol("input", "%s: %s", when, s)
		}
	}
	rep := simrt.Run(fnList, p.Sched, p.First, 150000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
		intact(fmt.Sprintf("at a context switch (clients inside %q)", inOp))
	})
	finish(res, rep, &log, shape)
	intact("at the end")
	if rep.Aborted != "" {
		res.Cov["aborted"]++
		for ci := range inOp {
			if inOp[ci] != "" && rep.ClientStep[ci]-opStart[ci] > stepBound(opSize[ci]) {
				viol("noreturn", "client %d: %s did not return within %d steps on %d bytes (%s)", ci, inOp[ci], rep.ClientStep[ci]-opStart[ci], opSize[ci], rep.Aborted)
			}
		}
		if strings.HasPrefix(rep.Aborted, "deadlock") {
			viol("noreturn", "%s (clients inside %q)", rep.Aborted, inOp)
		}
	}
	res.Hash = hashStr(log.String())
	res.Triv = calls == 0
	return res
}

func genHostile(prop string, seed uint64, cold bool) *Plan {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	g.swarmShape()
	for i := r.Range(1, 4); i > 0; i-- {
		n := g.doc()
		for k := 0; len(n.Compact()) > 1500 && k < 6; k++ {
			n = g.doc()
		}
		if len(n.Compact()) > 4000 {
			n = &model.Node{Kind: model.Obj}
		}
		g.addDoc(n)
	}
	for i := range p.Docs {
		g.somePaths(i, r.Range(2, 5))
	}
	for i := r.Range(1, 4); i > 0; i-- {
		q := []string{}
		for k := r.N(4); k > 0; k-- {
			q = append(q, []string{"", "0", "1", "2", "-1", "a", "99", "\"", "\\", "9223372036854775807", "99999999999999999999", "é", "\x00", "]", "}", "{", "[", ",", ":", " ", "00"}[r.N(21)])
		}
		g.addPath(r.N(len(p.Docs)), q)
	}
	g.addPath(0, []string{})
	odd := func() string {
		switch r.N(6) {
		case 0:
			return damage(r, g.valText(), r.Range(1, 2))
		case 1:
			return []string{"", " ", "\"", "\\", "\\\"", "[", "]", "{", "}", ",", ":", "\"\"", "[]", "{}", "[[", "{\"", "\"\\", "\x00", "\xff\xfe", "null", "-", "\n"}[r.N(22)]
		}
		return g.valText()
	}
	for i := r.Range(1, 3); i > 0; i-- {
		p.Vals = append(p.Vals, odd())
	}
	for i := r.Range(1, 2); i > 0; i-- {
		l := []string{}
		for k := r.N(5); k > 0; k-- {
			if r.P(1, 2) {
				l = append(l, odd())
			} else {
				l = append(l, model.Key(r, g.sh))
			}
		}
		p.Lists = append(p.Lists, l)
	}
	m := map[string]string{}
	for i := r.N(5); i > 0; i-- {
		m[odd()] = odd()
	}
	p.Maps = append(p.Maps, m)
	p.Order = uint64(r.N(3))
	// the damage
	for i := range p.Docs {
		switch r.N(12) {
		case 0: // left whole
		case 1: // nothing but structure
			n := r.LogN(40)
			b := make([]byte, n)
			for k := range b {
				b[k] = "\"\\{}[],: 1a\n"[r.N(12)]
			}
			p.Docs[i] = string(b)
		case 2: // any bytes
			b := make([]byte, r.N(12))
			for k := range b {
				b[k] = byte(r.U64())
			}
			p.Docs[i] = string(b)
		case 3: // opened many times
			u := []string{"[", "{\"a\":", "[{\"a\":[", "\"", "{", "\\\"", ",", "]", "}", "[[],"}[r.N(10)]
			p.Docs[i] = strings.Repeat(u, r.LogN(300)) + []string{"", "1", "\"x\"", "]", "}"}[r.N(5)]
		default:
			p.Docs[i] = damage(r, p.Docs[i], r.Range(1, 3))
		}
	}
	for i := r.N(2); i > 0; i-- {
		p.JOs = append(p.JOs, r.N(len(p.Docs)))
	}
	for i := r.N(2); i > 0; i-- {
		p.Schemes = append(p.Schemes, r.N(len(p.Lists)))
	}
	nc := 1
	if r.P(1, 3) {
		nc = r.Range(2, 3)
	}
	all := kindNames("R", "I", "E", "F", "M", "jr", "ji", "je", "pr", "pe", "sr", "se")
	var total int64
	for ci := 0; ci < nc; ci++ {
		var cl Client
		var pick []string
		for i := r.Range(2, 12); i > 0; i-- {
			if r.P(1, 2) {
				l := kindNames([]string{"R", "I", "E", "F", "M", "jr", "ji", "je", "pr", "pe", "sr", "se"}[r.N(12)])
				pick = append(pick, l[r.N(len(l))])
				continue
			}
			pick = append(pick, all[r.N(len(all))])
		}
		for i := r.Range(1, 3); i > 0; i-- {
			f := []string{"New", "Parse", "Parse", "MakeScheme"}[r.N(4)]
			cl.Ops = append(cl.Ops, Op{F: f, D: r.N(len(p.Docs)), L: r.N(len(p.Lists)), P: -1, Own: false})
		}
		chained := false
		for i := r.LogN(50); i > 0; i-- {
			if r.P(1, 15) {
				cl.Ops = append(cl.Ops, Op{F: "#damage", I: r.N(1 << 30)})
				continue
			}
			f := pick[r.N(len(pick))]
			o := g.op(f, r.N(len(p.Docs)))
			k := fns[f].Kind
			if r.P(1, 3) {
				o.S = odd()
			}
			if r.P(1, 3) {
				o.K = odd()
			}
			if r.P(1, 12) {
				o.V = -1
				if strings.Contains(fns[f].Roles, "B") {
					o.V = 0
				}
			}
			if strings.Contains(fns[f].Roles, "p") && r.P(1, 4) {
				o.P = r.N(len(p.Paths))
			}
			if f == "ParseArray" {
				o.S = p.Docs[o.D]
			}
			if (k == "R" || k == "E" || k == "F" || k == "I") && chained && r.P(1, 2) {
				o.D = -1
			}
			if k == "E" {
				chained = true
			}
			if len(k) == 2 {
				o.O = -1 - r.N(3)
				shared := map[byte]int{'j': len(p.JOs), 'p': 0, 's': len(p.Schemes)}[k[0]]
				if shared > 0 && k != "je" && k != "se" && r.P(1, 3) {
					o.O = r.N(shared)
				}
			}
			if o.CB != nil && o.CB.Steps > 10 {
				o.CB.Steps = 3
			}
			o.B = o.B || r.P(1, 4)
			o.Own = r.P(1, 6)
			cl.Ops = append(cl.Ops, o)
			total += int64(len(p.Docs[0])*8 + 100)
		}
		p.Clients = append(p.Clients, cl)
	}
	if nc > 1 {
		g.schedule(nc, total, false)
	}
	return p
}

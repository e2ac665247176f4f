package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World M: clients build documents from shared maps, nest them into one another
// and read them into maps, while the order of every map range changes from call
// to call and inside calls. Reference: the entries.

func init() {
	worlds["C14"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genMaps(prop, seed, cold)
			return p, runMaps(p)
		},
		run: runMaps,
	}
}

// checkBuilt compares a document with the map it was built from.
func checkBuilt(m map[string]string, b []byte) (*model.Node, string) {
	n, err := model.ParseDoc(string(b))
	if err != nil {
		return nil, fmt.Sprintf("is not JSON (%v): %s", err, clip(string(b)))
	}
	if n.Kind != model.Obj {
		return n, "is not an object: " + clip(string(b))
	}
	seen := map[string]bool{}
	for i, k := range n.Keys {
		v, ok := m[k]
		if !ok {
			return n, fmt.Sprintf("has the key %q, which is not in the map: %s", k, clip(string(b)))
		}
		if seen[k] {
			return n, fmt.Sprintf("has the key %q twice: %s", k, clip(string(b)))
		}
		seen[k] = true
		w, err := model.ParseDoc(formatModel(v))
		if err == nil && !w.Equal(n.Kids[i]) {
			return n, fmt.Sprintf("has %s at %q instead of %s: %s", clip(n.Kids[i].Compact()), k, formatModel(v), clip(string(b)))
		}
	}
	if len(n.Keys) != len(m) {
		return n, fmt.Sprintf("has %d of %d entries: %s", len(n.Keys), len(m), clip(string(b)))
	}
	return n, ""
}

func runMaps(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	env := newEnv(p)
	shape := hashStr(p.Prop)
	inOp := make([]string, len(p.Clients))
	ranges0, perm0 := simrt.MapRanges, simrt.MapPermuted
	built := 0
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		cl := &p.Clients[ci]
		fnList = append(fnList, func() {
			c := newCtx(env, ci, false)
			c.cov = res.Cov
			c.lit = true
			c.cur = env.docs[cl.Doc].arg()
			tree, _ := model.ParseDoc(p.Docs[cl.Doc])
			isJO := func() { c.jos = []*jin.JO{jin.New(c.cur)} }
			isJO()
			for i := range cl.Ops {
				o := &cl.Ops[i]
				if res.Viol != "" || tree == nil {
					return
				}
				simrt.Y(0)
				where := fmt.Sprintf("client %d, call %d: %s", ci, i, o.F)
				switch o.F {
				case "#junk":
					junk(o, res.Cov)
					continue
				case "#order":
					simrt.SetMapOrder(uint64(o.I))
					res.Cov["map-order-changed"]++
					continue
				case "#build", "#nest":
					ma := env.maps[o.M]
					var b []byte
					inOp[ci] = "MakeJsonWithMap"
					pan := protect(func() { b = jin.MakeJsonWithMap(ma.m) })
					inOp[ci] = ""
					if pan != "" {
						viol("panic", "%s: MakeJsonWithMap(%v) panicked: %s", where, p.Maps[o.M], pan)
						return
					}
					n, x := checkBuilt(p.Maps[o.M], b)
					if x != "" {
						viol("built", "%s: the document built from %s %s", where, canon(p.Maps[o.M]), x)
						return
					}
					built++
					fmt.Fprintf(&log, "%d %d %s\n", ci, i, b)
					shape = model.Mix(shape, hashStr(string(b)))
					if o.F == "#build" {
						c.cur, tree = b, n
						isJO()
						continue
					}
					// put the built document into the current one
					var nb []byte
					var err error
					pan = protect(func() {
						if tree.Kind == model.Obj {
							nb, err = jin.AddKeyValue(c.cur, o.K, b)
						} else {
							nb, err = jin.Add(c.cur, b)
						}
					})
					if pan != "" {
						viol("panic", "%s: adding the built document panicked: %s", where, pan)
						return
					}
					if err != nil {
						continue // the key is taken
					}
					t := tree.Clone()
					if t.Kind == model.Obj {
						t.Keys = append(t.Keys, o.K)
					}
					t.Kids = append(t.Kids, n)
					m, err := model.ParseDoc(string(nb))
					if err != nil || !m.Equal(t) {
						viol("built", "%s: %s became %s, expected %s", where, clip(tree.Compact()), clip(string(nb)), clip(t.Compact()))
						return
					}
					c.cur, tree = nb, t
					isJO()
					continue
				case "#rebuild":
					// read an object into a map and build it again
					var m map[string]string
					var b []byte
					var err error
					inOp[ci] = "GetMap"
					pan := protect(func() {
						m, err = jin.GetMap(c.cur, newStrs(o.PP).arg()...)
						if err == nil {
							b = jin.MakeJsonWithMap(m)
						}
					})
					inOp[ci] = ""
					if pan != "" {
						viol("panic", "%s of %s panicked: %s", where, clip(string(c.cur)), pan)
						return
					}
					if n := tree.At(o.PP); n != nil && !n.Scalar() && len(n.Kids) > 0 && err == nil {
						plain := true
						for _, v := range m {
							_, e := model.ParseDoc(formatModel(v))
							plain = plain && e == nil
						}
						if plain {
							if _, x := checkBuilt(m, b); x != "" {
								viol("built", "%s at %q: the document built from %s %s", where, o.PP, canon(m), x)
							}
							built++
						}
					}
					continue
				}
				if fns[o.F] == nil {
					continue
				}
				inOp[ci] = o.F
				out := c.call(o)
				inOp[ci] = ""
				fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
				res.Cov["read"]++
				if x := checkRead(o, tree, out); x != "" {
					viol("read", "%s: %s; the document is %s", where, x, clip(string(c.cur)))
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed))
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "a call did not return: %s (clients inside %q)", rep.Aborted, inOp)
	}
	if s := env.inputsIntact(); s != "" {
		viol("input", "at the end: %s", s)
	}
	res.Cov["map-range"] += int(simrt.MapRanges - ranges0)
	res.Cov["map-range-permuted"] += int(simrt.MapPermuted - perm0)
	res.Hash = hashStr(log.String())
	res.Triv = built == 0 && res.Cov["read"] == 0
	return res
}

func genMaps(prop string, seed uint64, cold bool) *Plan {
	histFns()
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	g.swarmShape()
	for i := r.Range(1, 2); i > 0; i-- {
		n := g.doc()
		for k := 0; !g.fits(n, 800) && k < 6; k++ {
			n = g.doc()
		}
		if !g.fits(n, 3000) {
			n = &model.Node{Kind: model.Obj}
		}
		g.addDoc(n)
	}
	size := func() int {
		switch r.N(6) {
		case 0:
			return r.N(2)
		case 1:
			if r.P(1, 8) {
				return r.Range(60, 400)
			}
			return r.Range(10, 40)
		}
		return r.Range(2, 7)
	}
	for i := r.Range(1, 4); i > 0; i-- {
		m := map[string]string{}
		for k := size(); k > 0; k-- {
			key := model.Key(r, g.sh)
			if r.P(1, 2) {
				key += strconv.Itoa(r.N(600))
			}
			if r.P(1, 30) {
				key = ""
			}
			v := g.okStr()
			if _, err := model.ParseDoc(formatModel(v)); err != nil {
				v = "x"
			}
			m[key] = v
		}
		p.Maps = append(p.Maps, m)
	}
	order := func() uint64 {
		switch r.N(4) {
		case 0:
			return uint64(r.N(2))
		}
		return r.U64()>>2 | 2
	}
	p.Order = order()
	nc := 1
	if r.P(1, 2) {
		nc = r.Range(2, 4)
	}
	reads := []string{"GetMap", "GetAllMap", "JO.GetMap", "JO.GetAllMap", "GetKeys", "GetKeysValues", "GetAll", "Get", "JO.GetKeys", "JO.Get", "Length"}
	total := int64(0)
	for ci := 0; ci < nc; ci++ {
		cl := Client{Doc: r.N(len(p.Docs))}
		t := g.trees[cl.Doc].Clone()
		for n := r.LogN(14); n > 0; n-- {
			if r.P(2, 3) {
				cl.Ops = append(cl.Ops, Op{F: "#order", I: int(order())})
			}
			mi := r.N(len(p.Maps))
			sub := &model.Node{Kind: model.Obj}
			for _, k := range sortedKeys(p.Maps[mi]) {
				v, _ := model.ParseDoc(formatModel(p.Maps[mi][k]))
				sub.Keys = append(sub.Keys, k)
				sub.Kids = append(sub.Kids, v)
			}
			total += 60 + int64(len(t.Compact())*8)
			switch r.N(6) {
			case 0, 1:
				cl.Ops = append(cl.Ops, Op{F: "#build", M: mi})
				t = sub
			case 2:
				o := Op{F: "#nest", M: mi, K: model.Key(r, g.sh) + strconv.Itoa(r.N(9))}
				cl.Ops = append(cl.Ops, o)
				if len(t.Compact()) < 4000 && t.ChildIndex(o.K) < 0 {
					t = t.Clone()
					if t.Kind == model.Obj {
						t.Keys = append(t.Keys, o.K)
					}
					t.Kids = append(t.Kids, sub)
				}
			case 3:
				o := g.histRead("GetMap", t)
				o.F = "#rebuild"
				cl.Ops = append(cl.Ops, o)
			default:
				cl.Ops = append(cl.Ops, g.histRead(reads[r.N(len(reads))], t))
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	g.sprinkle()
	if nc > 1 {
		g.schedule(nc, total, false)
	}
	return p
}

func sortedKeys(m map[string]string) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

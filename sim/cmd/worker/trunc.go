package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World T: a document was stored or received only up to some byte (crash in the
// middle of a write, connection lost, file cut by a short write). Clients read
// what arrived. Reference: the whole document.

func init() {
	worlds["C12"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genTrunc(prop, seed, cold)
			return p, runTrunc(p)
		},
		run: runTrunc,
	}
}

func baseName(f string) string {
	if i := strings.IndexByte(f, '.'); i >= 0 {
		return f[i+1:]
	}
	return f
}

var listings = map[string]string{"GetKeys": "o", "GetValues": "o", "GetKeysValues": "o", "GetMap": "oa",
	"GetStringArray": "a", "GetIntArray": "a", "GetFloatArray": "a", "GetBoolArray": "a",
	"IterateArray": "a", "IterateKeyValue": "o"}

// checkTrunc judges one call on the first cut bytes of the document w (tree t);
// whole is the outcome of the same call on the whole document.
func checkTrunc(o *Op, t *model.Node, cut int, out, whole *Out) string {
	name := baseName(o.F)
	if out.Panic != "" && !(o.CB != nil && out.Panic == "callback panics") {
		return "panicked: " + out.Panic
	}
	n := t.At(o.PP)
	if name == "Walk" {
		n = t
	}
	complete := n != nil && n.End <= cut
	switch fns[o.F].Kind {
	case "I", "ji":
		path := o.PP
		vs, nodes, _ := visits(o.F, t, path)
		for i, v := range out.Calls {
			if i >= len(vs) || v.K != vs[i].K || !matchText(v.raw, nodes[i]) || fmt.Sprintf("%q", v.P) != fmt.Sprintf("%q", vs[i].P) {
				return fmt.Sprintf("call %d delivers key %q, value %s, path %q, which is not what the whole document has there", i+1, v.K, clip(v.raw), v.P)
			}
			if nodes[i].End > cut {
				return fmt.Sprintf("call %d delivers the value %s, which had not arrived completely", i+1, clip(v.raw))
			}
		}
		ended := false // by the callback
		if cb := o.CB; cb != nil {
			k := len(out.Calls)
			ended = k > 0 && (cb.Stop == k || cb.Err == k || cb.Panic == k)
		}
		if !ended && !complete && out.Err == nil {
			return fmt.Sprintf("made %d calls and returned nil although only a part arrived", len(out.Calls))
		}
		if !ended && out.Err == nil && len(out.Calls) != len(vs) {
			return fmt.Sprintf("made %d calls instead of %d and returned nil", len(out.Calls), len(vs))
		}
		return ""
	}
	failed := out.Err != nil
	if name == "GetNew" {
		b, _ := out.Raw[0].([]byte)
		failed = b == nil
	}
	if failed {
		return ""
	}
	if want, ok := listings[name]; ok && !complete && n != nil && strings.IndexByte(want, byte(n.Kind)) >= 0 {
		return fmt.Sprintf("succeeded with %s although only a part of the container arrived", clip(out.Text))
	}
	if len(o.PP) == 0 && (name == "Get" || name == "GetString" || name == "GetNew") {
		return ""
	}
	wholeFailed := whole.Err != nil || whole.Panic != ""
	if wholeFailed || whole.Text != out.Text {
		return fmt.Sprintf("gave %s; on the whole document it gives %s", clip(out.Text), clip(whole.Text))
	}
	return ""
}

func runTrunc(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	shape := hashStr(p.Prop)
	trees := make([]*model.Node, len(p.Docs))
	for i, d := range p.Docs {
		trees[i], _ = model.ParseDoc(d)
	}
	scripts := append([]simfs.Script{}, p.Files...)
	for i := range scripts {
		di, cut := fileDoc(scripts[i].Path)
		if di < len(p.Docs) && cut <= len(p.Docs[di]) {
			scripts[i].Data = []byte(p.Docs[di][:cut])
		}
	}
	w := simfs.Mount(scripts)
	defer simfs.Mount(nil)
	env := newEnv(p)
	judged := 0
	inOp := make([]string, len(p.Clients))
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		cl := &p.Clients[ci]
		fnList = append(fnList, func() {
			c := newCtx(env, ci, false)
			c.cov = res.Cov
			c.lit = true
			full := newCtx(env, ci, true)
			full.lit = true
			cut := 0
			w := p.Docs[cl.Doc]
			t := trees[cl.Doc]
			for i := range cl.Ops {
				o := &cl.Ops[i]
				if res.Viol != "" {
					return
				}
				where := fmt.Sprintf("client %d, call %d: ", ci, i)
				if o.F == "#junk" {
					junk(o, res.Cov)
					continue
				}
				if o.F == "#cut" || o.F == "#file" {
					cut = pickI(o.I, len(w)+1)
					c.jos, c.parsers, c.cur = nil, nil, nil
					var err error
					pan := protect(func() {
						simrt.Y(0)
						switch {
						case o.F == "#file":
							var j *jin.JO
							j, err = jin.ReadFile(fmt.Sprintf("/sim/%d-%d", cl.Doc, cut))
							if err != nil {
								res.Cov["file-error"]++
								err = nil
							} else if string(j.JSON()) != w[:cut] {
								// C11 judges that; nothing to check here
								cut = 0
								j = nil
							}
							if j != nil {
								c.jos = []*jin.JO{j}
								res.Cov["truncated-file"]++
							}
						case cl.Kind == "parser":
							b := newBuf(w[:cut], 0)
							var q *jin.Parser
							q, err = jin.Parse(b.arg())
							if err == nil && q != nil {
								c.parsers = []*jin.Parser{q}
							}
						case cl.Kind == "jo":
							c.jos = []*jin.JO{jin.New(newBuf(w[:cut], 0).arg())}
						}
					})
					c.cur = newBuf(w[:cut], 0).arg()
					fmt.Fprintf(&log, "%d %d cut %d %v\n", ci, i, cut, err)
					if pan != "" {
						viol("panic", "%sgiven %s: panicked: %s", where, clip(w[:cut]), pan)
						return
					}
					res.Cov["truncation"]++
					if cl.Kind == "parser" && t != nil {
						if err == nil && cut < t.End {
							viol("parse", "%sParse accepts %s, which is only a part of a document", where, clip(w[:cut]))
						}
						if err != nil {
							res.Cov["parse-refused"]++
						}
					}
					full.cur = newBuf(w, 0).arg()
					full.jos = []*jin.JO{jin.New(newBuf(w, 0).arg())}
					full.parsers = nil
					if q, err := jin.Parse(newBuf(w, 0).arg()); err == nil {
						full.parsers = []*jin.Parser{q}
					}
					continue
				}
				f := fns[o.F]
				if f == nil || full.cur == nil {
					continue
				}
				inOp[ci] = o.F
				out := c.call(o)
				inOp[ci] = ""
				if out.Text == "no object" || t == nil {
					continue
				}
				if f.Kind == "E" {
					// only returning matters; go on with what arrived
					c.cur = newBuf(w[:cut], 0).arg()
				}
				fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
				judged++
				desc := fmt.Sprintf("%s%s(%s) on %s (cut at byte %d of %s): ", where, o.F, opArgs(o), clip(w[:cut]), cut, clip(w))
				switch f.Kind {
				case "R", "jr", "pr", "I", "ji":
					cb := o.CB
					plain := *o
					if cb != nil {
						plain.CB = &CB{}
					}
					whole := full.call(&plain)
					if x := checkTrunc(o, t, cut, out, whole); x != "" {
						viol("trunc", "%s%s", desc, x)
					}
				default:
					// an edit: go on with what arrived
					if f.Kind == "je" {
						c.jos[0] = jin.New(newBuf(w[:cut], 0).arg())
					} else if f.Kind == "pe" {
						c.parsers = nil
					}
					if out.Panic != "" {
						viol("panic", "%spanicked: %s", desc, out.Panic)
					}
				}
				if out.Failed {
					res.Cov["call-failed"]++
				} else {
					res.Cov["call-succeeded"]++
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed), uint64(len(out.Calls)), hashStr(w[:cut]))
			}
		})
	}
	rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "a call on a truncated document did not return: %s (clients inside %q)", rep.Aborted, inOp)
	}
	for k, v := range w.Fired {
		res.Cov[k] += v
	}
	res.Hash = hashStr(log.String())
	res.Triv = judged == 0
	return res
}

// protect runs f and returns its panic.
func protect(f func()) (pan string) {
	defer func() {
		if x := recover(); x != nil {
			if simrt.Aborted(x) {
				panic(x)
			}
			pan = fmt.Sprint(x)
		}
	}()
	f()
	return ""
}

// fileDoc reads the document and the cut from a simulated file's name.
func fileDoc(path string) (doc, cut int) {
	var a, b string
	path = strings.TrimPrefix(path, "/sim/")
	if i := strings.IndexByte(path, '-'); i > 0 {
		a, b = path[:i], path[i+1:]
	}
	doc, e1 := strconv.Atoi(a)
	cut, e2 := strconv.Atoi(b)
	if e1 != nil || e2 != nil {
		return 1 << 30, 0
	}
	return doc, cut
}

// cuts lists interesting cut points: around every token boundary.
func cuts(r *model.Rng, w string) []int {
	set := map[int]bool{}
	for i := 0; i < len(w); i++ {
		switch w[i] {
		case '"', '{', '}', '[', ']', ',', ':', '\\', ' ':
			set[i] = true
			set[i+1] = true
		}
	}
	set[len(w)] = true
	set[r.N(len(w)+1)] = true
	var l []int
	for i := range set {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

func genTrunc(prop string, seed uint64, cold bool) *Plan {
	histFns()
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	g.swarmShape()
	for i := r.Range(1, 2); i > 0; i-- {
		n := g.doc()
		for k := 0; !g.fits(n, 1500) && k < 6; k++ {
			n = g.doc()
		}
		if !g.fits(n, 4000) {
			n = &model.Node{Kind: model.Obj}
		}
		g.addDoc(n)
	}
	nc := 1
	if r.P(1, 3) {
		nc = r.Range(2, 3)
	}
	iters := map[string][]string{"bytes": kindNames("I"), "jo": kindNames("ji"), "file": kindNames("ji")}
	var total int64
	for ci := 0; ci < nc; ci++ {
		cl := Client{Doc: r.N(len(p.Docs)), Kind: []string{"bytes", "bytes", "jo", "parser", "file"}[r.N(5)]}
		w := p.Docs[cl.Doc]
		t := g.trees[cl.Doc]
		cs := cuts(r, w)
		kind := cl.Kind
		if kind == "file" {
			kind = "jo"
		}
		ncut := r.Range(1, 6)
		if r.P(1, 6) && len(cs) < 60 {
			ncut = len(cs) // a sweep over every cut
		}
		for k := 0; k < ncut; k++ {
			cut := cs[r.N(len(cs))]
			if ncut == len(cs) {
				cut = cs[k]
			} else if r.P(1, 4) {
				cut = r.N(len(w) + 1)
			} else if r.P(1, 2) { // most of it arrived
				cut = cs[len(cs)-1-r.LogN(len(cs))+1]
			}
			o := Op{F: "#cut", I: cut}
			if cl.Kind == "file" {
				o.F = "#file"
				s := simfs.Script{Path: fmt.Sprintf("/sim/%d-%d", cl.Doc, cut), Size: []int64{-1, 0, int64(len(w))}[r.N(3)]}
				for i := r.N(4); i > 0; i-- {
					s.Reads = append(s.Reads, simfs.Read{Max: r.LogN(len(w) + 1)})
				}
				p.Files = append(p.Files, s)
			}
			cl.Ops = append(cl.Ops, o)
			if cl.Kind == "parser" && r.P(2, 3) {
				continue
			}
			n := r.Range(2, 10)
			if ncut == len(cs) {
				n = 3
			}
			for ; n > 0; n-- {
				switch {
				case kind != "parser" && r.P(1, 3):
					l := iters[kind]
					x := g.histRead(l[r.N(len(l))], t)
					if baseName(x.F) == "Walk" {
						x.PP = nil
					}
					if r.P(1, 4) {
						x.CB = &CB{}
						switch r.N(3) {
						case 0:
							x.CB.Stop = r.Range(1, 4)
						case 1:
							x.CB.Err = r.Range(1, 4)
						case 2:
							x.CB.Panic = r.Range(1, 4)
						}
					}
					cl.Ops = append(cl.Ops, x)
				case r.P(1, 10):
					l := editFns[kind]
					cl.Ops = append(cl.Ops, g.histOp(l[r.N(len(l))], t, r.P(1, 3)))
				default:
					l := readFns[kind]
					x := l[r.N(len(l))]
					if baseName(x) == "JSON" || baseName(x) == "String" {
						x = l[0]
					}
					cl.Ops = append(cl.Ops, g.histRead(x, t))
				}
				total += int64(len(w) * 6)
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	g.sprinkle()
	if nc > 1 {
		g.schedule(nc, total, false)
	}
	return p
}

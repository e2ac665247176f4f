package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif.local/sim/model"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World S: clients share inputs (and read-only objects) or own objects made
// from shared inputs. Reference: each client alone on private fresh copies.

type keptT struct {
	what string
	val  interface{}
	snap string
	from int
}

func ownable(x interface{}) bool {
	switch x.(type) {
	case []byte, string, []string, []int, []float64, []bool, map[string]string, error:
		return true
	}
	return false
}

func (k *keptT) check() string {
	now := canon(k.val)
	if now != k.snap {
		return fmt.Sprintf("result of %s by client %d changed from %s to %s", k.what, k.from, clip(k.snap), clip(now))
	}
	return ""
}

// scribble lets the owner overwrite a result of its own, spare capacity included.
func scribble(v interface{}) bool {
	switch t := v.(type) {
	case []byte:
		t = t[:cap(t)]
		for i := range t {
			t[i] = '#'
		}
	case []string:
		t = t[:cap(t)]
		for i := range t {
			t[i] = "#scribble#"
		}
	case []int:
		t = t[:cap(t)]
		for i := range t {
			t[i] = -77
		}
	case []float64:
		t = t[:cap(t)]
		for i := range t {
			t[i] = -77
		}
	case []bool:
		t = t[:cap(t)]
		for i := range t {
			t[i] = !t[i]
		}
	case map[string]string:
		if t == nil {
			return false
		}
		for k := range t {
			t[k] = "#"
		}
		t["#"] = "#"
	default:
		return false
	}
	return true
}

const maxKept = 16

type sharedRun struct {
	p     *Plan
	ref   [][]*Out
	total int64
	hits  [2]int64 // accesses to shared state
	bad   bool     // the reference run itself did not return
	cov   map[string]int
}

func (s *sharedRun) reference() {
	begin(s.p)
	s.ref = make([][]*Out, len(s.p.Clients))
	defer simfs.Mount(nil)
	for ci := range s.p.Clients {
		env := newEnv(s.p)
		c := newCtx(env, ci, true)
		simfs.Mount(s.p.Files)
		var outs []*Out
		fn := func() {
			for i := range s.p.Clients[ci].Ops {
				o := &s.p.Clients[ci].Ops[i]
				simrt.Y(0)
				if strings.HasPrefix(o.F, "#") {
					outs = append(outs, &Out{})
					continue
				}
				outs = append(outs, c.call(o))
			}
		}
		simrt.SetMapOrder(s.p.Order)
		aloneRun = true
		rep := simrt.Run([]func(){fn}, nil, 0, 3000000, 0, nil)
		aloneRun = false
		s.total += rep.Steps
		s.hits[0] += rep.Shared[0]
		s.hits[1] += rep.Shared[1]
		if rep.Aborted != "" {
			s.bad = true
		}
		s.ref[ci] = outs
	}
}

// focus says which judgements belong to the property.
type focus struct {
	outcome, inputs, kept, objects, progress bool
}

var focusOf = map[string]focus{
	"C01": {outcome: true},
	"C02": {inputs: true},
	"C03": {kept: true},
	"C07": {outcome: true},
	"C15": {outcome: true, objects: true},
	"C16": {progress: true},
}

func runShared(p *Plan, pre *sharedRun) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	s := pre
	if s == nil {
		s = &sharedRun{p: p}
		if !p.Cold {
			s.reference()
		}
	}
	if p.Restart && simrt.Restart() > 0 {
		res.Cov["restart"]++
	}
	fc := focusOf[p.Prop]
	env := newEnv(p)
	files := simfs.Mount(p.Files)
	defer simfs.Mount(nil)
	n := len(p.Clients)
	ctxs := make([]*Ctx, n)
	outs := make([][]*Out, n)
	inOp := make([]int, n)
	var log strings.Builder
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	for i := range ctxs {
		ctxs[i] = newCtx(env, i, false)
		ctxs[i].cov = res.Cov
		inOp[i] = -1
	}
	at := func(ci int) string {
		if ci < 0 || inOp[ci] < 0 || inOp[ci] >= len(p.Clients[ci].Ops) {
			return "between calls"
		}
		return p.Clients[ci].Ops[inOp[ci]].F
	}
	invariant := func(where string) {
		if res.Viol != "" {
			return
		}
		if fc.inputs {
			if x := env.inputsIntact(); x != "" {
				viol("input", "%s: %s", where, x)
			}
			for _, c := range ctxs {
				if x := c.ownIntact(); x != "" {
					viol("input", "%s: %s", where, x)
				}
			}
		}
		if fc.kept {
			for _, c := range ctxs {
				for _, k := range c.kept {
					if x := k.check(); x != "" {
						viol("kept", "%s: %s", where, x)
					}
				}
			}
		}
	}
	shape := uint64(p.First)
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		c := ctxs[ci]
		fnList = append(fnList, func() {
			for i := range p.Clients[ci].Ops {
				o := &p.Clients[ci].Ops[i]
				inOp[ci] = i
				simrt.Y(0)
				if o.F == "#junk" {
					junk(o, res.Cov)
					outs[ci] = append(outs[ci], &Out{})
					continue
				}
				if o.F == "#scribble" {
					if len(c.kept) > 0 {
						j := o.I % len(c.kept)
						k := c.kept[j]
						if b, isB := k.val.([]byte); !(isB && len(b) > 0 && len(c.cur) > 0 && &b[0] == &c.cur[0]) {
							if scribble(k.val) {
								res.Cov["scribble-over-result"]++
								c.kept = append(c.kept[:j:j], c.kept[j+1:]...)
							}
						}
					}
					invariant(fmt.Sprintf("after client %d overwrote one of its results", ci))
					outs[ci] = append(outs[ci], &Out{})
					continue
				}
				if o.F == "#refill" {
					c.ownDoc.fill(p.Docs[o.D])
					c.ownVal.fill(strings.Repeat("#", c.ownVal.n))
					c.ownPath.fill([]string{"#", "#", "#"})
					c.ownList.fill([]string{"#", "#"})
					res.Cov["buffer-overwrite"]++
					invariant(fmt.Sprintf("after client %d overwrote its own argument buffers", ci))
					outs[ci] = append(outs[ci], &Out{})
					continue
				}
				out := c.call(o)
				outs[ci] = append(outs[ci], out)
				if fc.kept && fns[o.F].Keep && !(fns[o.F].Kind == "E" && out.Failed) && out.Panic == "" {
					for _, x := range out.Raw {
						if ownable(x) {
							if b, ok := x.([]byte); ok && cap(b) == 0 {
								continue
							}
							c.kept = append(c.kept, &keptT{what: o.F, val: x, snap: strings.Clone(canon(x)), from: ci})
						}
					}
					if len(c.kept) > maxKept {
						c.kept = c.kept[len(c.kept)-maxKept:]
					}
				}
				if fc.kept {
					invariant(fmt.Sprintf("after %s by client %d", o.F, ci))
				}
			}
			inOp[ci] = -1
		})
	}
	simrt.SetMapOrder(p.Order)
	limit := 10*s.total + 2000000
	if p.Cold {
		limit = 60000000
	}
	if p.Watch && fc.inputs {
		res.Cov["watched-statement"] += int(s.total)
		simrt.Probe = func() {
			if res.Viol != "" {
				return
			}
			x := env.inputsIntact()
			for _, c := range ctxs {
				if x == "" {
					x = c.ownIntact()
				}
			}
			if x != "" {
				cl := simrt.Root()
				viol("input", "while client %d is inside %s: %s", cl, at(cl), x)
			}
		}
	}
	rep := simrt.Run(fnList, p.Sched, p.First, limit, 400, func(cl int, site int32) {
		o := uint64(0)
		if inOp[cl] >= 0 {
			o = hashStr(p.Clients[cl].Ops[inOp[cl]].F)
		}
		shape = model.Mix(shape, uint64(cl), uint64(site), o)
		if site != 0 {
			res.Cov["preempt-inside-call"]++
		}
		invariant(fmt.Sprintf("while client %d is inside %s", cl, at(cl)))
	})
	simrt.Probe = nil
	invariant("at the end")
	if files != nil {
		for k, v := range files.Fired {
			res.Cov[k] += v
		}
		res.Cov["open-descriptor"] += files.Opened
		simfs.Mount(nil)
	}
	res.Steps = rep.Steps
	res.Cov["switch"] += rep.Switches
	res.Cov["stall"] += rep.Freezes
	res.Cov["blocked"] += rep.Blocks
	for _, x := range rep.Panics {
		viol("harness", "harness panic: %s", x)
	}
	if p.Cold {
		s.reference()
	}
	if s.bad {
		res.Cov["reference-did-not-return"]++
		res.Triv = true
		if res.Class != "harness" {
			res.Viol, res.Class = "", ""
		}
		return res
	}
	if rep.Aborted != "" && (fc.outcome || fc.progress) {
		viol("noreturn", "calls did not return (%s) although each returns when alone", rep.Aborted)
	}
	if fc.progress && rep.Starved != "" {
		viol("starved", "%s", rep.Starved)
	}
	for ci := range outs {
		for i, out := range outs[ci] {
			fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
			ref := s.ref[ci][i]
			if fc.outcome && rep.Aborted == "" && out.Text != ref.Text {
				viol("outcome", "%s by client %d (call %d) gave %s, alone it gives %s", p.Clients[ci].Ops[i].F, ci, i, clip(out.Text), clip(ref.Text))
			}
			if fc.progress && out.Steps > 4*ref.Steps+3000 {
				viol("slow", "%s by client %d (call %d) took %d steps, alone it takes %d", p.Clients[ci].Ops[i].F, ci, i, out.Steps, ref.Steps)
			}
			if out.Failed {
				res.Cov["failing-call"]++
			}
		}
	}
	if fc.objects && rep.Aborted == "" {
		want := newEnv(p).objects()
		got := env.objects()
		for i := range want {
			if want[i] != got[i] {
				viol("object", "shared object %d was changed by readers: %s instead of %s", i, clip(got[i]), clip(want[i]))
			}
		}
	}
	for _, e := range rep.Events {
		fmt.Fprintf(&log, "%d %d %d %d %s\n", e.Step, e.From, e.Site, e.To, e.Why)
	}
	res.Hash = hashStr(log.String())
	res.Shape = shape
	res.Triv = rep.Switches == 0
	for _, e := range rep.Events {
		res.Trace = append(res.Trace, fmt.Sprintf("step %d: client %d %s at %s -> client %d", e.Step, e.From, e.Why, siteName(e.Site), e.To))
	}
	return res
}

// genShared draws a plan of world S.
func genShared(prop string, seed uint64, cold bool) (*Plan, *sharedRun) {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	g.swarmShape()
	g.addDoc(g.doc())
	for len(p.Docs) < r.Range(1, 4) {
		if r.P(1, 2) {
			g.addVariant(r.N(len(p.Docs)))
		} else {
			g.addDoc(g.doc())
		}
	}
	for i := range p.Docs {
		g.somePaths(i, r.Range(1, 5))
	}
	if r.P(1, 2) {
		g.addPath(0, []string{})
	}
	for i := 0; i < r.Range(1, 3); i++ {
		p.Vals = append(p.Vals, g.valText())
	}
	// key lists: members of some object, plus a stranger now and then
	for i := 0; i < r.Range(1, 3); i++ {
		var l []string
		most := 6
		if r.P(1, 15) {
			most = r.Range(7, 80)
		}
		t := g.trees[r.N(len(g.trees))]
		for _, q := range t.Paths() {
			if n := t.At(q); n != nil && n.Kind == model.Obj && len(n.Keys) > 0 && r.P(1, 2) {
				for _, k := range n.Keys {
					if r.P(2, 3) && len(l) < most {
						l = append(l, k)
					}
				}
				break
			}
		}
		for len(l) == 0 || r.P(1, 4) || (most > 6 && len(l) < most) {
			l = append(l, []string{"a", "b", "name", "12", "true", "key"}[r.N(6)])
		}
		p.Lists = append(p.Lists, l)
	}
	if r.P(1, 3) { // a second list of the same length
		l := make([]string, len(p.Lists[0]))
		for i := range l {
			l[i] = g.strArg()
		}
		p.Lists = append(p.Lists, l)
	}
	m := map[string]string{}
	entries := r.Range(1, 6)
	if r.P(1, 15) {
		entries = r.Range(7, 100)
	}
	for i := entries; i > 0; i-- {
		k := model.Key(r, g.sh)
		if entries > 6 {
			k += strconv.Itoa(i)
		}
		m[k] = g.strArg()
		if _, err := model.ParseDoc(formatModel(m[k])); err != nil {
			m[k] = "x"
		}
	}
	p.Maps = append(p.Maps, m)
	p.Order = uint64(r.N(3))
	if p.Order == 2 {
		p.Order = r.U64() | 2
	}

	nc := r.Range(2, 5)
	crowd := (prop == "C16" && r.P(1, 120)) || (prop == "C01" || prop == "C15") && r.P(1, 1500)
	if crowd {
		nc = r.Range(17, 70)
		if r.P(1, 4) {
			nc = r.Range(100, 140)
		}
	}
	var pool []string
	objs := false
	switch prop {
	case "C01":
		pool = kindNames("R", "I", "E", "F", "M")
		if r.P(1, 4) {
			// each with objects of its own
			pool = kindNames("R", "I", "E", "F", "M", "jr", "ji", "je", "pr", "pe", "sr", "se")
			objs = true
		}
	case "C02":
		pool = kindNames("R", "I", "E", "F", "M", "je", "pe", "jr", "pr", "sr", "se")
		objs = true
	case "C03":
		pool = kindNames("R", "E", "F", "M", "jr", "pr", "sr")
		if r.P(1, 2) {
			// objects over memory that its owner will use again, edited in between
			pool = kindNames("R", "E", "F", "M", "jr", "pr", "sr", "jr", "pr", "sr", "je", "pe", "se")
			objs = true
		}
	case "C07":
		pool = kindNames("je", "pe", "se", "jr", "pr", "sr", "ji", "nn")
		objs = true
	case "C15":
		pool = kindNames("jr", "ji", "pr", "sr")
	case "C16":
		pool = kindNames("R", "I", "E", "F", "M", "jr", "ji", "je", "pr", "pe", "sr", "se", "nn")
		objs = true
	}
	shared := prop == "C15" || prop == "C03" || (prop == "C16" && r.P(1, 2)) || (prop == "C02" && r.P(1, 2))
	if shared {
		for i := r.Range(1, 2); i > 0; i-- {
			p.JOs = append(p.JOs, r.N(len(p.Docs)))
		}
		for i := r.Range(1, 2); i > 0; i-- {
			p.Parsers = append(p.Parsers, r.N(len(p.Docs)))
		}
		p.Schemes = append(p.Schemes, 0)
	}
	// swarm: a few functions per run
	var pick []string
	for i := r.Range(1, 6); i > 0; i-- {
		pick = append(pick, pool[r.N(len(pool))])
	}
	if prop == "C07" || objs {
		// make sure whole families occur
		fam := []string{"JO.", "Parser.", "Scheme."}[r.N(3)]
		for i := 0; i < 4; i++ {
			f := pool[r.N(len(pool))]
			for k := 0; k < 40 && !strings.HasPrefix(f, fam); k++ {
				f = pool[r.N(len(pool))]
			}
			pick = append(pick, f)
		}
	}
	if crowd {
		// all of them in the same few functions
		if prop == "C16" && r.P(1, 2) {
			pool = kindNames("I", "ji")
		}
		pick = []string{pool[r.N(len(pool))], pool[r.N(len(pool))]}[:r.Range(1, 2)]
	}
	twins := cold && !crowd && r.P(2, 3)
	if twins {
		// the first calls of the process are of one or two functions
		pick = []string{pool[r.N(len(pool))], pool[r.N(len(pool))]}[:r.Range(1, 2)]
	}
	if (prop == "C01" || prop == "C07" || prop == "C16") && !twins && r.P(1, 4) {
		g.files()
		for i := r.Range(1, 2); i > 0; i-- {
			pick = append(pick, []string{"ReadFile", "ReadJSONFile"}[r.N(2)])
		}
	}
	freeze := prop == "C16" || (prop == "C02" && r.P(1, 4))
	same := r.P(1, 2) // clients mostly use the same document and path
	d0 := r.N(len(p.Docs))
	for ci := 0; ci < nc; ci++ {
		var cl Client
		if objs {
			// own objects, made from shared inputs
			for i := r.Range(1, 3); i > 0; i-- {
				o := Op{F: []string{"New", "Parse", "MakeScheme", "NewJSON"}[r.N(4)], D: d0, L: r.N(len(p.Lists))}
				for _, f := range pick {
					if r.P(1, 2) {
						switch {
						case strings.HasPrefix(f, "JO."):
							o.F = "New"
						case strings.HasPrefix(f, "Parser."):
							o.F = "Parse"
						case strings.HasPrefix(f, "Scheme."):
							o.F = "MakeScheme"
						}
					}
				}
				if !same {
					o.D = r.N(len(p.Docs))
				}
				o.Own = prop == "C03" && r.P(2, 3)
				if len(p.Files) > 0 && o.F == "New" && r.P(1, 2) {
					o = g.op("ReadFile", o.D)
				}
				cl.Ops = append(cl.Ops, o)
			}
		}
		calls := r.Range(1, 6)
		if crowd {
			calls = 1
		}
		for i := calls; i > 0; i-- {
			d := d0
			if !same || r.P(1, 4) {
				d = r.N(len(p.Docs))
			}
			f := pick[r.N(len(pick))]
			if prop == "C07" && r.P(1, 6) {
				f = chained[r.N(len(chained))]
			}
			o := g.op(f, d)
			if objs && (!shared || r.P(2, 3) || isEdit(o.F)) {
				o.O = -1 - r.N(3)
			}
			if fns[o.F].Kind == "E" && r.P(1, 4) {
				o.D = -1
			}
			if r.P(1, 3) {
				o.Own = true
			}
			if o.CB != nil && r.P(1, 5) {
				in := g.op(pool[r.N(len(pool))], d)
				in.CB = nil
				if !isEdit(in.F) {
					o.CB.At, o.CB.Inner = r.Range(1, 3), &in
				}
			}
			cl.Ops = append(cl.Ops, o)
			if prop == "C03" && r.P(1, 2) {
				if r.P(1, 2) {
					cl.Ops = append(cl.Ops, Op{F: "#refill", D: r.N(len(p.Docs))})
				} else {
					cl.Ops = append(cl.Ops, Op{F: "#scribble", I: r.N(8)})
				}
			}
		}
		if prop == "C07" {
			if r.P(1, 3) {
				g.editAgain(&cl)
			}
			// what became of every object
			for k := 0; k < 4; k++ {
				cl.Ops = append(cl.Ops, Op{F: "JO.String", O: -1 - k}, Op{F: "Parser.JSON", O: -1 - k}, Op{F: "Scheme.GetCurrentKeys", O: -1 - k})
			}
			cl.Ops = append(cl.Ops, Op{F: "Parser.Tree", O: -1}, Op{F: "Scheme.GetOriginalKeys", O: -1})
		}
		p.Clients = append(p.Clients, cl)
	}
	if prop == "C03" || prop == "C16" {
		// chained edits need a current document
		for ci := range p.Clients {
			if r.P(1, 2) {
				p.Clients[ci].Ops = append([]Op{{F: "Flatten", D: d0}}, p.Clients[ci].Ops...)
			}
		}
	}
	for ci := range p.Clients {
		if fixChain(&p.Clients[ci], d0) {
			break
		}
	}
	g.sprinkle()
	s := &sharedRun{p: p}
	total := int64(nc) * int64(r.LogN(20000))
	if !cold {
		s.reference()
		total = s.total
		g.hits = s.hits
	}
	g.objs = objs && shared
	g.schedule(nc, total, freeze)
	p.Restart = r.P(1, 6)
	p.Watch = prop == "C02" && total < 20000 && r.P(1, 25)
	if crowd && freeze {
		// everybody is stopped somewhere, one after the other
		p.Sched = nil
		for i := 0; i < nc; i++ {
			p.Sched = append(p.Sched, simrt.Seg{N: int64(r.N(int(total)/nc + 1)), F: 1})
		}
	}
	if cold {
		return p, nil
	}
	return p, s
}

// files puts the documents into simulated files. Nothing that the system calls
// do changes what reading gives: short reads, interruptions, wrong size hints.
func (g *gen) files() {
	r := g.r
	for i, d := range g.p.Docs {
		if i > 0 && r.P(1, 3) {
			continue
		}
		s := simfs.Script{Path: fmt.Sprintf("/sim/%c.json", 'a'+i), Data: []byte(d), Size: -1}
		if r.P(1, 2) {
			for k := r.LogN(12); k > 0; k-- {
				x := simfs.Read{Max: r.LogN(len(d) + 1)}
				if r.P(1, 4) {
					x = simfs.Read{Err: "EINTR"}
				}
				s.Reads = append(s.Reads, x)
			}
		}
		switch r.N(8) {
		case 0:
			s.Size = 0
		case 1:
			s.Size = int64(r.LogN(len(d)*2 + 10))
		case 2:
			s.StatErr = "EIO"
		case 3:
			if i > 0 {
				s.Dir = true
			}
		}
		g.p.Files = append(g.p.Files, s)
	}
}

// editAgain repeats an edit with another value of the same length, with an
// object made from the edited one in between.
func (g *gen) editAgain(cl *Client) {
	r := g.r
	var at []int
	for i, o := range cl.Ops {
		if isEdit(o.F) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	i := at[r.N(len(at))]
	a := cl.Ops[i]
	if f := a.F[:strings.IndexByte(a.F, '.')]; f != "Scheme" && r.P(1, 2) {
		a.F = f + []string{".SetInt", ".SetInt", ".SetBool", ".SetString", ".Set"}[r.N(5)]
		a.P = g.pathFor(a.D, "snb")
		a.I = r.Range(0, 9)
		a.S = g.strArg()
		a.V = r.N(len(g.p.Vals))
	}
	b := a
	if i := strings.LastIndexAny(g.p.Vals[a.V], "0123456789"); i >= 0 {
		v := []byte(g.p.Vals[a.V])
		v[i] = '1' + (v[i]-'0')%9
		b.V = len(g.p.Vals)
		g.p.Vals = append(g.p.Vals, string(v))
	}
	b.I = (a.I + 1) % 10
	b.X = a.X + 1
	b.B = !a.B
	if len(a.S) > 0 {
		b.S = "#" + a.S[1:]
	}
	c := g.op(chained[r.N(len(chained))], a.D)
	a.O = -1 - r.N(2)
	b.O, c.O = a.O, a.O
	cl.Ops = append(cl.Ops[:i:i], append([]Op{a, c, b}, cl.Ops[i+1:]...)...)
}

var chained = []string{"NewOfJO", "ParseOfJO", "NewOfParser", "ParseOfParser", "NewOfGet", "SchemeOfCurrent", "SchemeOfOriginal"}

// fixChain leaves references to the own current document only where one exists.
func fixChain(c *Client, d int) bool {
	have := false
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.D < 0 && !have {
			o.D = d
		}
		if f := fns[o.F]; f != nil && f.Kind == "E" {
			have = true
		}
	}
	return false
}

func isEdit(f string) bool {
	k := fns[f].Kind
	return k == "je" || k == "pe" || k == "se"
}

// op draws the arguments of one call on document d.
func (g *gen) op(f string, d int) Op {
	r := g.r
	o := Op{F: f, D: d, P: -1, V: r.N(len(g.p.Vals))}
	roles := fns[f].Roles
	for _, c := range roles {
		switch c {
		case 'p':
			o.P = g.pathFor(d, wantKinds(f))
		case 's':
			o.S = g.strArg()
			if fns[f].Kind == "fs" && len(g.p.Files) > 0 {
				o.S = g.p.Files[r.N(len(g.p.Files))].Path
			}
			if f == "ParseArray" {
				o.S = g.trees[d].Compact()
			}
		case 'k':
			o.K = model.Key(r, g.sh)
			if r.P(1, 8) {
				o.K = ""
			}
			if r.P(1, 3) && len(g.p.Lists) > 0 {
				l := g.p.Lists[r.N(len(g.p.Lists))]
				if len(l) > 0 {
					o.K = l[r.N(len(l))]
				}
			}
		case 'i':
			o.I = r.Range(-1, 12)
			o.X = float64(r.Range(-50, 5000))
			if r.P(1, 6) {
				o.I = r.Range(-1000000, 1000000)
			}
		case 'x':
			o.X = []float64{0, 1.5, -2.25, 1e21, 0.1, 123456.789, -7}[r.N(7)]
		case 'b':
			o.B = r.P(1, 2)
		case 'l', 'n', 'a':
			if c == 'l' {
				o.L = r.N(len(g.p.Lists))
			} else {
				o.M = r.N(len(g.p.Lists))
				if c == 'a' {
					o.I = r.N(4)
				}
				if len(g.p.Lists[o.M]) != len(g.p.Lists[o.L]) && strings.Contains(roles, "l") {
					for i := range g.p.Lists {
						if len(g.p.Lists[i]) == len(g.p.Lists[o.L]) {
							o.M = i
						}
					}
				}
			}
		case 'm':
			o.M = 0
		case 'I', 'F', 'T', 'B':
			o.I = r.N(50)
			o.X = float64(r.Range(-5, 5)) / 4
		case '1', '2', 'w':
			o.CB = &CB{Steps: r.N(3)}
			switch r.N(6) {
			case 0:
				o.CB.Stop = r.Range(1, 4)
			case 1:
				o.CB.Err = r.Range(1, 4)
			case 2:
				o.CB.Panic = r.Range(1, 4)
			}
			if r.P(1, 8) {
				o.CB.Steps = r.Range(10, 200)
			}
		}
	}
	if strings.Contains(f, "GetAll") && d >= 0 && d < len(g.trees) && r.P(3, 5) {
		g.members(&o, d)
	}
	return o
}

// members makes o ask for members that an object of the document has.
func (g *gen) members(o *Op, d int) {
	r := g.r
	var at [][]string
	for _, q := range g.trees[d].Paths() {
		if n := g.trees[d].At(q); n != nil && n.Kind == model.Obj && len(n.Keys) > 0 {
			at = append(at, q)
		}
	}
	if len(at) == 0 || len(g.p.Lists) > 12 {
		return
	}
	q := at[r.N(len(at))]
	n := g.trees[d].At(q)
	var l []string
	for k := r.Range(1, 4); k > 0; k-- {
		l = append(l, n.Keys[r.N(len(n.Keys))])
	}
	if r.P(1, 8) {
		i := r.N(len(l))
		l[i] = model.Near(r, l[i])
	}
	o.P = g.addPath(d, q)
	o.L = len(g.p.Lists)
	g.p.Lists = append(g.p.Lists, l)
}

package main

import (
	"strconv"
	"strings"

	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

type pathInfo struct {
	doc  int
	kind model.Kind // kind of the addressed value, 0 when it does not exist
}

// gen builds plans; everything is drawn from one generator.
type gen struct {
	r     *model.Rng
	sh    model.Shape
	p     *Plan
	trees []*model.Node
	pi    []pathInfo
	kinds map[string]bool
	objs  bool     // the clients share objects
	hits  [2]int64 // accesses to shared state in the reference runs, when known
	big   int      // documents may be as large as this
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func newGen(prop string, seed uint64) *gen {
	r := model.NewRng(model.Mix(hashStr(prop), seed))
	g := &gen{r: r, sh: model.GenShape(r), p: &Plan{Prop: prop, Seed: seed}}
	return g
}

// swarmShape redraws the document shape, now and then to extremes.
func (g *gen) swarmShape() {
	r := g.r
	switch r.N(28) {
	case 4, 5:
		switch r.N(9) {
		case 0: // very long strings
			g.sh.Long = r.Range(2000, 9000)
			g.sh.Width = r.Range(1, 3)
			g.sh.Depth = r.Range(1, 2)
			if r.P(1, 4) {
				g.sh.Long = r.Range(20000, 140000)
			}
			g.big = 300000
		case 1, 2: // hundreds of elements or members
			g.sh.Width = r.Range(90, 300)
			g.sh.Depth = 1
		case 3, 4: // dozens of levels
			g.sh.Depth = r.Range(20, 80)
			if r.P(1, 3) { // hundreds
				g.sh.Depth = r.Range(120, 400)
				g.big = 20000
			}
			g.sh.Width = 1
			g.sh.Scalars = 0
			g.sh.Empty = 0
		case 5: // thousands
			if r.P(1, 2) {
				g.sh.Width = r.Range(900, 2500)
				g.sh.Depth = 1
				g.big = 40000
			}
		case 6: // some of everything
			if r.P(1, 2) {
				g.sh.Width = r.Range(8, 14)
				g.sh.Depth = r.Range(3, 4)
				g.big = 20000
			}
		case 7: // long runs of space
			g.sh.WS = 3
		}
	case 0: // wide
		g.sh.Width = r.Range(12, 40)
		g.sh.Depth = r.Range(1, 2)
	case 1: // deep
		g.sh.Depth = r.Range(6, 14)
		g.sh.Width = r.Range(1, 2)
		g.sh.Scalars = 1
	case 2: // long strings
		g.sh.Long = r.Range(50, 700)
	case 3: // tiny
		g.sh.Depth, g.sh.Width = 1, r.Range(1, 2)
	}
}

// fits says whether the document is not too large for the world's usual limit.
func (g *gen) fits(n *model.Node, limit int) bool {
	l := len(n.Compact())
	if l <= limit {
		return true
	}
	// some functions take time in proportion to the product
	return l <= g.big && l*n.Count() <= 5000000
}

func (g *gen) doc() *model.Node {
	n := model.GenDoc(g.r, g.sh)
	return n
}

// variant changes scalars in place so that the rendered length stays the same.
func sameLength(r *model.Rng, s string) string {
	b := []byte(s)
	inStr := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c == '\\' {
			i++
			continue
		}
		if c == '"' {
			inStr = !inStr
			continue
		}
		if c >= '1' && c <= '9' && r.P(1, 2) {
			b[i] = byte('1' + r.N(9))
		} else if inStr && c >= 'a' && c <= 'z' && r.P(1, 3) {
			b[i] = byte('a' + r.N(26))
		}
	}
	return string(b)
}

func (g *gen) addDoc(n *model.Node) int {
	g.trees = append(g.trees, n)
	text := n.Render(g.r, g.sh.WS)
	// space around the root
	pad := func() string {
		if !g.r.P(1, 5) {
			return ""
		}
		b := make([]byte, g.r.Range(1, 4))
		for i := range b {
			b[i] = " \t\n\r"[g.r.N(4)]
		}
		return string(b)
	}
	g.p.Docs = append(g.p.Docs, pad()+text+pad())
	return len(g.p.Docs) - 1
}

// addVariant adds a same-length variant of document i when it still parses.
func (g *gen) addVariant(i int) int {
	s := sameLength(g.r, g.p.Docs[i])
	n, err := model.ParseDoc(s)
	if err != nil {
		return i
	}
	g.trees = append(g.trees, n)
	g.p.Docs = append(g.p.Docs, s)
	return len(g.p.Docs) - 1
}

func (g *gen) addPath(doc int, path []string) int {
	k := model.Kind(0)
	if n := g.trees[doc].At(path); n != nil {
		k = n.Kind
	}
	g.p.Paths = append(g.p.Paths, path)
	g.pi = append(g.pi, pathInfo{doc, k})
	return len(g.p.Paths) - 1
}

// mutatePath makes a path that probably does not exist.
func (g *gen) mutatePath(p []string) []string {
	r := g.r
	p = append([]string(nil), p...)
	if len(p) > 0 && r.P(1, 3) { // something like it
		i := r.N(len(p))
		p[i] = model.NearIndex(r, p[i])
		return p
	}
	if len(p) > 0 && r.P(1, 6) {
		return model.Joined(r, p)
	}
	switch r.N(5) {
	case 0:
		return append(p, []string{"zz", "0", "-1", "99", "nope", "", "a"}[r.N(7)])
	case 1:
		if len(p) > 0 {
			p[r.N(len(p))] = []string{"zz", "7", "-1", "1000000", "é", "01", "+1"}[r.N(7)]
			return p
		}
	case 2:
		if len(p) > 0 {
			p[len(p)-1] += "x"
			return p
		}
	case 3:
		if len(p) > 1 {
			return append(p[:1], p[2:]...)
		}
	}
	return append(p, "missing", strconv.Itoa(r.N(4)))
}

func (g *gen) somePaths(doc, n int) {
	all := g.trees[doc].Paths()
	for i := 0; i < n; i++ {
		p := all[g.r.N(len(all))]
		if g.r.P(1, 6) {
			p = g.mutatePath(p)
		}
		g.addPath(doc, append([]string{}, p...))
	}
}

// pathFor picks a path of a document, preferring the wanted kinds.
func (g *gen) pathFor(doc int, want string) int {
	var pref, any []int
	for i, x := range g.pi {
		if x.doc == doc {
			any = append(any, i)
			if x.kind != 0 && strings.IndexByte(want, byte(x.kind)) >= 0 {
				pref = append(pref, i)
			}
		}
	}
	if len(pref) > 0 && g.r.P(5, 6) {
		return pref[g.r.N(len(pref))]
	}
	if len(any) > 0 {
		return any[g.r.N(len(any))]
	}
	return -1
}

func (g *gen) valText() string {
	r := g.r
	sh := g.sh
	sh.Depth = r.Range(0, 2)
	sh.Width = r.Range(1, 3)
	return model.GenValue(r, sh, sh.Depth).Render(r, []int{0, 0, 1}[r.N(3)])
}

// strArg draws a string for the formatted-string variants: its formatted form
// is always a valid JSON value.
func (g *gen) strArg() string {
	r := g.r
	switch r.N(8) {
	case 0:
		return []string{"true", "false", "null"}[r.N(3)]
	case 1:
		return []string{"0", "12", "-3", "3.25", "1e5", "-0.5", "2147483647", "9999999999"}[r.N(8)]
	case 2:
		return `"` + model.StrRaw(r, g.sh) + `"`
	case 3:
		return []string{`[1,2]`, `{"k":1}`, `[]`, `{}`, `["a","b"]`, `{"n":{"m":[1]}}`}[r.N(6)]
	}
	return model.StrRaw(r, g.sh)
}

// wantKinds says which value kinds a function is about.
func wantKinds(f string) string {
	switch {
	case strings.Contains(f, "IterateKeyValue"), strings.Contains(f, "GetKeys"), strings.Contains(f, "GetValues"), strings.Contains(f, "AddKeyValue"),
		strings.Contains(f, "Store"), strings.Contains(f, "GetAll"):
		return "o"
	case strings.Contains(f, "IterateArray"), strings.Contains(f, "Insert"), strings.HasSuffix(f, "Array"):
		return "a"
	case strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(f, "JO."), "Parser."), "Add"):
		return "a"
	case strings.Contains(f, "GetMap"), strings.Contains(f, "IsEmpty"), strings.Contains(f, "Length"):
		return "oa"
	case strings.Contains(f, "GetInt"), strings.Contains(f, "GetFloat"):
		return "n"
	case strings.Contains(f, "GetBool"):
		return "b"
	}
	return "oasnbz"
}

// schedule draws the interleaving. total is an estimate of all steps, opLens the
// step counts of the operations when known.
func (g *gen) schedule(nclients int, total int64, freezes bool) {
	r := g.r
	p := g.p
	p.First = r.N(nclients)
	if nclients < 2 && !freezes {
		return
	}
	if total < 10 {
		total = 10
	}
	if segs := g.directed(nclients, freezes); segs != nil {
		p.Sched = segs
		return
	}
	var segs []simrt.Seg
	add := func(n int64) {
		if n < 0 {
			n = 0
		}
		segs = append(segs, simrt.Seg{N: n, K: r.N(nclients)})
	}
	switch r.N(5) {
	case 0: // few preemptions anywhere
		for i := r.Range(1, 4); i > 0; i-- {
			add(int64(r.N(int(total))))
		}
	case 1: // random walk, log-uniform quanta
		for i := r.Range(2, 30); i > 0; i-- {
			add(int64(r.LogN(int(total))))
		}
	case 2: // ping-pong at statement granularity after a random prefix
		add(int64(r.N(int(total))))
		for i := r.Range(5, 60); i > 0; i-- {
			add(int64(r.N(4)))
		}
	case 3: // uniform short quanta
		q := r.Range(1, 60)
		for i := r.Range(5, 60); i > 0; i-- {
			add(int64(r.N(q + 1)))
		}
	case 4: // one client parked deep inside a call while the others run for long
		add(int64(r.N(int(total)/nclients + 1)))
		add(total)
		if nclients > 2 {
			add(total)
		}
	}
	if freezes {
		for i := r.Range(1, 3); i > 0; i-- {
			j := r.N(len(segs))
			segs[j].F = 1
			if r.P(1, 2) {
				segs[j].N = int64(r.LogN(int(total)))
			}
		}
	}
	p.Sched = segs
}

// directed draws an interleaving that switches at accesses to shared state, where
// the build under test has any.
func (g *gen) directed(nclients int, freezes bool) []simrt.Seg {
	r := g.r
	c := 0
	switch {
	case sharedSites[0] > 0 && r.P(1, 2):
	case g.objs && sharedSites[1] > 0 && r.P(1, 4):
		c = 1
	default:
		return nil
	}
	hits := g.hits[c]
	if hits < 1 {
		hits = 100
	}
	var segs []simrt.Seg
	n := r.Range(1, 4)
	walk := r.P(1, 4)
	if walk {
		n = r.Range(3, 30)
	}
	for ; n > 0; n-- {
		s := r.Range(1, int(hits))
		if walk || r.P(1, 2) {
			s = r.LogN(int(hits))
		}
		segs = append(segs, simrt.Seg{N: 1 << 40, S: int64(s), C: c, K: r.N(nclients)})
	}
	if freezes {
		for i := r.Range(1, 2); i > 0; i-- {
			segs[r.N(len(segs))].F = 1
		}
	}
	return segs
}

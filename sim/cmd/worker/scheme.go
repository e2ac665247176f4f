package main

import (
	"fmt"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World Z: clients own Schemes made from shared key slices and take them
// through histories of changes, saves, restores and uses, while the slices they
// were made from and the slices they handed out are overwritten. Reference: two
// key lists per Scheme.

func init() {
	worlds["C08"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genScheme(prop, seed, cold)
			return p, runScheme(p)
		},
		run: runScheme,
	}
}

// zmodel is the reference of one Scheme.
type zmodel struct{ keys, saved []string }

func cloneStrs(l []string) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = strings.Clone(l[i])
	}
	return out
}

func (z *zmodel) has(k string) int {
	for i, x := range z.keys {
		if x == k {
			return i
		}
	}
	return -1
}

// apply follows a change; it tells what the method must report.
func (z *zmodel) apply(f, k string) bool {
	i := z.has(k)
	switch f {
	case "Scheme.Add":
		if i >= 0 {
			return false
		}
		z.keys = append(cloneStrs(z.keys), k)
		return true
	case "Scheme.Remove":
		if i < 0 {
			return false
		}
		l := cloneStrs(z.keys)
		z.keys = append(l[:i], l[i+1:]...)
		return true
	case "Scheme.Save":
		z.saved = cloneStrs(z.keys)
	case "Scheme.Restore":
		z.keys = cloneStrs(z.saved)
	}
	return true
}

func sameKeys(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// anyValue turns the text of a value into an argument of MakeJson.
func anyValue(s string) (v interface{}, text string) {
	if n, err := strconv.Atoi(s); err == nil && strconv.Itoa(n) == s {
		return n, s
	}
	if s == "true" || s == "false" {
		return s == "true", s
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && strings.Contains(s, ".") && fmt.Sprintf("%v", f) == s {
		return f, s
	}
	return strings.Clone(s), formatModel(s)
}

// sameMember accepts the value of a mutated member: its text formatted again,
// or the same string.
func sameMember(got, src *model.Node) bool {
	if got.Equal(src) {
		return true
	}
	if src.Kind != model.Str {
		return false
	}
	w, err := model.ParseDoc(formatModel(src.Raw))
	return err == nil && got.Equal(w)
}

func runScheme(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	env := newEnv(p)
	trees := make([]*model.Node, len(p.Docs))
	for i, d := range p.Docs {
		trees[i], _ = model.ParseDoc(d)
	}
	type owned struct {
		s *jin.Scheme
		z *zmodel
	}
	all := make([][]owned, len(p.Clients))
	inOp := make([]string, len(p.Clients))
	shape := hashStr(p.Prop)
	changes := 0
	look := func(where string, ci, oi int) {
		x := all[ci][oi]
		if got := x.s.GetCurrentKeys(); !sameKeys(got, x.z.keys) {
			viol("keys", "%s: scheme %d of client %d has the keys %q instead of %q", where, oi, ci, got, x.z.keys)
		}
		if got := x.s.GetOriginalKeys(); !sameKeys(got, x.z.saved) {
			viol("saved", "%s: scheme %d of client %d has the saved keys %q instead of %q", where, oi, ci, got, x.z.saved)
		}
	}
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		cl := &p.Clients[ci]
		fnList = append(fnList, func() {
			src := newStrs(nil)
			var handed [][]string
			var docBuf *Buf
			// doc is the document argument of a call: shared, or in a buffer the
			// client uses for one document after the other
			doc := func(o *Op) []byte {
				if !o.Own {
					return env.docs[o.D].arg()
				}
				if docBuf == nil {
					docBuf = newBuf("", 1000)
				}
				s := p.Docs[o.D]
				if len(s) < docBuf.n && o.I&1 == 1 { // as long as the one before
					s += strings.Repeat(" ", docBuf.n-len(s))
				}
				docBuf.fill(s)
				res.Cov["document-replaced"]++
				return docBuf.arg()
			}
			for i := range cl.Ops {
				o := &cl.Ops[i]
				if res.Viol != "" {
					return
				}
				simrt.Y(0)
				where := fmt.Sprintf("client %d, call %d: %s", ci, i, o.F)
				switch o.F {
				case "#junk":
					junk(o, res.Cov)
					continue
				case "MakeScheme":
					var l []string
					if o.Own {
						src.fill(p.Lists[o.L])
						l = src.arg()
						res.Cov["buffer-reuse"]++
					} else {
						l = env.lists[o.L].arg()
					}
					var s *jin.Scheme
					inOp[ci] = o.F
					pan := protect(func() { s = jin.MakeScheme(l...) })
					inOp[ci] = ""
					if pan != "" || s == nil {
						viol("panic", "%s(%q) panicked: %s", where, p.Lists[o.L], pan)
						return
					}
					all[ci] = append(all[ci], owned{s, &zmodel{cloneStrs(p.Lists[o.L]), cloneStrs(p.Lists[o.L])}})
					continue
				case "#overwrite":
					// the caller reuses the slice it passed to MakeScheme
					src.fill([]string{"overwritten", "by", "the", "caller", "of", "MakeScheme"}[:pickI(o.I, 6)+1])
					for j := range src.full {
						src.full[j] = "overwritten"
					}
					res.Cov["buffer-overwrite"]++
					continue
				case "#scribble":
					// the caller writes over key slices it was handed, spare capacity included
					for _, h := range handed {
						f := h[:cap(h)]
						for j := range f {
							f[j] = "scribbled"
						}
					}
					if len(handed) > 0 {
						res.Cov["scribble-over-result"]++
					}
					handed = nil
					continue
				}
				f := fns[o.F]
				if f == nil || len(all[ci]) == 0 {
					continue
				}
				oi := pickI(o.O, len(all[ci]))
				x := all[ci][oi]
				where = fmt.Sprintf("%s(key %q, values %q) on scheme %d with the keys %q", where, o.K, o.KK, oi, x.z.keys)
				var b []byte
				var err error
				ok := true
				var keys []string
				var vals []interface{}
				var texts []string
				for _, s := range o.KK {
					v, t := anyValue(s)
					if o.F == "Scheme.MakeJsonString" {
						t = formatModel(s)
					}
					vals = append(vals, v)
					texts = append(texts, t)
				}
				inOp[ci] = o.F
				pan := protect(func() {
					switch o.F {
					case "Scheme.Add":
						ok = x.s.Add(strings.Clone(o.K))
					case "Scheme.Remove":
						ok = x.s.Remove(strings.Clone(o.K))
					case "Scheme.Save":
						x.s.Save()
					case "Scheme.Restore":
						x.s.Restore()
					case "Scheme.GetCurrentKeys":
						keys = x.s.GetCurrentKeys()
					case "Scheme.GetOriginalKeys":
						keys = x.s.GetOriginalKeys()
					case "Scheme.MakeJson":
						b = x.s.MakeJson(vals...)
					case "Scheme.MakeJsonString":
						b = x.s.MakeJsonString(newStrs(o.KK).arg()...)
					case "Scheme.MutateJson":
						b, err = x.s.MutateJson(doc(o))
					case "Scheme.MutateJsonAbs":
						b, err = x.s.MutateJsonAbs(doc(o))
					case "Scheme.Check":
						ok = x.s.Check(doc(o))
					case "Scheme.CheckAbs":
						ok = x.s.CheckAbs(doc(o))
					}
				})
				inOp[ci] = ""
				fmt.Fprintf(&log, "%d %d %s %v %v %q %q %q\n", ci, i, o.F, ok, err, keys, b, pan)
				if pan != "" {
					viol("panic", "%s panicked: %s", where, pan)
					return
				}
				if docBuf != nil {
					if s := docBuf.check(); s != "" {
						viol("input", "%s: %s", where, s)
					}
				}
				z := x.z
				var t *model.Node
				if o.D < len(trees) {
					t = trees[o.D]
				}
				missing := 0
				if t != nil {
					for _, k := range z.keys {
						if t.ChildIndex(k) < 0 {
							missing++
						}
					}
				}
				switch o.F {
				case "Scheme.Add", "Scheme.Remove":
					wantOK := z.apply(o.F, o.K)
					if ok != wantOK {
						viol("report", "%s reports %v", where, ok)
					}
					if ok {
						changes++
					}
					res.Cov["scheme-change"]++
				case "Scheme.Save", "Scheme.Restore":
					z.apply(o.F, "")
					changes++
					res.Cov["scheme-"+strings.ToLower(o.F[7:])]++
				case "Scheme.GetCurrentKeys":
					if !sameKeys(keys, z.keys) {
						viol("keys", "%s gives %q", where, keys)
					}
					handed = append(handed, keys)
				case "Scheme.GetOriginalKeys":
					if !sameKeys(keys, z.saved) {
						viol("saved", "%s gives %q instead of %q", where, keys, z.saved)
					}
					handed = append(handed, keys)
				case "Scheme.MakeJson", "Scheme.MakeJsonString":
					res.Cov["scheme-use"]++
					if len(o.KK) != len(z.keys) {
						if b != nil {
							viol("use", "%s made %s from the wrong number of values", where, clip(string(b)))
						}
						break
					}
					n, perr := model.ParseDoc(string(b))
					if perr != nil || n.Kind != model.Obj || !sameKeys(n.Keys, z.keys) {
						viol("use", "%s made %s", where, clip(string(b)))
						break
					}
					for j := range texts {
						if v, e := model.ParseDoc(texts[j]); e == nil && !v.Equal(n.Kids[j]) {
							viol("use", "%s made %s: member %d is not %s", where, clip(string(b)), j, texts[j])
						}
					}
				case "Scheme.MutateJson", "Scheme.MutateJsonAbs":
					res.Cov["scheme-use"]++
					if t == nil || t.Kind != model.Obj {
						break
					}
					plain := true // every text can be stored by formatting it
					for _, k := range z.keys {
						if c := t.Child(k); c != nil && c.Kind == model.Str {
							if _, e := model.ParseDoc(formatModel(c.Raw)); e != nil {
								plain = false
							}
						}
					}
					if !plain {
						break
					}
					if missing > 0 && o.F == "Scheme.MutateJsonAbs" {
						if err == nil {
							viol("use", "%s of %s succeeds although %d keys are missing", where, clip(p.Docs[o.D]), missing)
						}
						break
					}
					n, perr := model.ParseDoc(string(b))
					if err != nil || perr != nil || n.Kind != model.Obj || !sameKeys(n.Keys, z.keys) {
						viol("use", "%s of %s gives %s, error %v", where, clip(p.Docs[o.D]), clip(string(b)), err)
						break
					}
					for j, k := range z.keys {
						c := t.Child(k)
						if c == nil {
							c = &model.Node{Kind: model.Str}
						}
						if !sameMember(n.Kids[j], c) {
							viol("use", "%s of %s gives %s: member %q is wrong", where, clip(p.Docs[o.D]), clip(string(b)), k)
						}
					}
				case "Scheme.Check":
					res.Cov["scheme-use"]++
					if t != nil && t.Kind == model.Obj && ok != (missing == 0) {
						viol("use", "%s of %s says %v", where, clip(p.Docs[o.D]), ok)
					}
				case "Scheme.CheckAbs":
					res.Cov["scheme-use"]++
					if t != nil && t.Kind == model.Obj && len(t.Kids)+len(z.keys) > 0 && ok != (missing == 0 && len(t.Kids) == len(z.keys)) {
						viol("use", "%s of %s says %v", where, clip(p.Docs[o.D]), ok)
					}
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(ok), hashStr(strings.Join(z.keys, "\x00")), hashStr(strings.Join(z.saved, "\x00")))
				if o.B {
					for j := range all[ci] {
						look("after "+where, ci, j)
					}
				}
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
		if s := env.inputsIntact(); s != "" {
			viol("input", "at a context switch: %s", s)
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "a call did not return: %s (clients inside %q)", rep.Aborted, inOp)
	} else if res.Viol == "" {
		for ci := range all {
			for oi := range all[ci] {
				if pan := protect(func() { look("at the end", ci, oi) }); pan != "" {
					viol("panic", "at the end: %s", pan)
				}
			}
		}
		if s := env.inputsIntact(); s != "" {
			viol("input", "at the end: %s", s)
		}
	}
	res.Hash = hashStr(log.String())
	res.Triv = changes == 0
	if p.Prop == "C18" {
		res.Triv = res.Cov["document-replaced"] == 0
	}
	return res
}

func genScheme(prop string, seed uint64, cold bool) *Plan {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	pool := []string{}
	names := r.Range(3, 12)
	many := r.P(1, 15)
	if many {
		names = r.Range(13, 70)
	}
	for len(pool) < names {
		k := model.Key(r, g.sh)
		if many || r.P(1, 3) {
			k += strconv.Itoa(r.N(30 * names))
		}
		dup := k == ""
		for _, x := range pool {
			dup = dup || x == k
		}
		if !dup {
			pool = append(pool, k)
		}
	}
	some := func(max int) []string {
		l := []string{}
		for _, i := range perm(r, len(pool)) {
			if len(l) < max {
				l = append(l, pool[i])
			}
		}
		return l
	}
	for i := r.Range(1, 3); i > 0; i-- {
		n := r.Range(0, 5)
		if r.P(1, 8) || (many && r.P(1, 2)) {
			n = len(pool)
		}
		p.Lists = append(p.Lists, some(n))
	}
	for i := r.Range(1, 4); i > 0; i-- {
		n := &model.Node{Kind: model.Obj}
		for _, k := range some(r.Range(0, len(pool))) {
			n.Keys = append(n.Keys, k)
			n.Kids = append(n.Kids, model.GenValue(r, g.sh, r.N(3)))
		}
		g.addDoc(n)
	}
	p.Order = uint64(r.N(3))
	nc := 1
	if r.P(1, 2) {
		nc = r.Range(2, 4)
	}
	sh := g.sh
	sh.Weird = 0
	again := prop == "C18" || r.P(1, 2) // documents come in the same buffer
	for ci := 0; ci < nc; ci++ {
		cl := Client{Kind: "scheme"}
		var zs []*zmodel
		mk := func() {
			o := Op{F: "MakeScheme", L: r.N(len(p.Lists)), Own: r.P(1, 2)}
			zs = append(zs, &zmodel{p.Lists[o.L], p.Lists[o.L]})
			cl.Ops = append(cl.Ops, o)
		}
		mk()
		if r.P(1, 2) {
			mk()
		}
		// swarm: weights of the operations
		weight := map[string]int{}
		names := []string{"Scheme.Add", "Scheme.Remove", "Scheme.Save", "Scheme.Restore", "Scheme.GetCurrentKeys", "Scheme.GetOriginalKeys",
			"Scheme.MakeJson", "Scheme.MakeJsonString", "Scheme.MutateJson", "Scheme.MutateJsonAbs", "Scheme.Check", "Scheme.CheckAbs", "MakeScheme", "#overwrite", "#scribble"}
		sum := 0
		for i, f := range names {
			w := r.N(4)
			if i < 4 {
				w = r.Range(1, 8)
			}
			if f == "MakeScheme" && len(zs) >= 4 {
				w = 0
			}
			if prop == "C18" && i >= 8 && i < 12 {
				w += 5
			}
			weight[f] = w
			sum += w
		}
		n := r.LogN(40)
		if r.P(1, 15) {
			n = r.LogN(300)
		}
		for ; n > 0; n-- {
			at := r.N(sum)
			f := ""
			for _, x := range names {
				if at -= weight[x]; at < 0 {
					f = x
					break
				}
			}
			if f == "MakeScheme" {
				if len(zs) < 4 {
					mk()
				}
				continue
			}
			o := Op{F: f, I: r.N(6)}
			if f[0] == '#' {
				cl.Ops = append(cl.Ops, o)
				continue
			}
			o.O = r.N(len(zs))
			z := zs[o.O]
			o.B = r.P(1, 2)
			switch f {
			case "Scheme.Add", "Scheme.Remove":
				o.K = pool[r.N(len(pool))]
				if r.P(1, 10) {
					o.K = "new" + strconv.Itoa(r.N(50))
				}
				if f == "Scheme.Remove" && len(z.keys) > 0 && r.P(2, 3) {
					o.K = z.keys[r.N(len(z.keys))]
				}
			case "Scheme.MakeJson", "Scheme.MakeJsonString":
				k := len(z.keys)
				if r.P(1, 8) {
					k = r.N(6)
				}
				for ; k > 0; k-- {
					v := []string{"1", "-20", "true", "false", "3.5", "null", "0", "", "[1,2]", `{"a":1}`, "1e5", "12345678901"}[r.N(12)]
					if r.P(1, 2) {
						v = model.StrRaw(r, sh)
					}
					o.KK = append(o.KK, v)
				}
			case "Scheme.MutateJson", "Scheme.MutateJsonAbs", "Scheme.Check", "Scheme.CheckAbs":
				o.D = r.N(len(p.Docs))
				o.Own = again && r.P(4, 5)
			}
			if o.F == "Scheme.Check" || o.F == "Scheme.CheckAbs" || o.F == "Scheme.MutateJsonAbs" {
				if r.P(1, 2) && len(p.Docs) < 12 {
					// a document that fits
					n := &model.Node{Kind: model.Obj}
					for _, i := range perm(r, len(z.keys)) {
						n.Keys = append(n.Keys, z.keys[i])
						n.Kids = append(n.Kids, model.GenValue(r, g.sh, 1))
					}
					if r.P(1, 4) && len(n.Keys) > 0 { // or almost
						i := r.N(len(n.Keys))
						if r.P(1, 2) {
							n.Keys[i] += "?"
						} else {
							n.Keys = append(n.Keys[:i], n.Keys[i+1:]...)
							n.Kids = append(n.Kids[:i], n.Kids[i+1:]...)
						}
					}
					o.D = g.addDoc(n)
				}
			}
			z.apply(f, o.K)
			cl.Ops = append(cl.Ops, o)
		}
		p.Clients = append(p.Clients, cl)
	}
	g.sprinkle()
	if nc > 1 {
		g.schedule(nc, int64(nc*300), false)
	}
	return p
}

// perm draws a permutation.
func perm(r *model.Rng, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

package main

import (
	"errors"

	jin "github.com/ecoshub/jin"
)

// Somebody else's calls, on damaged or missing things: nothing is asked about
// their results, whatever else runs must not notice them.

var errJunk = errors.New("junk")

var junkFns = []func(b []byte, p []string){
	func(b []byte, p []string) { jin.Parse(b) },
	func(b []byte, p []string) {
		if q, err := jin.Parse(b); err == nil && q != nil {
			q.Get(p...)
			q.Set([]byte("1"), p...)
			q.SetKey("k", p...)
			q.Delete(p...)
			q.AddKeyValue("k", []byte("[1"), p...)
			q.Add([]byte(`"x`), p...)
			q.GetNew(p...)
			q.Tree()
		}
	},
	func(b []byte, p []string) { jin.Get(b, p...) },
	func(b []byte, p []string) {
		jin.GetString(b, p...)
		jin.GetInt(b, p...)
		jin.GetFloat(b, p...)
		jin.GetBool(b, p...)
	},
	func(b []byte, p []string) { jin.GetKeys(b, p...) },
	func(b []byte, p []string) { jin.GetValues(b, p...) },
	func(b []byte, p []string) { jin.GetKeysValues(b, p...); jin.GetMap(b, p...) },
	func(b []byte, p []string) { jin.GetStringArray(b, p...); jin.GetIntArray(b, p...) },
	func(b []byte, p []string) { jin.GetFloatArray(b, p...); jin.GetBoolArray(b, p...) },
	func(b []byte, p []string) { jin.GetAll(b, []string{"a", "b"}, p...); jin.GetAllMap(b, p) },
	func(b []byte, p []string) { jin.Length(b, p...); jin.IsEmpty(b, p...) },
	func(b []byte, p []string) {
		jin.GetType(b, p...)
		jin.IsObject(b, p...)
		jin.IsArray(b, p...)
		jin.IsValue(b, p...)
	},
	func(b []byte, p []string) { jin.IterateArray(b, func([]byte) (bool, error) { return true, nil }, p...) },
	func(b []byte, p []string) {
		jin.IterateArray(b, func([]byte) (bool, error) { return true, errJunk }, p...)
	},
	func(b []byte, p []string) { jin.IterateArray(b, func([]byte) (bool, error) { panic(errJunk) }, p...) },
	func(b []byte, p []string) {
		jin.IterateKeyValue(b, func([]byte, []byte) (bool, error) { return false, nil }, p...)
	},
	func(b []byte, p []string) {
		jin.IterateKeyValue(b, func([]byte, []byte) (bool, error) { return true, errJunk }, p...)
	},
	func(b []byte, p []string) {
		jin.IterateKeyValue(b, func([]byte, []byte) (bool, error) { panic(errJunk) }, p...)
	},
	func(b []byte, p []string) {
		jin.Walk(b, func(string, []byte, []string) (bool, error) { return true, nil })
	},
	func(b []byte, p []string) {
		jin.Walk(b, func(string, []byte, []string) (bool, error) { return false, errJunk })
	},
	func(b []byte, p []string) {
		jin.Walk(b, func(string, []byte, []string) (bool, error) { panic(errJunk) })
	},
	func(b []byte, p []string) { jin.Set(b, []byte("1"), p...); jin.SetKey(b, "k", p...) },
	func(b []byte, p []string) { jin.Delete(b, p...) },
	func(b []byte, p []string) { jin.Add(b, []byte("1"), p...); jin.Insert(b, 1, []byte("1"), p...) },
	func(b []byte, p []string) {
		jin.AddKeyValue(b, "k", []byte("1"), p...)
		jin.Store(b, "k", []byte("1"), p...)
	},
	func(b []byte, p []string) { jin.Flatten(b) },
	func(b []byte, p []string) { jin.Indent(b) },
	func(b []byte, p []string) { jin.ParseArray(string(b)) },
	func(b []byte, p []string) {
		s := jin.MakeScheme("a", "b")
		s.Check(b)
		s.CheckAbs(b)
		s.MutateJson(b)
		s.MutateJsonAbs(b)
	},
	func(b []byte, p []string) {
		jin.MakeJson(p, nil)
		jin.MakeJsonString(p, nil)
		jin.MakeJsonString([]string{string(b)}, []string{string(b)})
		jin.MakeJsonWithMap(map[string]string{string(b): string(b)})
		jin.MakeArrayString([]string{string(b)})
		jin.MakeArrayBytes(b, nil)
	},
	func(b []byte, p []string) {
		j := jin.New(b)
		j.Get(p...)
		j.SetString("x", p...)
		j.Delete(p...)
		j.GetKeys(p...)
		j.StoreString("a", "b", p...)
		j.GetMap(p...)
	},
}

// junk makes the calls of a #junk operation.
func junk(o *Op, cov map[string]int) {
	cov["junk-call"]++
	b := newBuf(o.S, 0).arg()
	p := newStrs(o.PP).arg()
	n := absI(o.I)
	for k := n%3 + 1; k > 0; k-- {
		f := junkFns[n/3%len(junkFns)]
		protect(func() { f(b, p) })
		n += 3 * 7
	}
}

// sprinkle puts such calls between those of the clients.
func (g *gen) sprinkle() {
	r := g.r
	p := g.p
	if r.P(4, 5) || len(p.Clients) == 0 || len(p.Clients) > 10 {
		return
	}
	for k := r.Range(1, 5); k > 0; k-- {
		o := Op{F: "#junk", I: r.N(1 << 16), S: `{"a":[1,{"b":"c"},[]],"d":{}}`, PP: []string{"a", "1", "b"}[:r.N(4)]}
		if d := p.Docs; len(d) > 0 && r.P(1, 2) {
			i := r.N(len(d))
			if len(d[i]) < 300 && i < len(g.trees) {
				o.S = d[i]
				if ps := g.trees[i].Paths(); len(ps) > 0 {
					o.PP = append([]string{}, ps[r.N(len(ps))]...)
				}
			}
		}
		switch r.N(5) {
		case 0, 1:
			o.S = o.S[:r.N(len(o.S)+1)]
		case 2, 3:
			o.S = damage(r, o.S, r.Range(1, 3))
		}
		if r.P(1, 4) {
			o.PP = g.mutatePath(o.PP)
		}
		c := &p.Clients[r.N(len(p.Clients))]
		at := r.N(len(c.Ops) + 1)
		c.Ops = append(c.Ops[:at:at], append([]Op{o}, c.Ops[at:]...)...)
	}
}

package main

import (
	"encoding/json"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/sim/model"
)

type jmap = map[string]interface{}

func decode(p json.RawMessage) jmap {
	d := json.NewDecoder(strings.NewReader(string(p)))
	d.UseNumber()
	m := jmap{}
	d.Decode(&m)
	return m
}

func encode(m interface{}) json.RawMessage {
	b, _ := json.Marshal(m)
	return b
}

func clone(m jmap) jmap { return decode(encode(m)) }

func list(m jmap, k string) []interface{} {
	l, _ := m[k].([]interface{})
	return l
}

// minimise shrinks a failing sequence of plans as long as the last one fails
// the same way; every candidate runs in a fresh process.
func minimise(b *Built, plans []json.RawMessage, class, tmp string, budget time.Duration) []json.RawMessage {
	end := time.Now().Add(budget)
	id := 1
	// first returns the index of the first candidate that still fails.
	first := func(cands [][]json.RawMessage) int {
		n := runtime.NumCPU()
		for at := 0; at < len(cands); at += n {
			if time.Now().After(end) {
				return -1
			}
			e := at + n
			if e > len(cands) {
				e = len(cands)
			}
			ok := make([]bool, e-at)
			var wg sync.WaitGroup
			for i := at; i < e; i++ {
				wg.Add(1)
				id++
				go func(i, id int) {
					defer wg.Done()
					x, err := exec1(b, cands[i], tmp, id)
					ok[i-at] = err == nil && x.Viol != "" && x.Class == class
				}(i, id)
			}
			wg.Wait()
			for i := range ok {
				if ok[i] {
					return at + i
				}
			}
		}
		return -1
	}
	// 1. the runs before the failing one
	for n := (len(plans) - 1 + 1) / 2; n >= 1 && len(plans) > 1; {
		var cands [][]json.RawMessage
		pre := plans[:len(plans)-1]
		for i := 0; i < len(pre); i += n {
			e := i + n
			if e > len(pre) {
				e = len(pre)
			}
			c := append([]json.RawMessage{}, pre[:i]...)
			c = append(c, pre[e:]...)
			cands = append(cands, append(c, plans[len(plans)-1]))
		}
		if k := first(cands); k >= 0 {
			plans = cands[k]
			if n > len(plans)-1 {
				n = len(plans) - 1
			}
			continue
		}
		if time.Now().After(end) || n == 1 {
			break
		}
		n /= 2
	}
	// 2. inside the plans, the failing one first
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for pi := len(plans) - 1; pi >= 0; pi-- {
			for _, gen := range reductions {
				for time.Now().Before(end) {
					var cands [][]json.RawMessage
					for _, m := range gen(decode(plans[pi])) {
						c := append([]json.RawMessage{}, plans...)
						c[pi] = encode(m)
						cands = append(cands, c)
					}
					k := first(cands)
					if k < 0 {
						break
					}
					plans = cands[k]
					changed = true
				}
			}
		}
	}
	return plans
}

// without removes element ranges of a list at decreasing granularity.
func without(l []interface{}, keep int) [][]interface{} {
	var out [][]interface{}
	for n := len(l); n >= 1; n /= 2 {
		for i := 0; i < len(l); i += n {
			e := i + n
			if e > len(l) {
				e = len(l)
			}
			if len(l)-(e-i) < keep {
				continue
			}
			c := append([]interface{}{}, l[:i]...)
			out = append(out, append(c, l[e:]...))
		}
	}
	return out
}

var reductions = []func(jmap) []jmap{
	func(m jmap) (out []jmap) { // clients
		for _, l := range without(list(m, "clients"), 1) {
			c := clone(m)
			c["clients"] = l
			out = append(out, c)
		}
		return
	},
	func(m jmap) (out []jmap) { // operations
		for ci := range list(m, "clients") {
			ops := list(list(m, "clients")[ci].(jmap), "ops")
			for _, l := range without(ops, 0) {
				c := clone(m)
				list(c, "clients")[ci].(jmap)["ops"] = l
				out = append(out, c)
			}
		}
		return
	},
	func(m jmap) (out []jmap) { // repeated items
		for _, l := range without(list(m, "churn"), 0) {
			c := clone(m)
			c["churn"] = l
			out = append(out, c)
		}
		return
	},
	func(m jmap) (out []jmap) { // schedule
		for _, l := range without(list(m, "sched"), 0) {
			c := clone(m)
			c["sched"] = l
			out = append(out, c)
		}
		return
	},
	func(m jmap) (out []jmap) { // I/O script
		for fi := range list(m, "files") {
			f := list(m, "files")[fi].(jmap)
			for _, k := range []string{"open_err", "stat_err", "dir"} {
				if _, ok := f[k]; ok {
					c := clone(m)
					delete(list(c, "files")[fi].(jmap), k)
					out = append(out, c)
				}
			}
			for _, l := range without(list(f, "reads"), 0) {
				c := clone(m)
				list(c, "files")[fi].(jmap)["reads"] = l
				out = append(out, c)
			}
		}
		return
	},
	func(m jmap) (out []jmap) { // flags of the operations
		for ci := range list(m, "clients") {
			ops := list(list(m, "clients")[ci].(jmap), "ops")
			for oi := range ops {
				o := ops[oi].(jmap)
				for _, k := range []string{"cb", "own", "v", "i", "x", "pp"} {
					if _, ok := o[k]; ok {
						c := clone(m)
						delete(list(list(c, "clients")[ci].(jmap), "ops")[oi].(jmap), k)
						out = append(out, c)
					}
				}
			}
		}
		for _, k := range []string{"order", "first", "jos", "parsers", "schemes"} {
			if _, ok := m[k]; ok {
				c := clone(m)
				delete(c, k)
				out = append(out, c)
			}
		}
		return
	},
	func(m jmap) (out []jmap) { // quanta
		for i := range list(m, "sched") {
			s := list(m, "sched")[i].(jmap)
			n, _ := s["n"].(json.Number)
			v, _ := n.Int64()
			for _, w := range []int64{0, v / 2, v - 1} {
				if w >= 0 && w < v {
					c := clone(m)
					list(c, "sched")[i].(jmap)["n"] = w
					out = append(out, c)
				}
			}
			if n, ok := s["s"].(json.Number); ok {
				v, _ := n.Int64()
				for _, w := range []int64{1, v / 2, v - 1} {
					if w >= 1 && w < v {
						c := clone(m)
						list(c, "sched")[i].(jmap)["s"] = w
						out = append(out, c)
					}
				}
			}
		}
		return
	},
	func(m jmap) (out []jmap) { // documents and values
		for _, f := range []string{"docs", "vals"} {
			for i, x := range list(m, f) {
				s, _ := x.(string)
				t, err := model.ParseDoc(s)
				if err != nil {
					if len(s) > 1 && f == "docs" {
						for _, w := range []string{s[:len(s)/2], s[len(s)/2:], s[1:], s[:len(s)-1]} {
							c := clone(m)
							list(c, f)[i] = w
							out = append(out, c)
						}
					}
					continue
				}
				var vs []string
				if c := t.Compact(); c != s {
					vs = append(vs, c)
				}
				for _, n := range t.Shrinks() {
					if len(vs) < 60 {
						vs = append(vs, n.Compact())
					}
				}
				if f == "docs" {
					vs = append([]string{`{}`}, vs...)
				}
				for _, w := range vs {
					if len(w) < len(s) {
						c := clone(m)
						list(c, f)[i] = w
						out = append(out, c)
					}
				}
			}
		}
		return
	},
	func(m jmap) (out []jmap) { // paths and lists
		for _, f := range []string{"paths", "lists"} {
			for i, x := range list(m, f) {
				l, _ := x.([]interface{})
				for _, w := range without(l, 0) {
					c := clone(m)
					list(c, f)[i] = w
					out = append(out, c)
				}
			}
		}
		return
	},
}

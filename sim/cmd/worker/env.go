package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	jin "github.com/ecoshub/jin"
)

// Buf is a byte argument with spare capacity behind it; the whole backing array
// is watched.
type Buf struct {
	full []byte
	n    int
	snap []byte
}

const spareBytes = 40

func newBuf(s string, capacity int) *Buf {
	if capacity < len(s)+spareBytes {
		capacity = len(s) + spareBytes
	}
	b := &Buf{full: make([]byte, capacity), n: len(s)}
	b.fill(s)
	return b
}

// fill overwrites the buffer's content the way a caller reuses a read buffer.
func (b *Buf) fill(s string) {
	if len(s) > len(b.full) {
		b.full = make([]byte, len(s)+spareBytes)
	}
	b.n = copy(b.full, s)
	// what lies behind is somebody's, whatever it looks like
	behind := []string{"\xC5}\"]", "\x00", "\xC5}\"]", " \n"}[b.n&3]
	for i := b.n; i < len(b.full); i++ {
		b.full[i] = behind[i%len(behind)]
	}
	b.snap = append(b.snap[:0], b.full...)
}

func (b *Buf) arg() []byte { return b.full[:b.n] }

func (b *Buf) check() string {
	if bytes.Equal(b.full, b.snap) {
		return ""
	}
	for i := range b.full {
		if b.full[i] != b.snap[i] {
			where := "content"
			if i >= b.n {
				where = "spare capacity"
			}
			return fmt.Sprintf("byte %d of %q changed from %q to %q (%s)", i, clip(string(b.snap[:b.n])), b.snap[i], b.full[i], where)
		}
	}
	return ""
}

// Strs is a string-slice argument with spare capacity.
type Strs struct {
	full []string
	n    int
	snap []string
}

const spareStrs = 6

func newStrs(s []string) *Strs {
	b := &Strs{full: make([]string, len(s)+spareStrs)}
	b.fill(s)
	return b
}

func (b *Strs) fill(s []string) {
	if len(s)+1 > len(b.full) {
		b.full = make([]string, len(s)+spareStrs)
	}
	b.n = len(s)
	behind := "spare"
	if b.n > 0 && len(s[b.n-1])&1 == 0 || b.n&3 == 3 {
		behind = "" // as make leaves it
	}
	for i := range b.full {
		if i < len(s) {
			b.full[i] = strings.Clone(s[i])
		} else {
			b.full[i] = behind
		}
	}
	b.snap = b.snap[:0]
	for _, x := range b.full {
		b.snap = append(b.snap, strings.Clone(x))
	}
}

func (b *Strs) arg() []string { return b.full[:b.n] }

func (b *Strs) check() string {
	for i := range b.full {
		if b.full[i] != b.snap[i] {
			where := "element"
			if i >= b.n {
				where = "spare capacity, element"
			}
			return fmt.Sprintf("%s %d of slice %q changed from %q to %q", where, i, b.snap[:b.n], b.snap[i], b.full[i])
		}
	}
	return ""
}

type mapArg struct{ m, snap map[string]string }

func (a *mapArg) check() string {
	if len(a.m) != len(a.snap) {
		return fmt.Sprintf("map argument has %d entries instead of %d", len(a.m), len(a.snap))
	}
	for k, v := range a.snap {
		if w, ok := a.m[k]; !ok || w != v {
			return "map argument changed at key " + k
		}
	}
	return ""
}

// sliceArg is a slice of another type than string, with spare capacity.
type sliceArg struct {
	name, snap string
	v          interface{}
}

func (a *sliceArg) dump() string {
	rv := reflect.ValueOf(a.v)
	rv = rv.Slice(0, rv.Cap())
	if b, ok := rv.Interface().([][]byte); ok {
		// the bytes are watched on their own
		s := ""
		for _, x := range b {
			s += fmt.Sprintf("%p %d %d,", x, len(x), cap(x))
		}
		return s
	}
	return fmt.Sprintf("%#v", rv.Interface())
}

// Env holds the arguments all clients share.
type Env struct {
	p       *Plan
	docs    []*Buf
	paths   []*Strs
	vals    []*Buf
	lists   []*Strs
	maps    []*mapArg
	slices  []*sliceArg // typed slices, made when first passed
	jos     []*jin.JO
	parsers []*jin.Parser
	schemes []*jin.Scheme
}

func cloneMap(m map[string]string) map[string]string {
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[strings.Clone(k)] = strings.Clone(v)
	}
	return c
}

func newEnv(p *Plan) *Env {
	e := &Env{p: p}
	for _, d := range p.Docs {
		e.docs = append(e.docs, newBuf(d, 0))
	}
	for _, d := range p.Paths {
		e.paths = append(e.paths, newStrs(d))
	}
	for _, d := range p.Vals {
		e.vals = append(e.vals, newBuf(d, 0))
	}
	for _, d := range p.Lists {
		e.lists = append(e.lists, newStrs(d))
	}
	for _, d := range p.Maps {
		e.maps = append(e.maps, &mapArg{cloneMap(d), cloneMap(d)})
	}
	for i := range p.JOs {
		e.jos = append(e.jos, e.mkJO(i))
	}
	for i := range p.Parsers {
		e.parsers = append(e.parsers, e.mkParser(i))
	}
	for i := range p.Schemes {
		e.schemes = append(e.schemes, e.mkScheme(i))
	}
	return e
}

func (e *Env) mkJO(i int) *jin.JO { return jin.New(newBuf(e.p.Docs[e.p.JOs[i]], 0).arg()) }
func (e *Env) mkParser(i int) *jin.Parser {
	q, _ := jin.Parse(newBuf(e.p.Docs[e.p.Parsers[i]], 0).arg())
	return q
}
func (e *Env) mkScheme(i int) *jin.Scheme {
	return jin.MakeScheme(newStrs(e.p.Lists[e.p.Schemes[i]]).arg()...)
}

// inputsIntact compares every shared argument with its snapshot.
func (e *Env) inputsIntact() string {
	for i, b := range e.docs {
		if s := b.check(); s != "" {
			return fmt.Sprintf("document %d: %s", i, s)
		}
	}
	for i, b := range e.vals {
		if s := b.check(); s != "" {
			return fmt.Sprintf("value %d: %s", i, s)
		}
	}
	for i, b := range e.paths {
		if s := b.check(); s != "" {
			return fmt.Sprintf("path %d: %s", i, s)
		}
	}
	for i, b := range e.lists {
		if s := b.check(); s != "" {
			return fmt.Sprintf("list %d: %s", i, s)
		}
	}
	for _, b := range e.slices {
		if s := b.dump(); s != b.snap {
			return fmt.Sprintf("slice of %s: %s became %s", b.name, b.snap, s)
		}
	}
	for i, b := range e.maps {
		if s := b.check(); s != "" {
			return fmt.Sprintf("map %d: %s", i, s)
		}
	}
	return ""
}

// dump of the shared objects' state.
func (e *Env) objects() []string {
	var out []string
	for _, j := range e.jos {
		out = append(out, "jo "+strings.Clone(j.String()))
	}
	for _, q := range e.parsers {
		out = append(out, dumpParser(q))
	}
	for _, s := range e.schemes {
		out = append(out, dumpScheme(s))
	}
	return out
}

func dumpParser(q *jin.Parser) string {
	if q == nil {
		return "parser nil"
	}
	return "parser " + string(q.JSON()) + "\n" + q.TreeFull()
}

func dumpScheme(s *jin.Scheme) string {
	return fmt.Sprintf("scheme %q %q", s.GetCurrentKeys(), s.GetOriginalKeys())
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:100] + "..." + s[len(s)-12:]
	}
	return s
}

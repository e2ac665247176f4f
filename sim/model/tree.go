package model

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Kind of a node.
type Kind byte

const (
	Obj  Kind = 'o'
	Arr  Kind = 'a'
	Str  Kind = 's' // Raw is the text between the quotes, escapes kept
	Num  Kind = 'n'
	Bool Kind = 'b'
	Null Kind = 'z'
)

// Node is one JSON value. Objects keep their member order; keys are raw
// (escapes kept), because the library addresses members by raw key bytes.
type Node struct {
	Kind Kind
	Raw  string
	Keys []string
	Kids []*Node
	Beg  int // extent in the parsed text; not set otherwise
	End  int
}

func (n *Node) Scalar() bool { return n.Kind != Obj && n.Kind != Arr }

func (n *Node) Clone() *Node {
	c := &Node{Kind: n.Kind, Raw: n.Raw, Keys: append([]string(nil), n.Keys...)}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

func (n *Node) Equal(m *Node) bool {
	if n.Kind != m.Kind || n.Raw != m.Raw || len(n.Kids) != len(m.Kids) || len(n.Keys) != len(m.Keys) {
		return false
	}
	for i := range n.Keys {
		if n.Keys[i] != m.Keys[i] {
			return false
		}
	}
	for i := range n.Kids {
		if !n.Kids[i].Equal(m.Kids[i]) {
			return false
		}
	}
	return true
}

// Child returns the child a path element addresses, or nil.
func (n *Node) Child(p string) *Node {
	i := n.ChildIndex(p)
	if i < 0 {
		return nil
	}
	return n.Kids[i]
}

// ChildIndex returns the position of the child a path element addresses, or -1.
func (n *Node) ChildIndex(p string) int {
	switch n.Kind {
	case Obj:
		for i, k := range n.Keys {
			if k == p {
				return i
			}
		}
	case Arr:
		i, err := strconv.Atoi(p)
		if err == nil && i >= 0 && i < len(n.Kids) {
			return i
		}
	}
	return -1
}

// At walks a path; nil when it does not exist.
func (n *Node) At(path []string) *Node {
	for _, p := range path {
		n = n.Child(p)
		if n == nil {
			return nil
		}
	}
	return n
}

// Paths lists every path of the tree in document order, the root's included.
func (n *Node) Paths() [][]string {
	var out [][]string
	var rec func(n *Node, p []string)
	rec = func(n *Node, p []string) {
		out = append(out, append([]string(nil), p...))
		for i, k := range n.Kids {
			e := strconv.Itoa(i)
			if n.Kind == Obj {
				e = n.Keys[i]
			}
			rec(k, append(append([]string(nil), p...), e))
		}
	}
	rec(n, nil)
	return out
}

// Compact renders without whitespace.
func (n *Node) Compact() string {
	var b strings.Builder
	n.write(&b, nil)
	return b.String()
}

// Count is the number of nodes.
func (n *Node) Count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.Count()
	}
	return c
}

// Render renders with random whitespace between tokens (ws: 0 none, 1 some, 2 a
// lot, 3 long runs here and there).
func (n *Node) Render(r *Rng, ws int) string {
	var b strings.Builder
	sp := func() {
		if ws == 0 {
			return
		}
		if ws > 2 {
			// long runs here and there
			if r.P(1, 6) {
				c := " \t\n\r "[r.N(5)]
				for n := r.LogN(200); n > 0; n-- {
					b.WriteByte(c)
				}
			}
			return
		}
		for r.P(ws, 4) {
			b.WriteByte(" \t\n\r "[r.N(5)])
		}
	}
	n.write(&b, sp)
	return b.String()
}

func (n *Node) write(b *strings.Builder, sp func()) {
	ws := func() {
		if sp != nil {
			sp()
		}
	}
	switch n.Kind {
	case Str:
		b.WriteByte('"')
		b.WriteString(n.Raw)
		b.WriteByte('"')
	case Obj:
		b.WriteByte('{')
		ws()
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
				ws()
			}
			b.WriteByte('"')
			b.WriteString(n.Keys[i])
			b.WriteByte('"')
			ws()
			b.WriteByte(':')
			ws()
			k.write(b, sp)
			ws()
		}
		b.WriteByte('}')
	case Arr:
		b.WriteByte('[')
		ws()
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
				ws()
			}
			k.write(b, sp)
			ws()
		}
		b.WriteByte(']')
	default:
		b.WriteString(n.Raw)
	}
}

// ParseDoc reads a complete JSON text strictly (RFC 8259) into a tree.
func ParseDoc(s string) (*Node, error) {
	p := &parser{s: s}
	p.ws()
	n, err := p.value(0)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(s) {
		return nil, fmt.Errorf("trailing bytes at %d", p.i)
	}
	return n, nil
}

type parser struct {
	s string
	i int
}

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\n' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *parser) str() (string, error) {
	if p.peek() != '"' {
		return "", fmt.Errorf("string expected at %d", p.i)
	}
	p.i++
	st := p.i
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case c == '"':
			v := p.s[st:p.i]
			p.i++
			return v, nil
		case c < 0x20:
			return "", fmt.Errorf("control character in string at %d", p.i)
		case c == '\\':
			p.i++
			switch p.peek() {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p.i++
			case 'u':
				p.i++
				for k := 0; k < 4; k++ {
					h := p.peek()
					if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						return "", fmt.Errorf("bad \\u escape at %d", p.i)
					}
					p.i++
				}
			default:
				return "", fmt.Errorf("bad escape at %d", p.i)
			}
		default:
			p.i++
		}
	}
	return "", fmt.Errorf("unterminated string")
}

// NumberLen returns the length of the JSON number at the start of s, 0 if none.
func NumberLen(s string) int {
	i := 0
	at := func() byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	dig := func() int {
		k := 0
		for at() >= '0' && at() <= '9' {
			i++
			k++
		}
		return k
	}
	if at() == '-' {
		i++
	}
	if at() == '0' {
		i++
	} else if dig() == 0 {
		return 0
	}
	if at() == '.' {
		i++
		if dig() == 0 {
			return 0
		}
	}
	if at() == 'e' || at() == 'E' {
		i++
		if at() == '+' || at() == '-' {
			i++
		}
		if dig() == 0 {
			return 0
		}
	}
	return i
}

func (p *parser) value(depth int) (*Node, error) {
	beg := p.i
	n, err := p.value1(depth)
	if err == nil {
		n.Beg, n.End = beg, p.i
	}
	return n, err
}

func (p *parser) value1(depth int) (*Node, error) {
	if depth > 500 {
		return nil, fmt.Errorf("too deep")
	}
	switch c := p.peek(); {
	case c == '{':
		p.i++
		n := &Node{Kind: Obj}
		p.ws()
		if p.peek() == '}' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ':' {
				return nil, fmt.Errorf("colon expected at %d", p.i)
			}
			p.i++
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, k)
			n.Kids = append(n.Kids, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return n, nil
			default:
				return nil, fmt.Errorf("comma or } expected at %d", p.i)
			}
		}
	case c == '[':
		p.i++
		n := &Node{Kind: Arr}
		p.ws()
		if p.peek() == ']' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				return n, nil
			default:
				return nil, fmt.Errorf("comma or ] expected at %d", p.i)
			}
		}
	case c == '"':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return &Node{Kind: Str, Raw: s}, nil
	case strings.HasPrefix(p.s[p.i:], "true"):
		p.i += 4
		return &Node{Kind: Bool, Raw: "true"}, nil
	case strings.HasPrefix(p.s[p.i:], "false"):
		p.i += 5
		return &Node{Kind: Bool, Raw: "false"}, nil
	case strings.HasPrefix(p.s[p.i:], "null"):
		p.i += 4
		return &Node{Kind: Null, Raw: "null"}, nil
	default:
		l := NumberLen(p.s[p.i:])
		if l == 0 {
			return nil, fmt.Errorf("value expected at %d", p.i)
		}
		n := &Node{Kind: Num, Raw: p.s[p.i : p.i+l]}
		p.i += l
		return n, nil
	}
}

// Shrinks lists smaller variants: one subtree dropped or replaced by a scalar.
func (n *Node) Shrinks() []*Node {
	var out []*Node
	var rec func(path []int, m *Node)
	at := func(c *Node, path []int) *Node {
		for _, i := range path {
			c = c.Kids[i]
		}
		return c
	}
	rec = func(path []int, m *Node) {
		for i := range m.Kids {
			c := n.Clone()
			x := at(c, path)
			x.Kids = append(x.Kids[:i:i], x.Kids[i+1:]...)
			if x.Kind == Obj {
				x.Keys = append(x.Keys[:i:i], x.Keys[i+1:]...)
			}
			out = append(out, c)
		}
		for i, k := range m.Kids {
			if !k.Scalar() || len(k.Raw) > 1 {
				c := n.Clone()
				at(c, path).Kids[i] = &Node{Kind: Num, Raw: "1"}
				out = append(out, c)
			}
		}
		for i, k := range m.Kids {
			rec(append(append([]int{}, path...), i), k)
		}
	}
	rec(nil, n)
	return out
}

// SortedMembers renders the members of an object in the order of their text.
func (n *Node) SortedMembers() string {
	var l []string
	for i, k := range n.Keys {
		l = append(l, strconv.Quote(k)+":"+n.Kids[i].Compact())
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// HasDup says that an object of the tree has two members of one name.
func (n *Node) HasDup() bool {
	if n.Kind == Obj {
		seen := map[string]bool{}
		for _, k := range n.Keys {
			if seen[k] {
				return true
			}
			seen[k] = true
		}
	}
	for _, k := range n.Kids {
		if k.HasDup() {
			return true
		}
	}
	return false
}

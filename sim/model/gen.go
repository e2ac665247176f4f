package model

import (
	"math/big"
	"strconv"
	"strings"
)

// Shape steers the document generator; it is redrawn per run (swarm style).
type Shape struct {
	Depth, Width int
	Empty        int // chance in 10 that a container is empty
	Weird        int // chance in 10 that a key or string holds structural characters or escapes
	Scalars      int // chance in 10 that a child is a scalar
	WS           int // whitespace 0..2
	Arrays       int // chance in 10 that a container is an array
	Long         int // now and then strings and keys of up to this length
}

func GenShape(r *Rng) Shape {
	return Shape{Depth: r.Range(1, 5), Width: r.Range(1, 6), Empty: []int{0, 0, 1, 3}[r.N(4)],
		Weird: []int{0, 2, 6}[r.N(3)], Scalars: r.Range(2, 7), WS: []int{0, 0, 1, 2}[r.N(4)], Arrays: r.Range(2, 7)}
}

var plainKeys = []string{"", "a", "b", "c", "d", "id", "name", "repo", "links", "key", "value", "user", "x1", "0", "1", "é", "kêy", "日本", "A B"}
var weirdKeys = []string{`a\"b`, `\\`, `k:v`, `{`, `}`, `[x]`, `a,b`, `\"`, `"`[:0] + `q\\\"r`, `]}`, `\u0041`, `\\\\`, `,`, `:`, `tab\t`, `/`, `\/`, `\ud83d\ude00`, `a.b`, `😀`, `-1`, `00`}
var plainStrs = []string{"", "eco", "jin", "hello world", "x", "go", "true", "null", "12", "3.5", "github.com", "ü", "日本語", " pad ", "false", "1e5", "TRUE", "False", "t", "0x10", "1_000", "+5", "99999999999999999999", " 7", "😀", "A\u2028", "0.10"}
var weirdStrs = []string{`say \"hi\"`, `\\`, `{"k":1}`[:1], `}`, `[1,2]`, `a:b`, `a,b`, `\"`, `\\\"`, `:{[`, `]}`, `\u00e9\n`, `\\\\`, `,,`, `end\\`, `\"a\":1`, `'`, `#`, `\\\\\\\\`, `\/`, `\ud83d\ude00`, `\\\\\"`, `"`[:0] + `\"x`, `{}`, `[]`, `{"`[:1] + `\"a\":[`}

var pieces = []string{`\"`, `\\`, `\n`, `\u0041`, `\/`, `\t`, "{", "}", "[", "]", ",", ":", " ", "a", "b", "1", "é", "😀", "x y", "'", "\u007f"}

// composed puts pieces together, with long runs of backslashes now and then.
func (r *Rng) composed() string {
	b := []byte{}
	for n := r.LogN(12); n > 0; n-- {
		if r.P(1, 12) {
			for k := r.LogN(40); k > 0; k-- {
				b = append(b, '\\', '\\')
			}
			continue
		}
		b = append(b, r.Pick(pieces)...)
	}
	return string(b)
}

func (r *Rng) long(sh Shape) string {
	n := r.Range(1, sh.Long)
	if sh.Long > 1000 && r.P(1, 2) {
		n = sh.Long - r.N(sh.Long/16)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij XYZ0123456789{}[],:"[r.N(30)]
	}
	return string(b)
}

// Near spells s a little differently: a key that a sloppy comparison takes for s.
func Near(r *Rng, s string) string {
	plain := strings.IndexByte(s, '\\') < 0
	if s != "" && plain {
		switch i := r.N(len(s)); r.N(7) {
		case 0, 1:
			if t := strings.ToUpper(s); t != s {
				return t
			}
			return strings.ToLower(s)
		case 2: // one letter in the other case
			for k := range s {
				if c := s[(k+i)%len(s)] | 0x20; c >= 'a' && c <= 'z' {
					b := []byte(s)
					b[(k+i)%len(s)] ^= 0x20
					return string(b)
				}
			}
		case 3: // one byte is another one
			if b := []byte(s); b[i] < 0x80 {
				b[i] = "abcdefgh01xyz_"[r.N(14)]
				return string(b)
			}
		case 4: // the front of it
			if s[len(s)-1] < 0x80 {
				return s[:len(s)-1]
			}
		case 5: // the end of it
			if s[0] < 0x80 {
				return s[1:]
			}
		}
	}
	return []string{s + " ", " " + s, s + s, s + "0", s + "_", "x" + s, s + "\u0301"}[r.N(7)]
}

// NearIndex spells an index so that it is none, but may be taken for one.
func NearIndex(r *Rng, s string) string {
	i, err := strconv.ParseInt(s, 10, 32)
	if err != nil {
		return Near(r, s)
	}
	switch r.N(9) {
	case 0: // one that does not fit
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(r.Range(62, 66))), big.NewInt(i)).String()
	case 1, 2:
		return strconv.FormatInt(i+1<<uint([]int{8, 16, 31, 32, 33, 48, 62}[r.N(7)]), 10)
	case 3:
		return "-" + s
	case 4:
		return strconv.FormatInt(i-int64(r.Range(1, 3))<<uint([]int{0, 8, 16, 32}[r.N(4)]), 10)
	}
	return []string{s + ".0", s + " ", " " + s, s + "e0", "0x" + s, s + ",", s + "]", "'" + s + "'", s + "_0", "", "\u0663"}[r.N(11)]
}

func (r *Rng) key(sh Shape) string {
	k := r.freshKey(sh)
	if len(r.recent) > 0 && r.P(1, 12) {
		k = Near(r, r.recent[r.N(len(r.recent))])
	}
	if len(k) < 200 {
		if len(r.recent) < 16 {
			r.recent = append(r.recent, k)
		} else {
			r.recent[r.N(16)] = k
		}
	}
	return k
}

func (r *Rng) freshKey(sh Shape) string {
	if sh.Long > 0 && r.P(1, 5) {
		return r.long(sh)
	}
	if r.P(sh.Weird, 10) {
		if r.P(1, 4) {
			return r.composed()
		}
		return r.Pick(weirdKeys)
	}
	return r.Pick(plainKeys)
}

// Key draws a raw member key.
func Key(r *Rng, sh Shape) string { return r.key(sh) }

// StrRaw draws raw string content.
func StrRaw(r *Rng, sh Shape) string {
	if sh.Long > 0 && r.P(1, 4) {
		return r.long(sh)
	}
	if r.P(sh.Weird, 10) {
		if r.P(1, 3) {
			return r.composed()
		}
		return r.Pick(weirdStrs)
	}
	return r.Pick(plainStrs)
}

var nums = []string{"0", "1", "-1", "7", "42", "3.14", "-0.5", "1e10", "2E-3", "123456789012", "10", "100", "-273.15", "9007199254740993", "5e+2", "0.1", "-0", "0.0", "1E400"[:3], "2147483648", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1e400", "1e-400", "0.30000000000000004", "1.7976931348623157e308", "123456789.123456789"}

// GenScalar draws a scalar.
func GenScalar(r *Rng, sh Shape) *Node {
	switch r.N(7) {
	case 0, 1, 2:
		return &Node{Kind: Str, Raw: StrRaw(r, sh)}
	case 3, 4:
		if r.P(1, 3) {
			return &Node{Kind: Num, Raw: strconv.Itoa(r.Range(-1000, 100000))}
		}
		return &Node{Kind: Num, Raw: r.Pick(nums)}
	case 5:
		return &Node{Kind: Bool, Raw: []string{"true", "false"}[r.N(2)]}
	}
	return &Node{Kind: Null, Raw: "null"}
}

// GenValue draws a value of at most the given depth.
func GenValue(r *Rng, sh Shape, depth int) *Node {
	if depth <= 0 || r.P(sh.Scalars, 10) {
		return GenScalar(r, sh)
	}
	return GenContainer(r, sh, depth)
}

// GenContainer draws an object or an array.
func GenContainer(r *Rng, sh Shape, depth int) *Node {
	n := &Node{Kind: Obj}
	if r.P(sh.Arrays, 10) {
		n.Kind = Arr
	}
	w := r.Range(1, sh.Width)
	if r.P(sh.Empty, 10) {
		w = 0
	}
	homo := n.Kind == Arr && sh.Scalars > 0 && r.P(1, 3)
	hk := r.N(3)
	for i := 0; i < w; i++ {
		if n.Kind == Obj {
			k := r.key(sh)
			if n.ChildIndex(k) >= 0 {
				k += strconv.Itoa(i)
				if n.ChildIndex(k) >= 0 {
					continue
				}
			}
			n.Keys = append(n.Keys, k)
		}
		var v *Node
		if homo {
			switch hk {
			case 0:
				v = &Node{Kind: Num, Raw: strconv.Itoa(r.Range(-50, 500))}
			case 1:
				v = &Node{Kind: Str, Raw: StrRaw(r, sh)}
			default:
				v = &Node{Kind: Bool, Raw: []string{"true", "false"}[r.N(2)]}
			}
		} else {
			v = GenValue(r, sh, depth-1)
		}
		n.Kids = append(n.Kids, v)
	}
	return n
}

// GenDoc draws a document whose root is a container.
func GenDoc(r *Rng, sh Shape) *Node {
	n := GenContainer(r, sh, sh.Depth)
	if r.P(1, 10) {
		twin(r, n, sh)
	}
	return n
}

// Seps are what somebody might put between the elements of a path.
var Seps = []string{"/", ".", "", ",", " ", "|", ":", "-", "_", "->", "#", ";", "][", "//"}

// twin adds a member whose key looks like a path of two other keys.
func twin(r *Rng, n *Node, sh Shape) {
	var at []*Node
	var keys []string
	var visit func(x *Node)
	visit = func(x *Node) {
		for i, c := range x.Kids {
			if x.Kind == Obj {
				for j := range c.Kids {
					at = append(at, x)
					s := r.Pick(Seps)
					if c.Kind == Obj {
						keys = append(keys, x.Keys[i]+s+c.Keys[j])
					} else {
						keys = append(keys, x.Keys[i]+s+strconv.Itoa(j))
					}
					if len(at) > 300 {
						return
					}
				}
			}
			visit(c)
		}
	}
	visit(n)
	for k := r.Range(1, 3); k > 0 && len(at) > 0; k-- {
		i := r.N(len(at))
		if at[i].ChildIndex(keys[i]) >= 0 {
			continue
		}
		v := GenScalar(r, sh)
		if r.P(1, 4) {
			v = GenContainer(r, sh, 1)
		}
		p := r.N(len(at[i].Kids) + 1)
		at[i].Keys = append(at[i].Keys[:p], append([]string{keys[i]}, at[i].Keys[p:]...)...)
		at[i].Kids = append(at[i].Kids[:p], append([]*Node{v}, at[i].Kids[p:]...)...)
	}
}

// Joined gives a path that becomes the same text as p when elements are put
// together.
func Joined(r *Rng, p []string) []string {
	q := append([]string{}, p...)
	if len(q) > 1 && r.P(3, 4) {
		i := r.N(len(q) - 1)
		s := r.Pick(Seps)
		if r.P(1, 8) {
			s = "\x00"
		}
		q[i] += s + q[i+1]
		return append(q[:i+1], q[i+2:]...)
	}
	for _, i := range []int{r.N(len(q) + 1), 0} {
		if i >= len(q) {
			continue
		}
		for _, s := range Seps {
			if s == "" {
				continue
			}
			if k := strings.Index(q[i], s); k >= 0 {
				return append(append(append([]string{}, q[:i]...), q[i][:k], q[i][k+len(s):]), q[i+1:]...)
			}
		}
		if len(q[i]) > 1 {
			k := 1 + r.N(len(q[i])-1)
			return append(append(append([]string{}, q[:i]...), q[i][:k], q[i][k:]), q[i+1:]...)
		}
	}
	return append(q, "")
}

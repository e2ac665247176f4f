package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World H: clients edit (and read) documents of their own through long
// histories, interleaved by the scheduler and starting from shared bytes.
// Reference: an ordered tree per client that sees only the successful edits.

func init() {
	for _, p := range []string{"C04", "C05", "C06", "C17", "C18"} {
		worlds[p] = world{
			gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
				p := genHist(prop, seed, cold)
				return p, runHist(p)
			},
			run: runHist,
		}
	}
}

var editBases = []string{"AddKeyValue", "SetKey", "Set", "Store", "Add", "Insert", "Delete"}

// splitEdit takes a function name apart: object prefix, base, type suffix.
func splitEdit(f string) (obj, base, typ string) {
	name := f
	if i := strings.IndexByte(f, '.'); i >= 0 {
		obj, name = f[:i], f[i+1:]
	}
	for _, b := range editBases {
		if strings.HasPrefix(name, b) {
			return obj, b, name[len(b):]
		}
	}
	return obj, "", ""
}

// formatModel is the documented formatting of string values.
func formatModel(s string) string {
	switch s {
	case "":
		return `""`
	case "true", "false", "null":
		return s
	}
	if model.NumberLen(s) == len(s) {
		return s
	}
	a, z := s[0], s[len(s)-1]
	if (a == '"' && z == '"') || (a == '[' && z == ']') || (a == '{' && z == '}') {
		return s
	}
	return `"` + s + `"`
}

// valueText is the JSON text an edit stores.
func valueText(o *Op) string {
	obj, base, typ := splitEdit(o.F)
	switch typ {
	case "":
		if o.V < 0 {
			return "null"
		}
		return o.W
	case "String":
		if obj == "Parser" && base == "Set" {
			if len(o.S) >= 2 && o.S[0] == '"' && o.S[len(o.S)-1] == '"' {
				return o.S
			}
			return `"` + o.S + `"`
		}
		return formatModel(o.S)
	case "Float":
		return strconv.FormatFloat(o.X, 'f', -1, 64)
	case "Bool":
		return strconv.FormatBool(o.B)
	}
	n := o.I
	if base == "Insert" {
		n = int(o.X)
	}
	switch typ {
	case "Int32":
		return strconv.FormatInt(int64(int32(n)), 10)
	case "Uint", "Uint64":
		return strconv.FormatUint(uint64(n), 10)
	case "Uint32":
		return strconv.FormatUint(uint64(uint32(n)), 10)
	}
	return strconv.Itoa(n)
}

func setAt(t *model.Node, path []string, v *model.Node) {
	par := t.At(path[:len(path)-1])
	par.Kids[par.ChildIndex(path[len(path)-1])] = v
}

// applyModel gives the tree after the operation and whether it must succeed.
// known is false when the reference does not judge the operation.
func applyModel(o *Op, t *model.Node) (nt *model.Node, ok, known bool) {
	obj, base, typ := splitEdit(o.F)
	var v *model.Node
	if base != "Delete" && base != "SetKey" {
		if obj == "Parser" && typ == "" && (base == "Add" || base == "Insert") && (o.V < 0 || o.W == "") {
			return t, false, true
		}
		var err error
		v, err = model.ParseDoc(valueText(o))
		if err != nil {
			return t, false, false
		}
		if o.V < 0 && typ == "" && base != "AddKeyValue" {
			return t, false, false
		}
	}
	target := t.At(o.PP)
	nt = t.Clone()
	n := nt.At(o.PP)
	last := ""
	var par *model.Node
	if len(o.PP) > 0 {
		last = o.PP[len(o.PP)-1]
		par = nt.At(o.PP[:len(o.PP)-1])
	}
	switch base {
	case "Set":
		if len(o.PP) == 0 || target == nil {
			return t, false, true
		}
		setAt(nt, o.PP, v)
	case "SetKey":
		if o.K == "" || len(o.PP) == 0 || target == nil || par.Kind != model.Obj || par.ChildIndex(o.K) >= 0 {
			return t, false, true
		}
		par.Keys[par.ChildIndex(last)] = o.K
	case "Delete":
		if len(o.PP) == 0 || target == nil {
			return t, false, true
		}
		i := par.ChildIndex(last)
		par.Kids = append(par.Kids[:i:i], par.Kids[i+1:]...)
		if par.Kind == model.Obj {
			par.Keys = append(par.Keys[:i:i], par.Keys[i+1:]...)
		}
	case "Store":
		if n == nil || n.Scalar() {
			return t, false, true
		}
		if i := n.ChildIndex(o.K); i >= 0 {
			n.Kids[i] = v
			break
		}
		if n.Kind != model.Obj {
			return t, false, true
		}
		if o.K == "" {
			return t, false, false
		}
		n.Keys = append(n.Keys, o.K)
		n.Kids = append(n.Kids, v)
	case "AddKeyValue":
		if o.K == "" {
			return t, false, typ != "" || obj == "Parser"
		}
		if n == nil || n.Kind != model.Obj || n.ChildIndex(o.K) >= 0 {
			return t, false, true
		}
		n.Keys = append(n.Keys, o.K)
		n.Kids = append(n.Kids, v)
	case "Add":
		if n == nil || n.Kind != model.Arr {
			return t, false, true
		}
		n.Kids = append(n.Kids, v)
	case "Insert":
		if n == nil || n.Kind != model.Arr || o.I < 0 || o.I >= len(n.Kids) {
			return t, false, true
		}
		n.Kids = append(n.Kids, nil)
		copy(n.Kids[o.I+1:], n.Kids[o.I:])
		n.Kids[o.I] = v
	default:
		return t, true, false
	}
	return nt, true, true
}

// matchText: got is what a lookup returns for n.
func matchText(got string, n *model.Node) bool {
	if n.Scalar() {
		return got == n.Raw
	}
	if got == "" || strings.IndexByte("[{", got[0]) < 0 || strings.IndexByte("]}", got[len(got)-1]) < 0 {
		return false
	}
	m, err := model.ParseDoc(got)
	return err == nil && m.Equal(n)
}

func emptyErr(err error) bool { return err == nil || jin.ErrEqual(err, jin.ErrCodeEmpty) }

// checkRead compares the outcome of a read with the tree. "" is fine.
func checkRead(o *Op, t *model.Node, out *Out) string {
	name := o.F
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	if out.Panic != "" {
		return "panicked: " + out.Panic
	}
	fail := func(want string) string {
		return fmt.Sprintf("%s at %q gave %s instead of %s", o.F, o.PP, clip(out.Text), want)
	}
	n := t.At(o.PP)
	if name == "JSON" || name == "String" {
		n = t
	}
	wantErr := func() string {
		if out.Err == nil {
			return fail("an error")
		}
		return ""
	}
	if name == "GetNew" {
		b, _ := out.Raw[0].([]byte)
		if n == nil {
			if b != nil {
				return fail("nothing")
			}
			return ""
		}
		if !matchText(string(b), n) {
			return fail(n.Compact())
		}
		return ""
	}
	if n == nil {
		return wantErr()
	}
	text := n.Raw
	looksArr := n.Kind == model.Str && strings.HasPrefix(n.Raw, "[")
	switch name {
	case "Get", "GetString", "JSON", "String":
		if out.Err != nil {
			return fail(n.Compact())
		}
		s, _ := out.Raw[0].(string)
		if b, ok := out.Raw[0].([]byte); ok {
			s = string(b)
		}
		if n == t {
			// the whole document comes with the space around it
			s = strings.TrimSpace(s)
		}
		if !matchText(s, n) {
			return fail(n.Compact())
		}
	case "GetInt":
		v, err := strconv.Atoi(text)
		if err != nil || !n.Scalar() {
			return wantErr()
		}
		if out.Err != nil || out.Raw[0].(int) != v {
			return fail(text)
		}
	case "GetFloat":
		v, err := strconv.ParseFloat(text, 64)
		if err != nil || !n.Scalar() {
			return wantErr()
		}
		if out.Err != nil || !(out.Raw[0].(float64) == v || math.IsNaN(v)) {
			return fail(text)
		}
	case "GetBool":
		if !n.Scalar() || (text != "true" && text != "false") {
			return wantErr()
		}
		if out.Err != nil || out.Raw[0].(bool) != (text == "true") {
			return fail(text)
		}
	case "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray":
		if looksArr {
			return ""
		}
		if n.Kind != model.Arr {
			return wantErr()
		}
		bad := false
		var ints []int
		var floats []float64
		var bools []bool
		for _, k := range n.Kids {
			switch name {
			case "GetIntArray":
				v, err := strconv.Atoi(k.Raw)
				bad = bad || err != nil || !k.Scalar()
				ints = append(ints, v)
			case "GetFloatArray":
				v, err := strconv.ParseFloat(k.Raw, 64)
				bad = bad || err != nil || !k.Scalar()
				floats = append(floats, v)
			case "GetBoolArray":
				bad = bad || !k.Scalar() || (k.Raw != "true" && k.Raw != "false")
				bools = append(bools, k.Raw == "true")
			}
		}
		if bad {
			return wantErr()
		}
		if out.Err != nil {
			return fail(n.Compact())
		}
		rv := reflect.ValueOf(out.Raw[0])
		if rv.Len() != len(n.Kids) {
			return fail(n.Compact())
		}
		for i := range n.Kids {
			ok := false
			switch v := rv.Index(i).Interface().(type) {
			case string:
				ok = matchText(v, n.Kids[i])
			case int:
				ok = v == ints[i]
			case float64:
				ok = v == floats[i] || math.IsNaN(floats[i])
			case bool:
				ok = v == bools[i]
			}
			if !ok {
				return fail(n.Compact())
			}
		}
	case "GetKeys", "GetValues", "GetKeysValues":
		if n.Kind != model.Obj {
			return wantErr()
		}
		if len(n.Kids) == 0 && emptyErr(out.Err) {
			for _, x := range out.Raw[:len(out.Raw)-1] {
				if len(x.([]string)) != 0 {
					return fail("nothing")
				}
			}
			return ""
		}
		if out.Err != nil {
			return fail(n.Compact())
		}
		keys, vals := n.Keys, []string(nil)
		switch name {
		case "GetKeys":
			keys = out.Raw[0].([]string)
		case "GetValues":
			vals = out.Raw[0].([]string)
		default:
			keys, vals = out.Raw[0].([]string), out.Raw[1].([]string)
		}
		if fmt.Sprintf("%q", keys) != fmt.Sprintf("%q", n.Keys) {
			return fail(n.Compact())
		}
		if name != "GetKeys" {
			if len(vals) != len(n.Kids) {
				return fail(n.Compact())
			}
			for i := range vals {
				if !matchText(vals[i], n.Kids[i]) {
					return fail(n.Compact())
				}
			}
		}
	case "GetMap":
		if n.Scalar() {
			return wantErr()
		}
		if len(n.Kids) == 0 {
			if m, _ := out.Raw[0].(map[string]string); !emptyErr(out.Err) || len(m) != 0 {
				return fail("nothing")
			}
			return ""
		}
		if out.Err != nil {
			return fail(n.Compact())
		}
		m := out.Raw[0].(map[string]string)
		if len(m) != len(n.Kids) {
			return fail(n.Compact())
		}
		for i, k := range n.Kids {
			key := strconv.Itoa(i)
			if n.Kind == model.Obj {
				key = n.Keys[i]
			}
			if v, ok := m[key]; !ok || !matchText(v, k) {
				return fail(n.Compact())
			}
		}
	case "GetAll", "GetAllMap":
		if len(o.KK) == 0 {
			return ""
		}
		for _, k := range o.KK {
			if n.ChildIndex(k) < 0 {
				return wantErr()
			}
		}
		if out.Err != nil {
			return fail("values")
		}
		for i, k := range o.KK {
			var v string
			if name == "GetAll" {
				l := out.Raw[0].([]string)
				if len(l) != len(o.KK) {
					return fail("one value for each key")
				}
				v = l[i]
			} else {
				var ok bool
				if v, ok = out.Raw[0].(map[string]string)[k]; !ok {
					return fail("an entry for " + k)
				}
			}
			if !matchText(v, n.Child(k)) {
				return fail(n.Child(k).Compact() + " for " + k)
			}
		}
		if name == "GetAllMap" {
			for k := range out.Raw[0].(map[string]string) {
				if n.ChildIndex(k) < 0 {
					return fail("only the asked keys")
				}
			}
		}
	case "GetType":
		want := map[model.Kind]string{model.Obj: jin.TypeObject, model.Arr: jin.TypeArray, model.Str: jin.TypeString, model.Num: jin.TypeNumber, model.Bool: jin.TypeBoolean, model.Null: jin.TypeNull}[n.Kind]
		if out.Err != nil || out.Raw[0].(string) != want {
			return fail(want)
		}
	case "IsObject", "IsArray", "IsValue":
		want := map[string]bool{"IsObject": n.Kind == model.Obj, "IsArray": n.Kind == model.Arr, "IsValue": n.Scalar()}[name]
		if out.Err != nil || out.Raw[0].(bool) != want {
			return fail(strconv.FormatBool(want))
		}
	case "IsEmpty":
		if n.Scalar() {
			return wantErr()
		}
		if out.Err != nil || out.Raw[0].(bool) != (len(n.Kids) == 0) {
			return fail(strconv.FormatBool(len(n.Kids) == 0))
		}
	case "Length":
		if n.Scalar() {
			return ""
		}
		if out.Err != nil || out.Raw[0].(int) != len(n.Kids) {
			return fail(strconv.Itoa(len(n.Kids)))
		}
	}
	return ""
}

// hclient is one client of world H.
type hclient struct {
	c    *Ctx
	cl   *Client
	tree *model.Node // nil: the document was damaged, nothing is known about it
	dead bool        // no object
	buf  *Buf        // C18: the buffer all its documents are read into
}

func (h *hclient) text() string {
	switch h.cl.Kind {
	case "jo":
		return string(h.c.jos[0].JSON())
	case "parser":
		return string(h.c.parsers[0].JSON())
	}
	return string(h.c.cur)
}

// state is everything observable about the client's document.
func (h *hclient) state(extra []string) string {
	if h.cl.Kind != "parser" {
		return h.text()
	}
	q := h.c.parsers[0]
	var b strings.Builder
	b.WriteString(h.text())
	b.WriteByte(0)
	b.WriteString(q.TreeFull())
	look := func(p []string) {
		v, err := q.Get(p...)
		fmt.Fprintf(&b, "\x00%q %q %v %q", p, v, err, q.GetNew(p...))
	}
	if h.tree != nil {
		ps := h.tree.Paths()
		for i, p := range ps {
			if i < 30 {
				look(p)
			}
		}
	}
	look(extra)
	return b.String()
}

func treeLabels(s string) []string {
	var out []string
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		out = append(out, strings.TrimLeft(l, "\t ─└"))
	}
	if s == "" {
		return nil
	}
	return out
}

// parserInStep checks text, tree and lookups of a Parser against the model.
func (h *hclient) parserInStep(gone [][]string, turn int) string {
	q := h.c.parsers[0]
	text := h.text()
	n, err := model.ParseDoc(text)
	if err != nil {
		return fmt.Sprintf("text is not JSON any more (%v): %s", err, clip(text))
	}
	if !n.Equal(h.tree) {
		return fmt.Sprintf("text is %s, expected %s", clip(text), clip(h.tree.Compact()))
	}
	fresh, err := jin.Parse([]byte(text))
	if err != nil {
		return fmt.Sprintf("its text %s cannot be parsed: %v", clip(text), err)
	}
	full := q.TreeFull()
	ps := h.tree.Paths()
	var labels []string
	for i, p := range ps {
		if len(p) > 0 {
			labels = append(labels, strings.TrimLeft(p[len(p)-1], "\t ─└"))
		}
		if len(ps) > 40 && (i+turn)%(len(ps)/20) != 0 {
			continue
		}
		want := h.tree.At(p)
		v, err := q.Get(p...)
		if len(p) == 0 {
			v = bytes.TrimSpace(v)
		}
		if err != nil {
			return fmt.Sprintf("Get(%q) fails with %v; the text is %s", p, err, clip(text))
		}
		if !matchText(string(v), want) {
			return fmt.Sprintf("Get(%q) gives %s, the text says %s", p, clip(string(v)), clip(want.Compact()))
		}
		f, err := fresh.Get(p...)
		if len(p) == 0 {
			f = bytes.TrimSpace(f)
		}
		if err != nil || string(f) != string(v) {
			return fmt.Sprintf("Get(%q) gives %s, a fresh Parser of the same text gives %s (%v)", p, clip(string(v)), clip(string(f)), err)
		}
		if len(p) > 0 && !strings.Contains(full, strings.TrimSpace(string(v))) {
			return fmt.Sprintf("TreeFull does not show %s, the value of %q", clip(string(v)), p)
		}
		if g := string(q.GetNew(p...)); !matchText(g, want) {
			return fmt.Sprintf("GetNew(%q) gives %s, the text says %s", p, clip(g), clip(want.Compact()))
		}
	}
	for _, p := range gone {
		if h.tree.At(p) == nil {
			if v, err := q.Get(p...); err == nil {
				return fmt.Sprintf("Get(%q) gives %s although there is no such path in %s", p, clip(string(v)), clip(text))
			}
			if v := q.GetNew(p...); v != nil {
				return fmt.Sprintf("GetNew(%q) gives %s although there is no such path in %s", p, clip(string(v)), clip(text))
			}
		}
	}
	if a, b := strings.Join(treeLabels(q.Tree()), "\n"), strings.Join(labels, "\n"); a != b {
		return fmt.Sprintf("Tree lists %q, the text has %q", a, b)
	}
	if full != fresh.TreeFull() {
		return "TreeFull differs from that of a fresh Parser of the same text"
	}
	return ""
}

// oddIndex says that s spells an index in an unusual way ("01", "+1"), which
// interpreter and Parser do not take alike.
func oddIndex(s string) bool {
	i, err := strconv.Atoi(s)
	return err == nil && strconv.Itoa(i) != s
}

// oddPath says that a path gives such an index to an array.
func oddPath(t *model.Node, path []string) bool {
	for _, s := range path {
		if t == nil {
			return false
		}
		if t.Kind == model.Arr && oddIndex(s) {
			return true
		}
		t = t.Child(s)
	}
	return false
}

func runHist(p *Plan) *Result {
	begin(p)
	if p.Prop == "C18" && len(p.Clients) > 0 && p.Clients[0].Kind == "scheme" {
		return runScheme(p)
	}
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	env := newEnv(p)
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	shape := hashStr(p.Prop)
	hs := make([]*hclient, len(p.Clients))
	inOp := make([]string, len(p.Clients))
	var fnList []func()
	edits := 0
	for ci := range p.Clients {
		ci := ci
		h := &hclient{c: newCtx(env, ci, false), cl: &p.Clients[ci]}
		h.c.lit = true
		h.c.cov = res.Cov
		hs[ci] = h
		h.tree, _ = model.ParseDoc(p.Docs[h.cl.Doc])
		// open makes the client's object over a document
		open := func(doc []byte, text string) bool {
			switch h.cl.Kind {
			case "jo":
				h.c.jos = []*jin.JO{jin.New(doc)}
			case "parser":
				q, err := jin.Parse(doc)
				if err != nil {
					if h.tree != nil && p.Prop != "C05" {
						viol("parse", "Parse refuses the valid document %s: %v", clip(text), err)
					}
					return false
				}
				h.c.parsers = []*jin.Parser{q}
				if p.Prop == "C06" && h.tree != nil {
					if x := h.parserInStep(nil, 0); x != "" {
						viol("parse", "fresh Parser of %s: %s", clip(text), x)
						return false
					}
				}
			default:
				h.c.cur = doc
			}
			return true
		}
		fnList = append(fnList, func() {
			simrt.Y(0)
			doc := env.docs[h.cl.Doc].arg()
			if p.Prop == "C18" {
				// everything this client passes lies in buffers it uses again
				h.c.reuse = true
				h.buf = newBuf("", len(p.Docs[h.cl.Doc])+500)
				h.c.ownVal, h.c.ownPath, h.c.ownList = newBuf("", 300), newStrs(make([]string, 12)), newStrs(make([]string, 12))
				h.buf.fill(p.Docs[h.cl.Doc])
				doc = h.buf.arg()
			}
			if !open(doc, p.Docs[h.cl.Doc]) {
				return
			}
			for i := range h.cl.Ops {
				o := &h.cl.Ops[i]
				if res.Viol != "" {
					return
				}
				switch o.F {
				case "#junk":
					junk(o, res.Cov)
					continue
				case "#load": // another document in the same buffer, another object
					s := p.Docs[o.D]
					if o.B && len(s) < len(h.text()) { // padded to the length of the one before
						s += strings.Repeat(" ", len(h.text())-len(s))
					}
					n, err := model.ParseDoc(s)
					if err != nil || h.buf == nil || n.HasDup() {
						continue
					}
					h.tree = n
					h.buf.fill(s)
					res.Cov["document-replaced"]++
					if !open(h.buf.arg(), s) {
						return
					}
					continue
				case "#poke": // the owner of the document writes to it
					if h.cl.Kind != "bytes" || h.buf == nil {
						continue
					}
					s := sameLength(model.NewRng(uint64(o.I)), string(h.c.cur))
					if n, err := model.ParseDoc(s); err == nil && !n.HasDup() && !n.Equal(h.tree) {
						h.tree = n
						copy(h.c.cur, s)
						res.Cov["document-overwritten"]++
					}
					continue
				}
				f := fns[o.F]
				if f == nil {
					continue
				}
				if oddPath(h.tree, o.PP) {
					continue
				}
				isRead := f.Kind == "R" || f.Kind == "jr" || f.Kind == "pr"
				pre := ""
				if p.Prop == "C05" {
					pre = h.state(o.PP)
				}
				before := h.tree
				inOp[ci] = o.F
				out := h.c.call(o)
				inOp[ci] = ""
				where := fmt.Sprintf("client %d, call %d: %s(%s)", ci, i, o.F, opArgs(o))
				fmt.Fprintf(&log, "%d %d %s\n", ci, i, out.Text)
				if f.Kind == "F" {
					// a formatted document is the same document
					h.c.cur = out.Raw[0].([]byte)
					if p.Prop == "C04" || p.Prop == "C17" || p.Prop == "C18" {
						n, err := model.ParseDoc(h.text())
						if h.tree != nil && (err != nil || !n.Equal(h.tree)) {
							viol("format", "%s: %s became %s", where, clip(h.tree.Compact()), clip(h.text()))
						}
					}
					continue
				}
				if isRead {
					res.Cov["read"]++
					if (p.Prop == "C17" || p.Prop == "C18") && h.tree != nil {
						if x := checkRead(o, h.tree, out); x != "" {
							viol("read", "%s: %s; the document is %s", where, x, clip(h.text()))
						}
						shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed))
					}
					continue
				}
				if out.Failed {
					res.Cov["failed-edit"]++
				} else {
					res.Cov["edit"]++
					edits++
				}
				shape = model.Mix(shape, hashStr(o.F), b2u(out.Failed), uint64(len(o.PP)), hashStr(h.text()))
				if out.Panic != "" {
					res.Cov["panic"]++
					if p.Prop != "C05" && h.tree != nil {
						viol("panic", "%s on %s: panicked: %s", where, clip(h.text()), out.Panic)
					}
				}
				if out.Failed && p.Prop == "C05" {
					if h.cl.Kind == "bytes" && out.Panic == "" {
						b, _ := out.Raw[0].([]byte)
						if string(b) != pre {
							viol("unchanged", "%s failed with %v and returned %s instead of %s", where, out.Err, clip(string(b)), clip(pre))
						}
					}
					if post := h.state(o.PP); post != pre {
						viol("unchanged", "%s failed with %v %s but %s became %s", where, out.Err, out.Panic, clip(pre), clip(post))
					}
					if h.tree == nil {
						res.Cov["failed-edit-on-damaged"]++
					}
				}
				if h.tree == nil {
					continue
				}
				nt, ok, known := applyModel(o, h.tree)
				if !known {
					// follow the library where the reference is silent
					n, err := model.ParseDoc(h.text())
					if err != nil {
						h.tree = nil
					} else {
						h.tree = n
					}
					continue
				}
				if p.Prop == "C05" {
					// success is judged by C04 and C06; follow the library
					n, err := model.ParseDoc(h.text())
					if err != nil {
						h.tree = nil
					} else {
						h.tree = n
					}
					continue
				}
				if ok == out.Failed {
					if ok {
						viol("refused", "%s on %s failed with %v although its target exists", where, clip(before.Compact()), out.Err)
					} else {
						viol("accepted", "%s on %s reports success although it has no valid target", where, clip(before.Compact()))
					}
					return
				}
				h.tree = nt
				if h.cl.Kind == "parser" {
					gone := [][]string{o.PP, append(append([]string{}, o.PP...), "no such"), append(append([]string{}, o.PP...), "0")}
					if !out.Failed {
						bp := before.Paths()
						for j := 0; j < len(bp); j += 1 + len(bp)/20 {
							gone = append(gone, bp[j])
						}
					}
					if p.Prop == "C06" {
						if x := h.parserInStep(gone, i); x != "" {
							viol("step", "%s: %s", where, x)
						}
						continue
					}
				}
				n, err := model.ParseDoc(h.text())
				if err != nil {
					viol("invalid", "%s turned %s into %s, which is not JSON: %v", where, clip(before.Compact()), clip(h.text()), err)
				} else if !n.Equal(nt) {
					viol("history", "%s turned %s into %s, expected %s", where, clip(before.Compact()), clip(n.Compact()), clip(nt.Compact()))
				}
			}
		})
	}
	simrt.SetMapOrder(p.Order)
	rep := simrt.Run(fnList, p.Sched, p.First, 400000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site))
		if site != 0 && inOp[cl] != "" {
			res.Cov["preempt-inside-call"]++
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		if p.Prop != "C05" {
			viol("noreturn", "a call did not return: %s", rep.Aborted)
		}
	}
	for ci, h := range hs {
		fmt.Fprintf(&log, "final %d ", ci)
		if h.cl.Kind == "bytes" || (h.cl.Kind == "jo" && len(h.c.jos) > 0) || (h.cl.Kind == "parser" && len(h.c.parsers) > 0) {
			log.WriteString(h.text())
		}
	}
	res.Hash = hashStr(log.String())
	res.Triv = edits == 0 && res.Cov["failed-edit"] == 0
	if p.Prop == "C18" {
		res.Triv = res.Cov["document-replaced"] == 0 && res.Cov["document-overwritten"] == 0
	}
	return res
}

// finish records what all worlds report about an execution.
func finish(res *Result, rep *simrt.Report, log *strings.Builder, shape uint64) {
	res.Steps = rep.Steps
	res.Cov["switch"] += rep.Switches
	res.Cov["stall"] += rep.Freezes
	for _, x := range rep.Panics {
		if res.Viol == "" {
			res.Class, res.Viol = "harness", "harness panic: "+x
		}
	}
	for _, e := range rep.Events {
		fmt.Fprintf(log, "%d %d %d %d %s\n", e.Step, e.From, e.Site, e.To, e.Why)
		res.Trace = append(res.Trace, fmt.Sprintf("step %d: client %d %s at %s -> client %d", e.Step, e.From, e.Why, siteName(e.Site), e.To))
	}
	res.Shape = shape
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// opArgs renders the literal arguments of an operation.
func opArgs(o *Op) string {
	var l []string
	_, base, typ := splitEdit(o.F)
	for _, r := range fns[o.F].Roles {
		switch r {
		case 'k':
			l = append(l, fmt.Sprintf("key %q", o.K))
		case 'l':
			l = append(l, fmt.Sprintf("keys %q", o.KK))
		case 'v':
			l = append(l, "value "+clip(o.W))
		case 's':
			l = append(l, fmt.Sprintf("%q", clip(o.S)))
		case 'i':
			if base == "Insert" && strings.Contains(typ, "nt") && len(l) > 0 {
				l = append(l, fmt.Sprint(int(o.X)))
			} else {
				l = append(l, fmt.Sprint(o.I))
			}
		case 'x':
			l = append(l, fmt.Sprint(o.X))
		case 'b':
			l = append(l, fmt.Sprint(o.B))
		case 'p':
			l = append(l, fmt.Sprintf("path %q", o.PP))
		}
	}
	return strings.Join(l, ", ")
}

// okStr draws a string argument whose stored form is a JSON value.
func (g *gen) okStr() string {
	for i := 0; i < 5; i++ {
		s := g.strArg()
		if g.r.P(1, 12) {
			s = []string{"+5", "007", ".5", "5.", "1e999", "0x10", "NaN", "Infinity", "-", "1_000", "- 1", "TRUE", "nul"}[g.r.N(13)]
		}
		if _, err := model.ParseDoc(formatModel(s)); err == nil {
			if _, err := model.ParseDoc(`"` + s + `"`); err == nil || (len(s) > 1 && s[0] == '"') {
				return s
			}
			return s
		}
	}
	return "x"
}

// histPath picks a path in the tree; good: one of the wanted kinds.
func (g *gen) histPath(t *model.Node, want string, good bool) []string {
	all := t.Paths()
	var pref [][]string
	for _, p := range all {
		if strings.IndexByte(want, byte(t.At(p).Kind)) >= 0 {
			pref = append(pref, p)
		}
	}
	var p []string
	if good && len(pref) > 0 {
		p = pref[g.r.N(len(pref))]
		if g.r.P(1, 4) { // prefer late ones
			p = pref[len(pref)-1]
		}
		return append([]string{}, p...)
	}
	p = all[g.r.N(len(all))]
	if g.r.P(2, 3) {
		p = g.mutatePath(p)
	}
	p = append([]string{}, p...)
	for i := range p {
		if oddIndex(p[i]) {
			p[i] = "zz"
		}
	}
	return p
}

var readFns, editFns map[string][]string

func histFns() {
	if readFns != nil {
		return
	}
	readFns = map[string][]string{"bytes": kindNames("R"), "jo": kindNames("jr"), "parser": kindNames("pr")}
	for k := range readFns {
		var l []string
		for _, f := range readFns[k] {
			if !strings.Contains(f, "Tree") {
				l = append(l, f)
			}
		}
		readFns[k] = l
	}
	editFns = map[string][]string{"bytes": kindNames("E"), "jo": kindNames("je"), "parser": kindNames("pe")}
}

// histOp draws an edit for the tree; bad: it should probably fail.
func (g *gen) histOp(f string, t *model.Node, bad bool) Op {
	r := g.r
	o := Op{F: f, D: -2}
	obj, base, typ := splitEdit(f)
	want := "oasnbz"
	switch base {
	case "AddKeyValue", "Store":
		want = "o"
	case "Add", "Insert":
		want = "a"
	}
	how := 0
	if bad {
		how = r.Range(1, 3)
	}
	o.PP = g.histPath(t, want, how != 1)
	if how == 1 && r.P(1, 4) {
		o.PP = []string{}
	}
	if (base == "Set" || base == "SetKey" || base == "Delete") && len(o.PP) == 0 && how != 1 {
		if ps := t.Paths(); len(ps) > 1 {
			o.PP = append([]string{}, ps[1+r.N(len(ps)-1)]...)
		}
	}
	if base == "SetKey" && how != 1 {
		var l [][]string
		for _, p := range t.Paths() {
			if len(p) > 0 && t.At(p[:len(p)-1]).Kind == model.Obj {
				l = append(l, p)
			}
		}
		if len(l) > 0 {
			o.PP = append([]string{}, l[r.N(len(l))]...)
		}
	}
	n := t.At(o.PP)
	var holder *model.Node
	switch base {
	case "AddKeyValue", "Store":
		holder = n
	case "SetKey":
		if len(o.PP) > 0 {
			holder = t.At(o.PP[:len(o.PP)-1])
		}
	}
	if base == "AddKeyValue" || base == "Store" || base == "SetKey" {
		o.K = model.Key(r, g.sh)
		if r.P(1, 6) {
			o.K += strconv.Itoa(r.N(20))
		}
		if holder != nil && holder.Kind == model.Obj {
			if len(holder.Keys) > 0 && (how == 2 || (base == "Store" && r.P(1, 2))) {
				o.K = holder.Keys[r.N(len(holder.Keys))]
			} else if how == 0 && base != "Store" {
				for i := 0; i < 5 && holder.ChildIndex(o.K) >= 0; i++ {
					o.K += strconv.Itoa(r.N(10))
				}
			}
		}
		if holder != nil && holder.Kind == model.Arr && holder.ChildIndex(o.K) >= 0 {
			o.K = "zz"
		}
		if how == 3 && (base == "SetKey" || (base == "AddKeyValue" && (typ != "" || obj == "Parser"))) {
			o.K = ""
		}
	}
	o.W = g.valText()
	o.S = g.okStr()
	if obj == "Parser" && base == "Set" && typ == "String" {
		o.S = model.StrRaw(r, g.sh)
		if r.P(1, 4) {
			o.S = `"` + o.S + `"`
		}
	}
	o.B = r.P(1, 2)
	o.X = []float64{0, 1.5, -2.25, 1e21, 0.1, 123456.789, -7}[r.N(7)]
	o.I = r.Range(-50, 5000)
	if r.P(1, 6) {
		o.I = []int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, math.MaxUint32, -1}[r.N(6)]
	}
	if base == "Insert" {
		if typ != "" && typ != "Float" && typ != "Bool" && typ != "String" {
			o.X = float64(o.I)
			if o.I > 1<<50 || o.I < -1<<50 {
				o.X = float64(r.Range(-5000000000, 5000000000))
			}
		}
		o.I = r.Range(-1, 3)
		if n != nil && len(n.Kids) > 0 && how != 2 {
			o.I = r.N(len(n.Kids))
		} else if n != nil && r.P(1, 2) {
			o.I = len(n.Kids) + r.N(2)
		}
	}
	if typ == "" && base == "AddKeyValue" && r.P(1, 8) {
		o.V = -1
	}
	if obj == "Parser" && typ == "" && (base == "Add" || base == "Insert") && how == 3 {
		o.W = ""
	}
	return o
}

func (g *gen) histRead(f string, t *model.Node) Op {
	r := g.r
	o := Op{F: f, D: -2}
	want := wantKinds(f)
	if strings.Contains(f, "GetAll") {
		want = "oa"
	}
	o.PP = g.histPath(t, want, r.P(5, 6))
	if strings.Contains(f, "GetAll") {
		n := t.At(o.PP)
		for i := r.Range(1, 4); i > 0; i-- {
			k := model.Key(r, g.sh)
			if n != nil && len(n.Keys) > 0 && r.P(9, 10) {
				k = n.Keys[r.N(len(n.Keys))]
			} else if n != nil && n.Kind == model.Arr && len(n.Kids) > 0 && r.P(9, 10) {
				k = strconv.Itoa(r.N(len(n.Kids)))
			}
			o.KK = append(o.KK, k)
		}
	}
	return o
}

// alike is the same read with a path or a key list that is another one but
// reads the same when its elements are put together.
func (g *gen) alike(o Op, t *model.Node) Op {
	if len(o.KK) > 1 && g.r.P(1, 2) {
		o.KK = model.Joined(g.r, o.KK)
		return o
	}
	if len(o.PP) > 0 {
		o.PP = model.Joined(g.r, o.PP)
		for i := range o.PP {
			if oddIndex(o.PP[i]) {
				o.PP[i] = "zz"
			}
		}
	}
	return o
}

// present draws reads of the present content of the client's document, asked
// before and after that content was replaced behind the library's back.
func (g *gen) present(cl *Client, t *model.Node) *model.Node {
	r := g.r
	rp := readFns[cl.Kind]
	var l []Op
	for k := r.Range(1, 4); k > 0; k-- {
		o := g.histRead(rp[r.N(len(rp))], t)
		l = append(l, o)
		if r.P(1, 5) {
			l = append(l, g.alike(o, t))
		}
	}
	cl.Ops = append(cl.Ops, l...)
	switch r.N(6) {
	case 0:
		return t
	case 1, 2, 3:
		if cl.Kind == "bytes" {
			cl.Ops = append(cl.Ops, Op{F: "#poke", D: -2, I: r.N(1 << 30)})
			break
		}
		fallthrough
	default:
		d := r.N(len(g.p.Docs))
		cl.Ops = append(cl.Ops, Op{F: "#load", D: d, B: r.P(1, 2)})
		t = g.trees[d].Clone()
	}
	cl.Ops = append(cl.Ops, l...)
	return t
}

func genHist(prop string, seed uint64, cold bool) *Plan {
	histFns()
	g := newGen(prop, seed)
	r := g.r
	if prop == "C18" && r.P(1, 7) {
		return genScheme(prop, seed, cold)
	}
	p := g.p
	p.Cold = cold
	g.swarmShape()
	for i := r.Range(1, 2); i > 0; i-- {
		n := g.doc()
		for k := 0; !g.fits(n, 1500) && k < 6; k++ {
			n = g.doc()
		}
		if !g.fits(n, 4000) {
			n = &model.Node{Kind: model.Obj}
		}
		g.addDoc(n)
	}
	if prop == "C18" {
		for i := r.Range(1, 3); i > 0; i-- {
			if k := g.addVariant(r.N(len(p.Docs))); g.trees[k].HasDup() {
				g.trees, p.Docs = g.trees[:k], p.Docs[:k]
			}
		}
	}
	damagedRun := prop == "C05" && r.P(1, 5)
	if damagedRun {
		for i := range p.Docs {
			p.Docs[i] = damage(r, p.Docs[i], r.Range(1, 2))
		}
	}
	nc := 1
	if r.P(1, 2) {
		nc = r.Range(2, 4)
	}
	p.Order = uint64(r.N(3))
	var total int64
	for ci := 0; ci < nc; ci++ {
		cl := Client{Doc: r.N(len(p.Docs))}
		switch prop {
		case "C06":
			cl.Kind = "parser"
		case "C04":
			cl.Kind = []string{"bytes", "bytes", "jo"}[r.N(3)]
		default:
			cl.Kind = []string{"bytes", "jo", "parser"}[r.N(3)]
		}
		t := g.trees[cl.Doc].Clone()
		// swarm: a few functions per client
		pool := editFns[cl.Kind]
		var pick []string
		for i := r.Range(1, 8); i > 0; i-- {
			pick = append(pick, pool[r.N(len(pool))])
		}
		if r.P(1, 3) {
			pick = append(pick, map[string]string{"bytes": "", "jo": "JO.", "parser": "Parser."}[cl.Kind]+"Delete")
		}
		nops := r.LogN(30)
		if g.big > 0 {
			nops = r.LogN(8)
		} else if len(t.Compact()) < 300 && r.P(1, 20) {
			nops = r.LogN(300)
		}
		for i := 0; i < nops; i++ {
			if prop == "C18" {
				t = g.present(&cl, t)
				if r.P(2, 3) {
					continue
				}
			}
			if prop == "C17" && r.P(1, 2) {
				rp := readFns[cl.Kind]
				for k := r.Range(1, 3); k > 0; k-- {
					o := g.histRead(rp[r.N(len(rp))], t)
					cl.Ops = append(cl.Ops, o)
					if r.P(1, 6) {
						cl.Ops = append(cl.Ops, g.alike(o, t))
					}
				}
			}
			if cl.Kind == "bytes" && prop != "C05" && prop != "C06" && r.P(1, 20) {
				cl.Ops = append(cl.Ops, Op{F: []string{"Flatten", "Indent"}[r.N(2)], D: -2})
			}
			badP := 4
			if prop == "C05" {
				badP = 14
			}
			f := pick[r.N(len(pick))]
			o := g.histOp(f, t, r.P(badP, 20))
			nt, ok, known := applyModel(&o, t)
			if !known {
				continue
			}
			if ok && !g.fits(nt, 6000) {
				continue
			}
			if ok {
				t = nt
			}
			cl.Ops = append(cl.Ops, o)
			total += int64(len(p.Docs[cl.Doc])*8 + 200)
		}
		if prop == "C17" {
			rp := readFns[cl.Kind]
			for k := 3; k > 0; k-- {
				cl.Ops = append(cl.Ops, g.histRead(rp[r.N(len(rp))], t))
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	g.sprinkle()
	if nc > 1 {
		g.schedule(nc, total, false)
	}
	return p
}

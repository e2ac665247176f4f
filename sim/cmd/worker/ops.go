package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Fn is one function under test. Roles name the arguments in order:
// d document, v value bytes, s string, k key, i integer, x float, b bool,
// l list, n second list, a []interface{}, B [][]byte, I []int, F []float64,
// T []bool, m map, p path, j JO, q Parser, c Scheme, 1/2/w callbacks,
// N no argument.
type Fn struct {
	Name  string
	Kind  string
	Roles string
	fv    reflect.Value
	vari  bool
	Keep  bool // results belong to the caller (C03)
}

var fns = map[string]*Fn{}
var fnNames []string

func reg(kind, name, roles string, f interface{}, keep bool) {
	v := reflect.ValueOf(f)
	fns[name] = &Fn{Name: name, Kind: kind, Roles: roles, fv: v, vari: v.Type().IsVariadic(), Keep: keep}
	fnNames = append(fnNames, name)
}

// kinds: R package reader, I iterator, E package edit, F format, M make,
// jr/je/ji JO read/edit/iterate, pr/pe Parser read/edit, sr/se Scheme read/edit,
// n constructor
func init() {
	reg("R", "Get", "dp", jin.Get, false)
	for n, f := range map[string]interface{}{"GetString": jin.GetString, "GetInt": jin.GetInt, "GetFloat": jin.GetFloat, "GetBool": jin.GetBool,
		"GetStringArray": jin.GetStringArray, "GetIntArray": jin.GetIntArray, "GetFloatArray": jin.GetFloatArray, "GetBoolArray": jin.GetBoolArray,
		"GetKeys": jin.GetKeys, "GetValues": jin.GetValues, "GetKeysValues": jin.GetKeysValues, "GetMap": jin.GetMap, "GetType": jin.GetType,
		"IsObject": jin.IsObject, "IsArray": jin.IsArray, "IsValue": jin.IsValue, "IsEmpty": jin.IsEmpty, "Length": jin.Length} {
		reg("R", n, "dp", f, true)
	}
	reg("R", "GetAll", "dlp", jin.GetAll, true)
	reg("R", "GetAllMap", "dlp", jin.GetAllMap, true)
	reg("I", "IterateArray", "d1p", jin.IterateArray, false)
	reg("I", "IterateKeyValue", "d2p", jin.IterateKeyValue, false)
	reg("I", "Walk", "dw", jin.Walk, false)
	reg("F", "Flatten", "d", jin.Flatten, true)
	reg("F", "Indent", "d", jin.Indent, true)
	reg("M", "ParseArray", "s", jin.ParseArray, true)
	reg("E", "Set", "dvp", jin.Set, true)
	reg("E", "SetString", "dsp", jin.SetString, true)
	reg("E", "SetInt", "dip", jin.SetInt, true)
	reg("E", "SetFloat", "dxp", jin.SetFloat, true)
	reg("E", "SetBool", "dbp", jin.SetBool, true)
	reg("E", "SetKey", "dkp", jin.SetKey, true)
	reg("E", "Delete", "dp", jin.Delete, true)
	reg("E", "Store", "dkvp", jin.Store, true)
	reg("E", "StoreString", "dksp", jin.StoreString, true)
	reg("E", "StoreInt", "dkip", jin.StoreInt, true)
	reg("E", "StoreFloat", "dkxp", jin.StoreFloat, true)
	reg("E", "StoreBool", "dkbp", jin.StoreBool, true)
	reg("E", "AddKeyValue", "dkvp", jin.AddKeyValue, true)
	reg("E", "AddKeyValueString", "dksp", jin.AddKeyValueString, true)
	reg("E", "AddKeyValueInt", "dkip", jin.AddKeyValueInt, true)
	reg("E", "AddKeyValueInt32", "dkip", jin.AddKeyValueInt32, true)
	reg("E", "AddKeyValueInt64", "dkip", jin.AddKeyValueInt64, true)
	reg("E", "AddKeyValueUint", "dkip", jin.AddKeyValueUint, true)
	reg("E", "AddKeyValueUint32", "dkip", jin.AddKeyValueUint32, true)
	reg("E", "AddKeyValueUint64", "dkip", jin.AddKeyValueUint64, true)
	reg("E", "AddKeyValueFloat", "dkxp", jin.AddKeyValueFloat, true)
	reg("E", "AddKeyValueBool", "dkbp", jin.AddKeyValueBool, true)
	reg("E", "Add", "dvp", jin.Add, true)
	reg("E", "AddString", "dsp", jin.AddString, true)
	reg("E", "AddInt", "dip", jin.AddInt, true)
	reg("E", "AddInt32", "dip", jin.AddInt32, true)
	reg("E", "AddInt64", "dip", jin.AddInt64, true)
	reg("E", "AddUint", "dip", jin.AddUint, true)
	reg("E", "AddUint32", "dip", jin.AddUint32, true)
	reg("E", "AddUint64", "dip", jin.AddUint64, true)
	reg("E", "AddFloat", "dxp", jin.AddFloat, true)
	reg("E", "AddBool", "dbp", jin.AddBool, true)
	reg("E", "Insert", "divp", jin.Insert, true)
	reg("E", "InsertString", "disp", jin.InsertString, true)
	reg("E", "InsertInt", "diip", jin.InsertInt, true)
	reg("E", "InsertInt32", "diip", jin.InsertInt32, true)
	reg("E", "InsertInt64", "diip", jin.InsertInt64, true)
	reg("E", "InsertUint", "diip", jin.InsertUint, true)
	reg("E", "InsertUint32", "diip", jin.InsertUint32, true)
	reg("E", "InsertUint64", "diip", jin.InsertUint64, true)
	reg("E", "InsertFloat", "dixp", jin.InsertFloat, true)
	reg("E", "InsertBool", "dibp", jin.InsertBool, true)
	reg("M", "MakeArray", "a", jin.MakeArray, true)
	reg("M", "MakeArrayString", "l", jin.MakeArrayString, true)
	reg("M", "MakeArrayInt", "I", jin.MakeArrayInt, true)
	reg("M", "MakeArrayBool", "T", jin.MakeArrayBool, true)
	reg("M", "MakeArrayFloat", "F", jin.MakeArrayFloat, true)
	reg("M", "MakeArrayBytes", "B", jin.MakeArrayBytes, true)
	reg("M", "MakeEmptyArray", "", jin.MakeEmptyArray, true)
	reg("M", "MakeEmptyJson", "", jin.MakeEmptyJson, true)
	reg("M", "MakeJson", "la", jin.MakeJson, true)
	reg("M", "MakeJsonString", "ln", jin.MakeJsonString, true)
	reg("M", "MakeJsonWithMap", "m", jin.MakeJsonWithMap, true)

	// JSON objects
	for n, f := range map[string]interface{}{"GetString": (*jin.JO).GetString, "GetInt": (*jin.JO).GetInt, "GetFloat": (*jin.JO).GetFloat,
		"GetBool": (*jin.JO).GetBool, "GetStringArray": (*jin.JO).GetStringArray, "GetIntArray": (*jin.JO).GetIntArray,
		"GetFloatArray": (*jin.JO).GetFloatArray, "GetBoolArray": (*jin.JO).GetBoolArray, "GetKeys": (*jin.JO).GetKeys,
		"GetValues": (*jin.JO).GetValues, "GetKeysValues": (*jin.JO).GetKeysValues, "GetMap": (*jin.JO).GetMap, "GetType": (*jin.JO).GetType,
		"IsObject": (*jin.JO).IsObject, "IsArray": (*jin.JO).IsArray, "IsValue": (*jin.JO).IsValue, "IsEmpty": (*jin.JO).IsEmpty} {
		reg("jr", "JO."+n, "jp", f, true)
	}
	reg("jr", "JO.Get", "jp", (*jin.JO).Get, false)
	reg("jr", "JO.GetAll", "jlp", (*jin.JO).GetAll, true)
	reg("jr", "JO.GetAllMap", "jlp", (*jin.JO).GetAllMap, true)
	reg("jr", "JO.JSON", "j", (*jin.JO).JSON, false)
	reg("jr", "JO.String", "j", (*jin.JO).String, true)
	reg("ji", "JO.IterateArray", "j1p", (*jin.JO).IterateArray, false)
	reg("ji", "JO.IterateKeyValue", "j2p", (*jin.JO).IterateKeyValue, false)
	reg("ji", "JO.Walk", "jw", (*jin.JO).Walk, false)
	reg("je", "JO.Set", "jvp", (*jin.JO).Set, true)
	reg("je", "JO.SetString", "jsp", (*jin.JO).SetString, true)
	reg("je", "JO.SetInt", "jip", (*jin.JO).SetInt, true)
	reg("je", "JO.SetFloat", "jxp", (*jin.JO).SetFloat, true)
	reg("je", "JO.SetBool", "jbp", (*jin.JO).SetBool, true)
	reg("je", "JO.SetKey", "jkp", (*jin.JO).SetKey, true)
	reg("je", "JO.Delete", "jp", (*jin.JO).Delete, true)
	reg("je", "JO.Store", "jkvp", (*jin.JO).Store, true)
	reg("je", "JO.StoreString", "jksp", (*jin.JO).StoreString, true)
	reg("je", "JO.StoreInt", "jkip", (*jin.JO).StoreInt, true)
	reg("je", "JO.StoreFloat", "jkxp", (*jin.JO).StoreFloat, true)
	reg("je", "JO.StoreBool", "jkbp", (*jin.JO).StoreBool, true)
	reg("je", "JO.AddKeyValue", "jkvp", (*jin.JO).AddKeyValue, true)
	reg("je", "JO.AddKeyValueString", "jksp", (*jin.JO).AddKeyValueString, true)
	reg("je", "JO.AddKeyValueInt", "jkip", (*jin.JO).AddKeyValueInt, true)
	reg("je", "JO.AddKeyValueFloat", "jkxp", (*jin.JO).AddKeyValueFloat, true)
	reg("je", "JO.AddKeyValueBool", "jkbp", (*jin.JO).AddKeyValueBool, true)
	reg("je", "JO.Add", "jvp", (*jin.JO).Add, true)
	reg("je", "JO.AddString", "jsp", (*jin.JO).AddString, true)
	reg("je", "JO.AddInt", "jip", (*jin.JO).AddInt, true)
	reg("je", "JO.AddFloat", "jxp", (*jin.JO).AddFloat, true)
	reg("je", "JO.AddBool", "jbp", (*jin.JO).AddBool, true)
	reg("je", "JO.Insert", "jivp", (*jin.JO).Insert, true)
	reg("je", "JO.InsertString", "jisp", (*jin.JO).InsertString, true)
	reg("je", "JO.InsertInt", "jiip", (*jin.JO).InsertInt, true)
	reg("je", "JO.InsertFloat", "jixp", (*jin.JO).InsertFloat, true)
	reg("je", "JO.InsertBool", "jibp", (*jin.JO).InsertBool, true)

	// Parser
	for n, f := range map[string]interface{}{"GetString": (*jin.Parser).GetString, "GetInt": (*jin.Parser).GetInt, "GetFloat": (*jin.Parser).GetFloat,
		"GetBool": (*jin.Parser).GetBool, "GetStringArray": (*jin.Parser).GetStringArray, "GetIntArray": (*jin.Parser).GetIntArray,
		"GetFloatArray": (*jin.Parser).GetFloatArray, "GetBoolArray": (*jin.Parser).GetBoolArray} {
		reg("pr", "Parser."+n, "qp", f, true)
	}
	reg("pr", "Parser.Get", "qp", (*jin.Parser).Get, false)
	reg("pr", "Parser.GetNew", "qp", (*jin.Parser).GetNew, false)
	reg("pr", "Parser.JSON", "q", (*jin.Parser).JSON, false)
	reg("pr", "Parser.Tree", "q", (*jin.Parser).Tree, true)
	reg("pr", "Parser.TreeFull", "q", (*jin.Parser).TreeFull, true)
	reg("pe", "Parser.Set", "qvp", (*jin.Parser).Set, true)
	reg("pe", "Parser.SetString", "qsp", (*jin.Parser).SetString, true)
	reg("pe", "Parser.SetInt", "qip", (*jin.Parser).SetInt, true)
	reg("pe", "Parser.SetFloat", "qxp", (*jin.Parser).SetFloat, true)
	reg("pe", "Parser.SetBool", "qbp", (*jin.Parser).SetBool, true)
	reg("pe", "Parser.SetKey", "qkp", (*jin.Parser).SetKey, true)
	reg("pe", "Parser.Delete", "qp", (*jin.Parser).Delete, true)
	reg("pe", "Parser.AddKeyValue", "qkvp", (*jin.Parser).AddKeyValue, true)
	reg("pe", "Parser.AddKeyValueString", "qksp", (*jin.Parser).AddKeyValueString, true)
	reg("pe", "Parser.AddKeyValueInt", "qkip", (*jin.Parser).AddKeyValueInt, true)
	reg("pe", "Parser.AddKeyValueFloat", "qkxp", (*jin.Parser).AddKeyValueFloat, true)
	reg("pe", "Parser.AddKeyValueBool", "qkbp", (*jin.Parser).AddKeyValueBool, true)
	reg("pe", "Parser.Add", "qvp", (*jin.Parser).Add, true)
	reg("pe", "Parser.AddString", "qsp", (*jin.Parser).AddString, true)
	reg("pe", "Parser.AddInt", "qip", (*jin.Parser).AddInt, true)
	reg("pe", "Parser.AddFloat", "qxp", (*jin.Parser).AddFloat, true)
	reg("pe", "Parser.AddBool", "qbp", (*jin.Parser).AddBool, true)
	reg("pe", "Parser.Insert", "qivp", (*jin.Parser).Insert, true)
	reg("pe", "Parser.InsertString", "qisp", (*jin.Parser).InsertString, true)
	reg("pe", "Parser.InsertInt", "qiip", (*jin.Parser).InsertInt, true)
	reg("pe", "Parser.InsertFloat", "qixp", (*jin.Parser).InsertFloat, true)
	reg("pe", "Parser.InsertBool", "qibp", (*jin.Parser).InsertBool, true)

	// Scheme
	reg("sr", "Scheme.MakeJson", "ca", (*jin.Scheme).MakeJson, true)
	reg("sr", "Scheme.MakeJsonString", "cl", (*jin.Scheme).MakeJsonString, true)
	reg("sr", "Scheme.MutateJson", "cd", (*jin.Scheme).MutateJson, true)
	reg("sr", "Scheme.MutateJsonAbs", "cd", (*jin.Scheme).MutateJsonAbs, true)
	reg("sr", "Scheme.Check", "cd", (*jin.Scheme).Check, true)
	reg("sr", "Scheme.CheckAbs", "cd", (*jin.Scheme).CheckAbs, true)
	reg("sr", "Scheme.GetOriginalKeys", "c", (*jin.Scheme).GetOriginalKeys, true)
	reg("sr", "Scheme.GetCurrentKeys", "c", (*jin.Scheme).GetCurrentKeys, true)
	reg("se", "Scheme.Add", "ck", (*jin.Scheme).Add, true)
	reg("se", "Scheme.Remove", "ck", (*jin.Scheme).Remove, true)
	reg("se", "Scheme.Save", "c", (*jin.Scheme).Save, true)
	reg("se", "Scheme.Restore", "c", (*jin.Scheme).Restore, true)

	// constructors: the object becomes the client's own next one
	reg("n", "New", "d", jin.New, false)
	reg("n", "NewJSON", "", jin.NewJSON, false)
	reg("n", "Parse", "d", jin.Parse, false)
	reg("n", "MakeScheme", "l", jin.MakeScheme, false)
	// objects made from what another object handed out; alone, from a copy of it
	reg("nn", "NewOfJO", "j", func(j *jin.JO) *jin.JO { return jin.New(handed(j.JSON())) }, false)
	reg("nn", "ParseOfJO", "j", func(j *jin.JO) (*jin.Parser, error) { return jin.Parse(handed(j.JSON())) }, false)
	reg("nn", "NewOfParser", "q", func(q *jin.Parser) *jin.JO { return jin.New(handed(q.JSON())) }, false)
	reg("nn", "ParseOfParser", "q", func(q *jin.Parser) (*jin.Parser, error) { return jin.Parse(handed(q.JSON())) }, false)
	reg("nn", "NewOfGet", "jp", func(j *jin.JO, path ...string) (*jin.JO, error) {
		b, err := j.Get(path...)
		if err != nil {
			return nil, err
		}
		return jin.New(handed(b)), nil
	}, false)
	reg("nn", "SchemeOfCurrent", "c", func(s *jin.Scheme) *jin.Scheme { return jin.MakeScheme(handedKeys(s.GetCurrentKeys())...) }, false)
	reg("nn", "SchemeOfOriginal", "c", func(s *jin.Scheme) *jin.Scheme { return jin.MakeScheme(handedKeys(s.GetOriginalKeys())...) }, false)
	reg("fs", "ReadFile", "s", jin.ReadFile, false)
	reg("fs", "ReadJSONFile", "s", jin.ReadJSONFile, false)
	sort.Strings(fnNames)
}

// aloneRun says that a reference run is under way.
var aloneRun bool

func handed(b []byte) []byte {
	if aloneRun {
		return newBuf(string(b), 0).arg()
	}
	return b
}

func handedKeys(l []string) []string {
	if aloneRun {
		return newStrs(l).arg()
	}
	return l
}

func kindNames(kinds ...string) []string {
	var out []string
	for _, n := range fnNames {
		for _, k := range kinds {
			if fns[n].Kind == k {
				out = append(out, n)
			}
		}
	}
	return out
}

// Out is the outcome of one call.
type Out struct {
	Text   string // canonical: values, error, panic
	Raw    []interface{}
	Err    error
	Failed bool
	Panic  string
	Steps  int64
	Calls  []Visit
}

// Visit is one callback invocation.
type Visit struct {
	K, V  string
	P     []string
	p     []string // the slice as handed over
	raw   string   // value as handed over
	inner *Out
}

// Ctx is one client's state.
type Ctx struct {
	env       *Env
	id        int
	iso       bool // reference run: every argument is a fresh copy
	cur       []byte
	jos       []*jin.JO
	parsers   []*jin.Parser
	schemes   []*jin.Scheme
	ownDoc    *Buf
	ownVal    *Buf
	ownPath   *Strs
	ownList   *Strs
	strs      []strChk // string arguments, watched
	busy      bool
	kept      []*keptT
	cov       map[string]int
	cberr     error
	depth     int
	handed    []Visit // paths given to callbacks, watched (C10)
	keepPaths bool
	lit       bool // history worlds: literal arguments, own object
	reuse     bool // literal arguments lie in the client's own reused buffers
}

type strChk struct{ s, snap string }

func newCtx(e *Env, id int, iso bool) *Ctx {
	return &Ctx{env: e, id: id, iso: iso, ownDoc: newBuf("", 64), ownVal: newBuf("", 32), ownPath: newStrs(nil), ownList: newStrs(nil), cov: map[string]int{}}
}

var errCallback = errors.New("callback says no")

func (c *Ctx) doc(o *Op) []byte {
	if o.D < 0 || c.lit {
		return c.cur
	}
	s := c.env.p.Docs[o.D]
	if c.iso {
		return newBuf(s, 0).arg()
	}
	if o.Own {
		c.ownDoc.fill(s)
		c.cov["buffer-reuse"]++
		return c.ownDoc.arg()
	}
	return c.env.docs[o.D].arg()
}

func (c *Ctx) val(o *Op) []byte {
	if c.lit {
		if o.V < 0 {
			return nil
		}
		if c.reuse {
			c.ownVal.fill(o.W)
			return c.ownVal.arg()
		}
		return newBuf(o.W, 0).arg()
	}
	if o.V < 0 {
		return nil
	}
	s := c.env.p.Vals[o.V]
	if c.iso {
		return newBuf(s, 0).arg()
	}
	if o.Own {
		c.ownVal.fill(s)
		return c.ownVal.arg()
	}
	return c.env.vals[o.V].arg()
}

func (c *Ctx) path(o *Op) []string {
	if c.lit {
		if c.reuse {
			c.ownPath.fill(o.PP)
			return c.ownPath.arg()
		}
		return newStrs(o.PP).arg()
	}
	if o.P < 0 {
		return nil
	}
	s := c.env.p.Paths[o.P]
	if c.iso {
		return newStrs(s).arg()
	}
	if o.Own {
		c.ownPath.fill(s)
		return c.ownPath.arg()
	}
	return c.env.paths[o.P].arg()
}

func (c *Ctx) list(i int, own bool) []string {
	s := c.env.p.Lists[i]
	if c.iso {
		return newStrs(s).arg()
	}
	if own {
		c.ownList.fill(s)
		return c.ownList.arg()
	}
	return c.env.lists[i].arg()
}

// own picks one of the client's own objects.
func own(o *Op, n int) int {
	if o.O >= 0 {
		return pickI(o.O, n)
	}
	return pickI(-1-o.O, n)
}

func pickI(i, n int) int {
	if n == 0 {
		return -1
	}
	return ((i % n) + n) % n
}

func (c *Ctx) jo(o *Op) *jin.JO {
	if o.O < 0 || c.lit {
		if i := own(o, len(c.jos)); i >= 0 {
			return c.jos[i]
		}
		return nil
	}
	i := pickI(o.O, len(c.env.jos))
	if i < 0 {
		return nil
	}
	if c.iso {
		return c.env.mkJO(i)
	}
	return c.env.jos[i]
}

func (c *Ctx) parser(o *Op) *jin.Parser {
	if o.O < 0 || c.lit {
		if i := own(o, len(c.parsers)); i >= 0 {
			return c.parsers[i]
		}
		return nil
	}
	i := pickI(o.O, len(c.env.parsers))
	if i < 0 {
		return nil
	}
	if c.iso {
		return c.env.mkParser(i)
	}
	return c.env.parsers[i]
}

func (c *Ctx) scheme(o *Op) *jin.Scheme {
	if o.O < 0 || c.lit {
		if i := own(o, len(c.schemes)); i >= 0 {
			return c.schemes[i]
		}
		return nil
	}
	i := pickI(o.O, len(c.env.schemes))
	if i < 0 {
		return nil
	}
	if c.iso {
		return c.env.mkScheme(i)
	}
	return c.env.schemes[i]
}

// slice gives the argument of that name, the same one to every client.
func (c *Ctx) slice(name string, make func() interface{}) interface{} {
	if c.iso || c.lit {
		return make()
	}
	for _, a := range c.env.slices {
		if a.name == name {
			return a.v
		}
	}
	a := &sliceArg{name: name, v: make()}
	a.snap = a.dump()
	c.env.slices = append(c.env.slices, a)
	return a.v
}

// listLen is the number of values in a list: none, a few or many.
func listLen(i int) int {
	return []int{2, 1, 3, 0, 4, 2, 45}[absI(i)%7]
}

func toAny(l []string, mix int) []interface{} {
	out := make([]interface{}, 0, len(l)+2)
	for i, s := range l {
		if mix > 0 && (i+mix)%3 == 0 {
			out = append(out, []interface{}{float64(i) + 0.5, int64(i) << 40, nil, uint8(i), float32(i) / 4, mix%2 == 0}[(i+mix*2)%6])
			continue
		}
		if n, err := strconv.Atoi(s); err == nil && s != "" && s[0] != '0' && s[0] != '+' {
			out = append(out, n)
		} else if s == "true" || s == "false" {
			out = append(out, s == "true")
		} else {
			out = append(out, strings.Clone(s))
		}
	}
	return out
}

// call runs one operation and canonicalises its outcome.
func (c *Ctx) call(o *Op) *Out {
	out := &Out{}
	start := simrt.MySteps()
	f := fns[o.F]
	if f == nil {
		out.Text = "unknown function " + o.F
		return out
	}
	args := make([]reflect.Value, 0, len(f.Roles))
	ty := f.fv.Type()
	ok := true
	for i, r := range f.Roles {
		pt := ty.In(i)
		var v interface{}
		switch r {
		case 'd':
			v = c.doc(o)
		case 'v':
			v = c.val(o)
		case 's':
			s := strings.Clone(o.S)
			c.watch(s, o.S)
			v = s
		case 'k':
			s := strings.Clone(o.K)
			c.watch(s, o.K)
			v = s
		case 'i':
			n := o.I
			if i > 0 && f.Roles[i-1] == 'i' {
				n = int(o.X)
			}
			args = append(args, reflect.ValueOf(n).Convert(pt))
			continue
		case 'x':
			v = o.X
		case 'b':
			v = o.B
		case 'l':
			if c.lit {
				if c.reuse {
					c.ownList.fill(o.KK)
					v = c.ownList.arg()
				} else {
					v = newStrs(o.KK).arg()
				}
			} else {
				v = c.list(o.L, o.Own)
			}
		case 'n':
			l := c.list(o.M, false)
			v = l
		case 'a':
			v = c.slice(fmt.Sprintf("values %d %d", o.M, o.I&3), func() interface{} { return toAny(c.env.p.Lists[o.M], o.I&3) })
		case 'B':
			v = c.slice(fmt.Sprintf("byte slices %d %d", o.V, listLen(o.I)), func() interface{} {
				vs := make([][]byte, 0, 8)
				for j := 0; j < listLen(o.I); j++ {
					vs = append(vs, c.val(&Op{V: (o.V + j) % len(c.env.p.Vals)}))
				}
				return vs
			})
		case 'I':
			v = c.slice(fmt.Sprintf("ints %d", o.I), func() interface{} {
				n := make([]int, 0, 8)
				for j := 0; j < listLen(o.I); j++ {
					n = append(n, o.I*7+j*13-5)
				}
				return n
			})
		case 'F':
			v = c.slice(fmt.Sprintf("floats %d %v", listLen(o.I), o.X), func() interface{} {
				n := make([]float64, 0, 8)
				for j := 0; j < listLen(o.I); j++ {
					n = append(n, o.X+float64(j)*1.5)
				}
				return n
			})
		case 'T':
			v = c.slice(fmt.Sprintf("bools %d", o.I), func() interface{} {
				n := make([]bool, 0, 8)
				for j := 0; j < listLen(o.I); j++ {
					n = append(n, (o.I>>uint(j))&1 == 0)
				}
				return n
			})
		case 'm':
			if c.iso {
				v = cloneMap(c.env.p.Maps[o.M%len(c.env.p.Maps)])
			} else {
				v = c.env.maps[o.M%len(c.env.maps)].m
			}
		case 'p':
			v = c.path(o)
		case 'j':
			j := c.jo(o)
			ok = ok && j != nil
			v = j
		case 'q':
			q := c.parser(o)
			ok = ok && q != nil
			v = q
		case 'c':
			s := c.scheme(o)
			ok = ok && s != nil
			v = s
		case '1':
			v = c.cb1(o, out)
		case '2':
			v = c.cb2(o, out)
		case 'w':
			v = c.cbw(o, out)
		}
		rv := reflect.ValueOf(v)
		if v == nil || (rv.Kind() == reflect.Slice && rv.IsNil()) {
			rv = reflect.Zero(pt)
		}
		args = append(args, rv)
	}
	if !ok {
		out.Text = "no object"
		return out
	}
	var res []reflect.Value
	c.busy = true
	func() {
		defer func() {
			if p := recover(); p != nil {
				if simrt.Aborted(p) {
					panic(p)
				}
				out.Panic = fmt.Sprint(p)
			}
		}()
		if f.vari {
			res = f.fv.CallSlice(args)
		} else {
			res = f.fv.Call(args)
		}
	}()
	c.busy = false
	c.strs = c.strs[:0]
	out.Steps = simrt.MySteps() - start
	var b strings.Builder
	for _, v := range out.Calls {
		fmt.Fprintf(&b, "call(%q,%q,%q) ", v.K, v.V, v.P)
	}
	if out.Panic != "" {
		b.WriteString("panic: " + out.Panic)
		out.Failed = true
		out.Text = b.String()
		return out
	}
	for _, r := range res {
		x := r.Interface()
		switch t := x.(type) {
		case error:
			out.Err, out.Failed = t, true
		case *jin.JO:
			if t != nil && o.D >= -1 {
				c.jos = append(c.jos, t)
				x = "JO " + t.String()
			} else {
				x = "JO nil"
			}
		case *jin.Parser:
			if t != nil {
				c.parsers = append(c.parsers, t)
				x = "Parser"
			} else {
				x = "Parser nil"
			}
		case *jin.Scheme:
			c.schemes = append(c.schemes, t)
			x = "Scheme"
		}
		out.Raw = append(out.Raw, x)
		if f.Name == "MakeJsonWithMap" {
			x = sortedObject(x)
		}
		b.WriteString(canon(x))
		b.WriteByte(' ')
	}
	out.Text = b.String()
	if f.Kind == "E" && !out.Failed && len(out.Raw) > 0 {
		c.cur, _ = out.Raw[0].([]byte)
	}
	return out
}

// sortedObject puts the members of a document built from a map into one order:
// which one the library chooses is not specified.
func sortedObject(x interface{}) interface{} {
	b, ok := x.([]byte)
	if !ok {
		return x
	}
	n, err := model.ParseDoc(string(b))
	if err != nil || n.Kind != model.Obj {
		return x
	}
	return "members " + n.SortedMembers()
}

func absI(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (c *Ctx) watch(s, snap string) {
	if !c.iso {
		c.strs = append(c.strs, strChk{s, snap})
	}
}

func canon(x interface{}) string {
	switch t := x.(type) {
	case nil:
		return "<nil>"
	case error:
		return "error(" + t.Error() + ")"
	case []byte:
		return "bytes " + strconv.Quote(string(t))
	case string:
		return strconv.Quote(t)
	case []string:
		return fmt.Sprintf("%q", t)
	case map[string]string:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteString("map{")
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%q ", k, t[k])
		}
		return b.String() + "}"
	case bool, int:
		return fmt.Sprint(t)
	case float64:
		return strconv.FormatFloat(t, 'g', -1, 64)
	}
	return fmt.Sprintf("%v", x)
}

// visit is the common part of all callbacks.
func (c *Ctx) visit(o *Op, out *Out, v Visit) (bool, error) {
	v.raw = v.V
	out.Calls = append(out.Calls, v)
	n := len(out.Calls)
	cb := o.CB
	if cb == nil {
		simrt.Y(0)
		return true, nil
	}
	for i := 0; i <= cb.Steps; i++ {
		simrt.Y(0)
	}
	if cb.Grow {
		// a callback may append to the path it was given
		c.cov["callback-appends"]++
		full := v.p[:cap(v.p)]
		for i := len(v.p); i < len(full); i++ {
			full[i] = "#appended"
		}
	}
	if cb.Inner != nil && cb.At == n && c.depth < 2 {
		c.depth++
		c.cov["reentrant-call"]++
		inner := c.call(cb.Inner)
		c.busy = true
		c.depth--
		out.Calls[n-1].V += " inner[" + inner.Text + "]"
		out.Calls[n-1].inner = inner
	}
	if cb.Panic == n {
		c.cov["callback-panic"]++
		panic("callback panics")
	}
	if cb.Err == n {
		c.cov["callback-error"]++
		return cb.Stop != n, errCallback
	}
	if cb.Stop == n {
		c.cov["callback-stop"]++
		return false, nil
	}
	return true, nil
}

func (c *Ctx) cb1(o *Op, out *Out) func([]byte) (bool, error) {
	return func(v []byte) (bool, error) { return c.visit(o, out, Visit{V: string(v)}) }
}

func (c *Ctx) cb2(o *Op, out *Out) func([]byte, []byte) (bool, error) {
	return func(k, v []byte) (bool, error) { return c.visit(o, out, Visit{K: string(k), V: string(v)}) }
}

func (c *Ctx) cbw(o *Op, out *Out) func(string, []byte, []string) (bool, error) {
	return func(k string, v []byte, p []string) (bool, error) {
		cp := make([]string, len(p))
		for i := range p {
			cp[i] = strings.Clone(p[i])
		}
		x := Visit{K: strings.Clone(k), V: string(v), P: cp, p: p}
		if c.keepPaths {
			c.handed = append(c.handed, x)
		}
		return c.visit(o, out, x)
	}
}

// own argument buffers and strings intact?
func (c *Ctx) ownIntact() string {
	if !c.busy {
		return ""
	}
	for _, s := range []string{c.ownDoc.check(), c.ownVal.check(), c.ownPath.check(), c.ownList.check()} {
		if s != "" {
			return fmt.Sprintf("client %d's own argument: %s", c.id, s)
		}
	}
	for _, s := range c.strs {
		if s.s != s.snap {
			return fmt.Sprintf("client %d's string argument %q changed to %q", c.id, s.snap, s.s)
		}
	}
	return ""
}

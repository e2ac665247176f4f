package main

import (
	"errors"
	"fmt"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// Items are small fixed pieces of work that leave everything as it was. Their
// arguments carry a tag of six digits, so that an item can be repeated with
// arguments nobody has seen before, at the same size.

type item struct {
	name string
	f    func(t string)
}

type joItem struct {
	name string
	f    func(j *jin.JO, t string)
}

type parserItem struct {
	name string
	f    func(q *jin.Parser, t string)
}

type schemeItem struct {
	name string
	f    func(s *jin.Scheme, t string)
}

// tagDoc is a document with the tag among its keys and values.
func tagDoc(t string) []byte {
	return []byte(`{"a":[1,2,{"b":"c` + t + `"}],"d":{"e":null,"f":[],"k` + t + `":true},"g":"h` + t + `","n":{"x":{"y":[[` + t[1:] + `]]}}}`)
}

const plainDoc = `{"a":[1,2,{"b":"c"}],"d":{"e":null,"f":[],"x":true},"g":"h"}`

var errOwn = errors.New("the callback's own")

func swallow(f func()) {
	defer func() {
		if x := recover(); x != nil && simrt.Aborted(x) {
			panic(x)
		}
	}()
	f()
}

func goOn([]byte) (bool, error)                       { return true, nil }
func goOnKV(k, v []byte) (bool, error)                { return true, nil }
func goOnWalk(string, []byte, []string) (bool, error) { return true, nil }

// serveFiles makes the simulated files that items ask for.
func serveFiles(name string) *simfs.Script {
	if !strings.HasPrefix(name, "/sim/") {
		return nil
	}
	s := &simfs.Script{Path: name, Size: -1, Data: tagDoc(name[len(name)-4:])}
	switch {
	case strings.HasPrefix(name, "/sim/none/"):
		s.OpenErr = []string{"ENOENT"}
	case strings.HasPrefix(name, "/sim/refused/"):
		s.OpenErr = []string{"EACCES"}
	case strings.HasPrefix(name, "/sim/eio/"):
		s.Reads = []simfs.Read{{Max: 20}, {Err: "EIO"}}
	}
	return s
}

var procItems = []item{
	{"Get", func(t string) { jin.Get(tagDoc(t), "a", "2", "b") }},
	{"Get-own-key", func(t string) { jin.Get(tagDoc(t), "d", "k"+t) }},
	{"Get-missing", func(t string) { jin.Get([]byte(plainDoc), "m"+t) }},
	{"Get-missing-below", func(t string) { jin.Get([]byte(plainDoc), "d", "m"+t) }},
	{"Get-out-of-range", func(t string) { jin.Get([]byte(plainDoc), "a", "1"+t) }},
	{"Get-no-index", func(t string) { jin.Get([]byte(plainDoc), "a", "z"+t) }},
	{"Get-below-scalar", func(t string) { jin.Get(tagDoc(t), "g", t) }},
	{"Get-broken", func(t string) { jin.Get([]byte(`{"`+t), t) }},
	{"GetString", func(t string) { jin.GetString(tagDoc(t), "g") }},
	{"GetInt-fails", func(t string) { jin.GetInt(tagDoc(t), "g") }},
	{"GetFloat-fails", func(t string) { jin.GetFloat(tagDoc(t), "g") }},
	{"GetBool-fails", func(t string) { jin.GetBool(tagDoc(t), "g") }},
	{"GetStringArray", func(t string) { jin.GetStringArray(tagDoc(t), "a") }},
	{"GetStringArray-fails", func(t string) { jin.GetStringArray(tagDoc(t), "g") }},
	{"GetIntArray-fails", func(t string) { jin.GetIntArray(tagDoc(t), "a") }},
	{"GetFloatArray", func(t string) { jin.GetFloatArray(tagDoc(t), "n", "x", "y", "0") }},
	{"GetBoolArray-fails", func(t string) { jin.GetBoolArray(tagDoc(t), "g") }},
	{"GetKeys", func(t string) { jin.GetKeys(tagDoc(t), "d") }},
	{"GetValues", func(t string) { jin.GetValues(tagDoc(t)) }},
	{"GetKeysValues", func(t string) { jin.GetKeysValues(tagDoc(t), "d") }},
	{"GetMap", func(t string) { jin.GetMap(tagDoc(t), "d") }},
	{"GetAll", func(t string) { jin.GetAll(tagDoc(t), []string{"e", "f", "k" + t}, "d") }},
	{"GetAllMap-fails", func(t string) { jin.GetAllMap(tagDoc(t), []string{"e", "m" + t}, "d") }},
	{"Set", func(t string) { jin.Set(tagDoc(t), []byte(`"`+t+`"`), "d", "e") }},
	{"SetString", func(t string) { jin.SetString([]byte(plainDoc), t, "g") }},
	{"SetFloat-fails", func(t string) { jin.SetFloat(tagDoc(t), 1.5, "m"+t) }},
	{"SetKey", func(t string) { jin.SetKey(tagDoc(t), "n"+t, "d", "e") }},
	{"SetKey-taken", func(t string) { jin.SetKey(tagDoc(t), "k"+t, "d", "e") }},
	{"AddKeyValueString", func(t string) { jin.AddKeyValueString(tagDoc(t), "q"+t, t, "d") }},
	{"AddKeyValue-taken", func(t string) { jin.AddKeyValue(tagDoc(t), "k"+t, []byte("1"), "d") }},
	{"StoreString", func(t string) { jin.StoreString(tagDoc(t), "q"+t, "x y") }},
	{"StoreBool-fails", func(t string) { jin.StoreBool(tagDoc(t), "q"+t, true, "a") }},
	{"AddString", func(t string) { jin.AddString(tagDoc(t), t, "a") }},
	{"Add-no-array", func(t string) { jin.Add(tagDoc(t), []byte(t), "g") }},
	{"Insert", func(t string) { jin.Insert(tagDoc(t), 1, []byte("7"), "a") }},
	{"Insert-out-of-range", func(t string) { jin.Insert(tagDoc(t), 70, []byte("7"), "a") }},
	{"Delete", func(t string) { jin.Delete(tagDoc(t), "d", "k"+t) }},
	{"Delete-missing", func(t string) { jin.Delete(tagDoc(t), "d", "m"+t) }},
	{"Flatten", func(t string) { jin.Flatten(append(tagDoc(t), ' ')) }},
	{"Indent", func(t string) { jin.Indent(tagDoc(t)) }},
	{"ParseArray", func(t string) { jin.ParseArray(`["` + t + `",1]`) }},
	{"IterateArray", func(t string) { jin.IterateArray(tagDoc(t), goOn, "a") }},
	{"IterateArray-stops", func(t string) {
		jin.IterateArray(tagDoc(t), func([]byte) (bool, error) { return false, errOwn }, "a")
	}},
	{"IterateArray-panics", func(t string) {
		swallow(func() { jin.IterateArray(tagDoc(t), func([]byte) (bool, error) { panic("callback " + t) }, "a") })
	}},
	{"IterateKeyValue", func(t string) { jin.IterateKeyValue(tagDoc(t), goOnKV) }},
	{"IterateKeyValue-panics", func(t string) {
		swallow(func() { jin.IterateKeyValue(tagDoc(t), func(k, v []byte) (bool, error) { panic("callback " + t) }) })
	}},
	{"IterateKeyValue-missing", func(t string) { jin.IterateKeyValue(tagDoc(t), goOnKV, "m"+t) }},
	{"Walk", func(t string) { jin.Walk(tagDoc(t), goOnWalk) }},
	{"Walk-stops", func(t string) {
		jin.Walk(tagDoc(t), func(k string, v []byte, p []string) (bool, error) { return k != "b", nil })
	}},
	{"Walk-panics", func(t string) {
		swallow(func() {
			jin.Walk(tagDoc(t), func(k string, v []byte, p []string) (bool, error) { panic("callback " + t) })
		})
	}},
	{"GetType", func(t string) { jin.GetType(tagDoc(t), "d", "k"+t) }},
	{"IsObject", func(t string) { jin.IsObject(tagDoc(t), "d") }},
	{"IsEmpty", func(t string) { jin.IsEmpty(tagDoc(t), "d", "f") }},
	{"Length", func(t string) { jin.Length(tagDoc(t), "a") }},
	{"Length-missing", func(t string) { jin.Length(tagDoc(t), "m"+t) }},
	{"MakeJsonString", func(t string) { jin.MakeJsonString([]string{"a" + t, "b"}, []string{"1", t}) }},
	{"MakeJsonWithMap", func(t string) { jin.MakeJsonWithMap(map[string]string{"a" + t: t, "b": "x"}) }},
	{"MakeArrayString", func(t string) { jin.MakeArrayString([]string{t, "x"}) }},
	{"MakeArrayFloat", func(t string) { jin.MakeArrayFloat([]float64{1, 2.5}) }},
	{"MakeArray", func(t string) { jin.MakeArray(1, t, true) }},
	{"ErrEqual", func(t string) { jin.ErrEqual(fmt.Errorf("own %s 08", t), 8) }},
	{"Parse-fails", func(t string) { jin.Parse([]byte(`{"` + t + `":[`)) }},
	{"Parser", func(t string) {
		q, err := jin.Parse(tagDoc(t))
		if err != nil {
			return
		}
		q.Get("a", "2", "b")
		q.SetString("s"+t, "a", "0")
		q.AddKeyValueString("q"+t, "x", "d")
		q.Delete("g")
		q.Tree()
		q.GetNew("d")
	}},
	{"JO", func(t string) {
		j := jin.New(tagDoc(t))
		j.SetInt(4, "a", "0")
		j.AddKeyValueString("n"+t, "x", "d")
		j.Delete("g")
		j.GetString("d", "n"+t)
		j.GetMap()
	}},
	{"ReadFile-missing", func(t string) { jin.ReadFile("/sim/none/" + t) }},
	{"ReadFile-fails", func(t string) { jin.ReadFile("/sim/eio/" + t) }},
	{"ReadFile-refused", func(t string) { jin.ReadJSONFile("/sim/refused/" + t) }},
	{"ReadFile", func(t string) { jin.ReadFile("/sim/file/" + t) }},
	{"ReadJSONFile", func(t string) { jin.ReadJSONFile("/sim/file/" + t) }},
	{"ReadFile-again", func(t string) { jin.ReadFile("/sim/file/same") }},
	{"NewJSON", func(t string) {
		j := jin.NewJSON()
		j.AddKeyValueString("n"+t, t)
		j.Store("m"+t, []byte("[]"))
		j.AddString(t, "m"+t)
	}},
	{"Scheme", func(t string) {
		s := jin.MakeScheme("a", "b"+t)
		s.Add("c" + t)
		s.Save()
		s.Remove("a")
		s.MakeJsonString("1", "2")
		s.Restore()
		s.Check(tagDoc(t))
		s.CheckAbs(tagDoc(t))
		s.MutateJson(tagDoc(t))
		s.MutateJsonAbs(tagDoc(t))
	}},
}

var joItems = []joItem{
	{"Set", func(j *jin.JO, t string) { j.SetString("s"+t, "g"); j.SetString("h", "g") }},
	{"Set-fails", func(j *jin.JO, t string) { j.SetString("s", "m"+t) }},
	{"SetKey", func(j *jin.JO, t string) { j.SetKey("k"+t, "d"); j.SetKey("d", "k"+t) }},
	{"SetKey-fails", func(j *jin.JO, t string) { j.SetKey("g", "d"); j.SetKey("x", "m"+t) }},
	{"AddKeyValue", func(j *jin.JO, t string) { j.AddKeyValueString("k"+t, t, "d"); j.Delete("d", "k"+t) }},
	{"AddKeyValue-plain", func(j *jin.JO, t string) { j.AddKeyValue("k"+t, []byte(t)); j.Delete("k" + t) }},
	{"values", func(j *jin.JO, t string) {
		v := []byte(`"value ` + t + `"`)
		j.Set(v, "g")
		j.Set([]byte(`"h"`), "g")
		j.Store("k"+t, v)
		j.Delete("k" + t)
		j.Add(v, "a")
		j.Delete("a", "3")
		j.Insert(1, v, "a")
		j.Delete("a", "1")
	}},
	{"AddKeyValue-other", func(j *jin.JO, t string) {
		j.AddKeyValueInt("k"+t, 5, "d")
		j.SetFloat(1.5, "d", "k"+t)
		j.SetBool(true, "d", "k"+t)
		j.Delete("d", "k"+t)
		j.AddKeyValueFloat("k"+t, 2.5)
		j.SetInt(1, "k"+t)
		j.Delete("k" + t)
		j.AddKeyValueBool("k"+t, true)
		j.Set([]byte("[]"), "k"+t)
		j.Delete("k" + t)
	}},
	{"Store-other", func(j *jin.JO, t string) {
		j.Store("k"+t, []byte("[]"), "d")
		j.StoreFloat("k"+t, 1.5, "d")
		j.StoreBool("k"+t, true, "d")
		j.Delete("d", "k"+t)
	}},
	{"Add-other", func(j *jin.JO, t string) {
		j.Add([]byte(t), "a")
		j.AddInt(1, "a")
		j.AddFloat(1.5, "a")
		j.AddBool(true, "a")
		for i := 6; i > 2; i-- {
			j.Delete("a", "3")
		}
	}},
	{"Insert-other", func(j *jin.JO, t string) {
		j.Insert(1, []byte(t), "a")
		j.InsertInt(0, 1, "a")
		j.InsertFloat(1, 1.5, "a")
		j.InsertBool(2, true, "a")
		for i := 0; i < 4; i++ {
			j.Delete("a", "0")
		}
		j.Set([]byte("[1,2,{}]"), "a")
	}},
	{"GetAll", func(j *jin.JO, t string) {
		j.GetAll([]string{"a", "g"})
		j.GetAll([]string{"m" + t}, "d")
		j.GetAllMap([]string{"e", "x"}, "d")
	}},
	{"AddKeyValue-fails", func(j *jin.JO, t string) { j.AddKeyValueString("k"+t, t, "a"); j.AddKeyValueInt("g", 1) }},
	{"Store", func(j *jin.JO, t string) { j.StoreString("k"+t, t); j.StoreInt("k"+t, 1); j.Delete("k" + t) }},
	{"Add", func(j *jin.JO, t string) { j.AddString(t, "a"); j.Delete("a", "3") }},
	{"Add-fails", func(j *jin.JO, t string) { j.AddString(t, "d") }},
	{"Insert", func(j *jin.JO, t string) { j.InsertString(0, t, "a"); j.Delete("a", "0") }},
	{"Insert-fails", func(j *jin.JO, t string) { j.InsertString(90, t, "a") }},
	{"Delete-fails", func(j *jin.JO, t string) { j.Delete("m" + t) }},
	{"Get", func(j *jin.JO, t string) { j.Get("a", "2"); j.GetString("d", "e"); j.GetInt("a", "0") }},
	{"Get-fails", func(j *jin.JO, t string) { j.Get("m" + t); j.GetBool("d", "m"+t) }},
	{"lists", func(j *jin.JO, t string) { j.GetKeys(); j.GetValues("d"); j.GetMap(); j.GetStringArray("a") }},
	{"types", func(j *jin.JO, t string) { j.GetType("a"); j.IsObject("d"); j.IsEmpty("d"); j.IsArray("m" + t) }},
	{"iterate", func(j *jin.JO, t string) { j.IterateArray(goOn, "a"); j.IterateKeyValue(goOnKV); j.Walk(goOnWalk) }},
	{"iterate-panics", func(j *jin.JO, t string) {
		swallow(func() { j.IterateArray(func([]byte) (bool, error) { panic(t) }, "a") })
		swallow(func() { j.Walk(func(string, []byte, []string) (bool, error) { panic(t) }) })
	}},
	{"String", func(j *jin.JO, t string) { _ = j.String(); j.JSON() }},
}

var parserItems = []parserItem{
	{"Set", func(q *jin.Parser, t string) { q.SetString("s"+t, "g"); q.SetString("h", "g") }},
	{"Set-fails", func(q *jin.Parser, t string) { q.SetString("s", "m"+t) }},
	{"Set-broken", func(q *jin.Parser, t string) { q.Set([]byte(`{"`+t+`":[`), "g") }},
	{"SetKey", func(q *jin.Parser, t string) { q.SetKey("k"+t, "d"); q.SetKey("d", "k"+t) }},
	{"SetKey-fails", func(q *jin.Parser, t string) { q.SetKey("g", "d"); q.SetKey("x", "m"+t) }},
	{"AddKeyValue", func(q *jin.Parser, t string) { q.AddKeyValueString("k"+t, t, "d"); q.Delete("d", "k"+t) }},
	{"AddKeyValue-plain", func(q *jin.Parser, t string) { q.AddKeyValue("k"+t, []byte(t)); q.Delete("k" + t) }},
	{"values", func(q *jin.Parser, t string) {
		v := []byte(`"value ` + t + `"`)
		q.Set(v, "g")
		q.Set([]byte(`"h"`), "g")
		q.Add(v, "a")
		q.Delete("a", "3")
		q.Insert(1, v, "a")
		q.Delete("a", "1")
	}},
	{"AddKeyValue-other", func(q *jin.Parser, t string) {
		q.AddKeyValueInt("k"+t, 5, "d")
		q.SetFloat(1.5, "d", "k"+t)
		q.SetBool(true, "d", "k"+t)
		q.Delete("d", "k"+t)
		q.AddKeyValueFloat("k"+t, 2.5)
		q.SetInt(1, "k"+t)
		q.Delete("k" + t)
		q.AddKeyValueBool("k"+t, true)
		q.Set([]byte("[]"), "k"+t)
		q.Delete("k" + t)
	}},
	{"Add-other", func(q *jin.Parser, t string) {
		q.Add([]byte(t), "a")
		q.AddInt(1, "a")
		q.AddFloat(1.5, "a")
		q.AddBool(true, "a")
		for i := 6; i > 2; i-- {
			q.Delete("a", "3")
		}
	}},
	{"Insert-other", func(q *jin.Parser, t string) {
		q.Insert(1, []byte(t), "a")
		q.InsertInt(0, 1, "a")
		q.InsertFloat(1, 1.5, "a")
		q.InsertBool(2, true, "a")
		for i := 0; i < 4; i++ {
			q.Delete("a", "0")
		}
		q.Set([]byte("[1,2,{}]"), "a")
	}},
	{"AddKeyValue-fails", func(q *jin.Parser, t string) { q.AddKeyValueString("k"+t, t, "a"); q.AddKeyValueInt("g", 1) }},
	{"Add", func(q *jin.Parser, t string) { q.AddString(t, "a"); q.Delete("a", "3") }},
	{"Add-fails", func(q *jin.Parser, t string) { q.AddString(t, "d") }},
	{"Insert", func(q *jin.Parser, t string) { q.InsertString(0, t, "a"); q.Delete("a", "0") }},
	{"Insert-fails", func(q *jin.Parser, t string) { q.InsertString(90, t, "a") }},
	{"Delete-fails", func(q *jin.Parser, t string) { q.Delete("m" + t) }},
	{"Get", func(q *jin.Parser, t string) { q.Get("a", "2"); q.GetString("d", "e"); q.GetInt("a", "0") }},
	{"Get-fails", func(q *jin.Parser, t string) { q.Get("m" + t); q.GetBool("d", "m"+t) }},
	{"arrays", func(q *jin.Parser, t string) { q.GetStringArray("a"); q.GetIntArray("g") }},
	{"GetNew", func(q *jin.Parser, t string) { q.GetNew(); q.GetNew("d"); q.GetNew("m" + t) }},
	{"Tree", func(q *jin.Parser, t string) { q.Tree(); q.TreeFull() }},
	{"JSON", func(q *jin.Parser, t string) { q.JSON() }},
}

var schemeItems = []schemeItem{
	{"Add-Remove", func(s *jin.Scheme, t string) { s.Add("k" + t); s.Remove("k" + t) }},
	{"Add-taken", func(s *jin.Scheme, t string) { s.Add("a") }},
	{"Remove-missing", func(s *jin.Scheme, t string) { s.Remove("m" + t) }},
	{"Save", func(s *jin.Scheme, t string) { s.Save() }},
	{"Restore", func(s *jin.Scheme, t string) { s.Add("k" + t); s.Restore() }},
	{"Save-Restore", func(s *jin.Scheme, t string) {
		s.Add("k" + t)
		s.Save()
		s.Remove("k" + t)
		s.Save()
		s.Restore()
	}},
	{"MakeJson", func(s *jin.Scheme, t string) { s.MakeJson(1, t, true); s.MakeJsonString(t, "x", "y") }},
	{"Check", func(s *jin.Scheme, t string) { s.Check(tagDoc(t)); s.CheckAbs(tagDoc(t)) }},
	{"Mutate", func(s *jin.Scheme, t string) { s.MutateJson(tagDoc(t)); s.MutateJsonAbs(tagDoc(t)) }},
	{"keys", func(s *jin.Scheme, t string) { s.GetCurrentKeys(); s.GetOriginalKeys() }},
}

var itemsByName map[string]interface{}
var itemNames map[string][]string

func init() {
	itemsByName = map[string]interface{}{}
	itemNames = map[string][]string{}
	add := func(kind, name string, f interface{}) {
		n := "~" + kind + "." + name
		itemsByName[n] = f
		itemNames[kind] = append(itemNames[kind], n)
	}
	for _, i := range procItems {
		add("proc", i.name, i.f)
	}
	for _, i := range joItems {
		add("jo", i.name, i.f)
	}
	for _, i := range parserItems {
		add("parser", i.name, i.f)
	}
	for _, i := range schemeItems {
		add("scheme", i.name, i.f)
	}
}

// body is what a client's items work on.
type body struct {
	jo     *jin.JO
	parser *jin.Parser
	scheme *jin.Scheme
}

func newBody(kind string) *body {
	b := &body{}
	switch kind {
	case "jo":
		b.jo = jin.New([]byte(plainDoc))
	case "parser":
		b.parser, _ = jin.Parse([]byte(plainDoc))
	case "scheme":
		b.scheme = jin.MakeScheme("a", "d", "g")
	}
	return b
}

// again makes an object with the same content that never saw a call.
func (b *body) again() *body {
	n := &body{}
	switch {
	case b.jo != nil:
		n.jo = jin.New([]byte(b.jo.String()))
	case b.parser != nil:
		n.parser, _ = jin.Parse([]byte(string(b.parser.JSON())))
	case b.scheme != nil:
		n.scheme = jin.MakeScheme(b.scheme.GetOriginalKeys()...)
		n.scheme.Restore()
	}
	return n
}

// do executes an item; an item of another kind of object does nothing.
// Panics are judged elsewhere.
func (b *body) do(name, tag string) { swallow(func() { b.item(name, tag) }) }

func (b *body) item(name, tag string) {
	switch f := itemsByName[name].(type) {
	case func(string):
		f(tag)
	case func(*jin.JO, string):
		if b.jo != nil {
			f(b.jo, tag)
		}
	case func(*jin.Parser, string):
		if b.parser != nil {
			f(b.parser, tag)
		}
	case func(*jin.Scheme, string):
		if b.scheme != nil {
			f(b.scheme, tag)
		}
	}
}

func tag6(n int) string { return fmt.Sprintf("%06d", n%1000000) }

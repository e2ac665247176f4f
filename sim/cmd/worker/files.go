package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	jin "github.com/ecoshub/jin"
	"verif.local/sim/model"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World F: clients read files through simulated system calls under a fault
// script. Reference: what the descriptors delivered.

func init() {
	worlds["C11"] = world{
		gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
			p := genFiles(prop, seed, cold)
			return p, runFiles(p)
		},
		run: runFiles,
	}
}

var noFile = strings.Split(strings.Repeat("ENOENT,", 100)+"ENOENT", ",")

func runFiles(p *Plan) *Result {
	begin(p)
	res := &Result{Seed: p.Seed, Cov: map[string]int{}}
	viol := func(class, f string, a ...interface{}) {
		if res.Viol == "" {
			res.Class, res.Viol = class, fmt.Sprintf(f, a...)
		}
	}
	var log strings.Builder
	// names that are not among the files do not exist
	simfs.Serve(func(name string) *simfs.Script {
		return &simfs.Script{Path: name, OpenErr: noFile, StatErr: "ENOENT", Size: -1}
	})
	defer simfs.Serve(nil)
	w := simfs.Mount(p.Files)
	shape := hashStr(p.Prop)
	var fnList []func()
	for ci := range p.Clients {
		ci := ci
		fnList = append(fnList, func() {
			for i := range p.Clients[ci].Ops {
				o := &p.Clients[ci].Ops[i]
				if res.Viol != "" {
					return
				}
				h0 := len(w.Handles)
				var j *jin.JO
				var err error
				pan := ""
				func() {
					defer func() {
						if x := recover(); x != nil {
							if simrt.Aborted(x) {
								panic(x)
							}
							pan = fmt.Sprint(x)
						}
					}()
					simrt.Y(0)
					if o.F == "ReadJSONFile" {
						j, err = jin.ReadJSONFile(o.S)
					} else {
						j, err = jin.ReadFile(o.S)
					}
				}()
				where := fmt.Sprintf("client %d, call %d: %s(%s)", ci, i, o.F, o.S)
				var hs []*simfs.Handle
				var hard, soft []string
				soft = append(soft, w.Soft...)
				for _, h := range w.Handles[h0:] {
					if h.Client == ci {
						hs = append(hs, h)
						hard = append(hard, h.Hard...)
						soft = append(soft, h.Soft...)
						if h.Opened && !h.Closed {
							viol("leak", "%s returned (error %v) and left its file open", where, err)
						}
						shape = model.Mix(shape, hashStr(strings.Join(h.Hard, ",")), uint64(len(h.Delivered)), b2u(h.EOF))
					}
				}
				fmt.Fprintf(&log, "%d %d %v %q\n", ci, i, err, pan)
				switch {
				case pan != "":
					viol("panic", "%s panicked: %s", where, pan)
				case err != nil:
					res.Cov["call-with-error"]++
					if j != nil {
						viol("partial", "%s returned an object with %d bytes together with the error %v", where, len(j.JSON()), err)
					}
					caused := false
					for _, e := range append(append([]string{}, hard...), soft...) {
						caused = caused || errors.Is(err, simfs.Errno(e))
					}
					if !caused {
						viol("error", "%s returned the error %v; the system calls reported %q", where, err, append(hard, soft...))
					}
					if err == io.EOF {
						viol("error", "%s returned io.EOF", where)
					}
				case j == nil:
					viol("nil", "%s returned neither an object nor an error", where)
				default:
					got := string(j.JSON())
					fmt.Fprintf(&log, "%x\n", hashStr(got))
					ok := false
					want := ""
					for _, h := range hs {
						if !h.Opened || len(h.Hard) > 0 || h.Path != o.S {
							continue
						}
						full := ""
						for _, s := range p.Files {
							if s.Path == o.S {
								full = string(w.Data(o.S))
							}
						}
						if h.EOF {
							want = string(h.Delivered)
							ok = ok || got == want
						} else if !h.Changed {
							want = full
							ok = ok || (got == full && string(h.Delivered) == full)
						} else {
							want = full
						}
					}
					if !ok {
						viol("content", "%s returned %d bytes without an error, the file has %d (system calls reported %q): got %s want %s", where, len(got), len(want), hard, clip(got), clip(want))
					} else if j.String() != got {
						viol("content", "%s: String and JSON differ", where)
					}
					res.Cov["call-with-content"]++
				}
			}
		})
	}
	rep := simrt.Run(fnList, p.Sched, p.First, 6000000, 200, func(cl int, site int32) {
		shape = model.Mix(shape, uint64(cl), uint64(site), uint64(w.Open))
		if w.Open > 0 {
			res.Cov["switch-with-open-files"]++
		}
	})
	finish(res, rep, &log, shape)
	if rep.Aborted != "" {
		viol("noreturn", "reading a file did not return: %s", rep.Aborted)
	} else if w.Open != 0 {
		viol("leak", "%d files are still open at the end", w.Open)
	}
	for k, v := range w.Fired {
		res.Cov[k] += v
	}
	res.Cov["open-descriptor"] += w.Opened
	res.Cov["system-call"] += w.Syscalls
	res.Hash = hashStr(log.String())
	res.Triv = w.Syscalls == 0
	return res
}

// nearName gives a name that is not quite s.
func nearName(r *model.Rng, s string) string {
	switch r.N(7) {
	case 0:
		return strings.TrimSuffix(s, ".json") + r.Pick([]string{"", ".", ".jso", ".JSON", ".txt"})
	case 1:
		return s + r.Pick([]string{".json", ".gz", " ", "\n", "~", ".bak", ".tmp"})
	case 2:
		return strings.ToUpper(s)
	case 3:
		return "/sim/" + r.Pick([]string{"", " ", "./x/", "data/", "$X"}) + strings.TrimPrefix(s, "/sim/") + r.Pick([]string{"", " "})
	case 4:
		return "/sim/"
	case 5:
		return ""
	}
	return s[:r.N(len(s)+1)]
}

func genFiles(prop string, seed uint64, cold bool) *Plan {
	g := newGen(prop, seed)
	r := g.r
	p := g.p
	p.Cold = cold
	hardOpen := []string{"ENOENT", "EACCES", "EMFILE", "ENFILE", "EISDIR", "EIO", "ENOMEM", "ELOOP", "ENAMETOOLONG", "ESTALE", "EPERM", "ENXIO"}
	hardRead := []string{"EIO", "ESTALE", "ENOMEM", "EAGAIN", "EIO", "EACCES"}
	g.swarmShape()
	names := []string{"/sim/a.json", "/sim/b.json", "/sim/c.json"}
	if r.P(1, 4) {
		// names that mean nothing but themselves
		odd := []string{"a", "a.json", "A.json", "a.json ", " a.json", "a b.json", "日本.json", "$HOME.json", "${HOME}", "%41.json", "a.json.gz", "a.json.bak", "a.json~", "~", "a#b?c=d", "*.json", "a\tb", "-", "d/e/f.json", "d/a.json", "a.jsonl", "a.JSON", ".json", strings.Repeat("n", 200), "a\\b.json", "a+b", "\"a\"", "a.json\n", "e\u0301.json", "\u00e9.json"}
		for i := range names {
			k := r.N(len(odd))
			names[i] = "/sim/" + odd[k]
			odd = append(odd[:k], odd[k+1:]...)
		}
	}
	for i := r.Range(1, 3); i > 0; i-- {
		s := simfs.Script{Path: names[len(p.Files)], Size: -1}
		data := g.doc().Render(r, g.sh.WS)
		switch r.N(6) {
		case 0:
			data = ""
		case 1: // around the buffer sizes readers like
			n := []int{1, 511, 512, 513, 1023, 1024, 1025, 1536, 4095, 4096, 4097, 8192, 32768, 32769, 65536}[r.N(15)]
			for len(data) < n {
				data += data + " "
			}
			data = data[:n]
		case 2:
			n := r.LogN(40000)
			for len(data) < n {
				data += data + "\x00\xff\n"
			}
			data = data[:n]
		}
		if r.P(1, 4) { // bytes that readers like to treat specially
			data = r.Pick([]string{"", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b", "#!", "\n", "\r\n", " ", "\x00", "//c\n", "\x1e"}) + data
			data += r.Pick([]string{"", "\n", "\r\n", "\x00", "\x1a", " \t", "\n\n", "\xc3", "\xff"})
			if r.P(1, 3) {
				data = strings.Replace(data, ",", ",\r\n", -1)
			}
		}
		s.Data = []byte(data)
		if r.P(1, 400) {
			s.Pad = []int{65536, 131072, 1 << 20, 4 << 20, 10000000, 16 << 20}[r.N(6)] + r.Range(-1, 1)*r.Range(0, 1)
			if r.P(1, 2) {
				s.Pad = r.LogN(16 << 20)
			}
		}
		faults := r.N(6) // 0: none
		if faults == 1 || faults == 5 {
			for k := r.Range(0, 2); k > 0; k-- {
				s.OpenErr = append(s.OpenErr, []string{"EINTR", ""}[r.N(2)])
			}
			s.OpenErr = append(s.OpenErr, hardOpen[r.N(len(hardOpen))])
		}
		if faults >= 2 {
			for k := r.LogN(24); k > 0; k-- {
				x := simfs.Read{}
				switch r.N(10) {
				case 0, 1, 2, 3, 4:
					x.Max = r.LogN(len(data) + 1)
				case 5, 6:
					x.Err = "EINTR"
				case 7:
					x.Max = 1
				case 8:
					if faults == 4 {
						x.Err = hardRead[r.N(len(hardRead))]
					}
				case 9:
					if faults == 3 || faults == 5 {
						if r.P(1, 2) {
							x.Grow = strings.Repeat("g", r.LogN(3000))
						} else {
							x.Cut = r.Range(1, len(data)+1)
						}
					}
				}
				s.Reads = append(s.Reads, x)
			}
		}
		switch r.N(8) {
		case 0:
			s.Size = 0 // as in /proc
		case 1:
			s.Size = int64(r.LogN(len(data)*2 + 10))
		case 2:
			s.StatErr = hardRead[r.N(len(hardRead))]
		}
		if r.P(1, 20) {
			s.Dir = true
		}
		p.Files = append(p.Files, s)
	}
	nc := r.Range(1, 4)
	for ci := 0; ci < nc; ci++ {
		var cl Client
		for k := r.Range(1, 4); k > 0; k-- {
			o := Op{F: []string{"ReadFile", "ReadJSONFile"}[r.N(2)], S: p.Files[r.N(len(p.Files))].Path}
			if r.P(1, 12) {
				// no such file, but ones of similar names
				o.S = nearName(r, o.S)
			}
			cl.Ops = append(cl.Ops, o)
		}
		p.Clients = append(p.Clients, cl)
	}
	if nc > 1 {
		p.First = r.N(nc)
		total := 40 * nc
		for k := r.Range(1, 25); k > 0; k-- {
			p.Sched = append(p.Sched, simrt.Seg{N: int64(r.LogN(total)) - 1, K: r.N(nc)})
		}
	}
	return p
}

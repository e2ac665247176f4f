package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/instrument"
)

// Built describes the instrumented worker of one state of /repo.
type Built struct {
	Dir      string            `json:"dir"`
	Worker   string            `json:"worker"`
	Sites    string            `json:"sites"`
	Stats    *instrument.Stats `json:"stats"`
	Options  string            `json:"options"`
	NumSites int               `json:"numsites"`
}

func hashTree(h interface{ Write([]byte) (int, error) }, root string, keep func(string) bool) error {
	var files []string
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if p != root && strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if keep(p) {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		h.Write(b)
	}
	return nil
}

// build instruments the current /repo and builds the worker, once per state.
func build(verif, repo string) (*Built, error) {
	h := sha256.New()
	if err := hashTree(h, repo, func(p string) bool {
		b := filepath.Base(p)
		return (strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go")) || b == "go.mod" || b == "go.sum"
	}); err != nil {
		return nil, err
	}
	if err := hashTree(h, filepath.Join(verif, "sim"), func(p string) bool { return true }); err != nil {
		return nil, err
	}
	key := hex.EncodeToString(h.Sum(nil))[:16]
	root := filepath.Join(verif, ".build")
	if err := os.MkdirAll(root, 0o755); err != nil {
		return nil, err
	}
	lock, err := os.OpenFile(filepath.Join(root, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return nil, err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return nil, err
	}
	dir := filepath.Join(root, "w-"+key)
	meta := filepath.Join(dir, "built.json")
	if b, err := os.ReadFile(meta); err == nil {
		out := &Built{}
		if json.Unmarshal(b, out) == nil {
			if _, err := os.Stat(out.Worker); err == nil && out.Dir == dir {
				now := time.Now()
				os.Chtimes(meta, now, now)
				return out, nil
			}
		}
	}
	prune(root)
	// the overlay needs a destination for files; every seam is tried first, and a
	// seam the current sources do not compile with is left out
	var lastErr error
	for _, o := range []struct {
		name string
		opt  instrument.Options
	}{
		{"fs,maps,sync,restart,work", instrument.Options{FS: true, Maps: true, Sync: true, Restart: true, Work: true}},
		{"fs,maps,sync,restart", instrument.Options{FS: true, Maps: true, Sync: true, Restart: true}},
		{"fs,maps,sync", instrument.Options{FS: true, Maps: true, Sync: true}},
		{"maps,sync", instrument.Options{Maps: true, Sync: true}},
		{"fs,sync", instrument.Options{FS: true, Sync: true}},
		{"sync", instrument.Options{Sync: true}},
		{"none", instrument.Options{}},
	} {
		os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, err
		}
		st, err := instrument.Run(repo, filepath.Join(dir, "src"), o.opt)
		if err != nil {
			lastErr = err
			continue
		}
		bin := filepath.Join(dir, "worker")
		gm, err := os.ReadFile(filepath.Join(verif, "sim", "go.mod"))
		if err != nil {
			return nil, err
		}
		mod := filepath.Join(dir, "go.mod")
		if err := os.WriteFile(mod, []byte(strings.ReplaceAll(string(gm), "=> /repo", "=> "+repo)), 0o644); err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "build", "-modfile", mod, "-overlay", filepath.Join(dir, "src", "overlay.json"), "-o", bin, "./cmd/worker")
		cmd.Dir = filepath.Join(verif, "sim")
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			lastErr = fmt.Errorf("build of the worker (%s): %v\n%s", o.name, err, out)
			continue
		}
		b := &Built{Dir: dir, Worker: bin, Sites: filepath.Join(dir, "src", "sites.json"), Stats: st, Options: o.name, NumSites: st.Sites}
		j, _ := json.Marshal(b)
		if err := os.WriteFile(meta, j, 0o644); err != nil {
			return nil, err
		}
		return b, nil
	}
	return nil, lastErr
}

// prune keeps the three most recent builds.
func prune(root string) {
	type ent struct {
		p string
		t time.Time
	}
	var es []ent
	ds, _ := filepath.Glob(filepath.Join(root, "w-*"))
	for _, d := range ds {
		t := time.Time{}
		if st, err := os.Stat(filepath.Join(d, "built.json")); err == nil {
			t = st.ModTime()
		}
		es = append(es, ent{d, t})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t.After(es[j].t) })
	for i, e := range es {
		if i >= 3 {
			os.RemoveAll(e.p)
		}
	}
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

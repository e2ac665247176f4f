// Package simfs stands in for the file calls of os and io/ioutil inside the
// instrumented library. A mounted path is served by simulated system calls
// under the plan's fault script; every other path goes to the real calls.
package simfs

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// Fault script for one path.
type Script struct {
	Path    string
	Data    []byte
	Pad     int      `json:",omitempty"` // the file goes on after Data up to this length
	OpenErr []string // consumed by successive opens: "", EINTR, ENOENT, EACCES, EMFILE, ENFILE, EISDIR, EIO, ENOMEM
	StatErr string   // fstat error
	Size    int64    // size reported by stat (hint); -1 real
	Reads   []Read   // consumed by successive reads; after that plain full reads
	Dir     bool
}

// Read says what one read call does.
type Read struct {
	Max  int    `json:"max,omitempty"`  // at most that many bytes (0: as many as asked)
	Err  string `json:"err,omitempty"`  // EINTR, EAGAIN, EIO, ESTALE...: no bytes
	Grow string `json:"grow,omitempty"` // appended to the file before this read
	Cut  int    `json:"cut,omitempty"`  // file truncated to this length before this read (-1 none; 0 means no cut)
}

type file struct {
	s     Script
	data  []byte
	opens int
	reads int
}

// Handle records one attempt to open a path and what the descriptor delivered.
type Handle struct {
	Client    int
	Path      string
	Opened    bool
	Closed    bool
	Hard      []string // errors handed to the caller by open and read
	Soft      []string // errors of stat
	Delivered []byte   // bytes handed out, by offset
	EOF       bool     // the end of the file was reported
	Changed   bool     // the file grew or shrank while it was open
}

// World is the simulated file system of one run.
type World struct {
	Handles  []*Handle
	Soft     []string // errors of stat by path
	files    map[string]*file
	Open     int // descriptors currently open
	MaxOpen  int
	Opened   int
	Syscalls int
	Fired    map[string]int
	Log      []string
}

var w *World

// Mount installs a world; nil removes it.
func Mount(scripts []Script) *World {
	if scripts == nil {
		w = nil
		return nil
	}
	w = &World{files: map[string]*file{}, Fired: map[string]int{}}
	for _, s := range scripts {
		data := make([]byte, len(s.Data), len(s.Data)+s.Pad)
		copy(data, s.Data)
		for x := uint32(len(data)); len(data) < s.Pad; {
			x = x*1664525 + 1013904223
			data = append(data, byte(x>>24), byte(x>>16), byte(x>>8))
		}
		if s.Pad > 0 && s.Pad < len(data) && len(s.Data) <= s.Pad {
			data = data[:s.Pad]
		}
		w.files[s.Path] = &file{s: s, data: data}
	}
	return w
}

var errs = map[string]error{"EINTR": syscall.EINTR, "EAGAIN": syscall.EAGAIN, "ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EISDIR": syscall.EISDIR, "EIO": syscall.EIO, "ENOMEM": syscall.ENOMEM,
	"ESTALE": syscall.ESTALE, "EPERM": syscall.EPERM, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ENXIO": syscall.ENXIO}

// Errno gives the error behind a script name.
func Errno(s string) error { return errs[s] }

func lookup(name string) *file {
	if w == nil {
		return nil
	}
	if f := w.files[name]; f != nil || serve == nil {
		return f
	}
	s := serve(name)
	if s == nil {
		return nil
	}
	if w.Open == 0 && len(w.Handles) > 50 && len(w.files) == 0 {
		w.Handles, w.Soft, w.Log = nil, nil, nil
	}
	return &file{s: *s, data: s.Data}
}

var serve func(name string) *Script

// Serve makes the files of an empty world as they are asked for; nothing of
// them stays once all descriptors are closed. nil removes it.
func Serve(f func(name string) *Script) {
	serve = f
	Mount([]Script{})
	if f == nil {
		Mount(nil)
	}
}

func (x *World) changed(path string) {
	for _, h := range x.Handles {
		if h.Path == path && h.Opened && !h.Closed {
			h.Changed = true
		}
	}
}

func (x *World) fire(k string) { x.Fired[k]++ }

// File is an open simulated file, or a wrapper of a real one.
type File struct {
	real   *os.File
	f      *file
	name   string
	off    int64
	closed bool
	world  *World
	h      *Handle
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := lookup(name)
	if f == nil {
		r, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{real: r, name: name}, nil
	}
	simrt.Y(0)
	h := &Handle{Client: simrt.Root(), Path: name}
	w.Handles = append(w.Handles, h)
	for {
		w.Syscalls++
		if f.opens < len(f.s.OpenErr) {
			e := f.s.OpenErr[f.opens]
			f.opens++
			if e != "" {
				w.fire("open:" + e)
				if e == "EINTR" {
					continue // os retries
				}
				h.Hard = append(h.Hard, e)
				return nil, &fs.PathError{Op: "open", Path: name, Err: errs[e]}
			}
		}
		break
	}
	w.Open++
	w.Opened++
	if w.Open > w.MaxOpen {
		w.MaxOpen = w.Open
	}
	h.Opened = true
	return &File{f: f, name: name, world: w, h: h}, nil
}

func (x *File) check(op string) error {
	if x == nil {
		return os.ErrInvalid
	}
	if x.closed {
		return &fs.PathError{Op: op, Path: x.name, Err: os.ErrClosed}
	}
	return nil
}

func (x *File) Name() string { return x.name }

func (x *File) Close() error {
	if x != nil && x.real != nil {
		return x.real.Close()
	}
	if err := x.check("close"); err != nil {
		return err
	}
	simrt.Y(0)
	x.closed = true
	x.h.Closed = true
	x.world.Open--
	return nil
}

// step performs one simulated read system call at off.
func (x *File) step(b []byte, off int64) (int, error) {
	f := x.f
	simrt.Y(0)
	x.world.Syscalls++
	max := len(b)
	if f.reads < len(f.s.Reads) {
		r := f.s.Reads[f.reads]
		f.reads++
		if r.Grow != "" {
			f.data = append(f.data, r.Grow...)
			x.world.fire("grow")
			x.world.changed(x.name)
		}
		if r.Cut > 0 && r.Cut < len(f.data) {
			f.data = f.data[:r.Cut]
			x.world.fire("shrink")
			x.world.changed(x.name)
		}
		if r.Err != "" {
			x.world.fire("read:" + r.Err)
			if r.Err != "EINTR" {
				x.h.Hard = append(x.h.Hard, r.Err)
			}
			return 0, errs[r.Err]
		}
		if r.Max > 0 && r.Max < max {
			if off < int64(len(f.data)) && int64(r.Max) < int64(len(f.data))-off {
				x.world.fire("short-read")
			}
			max = r.Max
		}
	}
	if f.s.Dir {
		x.h.Hard = append(x.h.Hard, "EISDIR")
		x.world.fire("read:EISDIR")
		return 0, syscall.EISDIR
	}
	if off >= int64(len(f.data)) {
		x.h.EOF = true
		return 0, nil
	}
	n := copy(b[:max], f.data[off:])
	if m := off + int64(n) - int64(len(x.h.Delivered)); m > 0 {
		x.h.Delivered = append(x.h.Delivered, make([]byte, m)...)
	}
	copy(x.h.Delivered[off:], b[:n])
	return n, nil
}

func (x *File) Read(b []byte) (int, error) {
	if x != nil && x.real != nil {
		return x.real.Read(b)
	}
	if err := x.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		n, err := x.step(b, x.off)
		if err == syscall.EINTR {
			continue // os retries
		}
		if err != nil {
			return 0, &fs.PathError{Op: "read", Path: x.name, Err: err}
		}
		x.off += int64(n)
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}

func (x *File) ReadAt(b []byte, off int64) (int, error) {
	if x != nil && x.real != nil {
		return x.real.ReadAt(b, off)
	}
	if err := x.check("read"); err != nil {
		return 0, err
	}
	tot := 0
	for len(b) > 0 {
		n, err := x.step(b, off)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return tot, &fs.PathError{Op: "read", Path: x.name, Err: err}
		}
		if n == 0 {
			return tot, io.EOF
		}
		tot, b, off = tot+n, b[n:], off+int64(n)
	}
	return tot, nil
}

func (x *File) Seek(off int64, whence int) (int64, error) {
	if x != nil && x.real != nil {
		return x.real.Seek(off, whence)
	}
	if err := x.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		x.off = off
	case io.SeekCurrent:
		x.off += off
	case io.SeekEnd:
		x.off = int64(len(x.f.data)) + off
	}
	return x.off, nil
}

func (x *File) Stat() (fs.FileInfo, error) {
	if x != nil && x.real != nil {
		return x.real.Stat()
	}
	if err := x.check("stat"); err != nil {
		return nil, err
	}
	if e := x.f.s.StatErr; e != "" {
		x.h.Soft = append(x.h.Soft, e)
	}
	return x.f.stat("stat")
}

func (x *File) Write(b []byte) (int, error) {
	if x != nil && x.real != nil {
		return x.real.Write(b)
	}
	return 0, &fs.PathError{Op: "write", Path: x.name, Err: syscall.EBADF}
}
func (x *File) WriteString(s string) (int, error) { return x.Write([]byte(s)) }
func (x *File) Sync() error                       { return nil }
func (x *File) Fd() uintptr {
	if x.real != nil {
		return x.real.Fd()
	}
	return ^uintptr(0)
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func (f *file) stat(op string) (fs.FileInfo, error) {
	simrt.Y(0)
	w.Syscalls++
	if f.s.StatErr != "" {
		w.fire("stat:" + f.s.StatErr)
		return nil, &fs.PathError{Op: op, Path: f.s.Path, Err: errs[f.s.StatErr]}
	}
	n := f.s.Path
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	size := int64(len(f.data))
	if f.s.Size >= 0 {
		size = f.s.Size
		w.fire("wrong-size-hint")
	}
	return info{n, size, f.s.Dir}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	f := lookup(name)
	if f == nil {
		return os.Stat(name)
	}
	if e := f.s.StatErr; e != "" {
		w.Soft = append(w.Soft, e)
	}
	if len(f.s.OpenErr) > 0 {
		switch e := f.s.OpenErr[len(f.s.OpenErr)-1]; e {
		case "ENOENT", "EACCES", "ELOOP", "ENAMETOOLONG":
			w.Soft = append(w.Soft, e)
			return nil, &fs.PathError{Op: "stat", Path: name, Err: errs[e]}
		}
	}
	return f.stat("stat")
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

// ReadFile is os.ReadFile over the simulated system calls.
func ReadFile(name string) ([]byte, error) {
	if lookup(name) == nil {
		return os.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if st, err := f.Stat(); err == nil {
		size = int(st.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if errors.Is(err, io.EOF) {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

// Data is the current content of a mounted path.
func (x *World) Data(path string) []byte { return x.files[path].data }

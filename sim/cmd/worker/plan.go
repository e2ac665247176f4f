package main

import (
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// Plan is one run: everything the simulator decides, as data. It is a pure
// function of (property, tier settings, seed) and can be edited and re-executed.
type Plan struct {
	Prop    string              `json:"prop"`
	Seed    uint64              `json:"seed"`
	Docs    []string            `json:"docs,omitempty"`
	Paths   [][]string          `json:"paths,omitempty"`
	Vals    []string            `json:"vals,omitempty"`
	Lists   [][]string          `json:"lists,omitempty"`
	Maps    []map[string]string `json:"maps,omitempty"`
	JOs     []int               `json:"jos,omitempty"`     // shared JSON objects: index of their document
	Parsers []int               `json:"parsers,omitempty"` // shared Parsers
	Schemes []int               `json:"schemes,omitempty"` // shared Schemes: index of their key list
	Clients []Client            `json:"clients"`
	Sched   []simrt.Seg         `json:"sched,omitempty"`
	First   int                 `json:"first,omitempty"`
	Order   uint64              `json:"order,omitempty"` // map range order
	Cold    bool                `json:"cold,omitempty"`  // nothing of the library has run in this process before
	Files   []simfs.Script      `json:"files,omitempty"`
	Cut     int                 `json:"cut,omitempty"`
	Churn   []string            `json:"churn,omitempty"`   // items repeated after the histories
	Watch   bool                `json:"watch,omitempty"`   // look at the inputs before every statement
	Restart bool                `json:"restart,omitempty"` // shared worlds: the library starts anew before the clients
	Rounds  int                 `json:"rounds,omitempty"`  // how often the items of a client are repeated
	Note    string              `json:"note,omitempty"`
}

type Client struct {
	Kind string `json:"kind,omitempty"` // history worlds: bytes, jo, parser
	Doc  int    `json:"doc,omitempty"`
	Ops  []Op   `json:"ops"`
}

// Op is one call. Which fields matter depends on the function's roles.
type Op struct {
	F   string   `json:"f"`
	D   int      `json:"d,omitempty"` // document (-1: the client's own current document)
	P   int      `json:"p,omitempty"` // path
	V   int      `json:"v,omitempty"` // value
	L   int      `json:"l,omitempty"` // list
	M   int      `json:"m,omitempty"` // second list / map
	O   int      `json:"o,omitempty"` // object: 0.. shared, negative: -1-i the client's own i-th
	I   int      `json:"i,omitempty"`
	X   float64  `json:"x,omitempty"`
	B   bool     `json:"b,omitempty"`
	S   string   `json:"s,omitempty"`
	K   string   `json:"k,omitempty"`
	PP  []string `json:"pp,omitempty"`  // history worlds: literal path
	KK  []string `json:"kk,omitempty"`  // history worlds: literal key list
	W   string   `json:"w,omitempty"`   // history worlds: literal value text
	Own bool     `json:"own,omitempty"` // pass the client's own reused buffers
	CB  *CB      `json:"cb,omitempty"`
}

// CB scripts a callback; positions count calls from 1, 0 is never.
type CB struct {
	Stop  int  `json:"stop,omitempty"`
	Err   int  `json:"err,omitempty"`
	Panic int  `json:"panic,omitempty"`
	Grow  bool `json:"grow,omitempty"`  // append to the path handed over
	Steps int  `json:"steps,omitempty"` // simulated steps spent in each call
	At    int  `json:"at,omitempty"`    // run Inner during this call
	Inner *Op  `json:"inner,omitempty"`
}

// Result of one run.
type Result struct {
	Seed   uint64            `json:"seed"`
	Viol   string            `json:"viol,omitempty"`  // what is wrong
	Class  string            `json:"class,omitempty"` // coarse kind of violation, kept while minimising
	Hash   uint64            `json:"hash"`            // event log
	Steps  int64             `json:"steps"`
	Trace  []string          `json:"trace,omitempty"`
	Cov    map[string]int    `json:"cov,omitempty"` // fault kinds and probes that fired
	Shape  uint64            `json:"shape"`         // distinct-interleaving / distinct-history key
	Triv   bool              `json:"triv,omitempty"`
	Detail map[string]string `json:"detail,omitempty"`
}

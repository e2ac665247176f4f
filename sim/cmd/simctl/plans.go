package main

import "time"

type budget struct {
	warm, cold, chunk int
	cap               time.Duration
}

type plan struct {
	quick, thorough budget
	rule            string
	stub            string
	faults          []string
	assume          []string
}

func budgets(warm, cold int) (budget, budget) {
	return budget{warm, cold, 500, 600 * time.Second}, budget{warm * 20, cold * 10, 1000, 850 * time.Second}
}

var plans = map[string]plan{}

func init() {
	common := []string{"preemption is at Go statement granularity (calls inside one expression are not separated); memory is sequentially consistent", "documents, paths, arguments and schedules are sampled, not enumerated"}
	add := func(ids []string, warm, cold int, rule, stub string, faults []string, assume ...string) {
		for _, id := range ids {
			q, t := budgets(warm, cold)
			plans[id] = plan{quick: q, thorough: t, rule: rule, stub: stub, faults: faults, assume: append(append([]string{}, common...), assume...)}
		}
	}
	const plainStub = "file calls unused; sync primitives, map order and the clock are the simulator's"
	add([]string{"C01", "C02", "C03", "C07", "C15", "C16"}, 150000, 480,
		"Each run draws documents, paths, values, key lists, 2-5 clients with calls of a few functions, and a preemption schedule at statement granularity from its seed. Two runs are the same if they switch the same clients at the same statements inside the same functions; a run without a context switch is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "stall", "blocked", "callback-stop", "callback-error", "callback-panic", "reentrant-call", "failing-call", "buffer-reuse", "buffer-overwrite", "scribble-over-result", "junk-call"})
	add([]string{"C04", "C05", "C06", "C17"}, 80000, 60,
		"Each run draws documents, 1-4 clients with an edit history each (and reads, for C17) and a preemption schedule from its seed. Two runs are the same if every client performs the same functions with the same outcomes and the same documents after every step, switched at the same statements; a run without any edit is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "failed-edit", "failed-edit-on-damaged", "read", "edit", "junk-call"},
		"documents have no duplicate keys; keys and string arguments are raw JSON string contents; histories have up to 30 edits and documents are mostly below 6 kB, some reach 140 kB")
	add([]string{"C18"}, 80000, 60,
		"Each run draws documents and same-length variants of them, 1-4 clients that read and edit a document in a buffer of their own, overwrite it in place or load another document into it and ask the same questions again, and a preemption schedule from its seed. Two runs are the same if every client performs the same functions with the same outcomes and the same documents after every step, switched at the same statements; a run in which no document is overwritten or replaced is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "document-overwritten", "document-replaced", "failed-edit", "read", "edit", "junk-call"},
		"documents have no duplicate keys; keys and string arguments are raw JSON string contents; documents are mostly below 6 kB, some reach 140 kB")
	add([]string{"C19"}, 12000, 60,
		"Each run draws small documents, 1-3 clients with histories of up to 2000 edits and reads on a document, a JSON object, a Parser or a Scheme each, and a preemption schedule from its seed. Two runs are the same if every client performs the same functions with the same outcomes in the same number of steps, switched at the same statements; a run with fewer than five calls is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "call", "failing-call", "long-history", "compared"},
		"cost is counted in executed statements of the library, plus one for every 16 bytes handed to append, copy, make, conversions and other packages, not in time or memory; a call may take three times as long as on a fresh object plus three times as long as parsing its text plus 500 steps")
	add([]string{"C20"}, 2000, 8,
		"Each run draws 1-2 clients, each with 1-3 small pieces of work on the package or on one JSON object, Parser or Scheme that leave everything as it was, repeats them 800-4000 times with arguments nobody has seen before and compares the live heap after each quarter; a preemption schedule comes from its seed. Two runs are the same if the same work is switched at the same statements.",
		plainStub,
		[]string{"preempt-inside-call", "round", "item"},
		"memory is what can be reached after a garbage collection; less than 8 bytes per repetition are not seen")
	for _, p := range []string{"C20"} {
		x := plans[p]
		x.quick.chunk, x.thorough.chunk = 50, 200
		plans[p] = x
	}
	add([]string{"C09", "C10"}, 180000, 60,
		"Each run draws documents, 1-4 clients with iterations under scripted callbacks and a preemption schedule from its seed. Two runs are the same if the same iterations of the same documents make as many calls and end alike, switched at the same statements; a run in which no callback is called is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "callback-stop", "callback-error", "callback-panic", "callback-appends", "reentrant-call", "junk-call"})
	add([]string{"C12"}, 100000, 40,
		"Each run draws 1-2 documents, 1-3 clients that receive prefixes of them (as bytes, as a JSON object, as a Parser or through a file that was written only in part) and read what arrived, and a preemption schedule from its seed. Two runs are the same if the same calls on the same prefixes end alike, switched at the same statements; a run without a judged call is trivial.",
		"file calls run against simulated system calls; sync primitives, map order and the clock are the simulator's",
		[]string{"preempt-inside-call", "truncation", "truncated-file", "short-read", "parse-refused", "callback-stop", "callback-error", "callback-panic", "junk-call"})
	add([]string{"C08"}, 200000, 40,
		"Each run draws key slices, documents, 1-4 clients with 1-4 Schemes each and histories of changes, saves, restores, uses and overwritten slices, and a preemption schedule from its seed. Two runs are the same if every Scheme goes through the same key lists with the same calls, switched at the same statements; a run without a change is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "buffer-reuse", "buffer-overwrite", "scribble-over-result", "scheme-change", "scheme-save", "scheme-restore", "scheme-use", "junk-call"},
		"key lists have no duplicates and no empty key; documents are objects")
	add([]string{"C14"}, 200000, 40,
		"Each run draws maps, documents, 1-4 clients that build documents from the maps, nest them and read objects into maps, orders for the map ranges that change between the calls, and a preemption schedule from its seed. Two runs are the same if the same documents come out byte for byte and the same reads follow, switched at the same statements; a run that neither builds nor reads is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "map-order-changed", "map-range-permuted", "junk-call"},
		"keys are raw JSON string contents and string values are such that their formatted form is valid JSON")
	add([]string{"C13"}, 180000, 60,
		"Each run draws documents and damages them (flipped bits, lost, duplicated, swapped, zeroed and truncated ranges, structural bytes added, removed and replaced, bare structure, random bytes), 1-3 clients that use any functions, JSON objects, Parsers and Schemes on them with odd keys, values and paths and see further damage, and a preemption schedule from its seed. Two runs are the same if the same calls on the same bytes end alike, switched at the same statements; a run without a call is trivial.",
		plainStub,
		[]string{"preempt-inside-call", "damage-again", "call-failed", "callback-stop", "callback-error", "callback-panic", "buffer-reuse"},
		"a call may take 20000+100(n+1)^2 steps on n bytes of input, never more than 10^8; inputs up to about 20 kB")
	add([]string{"C11"}, 300000, 40,
		"Each run draws 1-3 files with a fault script (failing opens, short, interrupted and failing reads, files that grow or shrink, wrong size hints, failing stat), 1-4 clients reading them and a preemption schedule from its seed. Two runs are the same if the same reads are hit by the same errors, deliver as many bytes and are switched with as many files open; a run without a system call is trivial.",
		"the file system: os and io/ioutil file calls of the library run against simulated system calls",
		[]string{"short-read", "open:EINTR", "open:ENOENT", "open:EACCES", "open:EMFILE", "open:EIO", "read:EINTR", "read:EIO", "read:EAGAIN", "read:ESTALE", "read:EISDIR", "stat:EIO", "grow", "shrink", "wrong-size-hint", "switch-with-open-files"},
		"a signal interrupting a system call is retried below the library, as the os package does")
}

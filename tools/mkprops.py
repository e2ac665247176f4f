import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
YH="statement-level preemption points, map-range order and file calls inside the library are needed; they are added at check time by rewriting the current source into a build overlay, so nothing is committed to the library"
p("C01","Concurrent calls on shared inputs return exactly what they return alone",
 "Any number of goroutines may call the package-level functions (readers, iterators, editors, formatters, builders, constructors) at the same time on the same documents, values, paths, key lists and maps, without locks, as long as nobody writes to those inputs. Under every interleaving each call returns the same values and the same error as when it runs alone.",
 ["schedules","inputs"],"every interleaving of calls by 2..6 clients over shared documents, paths, key slices, values and maps; any mix of functions",
 "All 49 tests are single-threaded: no schedule is ever varied, so package-level scratch state, pools or caches that are correct for one caller would pass them.",
 ["inter_core.go","inter_get.go","inter_set.go","inter_add.go","inter_delete.go","inter_iter.go","inter_type.go","others.go","make.go","walk.go","utils.go"],
 [("no package-level mutable state; per-call tables and buffers","inter_core.go core, utils.go replace"),("own copy of the path before extending it","inter_add.go, inter_set.go, walk.go")],
 ["return values and errors of each call, compared with a solo run of the same call on private copies"],hook=YH)
p("C02","A call never writes to memory the caller passed in",
 "No function or method changes, even for an instant, a byte of a document, value, path slice, key slice or map that the caller handed to it: not within the length and not in the spare capacity behind it. This holds whether the call succeeds, fails, panics, is cancelled by its callback or is stalled half way.",
 ["schedules","inputs","fault_sequences"],"every instant of every call on arguments with spare capacity behind them; failing, cancelled and stalled calls included",
 "Tests look at results, never at the arguments afterwards, never at the spare capacity of a slice and never at a moment inside a call.",
 ["utils.go","inter_add.go","inter_set.go","inter_delete.go","inter_get.go","walk.go","make.go","parse_set.go","parse_add.go"],
 [("replace builds a new document","utils.go replace"),("path is copied before an element is appended","inter_add.go, inter_set.go, inter_get.go, walk.go")],
 ["full backing arrays (length and capacity) of every argument, compared with a snapshot at every simulated context switch and at the end"],hook=YH)
p("C03","Returned strings, slices, maps and edited documents belong to the caller",
 "Strings, string/number/bool slices and maps returned by any function or method, and the documents returned by successful edit, format and build functions, never change after the call returned: not when the caller overwrites the buffers it passed in, not when it modifies or appends to another result, and not when later or concurrent calls are made. (The byte slices Get and the iteration callbacks hand out are documented views of the document and are excluded.)",
 ["histories","schedules","inputs"],"every later history: buffer reuse, scribbling over results including spare capacity, further calls by the same and by other clients, at any interleaving",
 "Tests read each result once, immediately, and drop it; aliasing with an input buffer or a recycled scratch buffer is only visible later.",
 ["inter_get.go","utils.go","others.go","make.go","jin_object_get.go","parse_get.go"],
 [("string(val) copies","inter_get.go GetString"),("replace/Flatten/Indent/Make* allocate a fresh buffer","utils.go, others.go, make.go")],
 ["each result, re-read after every later step of the run"],hook=YH)
p("C04","A document edited through any history equals the reference document",
 "Start from any valid JSON document and apply any sequence of Set, SetKey, Store, AddKeyValue, Add, Insert and Delete calls and their typed variants, through the package functions (always on the last result) or through a JSON object: after every step the document is valid JSON whose members, order and values are exactly those obtained by applying the same successful operations to an ordered tree. An operation succeeds exactly when its target exists and has the right kind (and, for AddKeyValue and SetKey, the key is not taken); everything it does not address keeps its value and position. Flatten and Indent steps in between leave the tree as it is.",
 ["histories","inputs","schedules"],"every history of up to ~30 edits on documents with arbitrary layout, whitespace, escapes, nesting and empty containers, by several clients interleaved at statement level, with failing edits and reused value/path buffers in between",
 "Tests apply one edit to a fresh document and read one path back; they never chain edits, never look at the rest of the document, and use 8 fixture files.",
 ["inter_set.go","inter_add.go","inter_delete.go","inter_core.go","utils.go","jin_object_add.go","jin_object_set.go","jin_object_others.go"],
 [("core locates the span, replace splices it","inter_core.go, utils.go")],["the document after each operation, read by an independent strict parser; success or failure of each operation"],
 state=[("JO.body","current document of a JSON object","jin_object.go")],hook=YH)
p("C05","A failed edit changes nothing",
 "When an editing function or method returns an error, the document is byte for byte what it was before: the package functions hand back the unchanged document, a JSON object keeps its body, and a Parser keeps its text, its tree and the answers of all its lookups. This holds for every reason to fail and at every point of a history of successful and failed edits.",
 ["histories","fault_sequences","inputs"],"failing edits (missing path, wrong kind, taken key, index out of range, empty key, empty path, nil value) injected at every position of an edit history on package functions, JSON objects and Parsers",
 "Tests only make edits that succeed; none checks the state after an error.",
 ["inter_set.go","inter_add.go","inter_delete.go","jin_object_add.go","jin_object_set.go","jin_object_others.go","parse_add.go","parse_set.go","parse_delete.go"],
 [("error paths return the original document","inter_*.go"),("Parser commits tree and text together","parse_*.go")],["document bytes, Parser tree dump and lookups before and after the failing call"],
 state=[("Parser.json/core","text and node tree that must stay in step","parse_utils.go")],hook=YH)
p("C06","A Parser's text, tree and lookups stay in step through every edit history",
 "After any sequence of edits on a Parser, its JSON text is valid and equals the ordered tree obtained by applying the successful edits to the original document; every path of that tree, and no other, is found by Get, with the value a freshly parsed Parser of that text gives; and GetNew and Tree describe the same document.",
 ["histories","inputs","schedules"],"every history of up to ~30 Parser edits (all methods and typed variants) on arbitrary documents, with failing edits and overwritten value buffers in between, several Parsers interleaved",
 "Tests perform one edit on a fresh Parser and read back the one path they edited.",
 ["parse_core.go","parse_utils.go","parse_set.go","parse_add.go","parse_delete.go","parse_get.go"],
 [("each edit updates both the node tree and the text","parse_set.go, parse_add.go, parse_delete.go")],["JSON(), Get/GetNew on all paths, Tree() after each operation"],
 state=[("Parser.core","node tree","parse_utils.go"),("Parser.json","text","parse_utils.go")],hook=YH)
p("C07","Objects created from shared inputs never influence one another",
 "JSON objects, Parsers and Schemes are independent: editing one through its methods never changes what another one returns, even when they were created from the same document bytes or the same key slice, received the same value and path slices, or are used at the same time by different goroutines, one object per goroutine.",
 ["schedules","histories"],"every interleaving of edit and read histories on 2..5 objects built over the same buffers, including reuse of the value and path slices by their owner between calls",
 "No test holds two objects over the same input, and none runs two clients.",
 ["jin_object.go","jin_object_add.go","jin_object_set.go","parse_utils.go","parse_set.go","parse_add.go","make.go"],
 [("edits replace the body/text by a new buffer","utils.go replace"),("Scheme and Parser own their key list and values","make.go, parse_*.go")],["results and state of each object compared with a run in which it is alone"],hook=YH)
p("C08","A Scheme follows its add/remove/save/restore history exactly",
 "After any sequence of Add, Remove, Save and Restore the current keys of a Scheme are exactly those of an ordered list without duplicates under the same operations, Add and Remove report truthfully whether they changed it, Restore returns to the keys of the last Save (or of creation), and documents made, checked or mutated with the Scheme use exactly the current keys in order. Neither the slices it was made from nor the key slices it hands out let later calls change the saved or current keys of this or any other Scheme.",
 ["histories","schedules"],"every history of scheme operations on 1..4 schemes made from shared key slices with spare capacity, at any interleaving, with the caller overwriting its own slice afterwards",
 "The one Scheme example walks a single fixed sequence; saved and current keys sharing storage only shows in longer histories.",
 ["make.go"],[("Save/Restore and Add/Remove on the key list","make.go Scheme")],["GetCurrentKeys, GetOriginalKeys, MakeJson(String), Check, CheckAbs, MutateJson(Abs)"],
 state=[("Scheme.keys/originalKeys","current and saved key lists","make.go")],hook=YH)
p("C09","Iteration delivers each element once, in order, until told to stop",
 "IterateArray and IterateKeyValue call the callback exactly once for every element or member of the addressed container, in document order and with its exact key and value, and for nothing else; an empty container gives no call. When the callback returns false the iteration ends with nil and no further call; when it returns an error, at any element, that very error is returned and no further call is made; a callback that panics or starts iterations of its own disturbs neither this nor any other iteration.",
 ["histories","fault_sequences","schedules","inputs"],"cancellation, error or panic injected at any callback (first, middle, last) of iterations on arbitrary documents and paths, nested and interleaved with other clients' iterations",
 "The tests' callbacks always return true, nil and run once over eight fixtures; no stop, error, re-entrancy or empty container is exercised.",
 ["inter_iter.go","jin_object_others.go"],[("callback result checked at every delivery","inter_iter.go")],["sequence of callback invocations and the returned error"],hook=YH)
p("C10","Walk visits every scalar once, in order, and obeys its callback",
 "Walk calls its callback once for every scalar of the document, in document order, with its key, its value and the full path leading to it. It stops for good when the callback returns false (returning nil) or an error (returning that error), empty containers contribute no visit, and a path slice handed to a callback keeps its content after the callback returned, also while other walks run.",
 ["histories","fault_sequences","schedules","inputs"],"cancellation, error or panic injected at any visit of walks over arbitrary documents, retained paths re-read later, several walks interleaved",
 "There is no test for Walk at all.",
 ["walk.go","inter_iter.go"],[("recursion over paths with error propagation","walk.go walk")],["sequence of visits, returned error, retained path slices"],hook=YH)
p("C11","Reading a file returns its whole content or the error, whatever the I/O does",
 "ReadFile and ReadJSONFile return an object holding exactly the bytes the file delivered up to its end, or a nil object and the error that occurred: never partial content without an error, never an error that hides its cause, whatever sequence of short, interrupted or failing system calls happens. Every file that was opened is closed again, on every path.",
 ["fault_sequences","schedules","inputs"],"every sequence of short reads, EINTR, EIO, EMFILE, ENOENT, EACCES, wrong size hints and growing or shrinking files, with several readers interleaved",
 "No test reads a missing, failing or slow file; a real file system never returns short reads in a unit test.",
 ["jin_object.go"],[("whole-file read with error propagation","jin_object.go ReadFile, ReadJSONFile")],["returned object and error, open/close balance of the simulated file system"],hook="file calls are redirected to a simulated file system by the build overlay; nothing is committed to the library")
p("C12","A truncated document never yields a wrong value or a false success",
 "When only a prefix of a valid document has been stored or received, every lookup of a path, length or type question either returns exactly what it returns on the whole document or fails; an iteration or listing of an object or array that did not arrive completely delivers only elements of the whole document and ends with an error; Parse of an incomplete document fails. No call panics or fails to return.",
 ["crash_points","inputs"],"every cut point of arbitrary documents (torn write or short read), every path of the whole document, all readers, iterators and Parse",
 "Tests only use complete fixture files.",
 ["inter_core.go","inter_get.go","inter_iter.go","inter_type.go","others.go","parse_core.go","walk.go"],
 [("bounds and end-of-document checks in every scanner","inter_core.go, inter_iter.go, parse_core.go")],["results on the prefix compared with results on the whole document"],hook=YH)
p("C13","Damaged input never crashes, hangs or corrupts anything",
 "On any bytes at all (flipped, lost, duplicated or torn parts of a document, empty input) and with any path, every function and method returns, within a number of steps bounded by a small polynomial of the input size, a result or an error; it never panics, and it leaves its inputs and all other objects untouched.",
 ["fault_sequences","inputs"],"every sequence of storage faults on arbitrary documents: bit flips, lost and duplicated ranges, torn tails, stale blocks; all functions, Parser and JSON-object histories continuing after the damage",
 "Tests use valid JSON only.",
 ["inter_core.go","inter_get.go","inter_add.go","inter_set.go","inter_delete.go","inter_iter.go","inter_type.go","others.go","utils.go","parse_core.go","parse_utils.go","sequence.go","walk.go"],
 [("bounds checks in the scanners","all inter_*.go, parse_core.go")],["panics, step counts, argument bytes"],hook=YH)
p("C14","Map iteration order never decides what a built or read document means",
 "Whatever order the runtime walks a map in, a document built from a map is valid JSON containing every entry exactly once with its exact value, and every result that passes through a map (building from maps, reading objects and key lists into maps) is the same set of entries.",
 ["schedules","inputs","configurations"],"every iteration order of every map range in the library, arbitrary maps and documents",
 "The runtime randomises map order, so a test sees a few uncontrolled orders of one small map and cannot replay a failing one.",
 ["make.go","inter_get.go"],[("separator handled independently of the order","make.go MakeJsonWithMap")],["built documents read back by an independent parser"],hook="the order of every range over a map is chosen by the simulator through the build overlay")
p("C15","Read-only methods of one shared object may run concurrently without locks",
 "While nobody edits it, a JSON object, Parser or Scheme may be read by any number of goroutines at once: every read method returns the same result as when called alone, under every interleaving, and leaves the object's text, tree and keys exactly as they were.",
 ["schedules","inputs"],"every interleaving of read methods by 2..6 clients on one shared object",
 "No test shares an object between goroutines; lazily filled caches or rewinding cursors would pass them all.",
 ["jin_object_get.go","jin_object_others.go","parse_get.go","parse_utils.go","make.go"],
 [("read methods do not write to the object","jin_object_*.go, parse_get.go, make.go")],["results compared with a solo run; full state dump of the object before and after"],hook=YH)
p("C16","No call ever waits for another caller",
 "A goroutine that is stopped for any length of time at any point inside any call, or whose callback panics, blocks, or never returns, never keeps another goroutine's call from finishing: every other call completes within a small multiple of the steps it takes when it runs alone.",
 ["schedules","fault_sequences"],"a client frozen or killed by a callback panic at every point of every call while other clients run all functions on the same inputs and on their own objects",
 "A single-threaded test never holds one call open while another runs; a lock held across a callback or leaked by a panic is invisible to it.",
 ["inter_core.go","inter_iter.go","walk.go","parse_utils.go","make.go","jin_object.go"],
 [("no locks or shared resources","whole package")],["steps each other client needs while one client is frozen"],hook=YH)
p("C17","Reads after any edit history see exactly what the edits made",
 "At every point of a history of edits and format steps on a valid document, every read - lookups, typed getters, key, value and element listings, maps, type predicates, IsEmpty and Length, as package function, JSON-object method or Parser method - returns exactly what the ordered tree of the successful edits holds at that path (numbers and booleans as their text denotes them), and fails when the path does not exist, the addressed value has another kind or the text does not convert.",
 ["histories","inputs","schedules"],"every point of every history of up to ~30 edits with reads of all kinds in between, on existing and missing paths of arbitrary documents, by several clients interleaved at statement level",
 "Tests read fixture files once; no read is made after edits, on layouts the library's own edits produce, or next to another client's calls.",
 ["inter_core.go","inter_get.go","inter_type.go","others.go","parse_get.go","jin_object_get.go","jin_object_others.go"],
 [("core finds the span of a path","inter_core.go"),("typed getters convert the text of the span","inter_get.go, parse_get.go")],["return values and errors of each read, compared with the reference tree"],hook=YH)
p("C18","Calls answer for what their arguments hold now",
 "What a call returns depends only on the present content of its arguments and of the object it is called on, as if no call had been made before it. When the caller writes to a document it owns, reads another document (of the same length or not) into the same buffer, passes other paths, keys and values in the slices of earlier calls, or makes a new JSON object or Parser over a buffer an earlier one was made from, every later read, listing and edit answers for the new content and nothing of the old shows.",
 ["histories","inputs","schedules"],"every history of reads and edits with documents overwritten in place, replaced by similar documents in the same buffer and re-parsed in between, by several clients interleaved at statement level",
 "Tests call each function once per fixture, always on fresh memory; a result remembered by address, length or path, or a stale table in a package variable, is invisible to them.",
 ["inter_core.go","inter_get.go","inter_type.go","inter_iter.go","others.go","utils.go","parse_core.go","parse_utils.go","jin_object.go"],
 [("no state outlives a call except in the object","whole package"),("core scans the bytes it is given","inter_core.go core")],["return values and errors of each read and edit, compared with the reference tree of the present content"],hook=YH)
p("C19","No call gets slower because of the calls before it",
 "The work a call does depends on its arguments and on the present text or keys of the object it is called on, not on how the object came to hold them or on how many calls the process has made: after any number of edits, reads, failed calls, saves and restores a call takes, up to a small factor, no more executed steps than the same call on a fresh object with the same content, and no more than it took when the process was young.",
 ["histories","schedules"],"histories of up to 2000 calls on a document, JSON object, Parser or Scheme, and thousands of such histories in one process",
 "Tests make one edit per object and end; nodes, keys or records that pile up behind the answers are never noticed.",
 ["parse_core.go","parse_utils.go","parse_set.go","parse_add.go","parse_delete.go","jin_object.go","make.go","utils.go"],
 [("edits keep only the present tree and text","parse_*.go, jin_object_*.go"),("Scheme keeps two key lists","make.go"),("no package-level state","whole package")],["executed steps of each call, compared with the same call on a fresh object and with the young process"],hook=YH)
p("C20","Nothing is kept of calls that are over",
 "When a call has returned, by success, error or panic of its callback, nothing stays in memory on its account but its result and, for an editing method, the present text, tree or keys of its object: a process may go on calling any functions, with ever new documents, paths, keys and values, and an object may be edited, read, saved and restored, for any number of times, and the memory that the library and the object hold does not grow with the number of calls.",
 ["histories","schedules"],"every small set of calls on the package and on objects, succeeding, failing and ended by panics, repeated thousands of times with new arguments, by one or two clients interleaved at statement level",
 "Tests end after a few calls; an unbounded table, a list of earlier texts or a retained tree is never noticed.",
 ["inter_core.go","inter_get.go","errors.go","utils.go","parse_core.go","parse_utils.go","jin_object.go","make.go"],
 [("no package-level state","whole package"),("an edit replaces text and tree","parse_utils.go update, jin_object_*.go")],["live heap after garbage collection between rounds of the same work"],hook=YH)
p("N01","Lookups return the value the path addresses",
 "On a valid document Get, its typed variants and Parser.Get return exactly the value of the addressed member or element, and fail when the path does not exist; interpreter and parser agree.",
 ["inputs"],"all valid documents and paths","Tests use eight fixture files.",["inter_core.go","inter_get.go","parse_core.go","parse_get.go"],[("scanner","inter_core.go")],["return values"])
p("N02","Typed getters convert exactly or fail",
 "Integer, float, bool and typed-array getters return the value that the JSON text denotes or a parse error, never a wrong number.",
 ["inputs"],"all values","Only a few values are tested.",["inter_get.go","parse_get.go"],[("strconv","inter_get.go")],["return values"])
p("N03","Flatten and Indent change only insignificant whitespace",
 "Flatten and Indent return a document with the same tokens in the same order as the input; string contents are untouched; Flatten removes all insignificant whitespace.",
 ["inputs"],"all valid documents","Only examples test them.",["others.go"],[("quote tracking","others.go")],["return values"])
p("N04","Builders produce valid JSON for every argument",
 "MakeArray, MakeJson and their variants produce valid JSON holding exactly the given values, for every slice including empty ones.",
 ["inputs"],"all argument values","Only examples test them.",["make.go"],[("formatType","utils.go")],["return values"])
p("N05","Type predicates and Length describe the addressed value",
 "IsObject, IsArray, IsValue, IsEmpty, GetType and Length answer according to the JSON value at the path.",
 ["inputs"],"all valid documents and paths","Only a few fixtures are tested.",["inter_type.go","others.go"],[("first byte of the value","inter_type.go")],["return values"])
p("N06","Every error of the package is recognised by its code",
 "Each error returned by the package carries one of the exported codes, and the comparison helper recognises exactly that code.",
 ["inputs"],"all failing calls","No test compares codes.",["errors.go"],[("ErrEqual","errors.go")],["errors"])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,d['id']
        f.write(json.dumps(d)+"\n")

"""Writes MANIFEST.json and known_findings.json."""
import json, subprocess
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()
commits = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIX = [
 ("never append to the path slice of a caller", ["C01", "C02", "C10", "C15"], "two concurrent GetAll/Store calls sharing a path prefix with spare capacity mixed up their keys; retained Walk paths changed"),
 ("keep the saved and current keys of a Scheme apart", ["C08", "C03", "C07"], "MakeScheme, Save, Add, Restore: Add after Save wrote into the saved keys, and into the key slice the Scheme was made from"),
 ("builders give valid JSON for empty input and for floats", ["C14", "C13"], "MakeJsonWithMap of an empty map gave }; MakeArrayFloat panicked on short numbers"),
 ("failed AddKeyValueString and InsertString return the document", ["C05"], "JO.InsertString(-1, ...) on {} lost the document"),
 ("format sized integers in base ten", ["C04", "C13"], "AddKeyValueUint64(key, 0) on {} panicked; AddInt32(100) wrote base 32 digits"),
 ("JO.StoreString formats its value like StoreString", ["C04"], "JO.StoreString(\"a\", \"x\") made {\"a\":x}"),
 ("leave only JSON numbers unquoted when formatting values", ["C04", "C14"], "AddKeyValueString(key, \"+5\") made {\"k\":+5}"),
 ("core() stops at the end of the text and reads only members of the addressed value", ["C12", "C13", "C17"], "Get of a path into a scalar read the following sibling; Get on truncated documents panicked or gave a cut value"),
 ("do not edit strings that look like containers", ["C04", "C06"], "Add to the string value \"[x]\" edited the text of the string"),
 ("Insert keeps the document valid when it has whitespace", ["C04"], "Insert(0, v) into [ 1 ] made an invalid document"),
 ("Delete does not read past the end of the document", ["C13"], "Delete on a truncated document panicked"),
 ("Length, IsEmpty and GetMap use the exact extent of a container", ["C17"], "Length of a nested container looked at the text behind it"),
 ("read empty arrays into empty slices", ["C17"], "GetIntArray of [ ] failed, GetStringArray gave one empty element"),
 ("iterations report errors of the last call and broken containers, skip nothing and invent nothing", ["C09", "C12"], "IterateKeyValue dropped the error its callback returned for the last member"),
 ("listings of keys and values fail on broken objects and give nothing for empty ones", ["C12", "C17"], "GetKeys on a truncated object succeeded with a part of the keys"),
 ("Walk stops when told to and visits each value once", ["C10"], "Walk went on after its callback returned false"),
 ("Indent understands escapes and stray braces", ["C04", "C13"], "Indent treated an escaped quotation mark as the end of a string; a stray } panicked"),
 ("Parse finds single values and refuses unfinished documents", ["C06", "C12"], "Parse accepted truncated documents; [1] had no elements"),
 ("Parser edits keep text and tree in step or change nothing", ["C05", "C06"], "after Parser.SetInt tree and text differed; failed edits changed the tree"),
 ("MutateJson reports its own errors", ["C08"], "MutateJson returned the error of a lookup that had failed as foreseen"),
 ("IsObject is false for arrays", ["C17"], "IsObject of [] was true"),
 ("Length and GetMap of an empty document look at the path", ["C17"], "Length(\"{}\", \"a\") was 0 instead of an error"),
 ("type checks and iterations find no value in an empty array", ["C09", "C17"], "IsArray([], \"0\") described the closing bracket"),
 ("Length of an array that is only opened is an error", ["C12"], "Length of \"[ \" was 0"),
 ("arrays that are not closed are not read into slices", ["C12"], "GetStringArray of \"[[]\" gave an empty slice and no error"),
 ("space around a root array does not keep it from being read into slices", ["C12", "C17"], "GetIntArray of \" [1]\" without a path failed"),
 ("IsEmpty of a string is an error", ["C17"], "IsEmpty([\"[1]\"], \"0\") was false and no error"),
    ("numbers beyond the range of float64 are not made strings", ["C08"], "Scheme.MutateJson of {\"a\":1e400} made {\"a\":\"1e400\"}"),
 ("GetType of a number beyond the range of float64 is number", ["C17"], "GetType of {\"a\":1e400} at \"a\" was string"),
]
fixed = []
for s, props, what in FIX:
    for p in props:
        fixed.append("fixed: property=%s %s %s" % (p, commits["fix: " + s], what))
json.dump({"findings": [], "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
missing = [s for s in commits if s.startswith("fix: ") and s[5:] not in [f[0] for f in FIX]]
assert not missing, missing

T = "deterministic simulation: seeded statement-level scheduling of clients with "
NOTE = " Seeded search over sampled inputs, schedules and faults, not exhaustive. Trusts the Go toolchain, the source rewriter that adds the preemption points and the reference model; preemption is between statements, memory is sequentially consistent."
CH = {
 "C01": (T + "stalls, callback faults and buffer reuse; oracle: solo run of each call", "Every call of 2-5 interleaved clients is compared with the same call run alone."),
 "C02": (T + "stalls, failing and panicking calls; oracle: byte snapshots of all arguments at every context switch", "Arguments with spare capacity are compared at every context switch inside calls and at the end."),
 "C03": (T + "buffer overwrites and scribbling over results; oracle: results re-read after every later step", "Each result is re-read after buffers and other results were overwritten."),
 "C04": (T + "failing edits; refinement against an ordered tree", "After every edit of a history the document is parsed strictly and compared with the tree."),
 "C05": (T + "failing edits at any point of a history, also on damaged documents; oracle: state before the edit", "Text, tree and lookups before and after each failing edit are compared."),
 "C06": (T + "failing edits; refinement against an ordered tree and a fresh Parser of the text", "After every edit text, tree, lookups, GetNew and Tree are compared with the tree model."),
 "C07": (T + "shared and reused buffers; oracle: each object's history run alone", "Each object's results and state are compared with a run in which it is alone."),
 "C08": (T + "overwritten key slices; refinement against two ordered key lists per Scheme", "Every report, key list and use of every Scheme is compared with the model."),
 "C09": (T + "stopping, failing, panicking, slow and nested callbacks; oracle: tree plus callback script", "The sequence of callback calls and the ending of every iteration is compared with what tree and script demand."),
 "C10": (T + "stopping, failing, panicking, slow and nested callbacks; oracle: tree plus callback script, retained paths re-read", "The sequence of visits, the ending and retained paths of every walk are compared."),
 "C11": (T + "simulated file system: short, interrupted, failing reads and opens, growing and shrinking files; oracle: what the descriptors delivered", "Content, error and descriptor balance of every read are compared with the simulated system calls."),
 "C12": (T + "torn writes and short files: documents cut at arbitrary bytes; oracle: the whole document", "Every read of a prefix is compared with the same read of the whole document."),
 "C13": (T + "storage damage before and between calls; oracle: no panic, step bound, untouched inputs and objects", "Every call on damaged bytes must return within the step bound and leave everything else as it was."),
 "C14": (T + "adversarial map iteration order; oracle: the set of entries", "Documents built from maps and maps read from documents are compared with the entries under changing orders."),
 "C15": (T + "shared objects read concurrently; oracle: solo run and state dump", "Reads of shared objects are compared with solo runs; the object's state is compared before and after."),
 "C16": (T + "clients frozen or killed by callback panics inside calls; liveness as a bound on the other clients' steps", "While one client is frozen every other call must finish within a small multiple of its solo steps."),
 "C17": (T + "failing edits; refinement of every read against an ordered tree", "Every read made between edits is compared with the tree of the successful edits."),
 "C18": (T + "documents overwritten in place or replaced in the same buffer between calls; refinement against the tree of the present content", "Every read and edit after a change behind the library's back is compared with the tree of the present content."),
 "C20": (T + "failing calls and panicking callbacks, the same work repeated thousands of times with new arguments; oracle: the live heap after each quarter of the run", "The live heap after garbage collection is compared between the quarters of a run."),
 "C19": (T + "failing edits, through histories of thousands of calls; oracle: executed steps of the same call on a fresh object and in the young process", "The cost of aged calls in executed statements is compared with that of fresh ones."),
}
checks = []
for p, (tech, note) in CH.items():
    checks.append(dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
        technique=tech, level="exploration", level_note=note + NOTE))
NA = {
 "N01": "a single lookup on a valid document is a pure function of its input: there is no schedule, fault, crash point or history for a simulator to vary. The history version is claimed as C17, the concurrent one as C01.",
 "N02": "pure function of one input; the part that depends on histories is in C17.",
 "N03": "pure function of one input; formatting steps inside edit histories are judged in C04 and C17.",
 "N04": "pure function of its arguments; the map-order part is C14, the Scheme part C08.",
 "N05": "pure function of one input; answers after edit histories are judged in C17.",
 "N06": "error codes are a pure function of the failing call's input; no nondeterminism to control.",
}
m = dict(version=1, setup_cmd="./check --setup", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks are committed to /repo: the checks rewrite the working tree's sources into a build overlay (preemption points, map ranges, sync, file calls, clock). known_findings.json lists repaired defects.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

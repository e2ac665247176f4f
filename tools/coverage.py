"""coverage.py DIR: lists the statements of the library that no check reached.

Run the checks with VERIF_HITS=DIR first."""
import collections, glob, json, sys
hit, sites = set(), None
per = {}
for f in sorted(glob.glob(sys.argv[1] + '/C*.json')):
    d = json.load(open(f))
    sites = sites or json.load(open(d['sites']))
    per[f] = len(d['hit'])
    hit |= set(d['hit'])
by = collections.defaultdict(list)
for i, s in enumerate(sites):
    if i and i not in hit:
        by[s['file']].append(s)
print(len(hit), 'of', len(sites), per)
for f in sorted(by):
    for s in by[f]:
        print(f, s)

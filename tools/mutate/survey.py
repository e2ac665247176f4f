#!/usr/bin/env python3
"""survey.py OUT COUNT [SEED]: which small changes to the library does no check report?

Draws COUNT mutants of /repo (see main.go), builds the worker for each and gives every
check some runs. Appends one line per mutant to OUT:
  number | what | killed by Cxx / survived / does not build / hangs Cxx
Nothing in /repo is touched; needs some minutes per hundred mutants.
"""
import os, random, shutil, subprocess, sys, threading, glob, json
out, count = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
only = os.environ.get('MUT_ONLY')
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
work = '/tmp/mutate-work'
os.makedirs(work, exist_ok=True)
env = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
subprocess.check_call(['go', 'build', '-o', work + '/mutate', '.'], cwd=here, env=env)
allm = subprocess.check_output([work + '/mutate', '/repo'], text=True).splitlines()
done = set()
if os.path.exists(out):
    done = {int(l.split('|')[0]) for l in open(out)}
todo = list(range(len(allm)))
random.Random(seed).shuffle(todo)
todo = [int(x) for x in only.split(',')] if only else todo[:count]
todo = [n for n in todo if n not in done]
scale = float(os.environ.get('MUT_SCALE', '1'))
order = [('C17', 1500), ('C04', 1500), ('C12', 1500), ('C09', 1500), ('C06', 1500), ('C14', 1500), ('C08', 1500), ('C13', 2000), ('C10', 1500),
         ('C05', 1500), ('C11', 1500), ('C18', 1000), ('C01', 1500), ('C02', 1500), ('C03', 1500), ('C07', 1500), ('C15', 1000), ('C16', 1000), ('C19', 60), ('C20', 8)]
lock = threading.Lock()

def job(k):
    v, r = f'{work}/v{k}', f'{work}/r{k}'
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(v + '/.build')
    shutil.copytree(verif + '/sim', v + '/sim')
    shutil.copy(verif + '/check', v + '/check')
    if os.path.exists(verif + '/known_findings.json'):
        shutil.copy(verif + '/known_findings.json', v)
    subprocess.check_call(['go', 'build', '-o', v + '/.build/simctl', './cmd/simctl'], cwd=v + '/sim', env=env)
    e = dict(env, VERIF_DIR=v, VERIF_REPO=r)
    while True:
        with lock:
            if not todo:
                return
            n = todo.pop(0)
        shutil.rmtree(r, ignore_errors=True)
        os.makedirs(r)
        for f in glob.glob('/repo/*.go') + ['/repo/go.mod']:
            shutil.copy(f, r)
        what = subprocess.check_output([work + '/mutate', r, str(n)], text=True).strip()
        for d in glob.glob(v + '/.build/w-*'):
            shutil.rmtree(d)
        res = None
        b = subprocess.run([v + '/.build/simctl', '--setup'], env=e, capture_output=True, text=True)
        if b.returncode:
            res = 'does not build'
        else:
            d = glob.glob(v + '/.build/w-*')[0]
            for p, runs in order:
                runs = max(4, int(runs * scale))
                for a in (['-from', '0', '-to', str(runs)], ['-from', str(1 << 38), '-to', str((1 << 38) + 1), '-cold']):
                    try:
                        x = subprocess.run([d + '/worker', '-sites', d + '/src/sites.json', '-prop', p, '-base', '1'] + a, env=e, capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired:
                        res = 'hangs ' + p
                        break
                    if x.returncode:
                        res = 'ends %s: %s' % (p, x.stderr.strip().splitlines()[:1])
                        break
                    f = json.loads(x.stdout).get('fail')
                    if f:
                        res = 'killed by %s (%s)' % (p, f.get('class'))
                        break
                if res:
                    break
        with lock:
            open(out, 'a').write(f'{n}|{what}|{res or "survived"}\n')

ts = [threading.Thread(target=job, args=(k,)) for k in range(int(os.environ.get('MUT_JOBS', '7')))]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(work, ignore_errors=True)

#!/usr/bin/env python3
"""battery.py SPECS.py [name ...]: run the checks against mutated copies of /repo.

SPECS.py defines M = [(name, [props], [(file, old, new), ...]), ...]. Each mutant is made in a scratch copy of /repo,
built and run through the repository's own tests (a mutant they notice is reported as such and not judged), and then
each named check is run on it for BUDGET seconds (environment, default 20).
"""
import sys, os, subprocess, runpy, shutil, tempfile
specs = runpy.run_path(sys.argv[1])['M']
want = set(sys.argv[2:])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
budget = os.environ.get('BUDGET', '20')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
keep = tempfile.mkdtemp(prefix='battery.')
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
try:
    for name, props, edits in specs:
        if want and name not in want: continue
        d = keep + '/repo'
        shutil.rmtree(d, ignore_errors=True)
        sh(f'cp -a /repo {d}')
        bad = None
        for f, o, n in edits:
            p = d + '/' + f; s = open(p).read()
            if s.count(o) != 1: bad = f'edit matches {s.count(o)}: {o[:50]!r}'; break
            open(p, 'w').write(s.replace(o, n))
        if bad: print(f'{name:28} BADSPEC {bad}', flush=True); continue
        b = sh('go build ./... ', cwd=d, env=env)
        if b.returncode: print(f'{name:28} NOBUILD {b.stderr[-300:]}', flush=True); continue
        t = sh('go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head -5', cwd=d, env=env)
        note = ' (tests notice: %s)' % t.stdout.strip().replace('\n', ' ')[:100] if t.stdout.strip() else ''
        for p in props:
            os.makedirs(keep + '/w', exist_ok=True)
            r = sh(f'./check {p}', cwd=here, env=dict(env, VERIF_KEEP=keep + '/w', VERIF_REPO=d, VERIF_BUDGET=budget))
            out = r.stdout + r.stderr
            ls = [l for l in out.splitlines() if not l.startswith('  |')]
            v = [l for l in ls if 'VIOLATION' in l]
            if r.returncode == 1 and v:
                i = ls.index(v[0]); msg = 'CAUGHT ' + ' / '.join(ls[:i][-1:])[:160]
            elif r.returncode == 0: msg = 'missed'
            else: msg = f'BROKEN rc={r.returncode} ' + out[-300:]
            print(f'{name:28} {p} {msg}{note}', flush=True)
finally:
    shutil.rmtree(keep, ignore_errors=True)

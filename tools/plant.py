#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes /verif/seeded/<id>/ from specs (lists of
dicts id, property, needs, breaks, edits=[(file, old, new[, nth])], demo).
Works in a scratch copy of /repo; keeps a bug only if it builds, passes the
stable tests, and its demonstration passes without it and fails with it."""
import sys, os, subprocess, shutil, json, tempfile, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this file against the package in the
# current directory, through an overlay; writes nothing into the package.
d="$(cd "$(dirname "$0")" && pwd)"; r="$(pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
echo "{\\"Replace\\": {\\"$r/seeded_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run '^TestSeededDemo$' -count=1 -timeout 120s .
'''
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(b, dict) and k in b: b = b[k]; break
    return set(b)
def main():
    specs = runpy.run_path(sys.argv[1])['specs']
    want = sys.argv[2:]
    for s in specs:
        if want and s['id'] not in want: continue
        if not want and os.path.exists(VERIF + '/seeded/' + s['id']): continue
        w = tempfile.mkdtemp(prefix='plant')
        try:
            c = w + '/repo'; shutil.copytree('/repo', c, symlinks=True)
            sh('git checkout -q -- . ; git clean -fdq', c)
            ok = True
            for e in s['edits']:
                p = c + '/' + e[0]; t = open(p).read()
                n = t.count(e[1]); nth = e[3] if len(e) > 3 else None
                if n == 0 or (n > 1 and nth is None): print(s['id'], 'edit matches', n, 'times:', e[1]); ok = False; break
                parts = t.split(e[1]); k = nth or 0
                t = e[1].join(parts[:k+1]) + e[2] + e[1].join(parts[k+1:])
                open(p, 'w').write(t)
            if not ok: continue
            d = VERIF + '/seeded/' + s['id']; stage = w + '/stage'; os.makedirs(stage)
            diff = sh('git diff', c).stdout; open(stage + '/patch.diff', 'w').write(diff)
            open(stage + '/demo.sh', 'w').write(DEMO); os.chmod(stage + '/demo.sh', 0o755)
            open(stage + '/demo_test.go', 'w').write(s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(stage + '/meta.json', 'w'), indent=1)
            r = sh('go build ./...', c)
            if r.returncode: print(s['id'], 'does not build', r.stdout[-500:]); continue
            r = sh('bash ' + stage + '/demo.sh', c)
            if r.returncode == 0: print(s['id'], 'demo passes with the bug'); continue
            if 'build failed' in r.stdout: print(s['id'], 'demo does not build', r.stdout[-800:]); continue
            why = r.stdout[-300:]
            sh('git stash -q', c); r = sh('bash ' + stage + '/demo.sh', c); sh('git stash pop -q', c)
            if r.returncode: print(s['id'], 'demo fails without the bug', r.stdout[-800:]); continue
            t = open('/opt/vp/test.sh').read().replace('/repo', c); open(w + '/test.sh', 'w').write(t)
            sh('bash test.sh out.json', w)
            res = json.load(open(w + '/out.json'))
            bad = [x for x in stable() if x not in passed(res)]
            if bad: print(s['id'], 'existing tests fail:', bad[:4]); continue
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(stage, d)
            print(s['id'], 'planted')
        finally: shutil.rmtree(w, ignore_errors=True)
def passed(res):
    for k in ('passed', 'pass'):
        if k in res: return set(res[k])
    return set(k for k, v in res.get('tests', res).items() if v in ('pass', 'passed', True))
main()

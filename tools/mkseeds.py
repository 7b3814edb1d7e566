#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each one.

usage: mkseeds.py [id...]      (build and confirm)
       mkseeds.py -check [id...] (also run the property's check against the seeded tree)
A definition file holds SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)].
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = '/verif'
DEMO_SH = '''#!/bin/bash
# Runs demo_test.go inside the package (through a build overlay): passes on the unchanged tree.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -run '^TestZZDemo$' -count=1 -timeout 60s .
'''
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0')
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=k.get('env', ENV))
def main():
    args = sys.argv[1:]
    check = '-check' in args
    args = [a for a in args if a != '-check']
    seeds = []
    for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns['SEEDS']
    ids = [s['id'] for s in seeds]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    bad = 0
    for s in seeds:
        if args and not any(s['id'] == a or s['prop'] == a for a in args):
            continue
        d = f"{ROOT}/seeded/{s['id']}"
        t = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        try:
            sh(f'cp -a /repo {t}/r', '/')
            r = t + '/r'
            for f, old, new in s['edits']:
                p = f'{r}/{f}'
                x = open(p).read()
                if x.count(old) != 1:
                    print(s['id'], 'EDIT MATCHES', x.count(old), 'times in', f, repr(old)); bad += 1; break
                open(p, 'w').write(x.replace(old, new))
            else:
                q = sh('gofmt -l . ; git diff', r).stdout
                os.makedirs(d, exist_ok=True)
                patch = sh('git diff', r).stdout
                open(d + '/patch.diff', 'w').write(patch)
                demo = 'package cp\n\n' + s['demo'].strip() + '\n'
                open(d + '/demo_test.go', 'w').write(demo)
                open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
                b = sh('go build ./... && go build -tags debug ./...', r)
                tst = sh('go test -vet=off -count=1 ./...', r)
                bad1 = sh(f'bash {d}/demo.sh', r)
                ok0 = sh(f'bash {d}/demo.sh', '/repo')
                msg = []
                if b.returncode: msg.append('BUILD FAILS ' + b.stderr[:500])
                if tst.returncode: msg.append('TESTS FAIL ' + tst.stdout[-500:])
                if bad1.returncode == 0: msg.append('DEMO PASSES WITH PATCH')
                if 'build failed' in bad1.stdout: msg.append('DEMO DOES NOT BUILD ' + bad1.stdout[:600] + bad1.stderr[:600])
                if ok0.returncode: msg.append('DEMO FAILS ON UNCHANGED ' + ok0.stdout[:800] + ok0.stderr[:800])
                if msg: bad += 1
                line = f"{s['id']} {s['prop']}: {'confirmed' if not msg else '; '.join(msg)}"
                if check and not msg:
                    c = sh(f'{ROOT}/check.sh {s["prop"]} quick', ROOT, env=dict(ENV, GOVC_REPO=r, GOVC_NOWRITE='1', VERIF_SEED='1'))
                    v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'failed obligation' in l]
                    line += f"  check rc={c.returncode} " + ('CAUGHT' if c.returncode == 1 and 'VIOLATION property=' in c.stdout else 'MISSED')
                    if c.returncode == 1 and all('no-failing-input' in l for l in v if 'VIOLATION' in l): line += ' (no input)'
                    line += ' | ' + ' | '.join(x[:150] for x in v[:3])
                    if c.returncode not in (0, 1): line += c.stdout[-300:] + c.stderr[-300:]
                print(line, flush=True)
        finally:
            shutil.rmtree(t)
    print('problems:', bad)
main()

#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id>/ from seed descriptions (python files defining SEEDS) and
confirms each: applies, builds, passes the 16 stable tests, demo passes without and fails with it.
SEEDS = [dict(id=, property=, needs=, what=, pkg=, edits=[(file, old, new)], test=go source or None, helper=file)]"""
import sys, os, subprocess, json, shutil, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0',
  PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export TMPDIR=$S PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
R=$PWD
{ printf '{"Replace":{'; c=""
for f in "$D"/*_test.go; do printf '%%s"%%s":"%%s"' "$c" "$R/src/%(pkg)s/zz_$(basename "$f")" "$f"; c=","; done
printf '}}\\n'; } > "$S/overlay.json"
go test -vet=off -c -o "$S/demo.test" -overlay "$S/overlay.json" ./src/%(pkg)s || exit 1
cd "$S" && timeout 120 ./demo.test -test.run '^TestSeed$' -test.v
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def stable(wt):
    base = json.load(open('/opt/vp/BASELINE.json'))
    ids = base.get('stable') or base.get('tests') or base.get('passed') or base
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...'], wt)
    res = {}
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Test') and j.get('Action') in ('pass', 'fail'): res[j['Package'] + '.' + j['Test']] = j['Action']
    return res
def main():
    only = [a for a in sys.argv[2:]]
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    wt = '/tmp/seedwt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    sh(['git', 'checkout', '-q', '.'], wt)
    clean = stable(wt)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        sh(['git', 'checkout', '-q', '.'], wt)
        d = f"/verif/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if s.get('helper'): shutil.copy('/verif/tools/seedsrc/' + s['helper'], d + '/helper_test.go')
        open(d + '/seed_test.go', 'w').write(s['test'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'])); os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['what']}, open(d + '/meta.json', 'w'), indent=1)
        tmp = tempfile.mkdtemp(); subprocess.run(['cp', '-a', d + '/.', tmp])
        r0 = subprocess.run(['bash', tmp + '/demo.sh'], cwd=wt, capture_output=True, text=True, env=ENV)
        bad = None
        for f, old, new in s['edits']:
            p = f'{wt}/src/{f}'; t = open(p).read()
            if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches of {old[:60]!r}'; break
            open(p, 'w').write(t.replace(old, new))
        if bad: print(s['id'], 'EDIT', bad); shutil.rmtree(d); continue
        sh(['gofmt', '-l', 'src'], wt)
        open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], wt).stdout)
        b = sh(['go', 'build', './...'], wt)
        res = stable(wt) if b.returncode == 0 else {}
        lost = [k for k, v in clean.items() if v == 'pass' and res.get(k) != 'pass']
        r1 = subprocess.run(['bash', tmp + '/demo.sh'], cwd=wt, capture_output=True, text=True, env=ENV)
        shutil.rmtree(tmp)
        good = r0.returncode == 0 and b.returncode == 0 and not lost and r1.returncode != 0
        print(s['id'], 'OK' if good else 'BAD', 'clean', r0.returncode, 'build', b.returncode, 'lost', lost, 'seeded', r1.returncode)
        if not good:
            print(b.stderr[-500:], (r0.stdout + r0.stderr)[-1500:] if r0.returncode else (r1.stdout + r1.stderr)[-800:])
            shutil.rmtree(d)
        else:
            print('   ', [l for l in (r1.stdout + r1.stderr).splitlines() if '_test.go' in l][:2])
    shutil.rmtree(wt, ignore_errors=True)
main()

"""Plants a bug: exec this file, then call plant(...). It edits a scratch copy of /repo, runs the stable tests there,
verifies the demonstration on both trees, keeps /verif/seeded/<id>/ and says what the check of the property answers."""
import json, os, shutil, subprocess, sys
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'])
HEAD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
'''
GO = '''printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 1
cd "$tmp" && timeout 120 ./demo
'''
CLI = '''go build -o "$tmp/gotemplate" . || exit 1
export GOTEMPLATE_NO_STDIN=1
mkdir "$tmp/w" && cd "$tmp/w"
gt() { "$tmp/gotemplate" "$@"; }
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
def plant(id, prop, edits, needs, breaks, go=None, cli=None, check=True, tests=True):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo is dirty'
    if go: open(d + '/main.go.txt', 'w').write(go)
    open(d + '/demo.sh', 'w').write(HEAD + (GO if go else CLI + cli))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE', r.stdout[-800:], r.stderr[-800:]); shutil.rmtree(d); return
    ok = False
    try:
        for f, a, b in edits:
            s = open('/repo/' + f).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open('/repo/' + f, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /tmp/t.sh')
        if not (r.stdout.strip().startswith('1687') and r.stdout.strip().endswith('[]')):
            print(id, 'TESTS SEE IT', r.stdout[-600:], r.stderr[-600:]); return
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0:
            print(id, 'DEMO DOES NOT SEE IT'); return
        ok = True
        msg = (r.stdout + r.stderr)[-300:].strip()
        if check:
            r = sh('bash check.sh ' + prop, cwd='/verif')
            print(id, prop, 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d' % r.returncode, '| demo:', msg.replace('\n', ' / ')[:200])
            if r.returncode == 2: print(r.stdout[-500:], r.stderr[-500:])
    finally:
        sh('git -C /repo checkout -- .')
        if not ok: shutil.rmtree(d)
def recheck(ids=None):
    for id in sorted(os.listdir('/verif/seeded')):
        if ids and id not in ids: continue
        d = '/verif/seeded/' + id
        prop = json.load(open(d + '/meta.json'))['property']
        assert sh('git -C /repo status --porcelain').stdout == ''
        try:
            r = sh('git -C /repo apply %s/patch.diff' % d)
            if r.returncode: print(id, 'DOES NOT APPLY', r.stderr); continue
            r = sh('bash check.sh ' + prop, cwd='/verif')
            print(id, prop, 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d' % r.returncode, flush=True)
        finally: sh('git -C /repo checkout -- .')
if __name__ == '__main__': recheck(sys.argv[1:])

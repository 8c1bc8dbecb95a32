"""mkseed.py SPEC.py ... : makes and confirms planted bugs.  A SPEC defines id, prop, edits [(file, old, new)], demo (the
body of demo.sh), needs, breaks."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
go build -o "$D/gql" . || exit 3
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def make(path):
    S = {}
    exec(open(path).read(), S)
    d = os.path.join(VERIF, 'seeded', S['id'])
    t = tempfile.mkdtemp(prefix='seed-')
    r = t + '/repo'
    try:
        sh(['cp', '-a', '/repo', r])
        for f, a, b in S['edits']:
            s = open(r + '/' + f).read()
            if s.count(a) != 1:
                return 'edit matches %d times: %r' % (s.count(a), a[:60])
            open(r + '/' + f, 'w').write(s.replace(a, b))
        diff = sh('git diff', cwd=r).stdout
        env = sh("bash -c '. /opt/vp/env.sh; env'").stdout
        b = sh('. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOSUMDB=off; go build ./... && go vet ./pkg/... >/dev/null 2>&1; go test -json ./... 2>&1', cwd=r)
        bad = [l for l in b.stdout.splitlines() if '"Action":"fail"' in l]
        if bad or b.returncode:
            return 'tests fail: %s %s' % (bad[:2], b.stdout[-300:] if not bad else '')
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write((HEAD if S.get('build', True) else HEAD.replace('go build -o "$D/gql" . || exit 3\n', '')) + S['demo'].lstrip('\n'))
        for n, c in S.get('files', {}).items():
            open(d + '/' + n, 'w').write(c)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh(['cp', '-r', d, t + '/demo'])
        p = sh(['bash', t + '/demo/demo.sh'], cwd=r)
        q = sh(['bash', t + '/demo/demo.sh'], cwd='/repo')
        if q.returncode != 0 or p.returncode == 0:
            return 'demo: unchanged %d patched %d\n%s%s\n%s' % (q.returncode, p.returncode, q.stdout[-600:], q.stderr[-600:], p.stdout[-400:])
        return 'ok'
    finally:
        shutil.rmtree(t, ignore_errors=True)


for a in sys.argv[1:]:
    print(a, make(a))

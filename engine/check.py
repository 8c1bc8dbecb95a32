"""check.py PROPERTY [quick|thorough] | check.py PROPERTY --replay FILE

Decides one property on /repo's current tree: builds the front end and the harness, proves the contracts the property
rests on, runs the real code on generated inputs as a check of the machinery, and, when an obligation is not
discharged, searches for an input on which the real code breaks the property."""
import base64
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.path.insert(0, os.path.join(VERIF, 'concrete'))
import pool

REPO = '/repo'
T0 = time.time()


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def goenv():
    env = dict(os.environ)
    for l in subprocess.run(['bash', '-c', 'set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout.split(b'\0'):
        k, _, v = l.decode(errors='replace').partition('=')
        if k and k not in ('_', 'SHLVL', 'PWD'):
            env[k] = v
    env.update(GOFLAGS='-mod=mod', GOSUMDB='off', GOPROXY='off', GOTOOLCHAIN='local')
    return env


def build(scratch):
    """front end -> SSA, harness; both against /repo's working tree.  {name: error} for what failed"""
    env = goenv()
    jobs, err = {}, {}
    for name in ('frontend', 'harness'):
        src = os.path.join(scratch, 'src-' + name)
        shutil.copytree(os.path.join(VERIF, name), src)
        jobs[name] = subprocess.Popen(['go', 'build', '-o', os.path.join(scratch, name), '.'], cwd=src, env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = jobs['frontend'].communicate()[0]
    if jobs['frontend'].returncode:
        err['frontend'] = out.decode()[-2000:]
    else:
        p = subprocess.run([os.path.join(scratch, 'frontend'), REPO, os.path.join(scratch, 'ssa.json'),
                            'github.com/vektah/gqlparser/v2/ast', 'github.com/vektah/gqlparser/v2/lexer'],
                           env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            err['ssa'] = p.stdout.decode()[-2000:]
    out = jobs['harness'].communicate()[0]
    if jobs['harness'].returncode:
        err['harness'] = out.decode()[-2000:]
    p = subprocess.run(['go', 'build', '-o', os.path.join(scratch, 'gql'), '.'], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        err['gql'] = p.stdout.decode()[-2000:]
    return err


def words(ssa):
    """string constants of the code under verification"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == 'c' and x[2] == 'str':
                out.add(base64.b64decode(x[3]).decode(errors='replace'))
                return
            for v in x:
                go(v)
    for f in ssa['funcs']:
        if 'CrowdStrike/gql' in f['name']:
            go(f['blocks'])
    return sorted(w for w in out if 0 < len(w) < 30)


def ints(ssa, lexer=True):
    """integer constants of the code under verification"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == 'c' and x[2] == 'int':
                out.add(int(x[3]))
                return
            for v in x:
                go(v)
    for f in ssa['funcs']:
        if 'CrowdStrike/gql' in f['name'] and (lexer or '/lexer' not in f['name']):
            go(f['blocks'])
    return sorted(out)


def fresh(ctx):
    """the constants that the unmodified tree does not have: the inputs of the search are built around them more often"""
    try:
        k = json.load(open(os.path.join(VERIF, 'concrete', 'constants.json')))
    except (OSError, ValueError):
        return {'words': [], 'sizes': [], 'ints': []}
    return {n: [x for x in ctx[n] if x not in set(k[n])] for n in ('words', 'sizes', 'ints')}


def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: '):].strip())
    except OSError:
        pass
    return out


def main():
    sys.stdout.reconfigure(errors='backslashreplace')
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for i, a in enumerate(sys.argv[2:], 2):
        if a in ('quick', 'thorough'):
            tier = a
        if a == '--replay':
            replay = sys.argv[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='gqlverif-')
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        sys.exit(decide(prop, tier, seed, scratch, replay))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, replay):
    import props
    import search
    P = props.PROPS[prop]
    thorough = tier == 'thorough'
    err = build(scratch)
    log('built', 'errors: %s' % {k: v[-300:] for k, v in err.items()} if err else '')
    if 'gql' in err:
        print('the tree does not build:\n' + err['gql'])
        return 2
    ssa = None
    if 'frontend' not in err and 'ssa' not in err:
        ssa = json.load(open(os.path.join(scratch, 'ssa.json')))
    ctx = {'harness': os.path.join(scratch, 'harness'), 'gql': os.path.join(scratch, 'gql'), 'scratch': scratch,
           'words': words(ssa) if ssa else [], 'ints': ints(ssa) if ssa else [],
           'sizes': ints(ssa, False) if ssa else []}
    ctx['fresh'] = fresh(ctx)
    suite = search.SUITES.get(prop)
    conc_ok = suite is not None and ('harness' not in err or suite.CLI)
    if replay:
        return do_replay(prop, replay, ctx, suite)
    # 1. proof
    limit = 1500 if thorough else 150
    verdict, rep = 'undecided', {'obligations': [], 'notes': [], 'functions': {}, 'used': set()}
    if ssa is not None and P.prove is not None:
        try:
            verdict, rep = P.prove(ssa, prop, time.time() + limit)
        except Exception as e:
            import traceback
            traceback.print_exc()
            rep['notes'].append('the engine failed: %s: %s' % (type(e).__name__, e))
    elif ssa is None:
        rep['notes'].append('the front end failed: %s' % (err.get('frontend') or err.get('ssa')))
    nd = sum(1 for o in rep['obligations'] if o[1] == 'proved')
    log('%s: %s, %d of %d obligations discharged' % (prop, verdict, nd, len(rep['obligations'])))
    failed = [o for o in rep['obligations'] if o[1] != 'proved']
    for o in failed[:12]:
        log('  not discharged (%s): %s %s' % (o[1], o[0], str(o[3])[:200]))
    for n in rep['notes'][:12]:
        log('  note:', str(n)[:300])
    # 2. the real code on generated inputs
    conc = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'bad': None, 'failures': []}
    if conc_ok:
        secs = (6 if verdict == 'proved' else 10 if P.prove else 30) if not thorough else 120
        conc = search.total(pool.run(search.tasks(suite, ctx, prop, seed, secs, pool.NCPU), timeout=secs + 120))
        if conc['bad'] is None and verdict != 'proved' and (P.prove or thorough):
            log('searching for a failing input')
            secs = 900 if thorough else 75
            more = search.total(pool.run(search.tasks(suite, ctx, prop, '%s+' % seed, secs, pool.NCPU), timeout=secs + 120))
            for k in ('evaluations',):
                conc[k] += more[k]
            conc['nontrivial'] |= more['nontrivial']
            conc['bad'] = more['bad']
            conc['failures'] += more['failures']
        log('real code run on %d inputs (%d distinct non-trivial)' % (conc['evaluations'], len(conc['nontrivial'])))
        for f in conc['failures'][:2]:
            log('worker failed:', f)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '.json')
    for k in known(prop):
        print('KNOWN-FINDING: ' + k)
    code = 0
    if conc['bad']:
        json.dump({'property': prop, 'kind': 'input', 'failed_obligations': failed[:20], **conc['bad']},
                  open(path, 'w', errors='backslashreplace'), indent=1, ensure_ascii=False, default=str)
        for p in conc['bad']['problems']:
            log('violated:', p)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif verdict == 'refuted':
        json.dump({'property': prop, 'kind': 'obligation', 'failed_obligations': failed, 'notes': rep['notes'],
                   'searched': conc['evaluations']}, open(path, 'w', errors='backslashreplace'), indent=1, ensure_ascii=False, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code = 1
    evidence(prop, tier, seed, P, verdict, rep, conc, suite, code)
    return code


def do_replay(prop, path, ctx, suite):
    import random
    d = json.load(open(path))
    if d.get('kind') != 'input':
        print('this violation has no input; the obligations that failed:')
        for o in d['failed_obligations']:
            print('  ', o[1], o[0])
        return 1
    s = suite(ctx, random.Random(1), prop)
    p, _, what = s.judge(d['case'])
    s.close()
    print('input: ' + json.dumps(d['case'], ensure_ascii=False))
    print('result: %s' % (what,))
    for x in p:
        print('violated: ' + x)
    print('VIOLATION property=%s replay=%s' % (prop, path) if p else 'the property holds on this input now')
    return 1 if p else 0


def evidence(prop, tier, seed, P, verdict, rep, conc, suite, code):
    obs = rep['obligations']
    nd = sum(1 for o in obs if o[1] == 'proved')
    level = 'proof' if verdict == 'proved' else 'exploration'
    fns = rep['functions']
    need = rep.get('need')
    under = sorted(n for n, r in fns.items() if r.get('ok') and (need is None or n in need))
    st = {}
    for r in fns.values():
        for k, v in (r.get('stats') or {}).items():
            st[k] = round(st.get(k, 0) + v, 2)
    cov = {
        'obligations': len(obs), 'discharged': nd,
        'checker_cmd': './check %s %s' % (prop, tier),
        'trusted_base': P.trusted(),
        'back_end': 'z3 %s' % __import__('z3').get_version_string(),
        'functions_under_contract': under,
        'functions_inlined_from_source': sorted(rep.get('used') or ()),
        'external_contracts_used': sorted(rep.get('trusted') or ()),
        'solver': st,
        'engine_wall_s': round(rep.get('time', 0), 1),
        'verdict': verdict,
        'not_discharged': [[o[0], o[1]] for o in obs if o[1] != 'proved'][:40],
        'notes': [str(n)[:400] for n in rep['notes']],
        'obligation_samples': [o[0] for o in obs[:: max(1, len(obs) // 12)]][:14],
        'real_code': {'evaluations': conc['evaluations'], 'distinct_nontrivial': len(conc['nontrivial']),
                      'rule': suite.RULE if suite else ''},
        'evaluations': conc['evaluations'], 'distinct_nontrivial': len(conc['nontrivial']),
        'rule': suite.RULE if suite else '',
        'samples': (conc['samples'] or [o[0] for o in obs])[:3],
    }
    if verdict != 'proved':
        cov['explanation'] = ('not every obligation was discharged on this run: the result is bounded to the inputs '
                              'executed, not proved')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': P.assumptions(), 'wall_s': round(time.time() - T0, 1), 'violations': 1 if code == 1 else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', errors='backslashreplace'), indent=1, ensure_ascii=False, default=str)


if __name__ == '__main__':
    main()

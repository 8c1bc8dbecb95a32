"""Search for a concrete failing input: generated inputs are run through the real code and judged by the contracts."""
import json
import hashlib
import os
import random
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.path.insert(0, HERE)
import gen
import run as R
import pool


class Compare:
    """pairs of schema documents through FindChangesInSchemas, GroupChanges and Report*Changes"""
    CLI = False
    PROPS = ['C%02d' % i for i in range(1, 13)] + ['C13', 'C14', 'C16']
    RULE = ('random schema documents and edits of them, parsed by the real parser and compared by the real code; '
            'non-trivial: the comparison reports at least one change; distinct: by the texts of the two documents')

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.rng, self.prop = rng, prop
        self.g = gen.Gen(rng, ctx.get('words', ()), dup=prop in ('C13', 'C14') and rng.random() < 0.5, ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))

    def case(self):
        r = self.rng
        g = self.g
        a, b = g.pair()
        x = r.random()
        if self.prop == 'C12' and x < 0.8 or x < 0.04:
            b = a
        elif self.prop == 'C10' and x < 0.3:
            b = self.reword(a)
        return {'op': 'cmp', 'old': a, 'new': b}

    def reword(self, a):
        """edit descriptions only"""
        out = []
        for f in a:
            lines = []
            for l in f['text'].split('\n'):
                if self.rng.random() < 0.3 and l.startswith('  "') and not l.startswith('  """'):
                    i = l.find('" ', 3)
                    if i > 0:
                        l = '  "' + self.rng.choice(['w', 'other', 'n']) + l[i:] if self.rng.random() < 0.7 else '  ' + l[i + 2:]
                elif self.rng.random() < 0.2 and l.startswith('  ') and l[2:3].isalpha():
                    l = '  "new words" ' + l[2:]
                lines.append(l)
            out.append({'name': f['name'], 'text': '\n'.join(lines)})
        return out

    def judge(self, c):
        """(problems of the property, was the case non-trivial, what happened)"""
        res = self.s.ask(dict(c, full=True))
        j = R.judge_cmp(res)
        if self.prop == 'C10':
            R.judge_desc(res, j)
        ch = res.get('changes') or []
        if self.prop == 'C12':
            nt = 'changes' in res and res['old'] == res['new'] and bool(c['old'][0]['text'].strip())
        else:
            nt = bool(ch)
        return j.get(self.prop, []), nt, [x and x['type'] for x in ch[:12]] if 'err' not in res else 'not accepted by the parser'

    def key(self, c):
        return json.dumps([[f['text'] for f in c['old']], [f['text'] for f in c['new']]])

    def smaller(self, c):
        """candidates for a smaller failing case"""
        if c['new'] is c['old'] or c['old'] == c['new']:
            for f in shrink_files(c['old']):
                yield dict(c, old=f, new=f)
        else:
            for f in shrink_files(c['old']):
                yield dict(c, old=f)
            for f in shrink_files(c['new']):
                yield dict(c, new=f)
        # remove a line common to both
        olds = set(l for f in c['old'] for l in f['text'].split('\n') if l.strip())
        for l in olds:
            cut = lambda fs: [dict(f, text='\n'.join(x for x in f['text'].split('\n') if x != l)) for f in fs]
            if any(l in f['text'].split('\n') for f in c['new']):
                yield dict(c, old=cut(c['old']), new=cut(c['new']))

    def close(self):
        self.s.close()


def shrink_files(fs):
    if len(fs) > 1:
        for i in range(len(fs)):
            yield fs[:i] + fs[i + 1:]
        yield [dict(fs[0], text='\n'.join(f['text'] for f in fs))]
    for i, f in enumerate(fs):
        for t in shrink_text(f['text']):
            yield fs[:i] + [dict(f, text=t)] + fs[i + 1:]


def shrink_text(t):
    ls = t.split('\n')
    n = len(ls)
    w = n // 2
    while w >= 1:
        for i in range(0, n, w):
            yield '\n'.join(ls[:i] + ls[i + w:])
        w //= 2
    n, w = len(t), len(t) // 2
    while w > 16 and n >= 200:
        for i in range(0, n, w):
            yield t[:i] + t[i + w:]
        w //= 2
    if len(t) < 400:
        for w in (16, 8, 4, 2, 1):
            for i in range(0, len(t), w):
                yield t[:i] + t[i + w:]


def shrink(suite, c, secs):
    end = time.time() + secs
    size = lambda x: len(json.dumps(x))
    again = True
    while again and time.time() < end:
        again = False
        for d in suite.smaller(c):
            if time.time() > end:
                break
            if size(d) < size(c):
                try:
                    p = suite.judge(d)[0]
                except Exception:
                    continue
                if p:
                    c, again = d, True
                    break
    return c


def work(cls, ctx, prop, seed, secs, limit=None):
    """in a child process: explore; stops at the first violation of prop"""
    rng = random.Random(seed)
    s = cls(ctx, rng, prop)
    out = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'bad': None, 'events': {}, 'errors': 0}
    end = time.time() + secs
    renew = time.time() + 15
    try:
        while time.time() < end and (limit is None or out['evaluations'] < limit):
            if time.time() > renew:
                s.close()
                s = cls(ctx, rng, prop)
                renew = time.time() + 15
            c = s.case()
            p, nt, what = s.judge(c)
            out['evaluations'] += 1
            if nt:
                k = hashlib.blake2b(s.key(c).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
                out['nontrivial'].add(k)
                if len(out['samples']) < 1 and len(s.key(c)) < 900:
                    out['samples'].append({'case': c, 'result': what})
            if p:
                c2 = shrink(s, c, 20)
                p2, _, what = s.judge(c2)
                if not p2:
                    c2, p2 = c, p
                out['bad'] = {'case': c2, 'problems': p2[:5], 'result': what, 'seed': seed}
                break
    finally:
        s.close()
    return out


def tasks(cls, ctx, prop, seed, secs, n, limit=None):
    return [(('conc', i), (lambda i=i: work(cls, ctx, prop, '%s/%s/%d' % (prop, seed, i), secs, limit))) for i in range(n)]


def total(got):
    """combine the results of several workers"""
    t = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'bad': None, 'failures': []}
    for k, (ok, r) in got.items():
        if not (isinstance(k, tuple) and k[0] == 'conc'):
            continue
        if not ok:
            t['failures'].append(r)
            continue
        t['evaluations'] += r['evaluations']
        t['nontrivial'] |= r['nontrivial']
        t['samples'] += r['samples']
        if r['bad'] and (t['bad'] is None or len(json.dumps(r['bad'])) < len(json.dumps(t['bad']))):
            t['bad'] = r['bad']
    return t


import lintsuite
import othersuites

SUITES = {p: Compare for p in Compare.PROPS}
SUITES.update({p: lintsuite.Rules for p in ('L01', 'L02', 'L03', 'L04')})
SUITES.update({p: lintsuite.Cli for p in ('L05', 'L06', 'L07', 'L08', 'L09')})
SUITES.update(C13=othersuites.Safe, C15=othersuites.CompareCli, C17=othersuites.Determinism, L10=othersuites.Lexer,
              U01=othersuites.Files)

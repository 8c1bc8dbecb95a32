"""Concrete side: builds the harness against /repo, runs generated inputs through the real code and compares with the
contracts evaluated concretely."""
import json
import os
import random
import subprocess
import sys
import threading
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))
sys.path.insert(0, HERE)
import gen


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, q, timeout=20):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(q).encode() + b'\n')
            self.p.stdin.flush()
            t = threading.Timer(timeout, self.p.kill)
            t.start()
            line = self.p.stdout.readline()
            t.cancel()
        except BrokenPipeError:
            line = b''
        if not line:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'dead': True}
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


# ---------------------------------------------------------------------------------------- judging a comparison
from collections import Counter
import spec
import compare as CC

CON = spec.Con()


def shared_owner(t, level, path):
    """which of C07, C08 an unexpected change of a shared type belongs to"""
    if t in ('DIRECTIVE_ADDED', 'DIRECTIVE_REMOVED'):
        return ['C07'] if path.startswith('@') else ['C08']
    if t == 'DIRECTIVE_ARGUMENT_ADDED':
        return ['C07'] if path.startswith('@') else ['C08']
    if t == 'DIRECTIVE_ARGUMENT_REMOVED':
        return ['C07'] if level == 2 else ['C08'] if level == 1 else ['C07', 'C08']
    return ['C07', 'C08']


OWNERS = {}
for _p, _ts in CC.TYPES.items():
    for _t in _ts:
        OWNERS.setdefault(_t, []).append(_p)


def expected(res):
    return CC.all_changes(CON, spec.Node(res['old']), spec.Node(res['new']))


def fmt(x):
    return '%s level=%s path=%r' % (x[0], ['non-breaking', 'dangerous', 'breaking'][x[1]] if x[1] in (0, 1, 2) else x[1], x[2])


def judge_cmp(res):
    """{property: [what is wrong]} for the answer to one cmp request"""
    out = {}

    def bad(p, s):
        out.setdefault(p, []).append(s)
    if res.get('dead'):
        bad('C13', 'the process died')
        return out
    if 'err' in res:
        return out
    if 'panic' in res:
        bad('C13', 'panic: ' + res['panic'])
        if 'changes' not in res:
            return out
    if res.get('mutated'):
        bad('C13', 'a parsed document was modified')
    exp = expected(res)
    got = res['changes']
    E, G = {}, {}
    for s in exp:
        E.setdefault((s.type, s.level, s.path), []).append(s)
    for c in got:
        if c is None:
            bad('C13', 'nil change')
            continue
        G.setdefault((c['type'], c['level'], c['path']), []).append(c)
    for k in sorted(set(E) | set(G), key=repr):
        e, g = len(E.get(k, ())), len(G.get(k, ()))
        if e == g:
            continue
        own = OWNERS.get(k[0])
        if own is None:
            own = sorted(CC.TYPES)      # an unknown change type
        elif len(own) > 1:
            own = sorted(set(s.tag for s in E[k])) if e > g else shared_owner(*k)
        for p in own:
            bad(p, '%s: expected %d, reported %d' % (fmt(k), e, g))
    # C16: messages and positions
    for k, cs in G.items():
        ss = E.get(k)
        if not ss:
            continue
        for c in cs:
            why = [mismatch(c, s) for s in ss]
            if all(why):
                bad('C16', '%s message=%r pos=%s: %s' % (fmt(k), c['message'], c['pos'], why[0]))
    if got and res['old'] == res['new']:
        bad('C12', 'changes against itself: ' + '; '.join(fmt((c['type'], c['level'], c['path'])) for c in got[:3]))
    if 'groups' in res:
        judge_groups(res, bad)
    return out


def mismatch(c, s):
    m = c['message']
    for n in s.names:
        if n not in m:
            return 'the message does not contain %r' % n
    if s.fromto:
        i = m.find(s.fromto[0])
        if i < 0 or m.find(s.fromto[1], i + len(s.fromto[0])) < 0:
            return 'the message does not name the old value %r and after it the new value %r' % s.fromto
    allowed = [p.d if isinstance(p, spec.Node) else p for p in s.pos]
    if c['pos'] not in allowed:
        return 'the position is not that of the element or of its owner'
    return None


ICON = {2: '❌', 1: '✋️', 0: '✅'}


def judge_groups(res, bad):
    got = res['changes']
    want = {}
    for i, c in enumerate(got):
        want.setdefault(str(c['level']), []).append(i)
    gs = {k: sorted(v) for k, v in res['groups'].items() if v}
    if gs != want:
        bad('C14', 'groups are %s, expected %s' % (gs, want))
    for r in res.get('reports', ()):
        lines = r['out'].split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        # a message may itself contain newlines: compare as a multiset of whole records
        exp = []
        for c in r['given']:
            loc = ''
            if r['with'] and c['pos']:
                loc = '%s:%d ' % (c['pos']['Src']['Name'], c['pos']['Line'])
            exp.append('%s  %s%s' % (ICON[r['level']], loc, c['message']))
        e = Counter('\n'.join(exp).split('\n') if exp else [])
        if Counter(lines) != e:
            bad('C14', 'report(level=%d, positions=%s) printed %r for %r' % (r['level'], r['with'], r['out'], exp))
        if r['count'] != len(r['given']):
            bad('C14', 'report(level=%d) returned %d for %d changes' % (r['level'], r['count'], len(r['given'])))


def strip_desc(x):
    if isinstance(x, dict):
        return {k: strip_desc(v) for k, v in x.items() if k not in ('Description', 'Position')}
    if isinstance(x, list):
        return [strip_desc(v) for v in x]
    return x


def judge_desc(res, bad):
    """a comparison of documents that differ only in descriptions"""
    if 'changes' in res and strip_desc(res['old']) == strip_desc(res['new']):
        for c in res['changes']:
            if c and c['type'] not in CC.TYPES['C10']:
                bad.setdefault('C10', []).append('descriptions only were edited, but reported: ' +
                                                 fmt((c['type'], c['level'], c['path'])))

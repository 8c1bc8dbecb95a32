"""From an executed function and a contract to obligations: both sides are lists of conditional changes under loop
domains; they are matched domain by domain and proved equal as multisets (type, level, path)."""
import time
from core import *
import core
import facts
import spec
import z3

BINDERS = {}


def binder(d):
    if d not in BINDERS:
        BINDERS[d] = Int('B!%d' % d)
    return BINDERS[d]


class C:
    """one contribution: for all binders in the chain, if guard then record"""
    __slots__ = ('chain', 'guard', 'type', 'level', 'path', 'msg', 'pos', 'spec', 'tag', 'ordered')

    def rng(self):
        r = []
        for d, n in enumerate(self.chain):
            r += [LE(IntVal(0), binder(d)), LT(binder(d), n)]
        return r

    def key(self):
        return tuple(n.get_id() for n in self.chain)

    def sub(self, pairs):
        c = C()
        c.chain, c.type, c.tag, c.ordered = [vsub(n, pairs) for n in self.chain], self.type, self.tag, self.ordered
        c.guard, c.level, c.path = vsub(self.guard, pairs), vsub(self.level, pairs), vsub(self.path, pairs)
        c.msg = None if self.msg is None else vsub(self.msg, pairs)
        c.pos = None if self.pos is None else vsub(self.pos, pairs)
        c.spec = None if self.spec is None else vsub(self.spec, pairs)
        return c


def walk(items, f, chain=(), guard=T, ordered=True, opaque=None):
    """f(chain, guard, value, ordered) on every element description of a list"""
    for it in items:
        g = AND(guard, it[1])
        if is_false(g):
            continue
        if it[0] == 'u':
            f(chain, g, it[2], ordered)
        elif it[0] == 'b':
            raise Unsupported('opaque list in a result')
        elif it[0] == 'f':
            b = binder(len(chain))
            k = it[2]
            inner = it[4] if k.eq(b) else vsub_items(it[4], [(k, b)])
            walk(inner, f, chain + (it[3],), g, ordered, opaque)
        elif it[0] in ('s', 'x'):
            walk(it[2], f, chain, g, False, opaque)
        elif it[0] == 'o' and opaque is not None:
            opaque(chain, g, it[2], ordered)
        else:
            raise Unsupported('opaque list item')


def alternatives(v):
    """value -> [(guard, leaf)] over unions and if-then-else terms"""
    if isinstance(v, UnionV):
        out = []
        for g, x in v.a:
            out += [(AND(g, h), y) for h, y in alternatives(x)]
        return out
    if is_z(v) and is_ite(v):
        return ([(AND(v.arg(0), h), y) for h, y in alternatives(v.arg(1))]
                + [(AND(NOT(v.arg(0)), h), y) for h, y in alternatives(v.arg(2))])
    return [(T, v)]


def code_contribs(items, opaque=False, fields=('changeType', 'criticalityLevel', 'path', 'message', 'position')):
    out = []
    ft, fl, fp, fm, fpos = fields

    def f(chain, g, v, ordered):
        for h, r in alternatives(v):
            if isinstance(r, RecP):
                r = r.s
            if not isinstance(r, StructV):
                raise Unsupported('result element %s' % type(r).__name__)
            for h2, t in alternatives(r.f[ft]):
                tv = litval(t)
                if tv is None:
                    raise Unsupported('change type is not a constant')
                c = C()
                c.chain, c.guard, c.type = list(chain), AND(g, h, h2), tv.decode()
                c.level, c.path, c.msg, c.pos = r.f[fl], r.f[fp], r.f[fm], r.f[fpos]
                c.spec, c.tag, c.ordered = None, None, ordered
                if not is_false(c.guard):
                    out.append(c)
    walk(items, f, opaque=(lambda *a: None) if opaque else None)
    return out


def spec_contribs(items):
    out = []

    def f(chain, g, v, ordered):
        if not isinstance(v, spec.Change):
            raise Unsupported('contract item')
        c = C()
        c.chain, c.guard, c.type, c.level, c.path, c.tag = list(chain), g, v.type, v.level, v.path, v.tag
        c.spec, c.msg, c.pos, c.ordered = v, None, None, ordered
        out.append(c)
    walk(items, f)
    return out


class Ob:
    """a discharged or failed obligation"""
    __slots__ = ('name', 'result', 'time', 'detail', 'tags')

    def __init__(self, name, result, time, detail='', tags=()):
        self.name, self.result, self.time, self.detail, self.tags = name, result, time, detail, tags


def align(code, sp, hyps):
    """rename the domain chains of code contributions that are provably those of spec contributions"""
    skeys = {}
    for s in sp:
        skeys.setdefault(s.key(), s)
    ckeys = {}
    for c in code:
        ckeys.setdefault(c.key(), []).append(c)
    for k, cs in list(ckeys.items()):
        if k in skeys:
            continue
        for sk, s in skeys.items():
            if len(sk) != len(k):
                continue
            goal = AND(*[EQ(a, b) for a, b in zip(cs[0].chain, s.chain)])
            if is_false(goal):
                continue
            ss = [x for x in sp if x.key() == sk]
            if all(facts.prove(list(hyps) + c.rng() + [c.guard], goal) == 'proved' for c in cs) and \
               all(facts.prove(list(hyps) + x.rng() + [x.guard], goal) == 'proved' for x in ss):
                for c in cs:
                    c.chain = list(s.chain)
                break


def count_eq(rs, r):
    """how many of the conditional records rs equal r (as a z3 int)"""
    tot = []
    for c in rs:
        e = AND(c.guard, EQ(c.level, r.level), EQ(c.path, r.path))
        if not is_false(e):
            tot.append(z3.If(e, IntVal(1), IntVal(0)) if not is_true(e) else IntVal(1))
    return z3.Sum(tot) if tot else IntVal(0)


def total(rs):
    tot = [z3.If(c.guard, IntVal(1), IntVal(0)) if not is_true(c.guard) else IntVal(1) for c in rs]
    return z3.Sum(tot) if tot else IntVal(0)


def multiset(name, code, sp, hyps, timeout=8000, group=None):
    """obligations saying that the two lists of contributions are equal as multisets of (type, level, path)"""
    obs = []
    if group is not None:
        code = [c for c in code if group(c.type, [])]
        sp = [s for s in sp if group(s.type, [])]
    align(code, sp, hyps)
    groups = {}
    for c in code:
        groups.setdefault((c.type, c.key()), ([], []))[0].append(c)
    for s in sp:
        groups.setdefault((s.type, s.key()), ([], []))[1].append(s)
    for (ty, key), (cs, ss) in groups.items():
        if group is not None and not group(ty, ss):
            continue
        any_ = (cs or ss)[0]
        cs, ss, n = cancel(cs, ss)
        if n:
            obs += [Ob('%s: %s (same condition, level, path)' % (name, ty), 'proved', 0, tags=(ty,))] * n
            facts.STATS['trivial'] += n
        if not cs and not ss:
            continue
        h = list(hyps) + any_.rng()
        dom = 'once' if not key else 'for each of ' + ' / '.join(brief(n) for n in any_.chain)
        tags = sorted(set(s.tag for s in ss))
        t0 = time.time()
        if len(cs) == 1 and len(ss) == 1:
            goals = [('condition', z3.BoolVal(True) if cs[0].guard.eq(ss[0].guard) else cs[0].guard == ss[0].guard, []),
                     ('level', EQ(cs[0].level, ss[0].level), [cs[0].guard]),
                     ('path', EQ(cs[0].path, ss[0].path), [cs[0].guard])]
        else:
            goals = [('number', total(cs) == total(ss), [])]
            for i, c in enumerate(cs):
                goals.append(('level and path #%d' % i, count_eq(cs, c) == count_eq(ss, c), [c.guard]))
        for gn, goal, extra in goals:
            t0 = time.time()
            r = facts.prove(h + extra, goal, timeout=timeout)
            obs.append(Ob('%s: %s of %s %s' % (name, gn, ty, dom), r, time.time() - t0,
                          tags=tuple(tags) + (ty,)))
    return obs


def cancel(cs, ss):
    """drop the contributions that occur on both sides with the same terms"""
    ss = list(ss)
    rest, n = [], 0
    for c in cs:
        for i, s in enumerate(ss):
            if c.guard.eq(s.guard) and c.level.eq(s.level) and c.path.eq(s.path):
                del ss[i]
                n += 1
                break
        else:
            rest.append(c)
    return rest, ss, n


def brief(t, depth=0):
    s = str(t)
    s = ' '.join(s.split())
    return s if len(s) < 120 else s[:117] + '...'

"""C13: no run-time panic and no write to a document, in packages compare and linter.

Every function that builds a list is cut at its calls: a caller only knows that the elements of the result are well formed
(not nil, positions set), whatever the list is; the function itself is checked to return such a list.  What a function
requires of its arguments (which pointers must not be nil) is inferred from its own body and then an obligation at every
call.  Recursive functions are cut the same way, and must recur on a part of an argument.  Everything else is executed
where it is called.  The obligations are the run-time checks themselves: nil dereferences, indices, slices, stores to
maps, type assertions, explicit panics, and stores to anything that was not allocated by the code."""
import hashlib
import json
import sys
import time
from modular import *
import cliproof
from cliproof import Cli, ghosts, ob, part, collect, verdict, externs
import cmpproof
from cmpproof import names_in
import facts
import pool
import prove
import spec
import z3

CMPP, LNT = MOD + 'pkg/compare', MOD + 'pkg/linter'
MINE = (CMPP + '.', LNT + '.')
ENTRY = ('FindChangesInSchemas', 'GroupChanges', 'ReportBreakingChanges', 'ReportDangerousChanges', 'ReportNonBreakingChanges')


def mine(n):
    return n.startswith(MINE) or any(n.startswith(('(' + p, '(*' + p)) for p in MINE)


class Safe(Cli):
    def __init__(self, ssa):
        Cli.__init__(self, ssa, 'C13')
        ex = self.ex
        self.need = {}          # function -> parameters that must not be nil
        self.calls = {}
        self.sites = {}
        for n, f in ex.funcs.items():
            if f['blocks']:
                c = set()
                for b in f['blocks']:
                    for i in b['i']:
                        c |= set(x for x in names_in(i) if x in ex.funcs)
                self.calls[n] = c
        self.rec = set(n for n in self.calls if self.recursive(n))
        self.entries = [n for n in (CMPP + '.' + e for e in ENTRY) if n in ex.funcs]
        self.rules = [go for _, go in self.table or ()]

    def recursive(self, n):
        seen, todo = set(), list(self.calls.get(n, ()))
        while todo:
            m = todo.pop()
            if m == n:
                return True
            if m not in seen:
                seen.add(m)
                todo += self.calls.get(m, ())
        return False

    def reached(self):
        seen, todo = [], list(self.entries) + list(self.rules)
        while todo:
            n = todo.pop()
            if n in seen or n not in self.calls or not (mine(n) or n in self.rec):
                if n not in seen and n in self.calls:
                    seen.append(n)
                    todo += self.calls[n]
                continue
            seen.append(n)
            todo += self.calls[n]
        return seen

    def listy(self, n):
        """does the function build a list of elements?"""
        f, T_ = self.ex.funcs[n], self.ex.T
        if len(f['res']) != 1 or T_.kind(f['res'][0]) != 'slice' or f['free'] or '$' in n:
            return False
        if T_.kind(T_.elem(f['res'][0])) not in ('ptr', 'pointer', 'struct'):
            return False
        return not any(T_.kind(p[1]) in ('func', 'sig', 'signature', 'iface', 'interface') for p in f['params'])

    def basic(self, n):
        f, T_ = self.ex.funcs[n], self.ex.T
        return len(f['res']) == 1 and T_.kind(f['res'][0]) in ('bool', 'int', 'str') and not f['free'] and '$' not in n

    def cuts(self):
        return [n for n in self.reached() if n in self.rec and (self.listy(n) or self.basic(n)) or mine(n) and self.listy(n)]

    # ---- contracts
    def term(self, a):
        if is_z(a):
            return a
        if isinstance(a, ListV) and len(a.items) == 1 and a.items[0][0] == 'b' and is_true(a.items[0][1]):
            return a.items[0][2]
        return None

    def install(self, n):
        ex = self.ex
        f = ex.funcs[n]
        rt = f['res'][0]

        def c(ex, args, st, g, info):
            if any(isinstance(a, OpqV) for a in args):
                return None
            for a, p in zip(args, f['params']):
                if p[0] in self.need[n]:
                    self.demand(g, a, ('nil argument of ' + n.split('.')[-1],) + tuple(info))
            zs = [t for t in map(self.term, args) if t is not None]
            rest = tuple(repr(a) for a in args if self.term(a) is None)
            key = (n, tuple(info), rest)
            i = self.sites.setdefault(key, len(self.sites))
            ks = [k for k in ex.ks if not any(k.eq(z) for z in zs)]
            sg = [x.sort() for x in zs + ks]
            nm = 'any%d!%s' % (i, n.split('.')[-1])
            if ex.T.kind(rt) == 'slice':
                L = Function(nm, *(sg + [Lst]))(*(zs + ks)) if sg else Const(nm, Lst)
                v = ListV((('b', T, L),), ex.T.elem(rt))
            else:
                srt = ex.T.sort(rt)
                v = ex.sym(rt, Function(nm, *(sg + [srt]))(*(zs + ks)) if sg else Const(nm, srt))
            return (), v, st, []
        ex.contracts[n] = c

    def demand(self, g, a, info):
        if isinstance(a, UnionV):
            for h, x in a.a:
                self.demand(tuple(g) + (h,), x, info)
        elif is_z(a) and a.sort() == Ref:
            self.ex.obs.append((tuple(g), NOT(EQ(a, null)), info))
        elif isinstance(a, (PtrL, RecP, StructV, ListV, MapV, FuncV, IfaceV)):
            return
        elif is_z(a):
            return
        else:
            raise Unsupported('argument %s' % type(a).__name__)

    # ---- one function
    def body(self, n):
        """the run-time checks of the body of n and the well-formedness of what it returns"""
        ex = self.ex
        f = ex.funcs[n]
        ex.cache.clear()
        con = ex.contracts.get(n)
        if n in self.rec:
            self.measure(n, con)
        args = [ex.param(p[0], p[1]) for p in f['params']]
        n0 = len(ex.obs)
        try:
            o = ex.call_body(f, args, State(ghosts(), {}))
        finally:
            ex.contracts.pop(n, None)
            if con is not None:
                ex.contracts[n] = con
        obs = [(tuple(g), c, inf) for g, c, inf in ex.obs[n0:] if not is_true(c)]
        del ex.obs[n0:]
        for g, c, s in o.exits:
            obs.append((tuple(g), F, ('exit', n, 0)))
        if self.listy(n):
            for g, v, s in o.rets:
                fv = ex.freeze(v[0], s.mem, set(k for k in s.mem if not k.startswith('@')))
                for h, x in prove.alternatives(fv):
                    if not isinstance(x, ListV):
                        raise Unsupported('result is %s' % type(x).__name__)
                    self.elements(tuple(g) + (h,), x.items, obs, n, 0)
        return obs, args

    def measure(self, n, con):
        """recursive calls: on a part of an argument"""
        ex = self.ex
        ps = ex.funcs[n]['params']

        def c(ex, args, st, g, info):
            down = [a for a, p in zip(args, ps) if is_z(a) and a.sort() == Ref and self.inside(a, p[0])]
            same = all(is_z(a) and (self.inside(a, p[0]) or a.eq(Const(p[0], Ref))) for a, p in zip(args, ps) if ex.T.sort(p[1]) == Ref)
            if not down or not same:
                ex.ob('recursion on a part of an argument', g, F, info)
            return con(ex, args, st, g, info) if con else None
        ex.contracts[n] = c

    def inside(self, a, p):
        """is the term a proper part of what the parameter p points to?"""
        d = 0
        while z3.is_app(a) and a.num_args() in (1, 2) and (a.decl().name() == 'at' or a.num_args() == 1 and '.' in a.decl().name()):
            a, d = a.arg(0), d + 1
        return d > 0 and z3.is_const(a) and a.decl().name() == p

    def elements(self, g, items, obs, n, depth):
        """every element of the list is well formed"""
        for it in items:
            h = g + ((it[1],) if not is_true(it[1]) else ())
            if is_false(it[1]):
                continue
            if it[0] == 'b':
                continue            # the elements of a list of the document, or of a list another function made
            if it[0] == 'u':
                for c, x in prove.alternatives(it[2]):
                    self.formed(h + (c,), x, obs, n)
            elif it[0] == 'f':
                k = it[2]
                self.elements(h + (LE(IntVal(0), k), LT(k, it[3])), it[4], obs, n, depth + 1)
            elif it[0] in ('s', 'x'):
                self.elements(h, it[2], obs, n, depth)
            else:
                raise Unsupported('element of a result')

    def formed(self, g, x, obs, n):
        info = lambda w: ('%s of an element of the result' % w, n, 0)
        if is_z(x):
            if x.sort() == Ref:
                obs.append((g, NOT(EQ(x, null)), ('element of the result', n, 0)))
            return
        if isinstance(x, RecP):
            x = x.s
        if not isinstance(x, StructV):
            raise Unsupported('element %s' % type(x).__name__)
        nm = x.t.split('.')[-1]
        for fn in x.f:
            v = x.f[fn]
            if nm + '.' + fn in facts.NONNULL_FIELDS:
                for c, y in prove.alternatives(v):
                    if is_z(y):
                        obs.append((g + (c,), NOT(EQ(y, null)), info(fn)))
                    elif not isinstance(y, (PtrL, RecP)):
                        raise Unsupported('field %s' % fn)
            elif nm + '.' + fn in facts.NONEMPTY and mentionsdoc(nm):
                if not is_z(v):
                    raise Unsupported('field %s' % fn)
                obs.append((g, NOT(EQ(SLEN(v), IntVal(0))), info(fn)))
            elif isinstance(v, ListV) and mentionsdoc(nm):
                self.elements(g, v.items, obs, n, 1)

    def check(self, n, exported):
        """[(Ob)], parameters required; None when the function cannot be checked on its own"""
        obs, args = self.body(n)
        f = self.ex.funcs[n]
        ptr = [(p[0], NOT(EQ(a, null))) for p, a in zip(f['params'], args) if is_z(a) and a.sort() == Ref]
        wf = [x for p, a in zip(f['params'], args) if p[1] == '*' + AST + '.Type' for x in spec.wf_type(a)]
        short_ = n.split('/')[-1]
        prv = lambda hyps, g, c: facts.prove(wf + hyps + list(g), c, unique=False)
        full = [h for _, h in ptr]
        res = []
        hard = []               # obligations that rest on some parameter not being nil
        for g, c, inf in obs:
            r = prv([], g, c) if ptr else None
            if r != 'proved':
                r = prv(full, g, c)
                hard.append((g, c))
            res.append((g, c, inf, r))
        need = [p for p, _ in ptr]
        for p, h in ptr:
            rest = [x for q, x in ptr if q in need and q != p]
            if all(prv(rest, g, c) == 'proved' for g, c in hard):
                need.remove(p)
        out = []
        for g, c, inf, r in res:
            out.append(prove.Ob('%s: %s at %s:%s' % (short_, inf[0], str(inf[1]).split('/')[-1], inf[2]), believed(r, g, c), 0))
        if not obs:
            out.append(prove.Ob('%s: nothing that can fail' % short_, 'proved', 0))
        return out, set(need)


def mentionsdoc(nm):
    return nm not in ('Change', 'LintErrorWithMetadata')


def believed(r, g, c):
    """a refutation that rests on an unknown result is not believed"""
    if r == 'refuted' and any(z3.is_app(x) and x.decl().name().startswith(('any', 'call')) and '!' in x.decl().name()
                              for x in facts.collect(list(g) + [c])):
        return 'unknown'
    return r


def run(ssa, prop, deadline):
    t0 = time.time()
    v = Safe(ssa)
    ex = v.ex
    rep = {'functions': {}, 'obligations': [], 'notes': v.notes, 'used': set(), 'trusted': set()}
    whys = []
    if v.table is None:
        whys.append('the rule table is not a list of constants')
    if not v.entries:
        whys.append('no exported comparison functions')
    cuts = v.cuts()
    # callees first
    order, seen = [], set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for m in sorted(v.calls.get(n, ())):
            visit(m)
        order.append(n)
    for n in v.entries + v.rules:
        visit(n)
    todo = [n for n in order if n in cuts or n in v.entries or n in v.rules]
    done = {}
    facts.UNIQ[0] = False
    ex.strict = True
    level = {}
    for n in todo:
        level[n] = 1 + max([level[m] for m in todo if m in level and m != n and m in closure(v, n)], default=0)
    for lv in sorted(set(level.values())):
        tasks = [(n, lambda n=n: one(v, n)) for n in todo if level[n] == lv]
        if lv == 1:
            for n in todo:
                if n in v.rec:
                    v.need[n] = needed(v, n)
                    v.install(n)
        got = pool.run(tasks, timeout=max(1, min(200, deadline - time.time())))
        for n, _ in tasks:
            okk, r = got.get(n, (False, 'not run'))
            if not okk:
                r = {'obs': [], 'why': r, 'need': None, 'time': 0}
            top = n in v.entries or n in v.rules
            good = r['why'] is None and all(o[1] == 'proved' for o in r['obs'])
            rep['functions'][n] = {'ok': good, 'why': r['why'], 'time': r['time'], 'obs': r['obs'], 'stats': r.get('stats')}
            rep['used'] |= r.get('inlined') or set()
            rep['trusted'] |= r.get('trusted') or set()
            if good and (n in cuts):
                if n in v.rec and not r['need'] <= v.need[n]:
                    whys.append('recursive function %s' % n)
                v.need[n] = r['need'] if n not in v.rec else v.need[n]
                v.install(n)
                fn = {'(*' + AST + '.Type).String': spec.tstr, '(*' + AST + '.Type).Name': spec.tname}.get(n)
                if fn is not None and all(o.result == 'proved' for o in v.verify_pure(n, fn)):
                    v.pure(n, fn)       # what it computes is known too
            if good or top:
                rep['obligations'] += r['obs']
                if r['why']:
                    whys.append('%s: %s' % (n.split('.')[-1], r['why']))
            elif n in v.rec:
                rep['obligations'] += r['obs']
                whys.append('%s: %s' % (n.split('.')[-1], r['why']))
            else:
                v.notes.append('%s is checked where it is called (%s)' % (n.split('.')[-1], r['why'] or [o for o in r['obs'] if o[1] != 'proved'][:2]))
    rep['time'] = time.time() - t0
    return verdict(rep, whys)


def needed(v, n):
    """the parameters a recursive function needs: none, or all its pointers"""
    f = v.ex.funcs[n]
    v.need[n] = set()
    v.install(n)
    try:
        obs, need = v.check(n, False)
        if not need and all(o.result == 'proved' for o in obs):
            return set()
    except Unsupported:
        pass
    finally:
        del v.ex.contracts[n]
    return set(p[0] for p in f['params'] if v.ex.T.sort(p[1]) == Ref)


def closure(v, n):
    seen, todo = set(), list(v.calls.get(n, ()))
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += v.calls.get(m, ())
    return seen


def one(v, n):
    t0 = time.time()
    q0 = dict(facts.STATS)
    obs, need, why = [], None, None
    try:
        obs, need = v.check(n, False)
    except Unsupported as e:
        if os.environ.get('GQLV_DEBUG'):
            raise
        why = 'unsupported: %s' % e
    return {'obs': cmpproof.dump_obs(obs), 'need': need, 'why': why, 'time': time.time() - t0, 'inlined': set(v.ex.used),
            'trusted': set(v.ex.trusted), 'stats': {k: facts.STATS[k] - q0[k] for k in q0}}


if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    t = time.time()
    vd, rep = run(ssa, 'C13', time.time() + 300)
    print('C13', vd, '%.1fs' % (time.time() - t), len(rep['obligations']), 'obligations',
          sum(1 for o in rep['obligations'] if o[1] == 'proved'), 'proved', rep['notes'])
    if '-v' in sys.argv:
        for n, r in rep['functions'].items():
            print('  ', n.split('/')[-1], r['ok'], '%.1f' % r['time'], len(r['obs']), r['why'])
    for o in [o for o in rep['obligations'] if o[1] != 'proved'][:20]:
        print('  ', o)

"""L10: the linter's lexer against the parser's, function by function.

1. Contracts (contracts/lexer.py) of the linter's lexer: every function is executed from its precondition, or from a
   loop header and its invariant, to the next one or to the end; the obligations are the run-time checks, the
   preconditions at calls, the postcondition, a decreasing measure per loop.  Loop invariants are inferred: candidate facts
   that a path refutes are dropped until the rest is inductive (each conjunct is then a discharged obligation).
2. Agreement.  Every function that both lexers have is run against its namesake in lockstep, loop header by loop
   header, from equal states; the obligation is equal results and equal states at the end; calls of a pair already shown
   equal are the same uninterpreted function on both sides.  ReadToken: equal, except that where the linter's returns a
   comment, the parser's goes on from the very state the linter's lexer is left in."""
import itertools
import json
import os
import sys
import time
import z3
import flat
from flat import Unsupported, Prog, Exec, State, Frame, P, S, Sl, St, INP, N, I, B, Bytes, Obj, K, H, L, byte, NIL, simp, fresh
from prove import Ob
from cmpproof import dump_obs
import pool
import lexer as contracts

MINE = 'github.com/CrowdStrike/gql/cmd/linter/lexer'
THEIRS = 'github.com/vektah/gqlparser/v2/lexer'
DEBUG = bool(os.environ.get('GQLV_LEX'))


class Side:
    """one of the two lexers: its functions, and its scanner state as leaves"""

    def __init__(self, prog, pkg):
        self.p, self.pkg = prog, pkg
        self.lexer = pkg + '.Lexer'
        self.fields = prog.fields(self.lexer)
        src = [k for k, f in enumerate(self.fields) if f[1].endswith('ast.Source')]
        if len(src) != 1:
            raise Unsupported('the Lexer has %d sources' % len(src))
        self.src = src[0]
        self.names = {}
        for n in prog.funcs:
            for pre in ('(*%s.Lexer).' % pkg, pkg + '.'):
                if n.startswith(pre) and '$' not in n:
                    self.names[n[len(pre):]] = n
        self.short = {v: k for k, v in self.names.items()}
        self.kinds = kinds(prog, self)

    def own(self, n):
        return n in self.short

    def lx(self, f):
        """the scanner's state: every field but the source, f(key, sort)"""
        return St([P('SRC') if k == self.src else self.p.make(x[1], x[0], f) for k, x in enumerate(self.fields)])

    def state_leaves(self, v, pre):
        out = {}
        for k, x in enumerate(self.fields):
            if k != self.src:
                out.update(self.p.leaves(v.v[k], x[1], pre + x[0]))
            elif not (isinstance(v.v[k], P) and v.v[k].oid == 'SRC'):
                raise Unsupported('the source of the lexer is replaced')
        return out

    def is_recv(self, t):
        return t == '*' + self.lexer

    def is_src(self, t):
        return t.startswith('*') and t.endswith('ast.Source')

    def formals(self, name):
        """(parameter, type, index or None)"""
        k, out = 0, []
        for q, t in self.p.funcs[name]['params']:
            if self.is_recv(t) or self.is_src(t):
                out.append((q, t, None))
            else:
                out.append((q, t, k))
                k += 1
        return out

    def hasstate(self, name):
        return any(self.is_recv(t) for _, t, _ in self.formals(name))

    def actuals(self, name, f):
        args, env = [], {}
        for q, t, k in self.formals(name):
            if k is None:
                args.append(P('S') if self.is_recv(t) else P('SRC'))
            else:
                v = self.p.make(t, 'a.%d' % k, f)
                args.append(v)
                env.update(self.p.leaves(v, t, 'a.%d' % k))
        return args, env

    def arg_leaves(self, name, args):
        env = {}
        for (q, t, k), a in zip(self.formals(name), args):
            if k is None:
                if not (isinstance(a, P) and a.oid == ('S' if self.is_recv(t) else 'SRC') and not a.path):
                    raise Unsupported('another lexer')
            else:
                env.update(self.p.leaves(a, t, 'a.%d' % k))
        return env

    def result(self, name, f):
        rs = self.p.funcs[name]['res']
        return [self.lx(lambda k, s, n=n: f('r%d.%s' % (n, k), s)) if t == self.lexer else P('SRC') if self.is_src(t) else self.p.make(t, 'r%d' % n, f)
                for n, t in enumerate(rs)]

    def result_leaves(self, name, vs):
        env = {}
        for k, (t, v) in enumerate(zip(self.p.funcs[name]['res'], vs)):
            if t == self.lexer:
                env.update(self.state_leaves(v, 'r%d.' % k))
            else:
                env.update(self.p.leaves(v, t, 'r%d' % k))
        return env

    def calls(self, name):
        out = set()
        for b in self.p.funcs[name]['blocks']:
            for i in b['i']:
                if i['o'] in ('Call', 'Defer', 'Go') and i['v'][0] == 'f' and self.own(i['v'][1]):
                    out.add(i['v'][1])
        return out

    def reach(self, roots):
        seen, todo = [], list(roots)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.append(n)
                todo += sorted(self.calls(n))
        return seen

    def srctype(self):
        return self.p.types[self.fields[self.src][1]]['e']

    def entry(self, name, mk):
        """the state on entry and its leaves; mk(key, sort)"""
        args, env = self.actuals(name, mk)
        heap = {'SRC': flat.source(self.p, self.srctype())}
        if self.hasstate(name):
            heap['S'] = self.lx(lambda k, s: mk('o.' + k, s))
            env.update(self.state_leaves(heap['S'], 'o.'))
        f = self.p.funcs[name]
        return State([Frame(name, dict(zip([q for q, _ in f['params']], args)))], heap), env

    def kind(self, name):
        for k, v in self.kinds.items():
            if v == name:
                return z3.IntVal(k)
        raise Unsupported('no token kind %s' % name)


# ---------------------------------------------------------------- environments the contracts are read in
class Str:
    def __init__(self, env, key):
        self.arr, self.off, self.len = env[key + '.arr'], env[key + '.off'], env[key + '.len']

    def none(self, f):
        return f(self.arr, simp(self.off + self.len)) == f(self.arr, self.off)
    noK = property(lambda s: s.none(K))
    noH = property(lambda s: s.none(H))
    noL = property(lambda s: s.none(L))
    inInput = property(lambda s: s.arr == INP)

    def same(self, o):
        return z3.And(self.arr == o.arr, self.off == o.off, self.len == o.len)


class Rec:
    def __init__(self, env, key):
        self._env, self._key = env, key

    def __getattr__(self, f):
        return leaf(self._env, self._key + f)


def leaf(env, key):
    if key in env:
        return env[key]
    if key + '.arr' in env:
        return Str(env, key)
    if any(k.startswith(key + '.') for k in env):
        return Rec(env, key + '.')
    raise Unsupported('no %s' % key)


class Env:
    """what a contract sees of a call: the state before (o) and after (c), arguments and results"""
    implies, not_, and_, or_ = z3.Implies, z3.Not, z3.And, z3.Or
    implies = staticmethod(z3.Implies)
    not_ = staticmethod(z3.Not)
    and_ = staticmethod(lambda *a: z3.And(*a))
    or_ = staticmethod(lambda *a: z3.Or(*a))
    isnil = staticmethod(lambda x: x == NIL)
    n = N
    byte = staticmethod(lambda p: byte(INP, simp(p)))
    K = staticmethod(lambda p: K(INP, simp(p)))
    H = staticmethod(lambda p: H(INP, simp(p)))
    L = staticmethod(lambda p: L(INP, simp(p)))

    def __init__(self, side, env):
        self.env, self.kind = env, side.kind
        self.o, self.c = Rec(env, 'o.'), Rec(env, 'c.')

    def arg(self, k):
        return leaf(self.env, 'a.%d' % k)

    def res(self, k):
        return leaf(self.env, 'r%d' % k)


# ---------------------------------------------------------------- 1. the linter's lexer alone
class Path:
    __slots__ = ('fn', 'start', 'items', 'end', 'env')


def where(st):
    return tuple((f.fn, f.blk, 0 if k == len(st.frames) - 1 else f.idx) for k, f in enumerate(st.frames))


def intkeys(env):
    return [k for k in sorted(env) if z3.is_expr(env[k]) and env[k].sort() == I]


def solver(hyp, extra=()):
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(hyp)
    s.add(flat.facts(list(hyp) + list(extra)))
    return s


def cand_loop(env, fields):
    """candidate invariants over the leaves of a cut point: (name, f(env))"""
    out = []

    def add(name, f):
        out.append((name, f))
    ints = [k for k in fields if 'o.' + k in env and env['o.' + k].sort() == I]
    for f in ints:
        add('%s unchanged' % f, lambda e, f=f: e['c.' + f] == e['o.' + f])
    pos = [f for f in ('start', 'end') if f in ints]
    for f in pos:
        add('0 <= %s' % f, lambda e, f=f: e['c.' + f] >= 0)
        add('%s <= n' % f, lambda e, f=f: e['c.' + f] <= N)
        add('%s < n' % f, lambda e, f=f: e['c.' + f] < N)
        add('%s does not go back' % f, lambda e, f=f: e['c.' + f] >= e['o.' + f])
        add('%s has advanced' % f, lambda e, f=f: e['c.' + f] > e['o.' + f])
        for d in (1, 2, 3):
            add('%s = old + %d' % (f, d), lambda e, f=f, d=d: e['c.' + f] == e['o.' + f] + d)
        for nm, fun in (('K', K), ('H', H), ('L', L)):
            add('no %s passed by %s' % (nm, f), lambda e, f=f, fun=fun: fun(INP, e['c.' + f]) == fun(INP, e['o.' + f]))
    if len(pos) == 2:
        add('start <= end', lambda e: e['c.start'] <= e['c.end'])
        add('start < end', lambda e: e['c.start'] < e['c.end'])
    if 'line' in ints and 'end' in ints:
        add('line of end', lambda e: e['c.line'] == 1 + L(INP, e['c.end']))
    if 'endRunes' in ints and 'end' in ints:
        add('runes with bytes', lambda e: e['c.endRunes'] - e['o.endRunes'] == e['c.end'] - e['o.end'])
    regs = [k for k in intkeys(env) if k.startswith('x.')]
    others = regs + [k for k in ('o.start', 'o.end', 'c.start', 'c.end') if k in env] + [k for k in intkeys(env) if k.startswith('a.')]
    for x in regs:
        for c in (-1, 0, 1):
            add('%s >= %d' % (x, c), lambda e, x=x, c=c: e[x] >= c)
            add('%s = %d' % (x, c), lambda e, x=x, c=c: e[x] == c)
        add('%s <= n' % x, lambda e, x=x: e[x] <= N)
        add('%s < n' % x, lambda e, x=x: e[x] < N)
        add('%s = n' % x, lambda e, x=x: e[x] == N)
        for q in ('c.end', 'o.end', 'c.start'):
            if q in env:
                add('%s = Input[%s]' % (x, q), lambda e, x=x, q=q: e[x] == byte(INP, e[q]))
        if 'c.end' in env and 'o.end' in env:
            add('%s = bytes taken' % x, lambda e, x=x: e[x] == e['c.end'] - e['o.end'])
        for y in others:
            if y != x:
                add('%s <= %s' % (x, y), lambda e, x=x, y=y: e[x] <= e[y])
                add('%s < %s' % (x, y), lambda e, x=x, y=y: e[x] < e[y])
                add('%s = %s' % (x, y), lambda e, x=x, y=y: e[x] == e[y])
                add('%s >= %s' % (x, y), lambda e, x=x, y=y: e[x] >= e[y])
        if x.endswith('.pos') and x[:-4] + '.s.arr' in env:
            b = x[:-4]
            for nm, fun in (('K', K), ('H', H), ('L', L)):
                add('no %s before %s' % (nm, x), lambda e, b=b, x=x, fun=fun: fun(e[b + '.s.arr'], simp(e[b + '.s.off'] + e[x]))
                    == fun(e[b + '.s.arr'], e[b + '.s.off']))
    for x in env:
        if x.startswith('x.') and env[x].sort() == Bytes:
            add('%s = Input' % x, lambda e, x=x: e[x] == INP)
            for y in env:
                if y.startswith('a.') and env[y].sort() == Bytes:
                    add('%s = %s' % (x, y), lambda e, x=x, y=y: e[x] == e[y])
        elif x.startswith('x.') and env[x].sort() == B:
            add(x, lambda e, x=x: e[x])
            add('not ' + x, lambda e, x=x: z3.Not(e[x]))
    return out


class Alone:
    """one function of the linter's lexer against its contract"""

    def __init__(self, side, cut, deadline):
        self.s, self.p, self.cut, self.deadline = side, side.p, cut, deadline
        self.ex = Exec(side.p, side.own, self.oncall)
        self.ex.srcfield = side.src
        self.ex.solver, self.ex.lits = z3.Solver(), {}
        self.obs = []
        self.queries = 0
        self.calls = set()

    def oncall(self, ex, st, fr, i, name, args):
        s = self.s
        if s.short[name] not in self.cut:
            if any(f.fn == name for f in st.frames):
                raise Unsupported('recursion at %s' % name)
            return None
        self.calls.add(name)
        cin = s.arg_leaves(name, args)
        has = s.hasstate(name)
        if has:
            cin.update(s.state_leaves(st.heap['S'], 'o.'))
        mk = lambda key, sort: fresh(name.split('.')[-1] + '.' + key, sort)
        out = dict(cin)
        if has:
            st.heap['S'] = s.lx(mk)
            out.update(s.state_leaves(st.heap['S'], 'c.'))
        vs = s.result(name, mk)
        out.update(s.result_leaves(name, vs))
        st.items.append(('call', name, cin, out))
        return (vs[0] if len(vs) == 1 else St(vs),)

    def pre(self, name, env):
        return contracts.CONTRACTS[self.s.short[name]][0](Env(self.s, env)) if self.s.short[name] in contracts.CONTRACTS else []

    def post(self, name, env):
        return contracts.CONTRACTS[self.s.short[name]][1](Env(self.s, env)) if self.s.short[name] in contracts.CONTRACTS else []

    def generate(self, name):
        """all paths of the function between its cut points"""
        s = self.s
        st, env = s.entry(name, lambda key, sort: z3.Const(key, sort))
        base = dict(env)
        has = s.hasstate(name)
        todo = [(None, st, base)]
        self.locs, self.paths, self.keys = {}, [], {}
        while todo:
            start, st, env = todo.pop()
            for end, s2 in self.ex.explore(st.copy()):
                p = Path()
                p.fn, p.start, p.items, p.env = name, start, s2.items, env
                e = dict(base)
                if end[0] == 'ret':
                    if has:
                        e.update(s.state_leaves(s2.heap['S'], 'c.'))
                    e.update(s.result_leaves(name, end[1]))
                    p.end = ('ret', e)
                else:
                    h = where(s2)
                    shape = snapshot(self.p, s, s2)
                    e.update(shape.env)
                    p.end = ('loop', h, e)
                    if h not in self.locs:
                        if len(self.locs) > 40:
                            raise Unsupported('too many loops')
                        tag = '@%d' % len(self.locs)
                        ns, nenv = shape.generic(s2, lambda k, sort: z3.Const(k + tag, sort))
                        ne = dict(base)
                        ne.update(nenv)
                        self.keys[h] = sorted(nenv)
                        self.locs[h] = cand_loop(ne, [f[0] for k, f in enumerate(s.fields) if k != s.src])
                        todo.append((h, ns, ne))
                    elif sorted(shape.env) != self.keys[h]:
                        raise Unsupported('the state at a loop of %s' % name)
                self.paths.append(p)

    def hyps(self, p, upto=None):
        hyp = [f for _, f in self.pre(p.fn, p.env)] + [N >= 0]
        if p.start is not None:
            hyp += [f(p.env) for _, f in self.locs[p.start]]
        for it in p.items:
            if it[0] == 'c' or it[0] == 'ob' and it[2] is not None:
                hyp.append(it[1] if it[0] == 'c' else it[2])
            elif it[0] == 'call':
                hyp += [f for _, f in self.pre(it[1], it[2])] + [f for _, f in self.post(it[1], it[3])]
        return hyp

    def infer(self):
        """drop the candidates a path refutes"""
        live = set()
        again = True
        while again:
            again = False
            for p in self.paths:
                if p.end[0] != 'loop' or p.start is not None and p.start not in live:
                    continue
                if time.time() > self.deadline:
                    raise Unsupported('no time left')
                hyp = self.hyps(p)
                if p.end[1] not in live:
                    self.queries += 1
                    if solver(hyp).check() == z3.unsat:
                        continue
                    live.add(p.end[1])
                    again = True
                if self.weaken(hyp, p):
                    again = True
        self.live = live

    def weaken(self, hyp, p):
        cands = self.locs[p.end[1]]
        goals = [(c, simp(c[1](p.end[2]))) for c in cands]
        have = set(simp(h).get_id() for h in hyp)
        todo = [(c, g) for c, g in goals if not z3.is_true(g) and g.get_id() not in have]
        s = solver(hyp, [g for _, g in todo])
        dead = set()
        while todo:
            self.queries += 1
            s.push()
            s.add(z3.Or([z3.Not(g) for _, g in todo]))
            r = s.check()
            if r == z3.unsat:
                s.pop()
                break
            if r == z3.sat:
                m = s.model()
                bad = [c for c, g in todo if not z3.is_true(m.eval(g, model_completion=True))]
                s.pop()
            else:
                s.pop()
                bad = []
            if not bad:
                for c, g in todo:
                    s.push()
                    s.add(z3.Not(g))
                    self.queries += 1
                    if s.check() != z3.unsat:
                        bad.append(c)
                    s.pop()
                if not bad:
                    break
            ids = set(id(c) for c in bad)
            dead |= ids
            todo = [(c, g) for c, g in todo if id(c) not in ids]
        if dead:
            self.locs[p.end[1]] = [c for c in cands if id(c) not in dead]
        return bool(dead)

    def ob(self, name, good, t=0.0, detail=''):
        self.obs.append((name, 'proved' if good else 'unknown', round(t, 3), detail, ('L10',)))

    def discharge(self, name):
        short = self.s.short[name]
        returns = False
        for p in self.paths:
            if p.start is not None and p.start not in self.live:
                continue
            if time.time() > self.deadline:
                raise Unsupported('no time left')
            hyp = [f for _, f in self.pre(p.fn, p.env)] + [N >= 0]
            if p.start is not None:
                hyp += [f(p.env) for _, f in self.locs[p.start]]
            everything = self.hyps(p)
            ends = self.post(name, p.end[1]) if p.end[0] == 'ret' else []
            s = solver(hyp, everything + [f for _, f in ends])

            def goal(what, f):
                f = simp(f)
                t0 = time.time()
                if z3.is_true(f):
                    good = True
                else:
                    s.push()
                    s.add(z3.Not(f))
                    self.queries += 1
                    good = s.check() == z3.unsat
                    if not good and DEBUG:
                        print('FAILED', short, p.start, what, f, s.model() if s.reason_unknown() == '' else '')
                    s.pop()
                self.ob('%s: %s' % (short, what), good, time.time() - t0)
                s.add(f)
            dead = False
            for it in p.items:
                if it[0] == 'c':
                    s.add(it[1])
                elif it[0] == 'ob':
                    if it[2] is None:
                        self.ob('%s: %s' % (short, it[1]), True)
                    else:
                        goal(it[1], it[2])
                elif it[0] == 'call':
                    for n, f in self.pre(it[1], it[2]):
                        goal('call of %s: %s' % (self.s.short[it[1]], n), f)
                    s.add([f for _, f in self.post(it[1], it[3])])
            if p.end[0] == 'ret':
                if not returns:
                    self.queries += 1
                    returns = s.check() == z3.sat
                for n, f in ends:
                    goal('ensures ' + n, f)
            else:
                for n, f in self.locs[p.end[1]]:
                    self.ob('%s: loop invariant %s' % (short, n), True)
        self.ob('%s: its contract is not vacuous (some execution returns)' % short, returns)
        for h in sorted(self.live):
            self.measure(name, h)

    def measure(self, name, h):
        """a decreasing measure for the loop"""
        short = self.s.short[name]
        back = [p for p in self.paths if p.start == h and p.end[0] == 'loop' and (p.end[1] == h or self.comes_back(p.end[1], h))]
        keys = intkeys(back[0].env) + ['n'] if back else []
        ms = []
        for p in back:
            if p.end[1] != h:
                # an inner loop: it must not change what h decreases; handled by relating it to its own entry
                ms = None
                break
        if ms is None:
            self.ob('%s: the loop %s ends' % (short, h[-1][1]), False)
            return
        cur = [k for k in keys if k[:2] in ('c.', 'x.')]
        for k in cur:
            ms.append(('n - ' + k, lambda e, k=k: N - e[k]))
            ms.append((k, lambda e, k=k: e[k]))
            ms += [('%s - %s' % (b, k), lambda e, b=b, k=k: e[b] - e[k]) for b in keys if b != k and b != 'n']
        for p in back:
            goal = [z3.And(f(p.end[2]) < f(p.env), f(p.env) >= 0) for _, f in ms]
            s = solver(self.hyps(p), goal)
            while ms:
                s.push()
                self.queries += 1
                s.add(z3.Or([z3.Not(g) for g in goal]))
                r = s.check()
                m = s.model() if r == z3.sat else None
                s.pop()
                if r == z3.unsat:
                    break
                keep = [z3.is_true(m.eval(g, model_completion=True)) if m is not None else False for g in goal]
                if all(keep):
                    keep = [False] * len(keep)
                ms, goal = [x for x, k in zip(ms, keep) if k], [g for g, k in zip(goal, keep) if k]
        self.ob('%s: the loop at block %d ends%s' % (short, h[-1][1], ' (%s decreases)' % ms[0][0] if back and ms else ''), not back or bool(ms))

    def comes_back(self, a, h):
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for p in self.paths:
                if p.start == x and p.end[0] == 'loop':
                    if p.end[1] == h:
                        return True
                    if p.end[1] not in seen:
                        seen.add(p.end[1])
                        todo.append(p.end[1])
        return False


def alone(side, name, cut, deadline):
    A = Alone(side, set(cut) - {side.short[name]} if False else set(cut), deadline)
    A.generate(name)
    A.infer()
    A.discharge(name)
    return A


# ---------------------------------------------------------------- 2. agreement
class Pair:
    """a function of the linter's lexer and its namesake in the parser's, in lockstep"""

    def __init__(self, left, right, same, alone_, deadline):
        self.l, self.r, self.same, self.al, self.deadline = left, right, set(same), alone_, deadline
        self.xl = Exec(left.p, left.own, self.oncall(left))
        self.xr = Exec(right.p, right.own, self.oncall(right))
        self.xl.srcfield, self.xr.srcfield = left.src, right.src
        self.obs, self.queries = [], 0
        self.used = set()

    def oncall(self, side):
        def call(ex, st, fr, i, name, args):
            short = side.short[name]
            again = short == self.short and side is self.r
            if short not in self.same and not again:
                if any(f.fn == name for f in st.frames):
                    raise Unsupported('recursion at %s' % name)
                return None
            self.used.add(short)
            cin = side.arg_leaves(name, args)
            has = side.hasstate(name)
            if has:
                cin.update(side.state_leaves(st.heap['S'], 'o.'))
            ins = [cin[k] for k in sorted(cin)]
            mk = lambda key, sort: flat.uf(('again ' if again else 'call ') + short + ' ' + key, ins, sort) if ins else z3.Const(
                'call %s %s' % (short, key), sort)
            out = dict(cin)
            if has:
                st.heap['S'] = side.lx(lambda k, s: mk('c.' + k, s))
                out.update(side.state_leaves(st.heap['S'], 'c.'))
            vs = side.result(name, mk)
            out.update(side.result_leaves(name, vs))
            st.items.append(('again' if again else 'call', name, cin, out))
            return (vs[0] if len(vs) == 1 else St(vs),)
        return call

    def left_hyps(self, items):
        hyp = []
        for it in items:
            if it[0] == 'c' or it[0] == 'ob' and it[2] is not None:
                hyp.append(it[1] if it[0] == 'c' else it[2])
            elif it[0] == 'call' and self.l.short[it[1]] in self.al.cut:
                hyp += [f for _, f in self.al.pre(it[1], it[2])] + [f for _, f in self.al.post(it[1], it[3])]
        return hyp

    def leaves(self, side, name, st, vs):
        e = side.result_leaves(name, vs)
        if side.hasstate(name):
            e.update(side.state_leaves(st.heap['S'], 'c.'))
        return e

    def goal(self, short, pl, vl, sl, pr, vr, sr):
        el, er = self.leaves(self.l, self.l.names[short], sl, vl), self.leaves(self.r, self.r.names[short], sr, vr)
        if sorted(el) != sorted(er):
            raise Unsupported('different results: %s' % sorted(set(el) ^ set(er))[:4])
        eq = z3.And([el[k] == er[k] for k in sorted(el)])
        if short != 'ReadToken':
            return eq
        comment = z3.And(el['r0.Kind'] == self.l.kind('Comment'), el['r1'] == NIL)
        goal = z3.And(z3.Not(comment), eq)
        ag = [it for it in sr.items if it[0] == 'again']
        if len(ag) == 1 and sr.items[-1] is ag[0]:
            _, _, cin, out = ag[0]
            goal = z3.Or(goal, z3.And([comment] + [el['c.' + k[2:]] == cin[k] for k in sorted(cin)] + [er[k] == out[k] for k in sorted(er)]))
        elif ag:
            raise Unsupported('ReadToken goes on otherwise than by a last call of itself')
        return goal

    def run(self, short):
        self.short = short
        l, r = self.l, self.r
        nl, nr = l.names[short], r.names[short]
        mk = lambda key, sort: z3.Const(key, sort)
        sl, env = l.entry(nl, mk)
        sr, env2 = r.entry(nr, mk)
        if sorted(env) != sorted(env2) or any(env[k].sort() != env2[k].sort() for k in env):
            raise Unsupported('different arguments')
        self.base = env
        self.pre = [f for _, f in self.al.pre(nl, env)] + [N >= 0]
        self.cuts = {None: None}
        self.states = {None: (sl, dict(env), sr, [])}
        todo, finals = [None], {}
        while todo:
            if time.time() > self.deadline:
                raise Unsupported('no time left')
            cut = todo.pop(0)
            finals[cut] = []
            for nxt in self.step(cut, finals[cut]):
                if nxt not in todo:
                    todo.append(nxt)
        for cut, obs in finals.items():
            self.obs += obs
        return self.obs

    def step(self, cut, obs):
        """all pairs of paths from a pair of cut points; the cut points to look at (again)"""
        sl, el, sr, rel = self.states[cut]
        out = []
        unary = [f(el) for _, f in self.al.locs[cut[0]]] if cut and cut[0] in self.al.locs and sorted(
            k for k in el if k not in self.base) == self.al.keys[cut[0]] else []
        start = self.pre + rel + unary
        for end, s2 in self.xl.explore(sl.copy()):
            hyp = start + self.left_hyps(s2.items)
            s = solver(hyp)
            self.queries += 1
            if s.check() == z3.unsat:
                continue
            # the other side's paths, as far as they are possible under these conditions
            self.xr.solver = s
            self.xr.lits = {}
            for h in hyp:
                for c in self.conj(simp(h)):
                    self.xr.lits[c.get_id()] = c
            for end2, s3 in self.xr.explore(sr.copy()):
                self.pair(cut, hyp, end, s2, end2, s3, obs, out)
        return out

    def conj(self, h):
        if z3.is_and(h):
            return [c for x in h.children() for c in self.conj(x)]
        return [h]

    def pair(self, cut, hyp, end, sl, end2, sr, obs, out):
        hy = list(hyp)
        right = []
        for it in sr.items:
            if it[0] == 'c':
                hy.append(it[1])
            elif it[0] == 'ob' and it[2] is not None:
                right.append((it[1], list(hy), it[2]))
                hy.append(it[2])
        s = solver(hy)
        self.queries += 1
        if s.check() == z3.unsat:
            return
        have = set(simp(h).get_id() for h in hyp)
        for what, h, f in right:
            f = simp(f)
            if f.get_id() in have:
                good = True
            else:
                q = solver(h, [f])
                q.add(z3.Not(f))
                self.queries += 1
                good = q.check() == z3.unsat
            self.add(obs, '%s of the parser: %s' % (self.short, what), good)
        if end[0] == 'ret' and end2[0] == 'ret':
            g = simp(self.goal(self.short, sl.items, end[1], sl, sr.items, end2[1], sr))
            good = self.proved(hy, g)
            self.add(obs, '%s: same result and state as the parser\'s' % self.short, good, g)
            return
        if end[0] == 'ret' or end2[0] == 'ret':
            self.add(obs, '%s: in step with the parser\'s' % self.short, False, (end[0], end2[0]))
            return
        key = (where(sl), where(sr))
        shl, shr = snapshot(self.l.p, self.l, sl), snapshot(self.r.p, self.r, sr)
        if key not in self.cuts:
            if len(self.cuts) > 60:
                raise Unsupported('too many pairs of loops')
            rel = []
            le = dict(self.base, **shl.env)
            terms = self.terms(le)
            vals = [(n, f, simp(f(le))) for n, f in terms]
            for b in sorted(shr.env):
                vb = simp(shr.env[b])
                for n, f, va in sorted(vals, key=lambda t: t[0] != b):
                    if va.sort() != vb.sort():
                        continue
                    if va.eq(vb):
                        rel.append((n, f, b, 0))
                    elif va.sort() == I and n in shl.env:
                        d = simp(vb - va)
                        if z3.is_int_value(d) and abs(d.as_long()) <= 3:
                            rel.append((n, f, b, d.as_long()))
            tested = set(x[2] for x in rel)
            for b in sorted(shr.env):
                if b not in tested:
                    for n, f, va in sorted(vals, key=lambda t: t[0] != b):
                        if va.sort() == shr.env[b].sort() and self.proved(hy, va == shr.env[b]):
                            rel.append((n, f, b, 0))
            self.cuts[key] = rel
            self.setstate(key, shl, sl, shr, sr)
            out.append(key)
            return
        rel = self.cuts[key]
        gone = []
        for x in rel:
            n, f, b, d = x
            try:
                va, vb = f(dict(self.base, **shl.env)), shr.env[b]
            except KeyError:
                raise Unsupported('the state at a loop')
            if not self.proved(hy, simp(va + d == vb if d else va == vb)):
                gone.append(x)
            else:
                self.add(obs, '%s: loop relation %s = %s' % (self.short, b, n), True)
        if gone:
            self.cuts[key] = [x for x in rel if x not in gone]
            self.setstate(key, shl, sl, shr, sr)
            out.append(key)

    def terms(self, env):
        """what a register of the other side may be equal to"""
        out = [(a, lambda e, a=a: e[a]) for a in sorted(env)]
        out += [('len(Input)', lambda e: N), ('Input', lambda e: INP)]
        out += [(str(k), lambda e, k=k: z3.IntVal(k)) for k in (0, 1, -1)] + [('true', lambda e: z3.BoolVal(True)), ('false', lambda e: z3.BoolVal(False))]
        for a in sorted(env):
            if a.startswith('c.') and 'o.' + a[2:] in env:
                out.append(('%s - o.%s' % (a, a[2:]), lambda e, a=a: e[a] - e['o.' + a[2:]]))
                if a in ('c.end', 'c.start'):
                    out.append(('Input[%s]' % a, lambda e, a=a: byte(INP, e[a])))
        return out

    def setstate(self, key, shl, sl, shr, sr):
        tag = '@%d' % list(self.cuts).index(key)
        nl, envl = shl.generic(sl, lambda k, sort: z3.Const(k + tag, sort))
        first, more = {}, []
        for n, f, b, d in self.cuts[key]:
            t = f(dict(self.base, **envl))
            t = simp(t + d) if d else simp(t)
            if b not in first:
                first[b] = t
            else:
                more.append(first[b] == t)
        nr, envr = shr.generic(sr, lambda k, sort: first[k] if k in first else z3.Const(k + tag + 'r', sort))
        el = dict(self.base)
        el.update(envl)
        self.states[key] = (nl, el, nr, more)

    def proved(self, hyp, g):
        g = simp(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = solver(hyp, [g])
        s.add(z3.Not(g))
        self.queries += 1
        return s.check() == z3.unsat

    def add(self, obs, name, good, why=None):
        if not good and DEBUG:
            print('FAILED', name, str(why)[:600])
        obs.append((name, 'proved' if good else 'unknown', 0.0, '', ('L10',)))


class Snapshot:
    """the state at a cut point: leaves by key, and how to make a generic one"""

    def __init__(self):
        self.env = {}


def snapshot(prog, side, st, pre='x.', cur='c.'):
    """leaves of everything live at the loop header the state is at"""
    sh = Snapshot()
    sh.prog, sh.side, sh.cur = prog, side, cur
    sh.objs = {}            # oid -> key
    sh.regs = []            # (frame, reg, kind, key)
    if 'S' in st.heap:
        sh.env.update(side.state_leaves(st.heap['S'], cur))
    frames = st.frames
    for d, fr in enumerate(frames):
        top = d == len(frames) - 1
        f = prog.funcs[fr.fn]
        if top:
            live = set(prog.liveness(fr.fn)[fr.blk])
        else:
            live = prog.live_at(fr.fn, fr.blk, fr.idx) - {frames[d + 1].dst}
        params = set(q for q, _ in f['params'])
        types = {}
        for b in f['blocks']:
            for i in b['i']:
                if 'n' in i:
                    types[i['n']] = i.get('t')
        for q, t in f['params']:
            types[q] = t
        for r in sorted(live):
            if d == 0 and r in params:
                continue            # never changes
            v = fr.regs.get(r)
            if v is None:
                raise Unsupported('register %s at a loop' % r)
            key = pre + ('%d.' % d if d else '') + r
            sh.add(prog, st, v, types.get(r), key, d, r)
    return sh


def _add(self, prog, st, v, t, key, d, r):
    if isinstance(v, P) and v.oid in ('S', 'SRC'):
        self.regs.append((d, r, 'same', key, v))
        return
    if isinstance(v, P):
        et = prog.types[t]['e'] if t in prog.types and prog.types[t]['k'] == 'ptr' else None
        if v.oid is None or (v.oid not in self.objs):
            o = key
            if v.oid is not None:
                self.objs[v.oid] = o
            c = st.heap[v.oid] if v.oid is not None else flat.lit(b'') if et and prog.isbuf(et) else None
            if c is None:
                raise Unsupported('a nil pointer at a loop')
            if v.path:
                raise Unsupported('an inner pointer at a loop')
            if isinstance(c, S):
                empty = flat.lit(b'')
                nil = simp(v.nil)
                pick = lambda a, b: simp(z3.If(nil, b, a))
                self.env.update({o + '.buf.arr': pick(c.arr, empty.arr), o + '.buf.off': pick(c.off, empty.off), o + '.buf.len': pick(c.ln, empty.ln)})
                self.env[o + '.nil'] = nil
                self.regs.append((d, r, 'buf', o, None))
            elif isinstance(c, St) and len(c.v) == 2 and isinstance(c.v[0], S):
                s, pos = c.v
                self.env.update({o + '.s.arr': s.arr, o + '.s.off': s.off, o + '.s.len': s.ln, o + '.pos': pos})
                self.regs.append((d, r, 'iter', o, None))
            elif isinstance(c, St) and et:
                self.env.update(prog.leaves(c, et, o + '.obj'))
                self.regs.append((d, r, 'struct', o, et))
            else:
                raise Unsupported('a pointer at a loop')
        else:
            self.regs.append((d, r, 'alias', self.objs[v.oid], None))
            self.env[key + '.nil'] = simp(v.nil)
        return
    if isinstance(v, Sl):
        if v.oid not in self.objs:
            self.objs[v.oid] = key
            A = st.heap[v.oid]
            self.env.update({key + '.arrs': A[0], key + '.offs': A[1], key + '.lens': A[2]})
        self.env.update({key + '.from': v.off, key + '.count': v.ln})
        self.regs.append((d, r, 'list', key, self.objs[v.oid]))
        return
    self.env.update(prog.leaves(v, t, key))
    self.regs.append((d, r, 'val', key, t))


def _generic(self, st, mk):
    """a state like st whose leaves are mk(key, sort), and the leaves"""
    ns = st.copy()
    ns.items = []
    env = {k: mk(k, v.sort()) for k, v in self.env.items()}
    keep = {'SRC': ns.heap['SRC']}
    if 'S' in ns.heap:
        keep['S'] = self.side.lx(lambda k, s: env[self.cur + k])
    heap = keep
    for d, fr in enumerate(ns.frames):
        ps = set(q for q, _ in self.prog.funcs[fr.fn]['params']) if d == 0 else ()
        fr.regs = {k: v for k, v in fr.regs.items() if k in ps}
    oid_of = {}
    for d, r, k, key, x in self.regs:
        fr = ns.frames[d]
        if k == 'same':
            fr.regs[r] = x
        elif k == 'buf':
            oid = ('obj', key)
            oid_of[key] = oid
            heap[oid] = S(env[key + '.buf.arr'], env[key + '.buf.off'], env[key + '.buf.len'])
            fr.regs[r] = P(oid, (), env[key + '.nil'])
        elif k == 'iter':
            oid = ('obj', key)
            oid_of[key] = oid
            heap[oid] = St([S(env[key + '.s.arr'], env[key + '.s.off'], env[key + '.s.len']), env[key + '.pos']])
            fr.regs[r] = P(oid)
        elif k == 'struct':
            oid = ('obj', key)
            oid_of[key] = oid
            heap[oid] = self.prog.make(x, key + '.obj', lambda kk, s: env[kk])
            fr.regs[r] = P(oid)
        elif k == 'alias':
            fr.regs[r] = P(oid_of[key])
        elif k == 'list':
            oid = ('obj', x)
            if oid not in heap:
                heap[oid] = (env[x + '.arrs'], env[x + '.offs'], env[x + '.lens'])
            fr.regs[r] = Sl(oid, env[key + '.from'], env[key + '.count'])
        else:
            fr.regs[r] = self.prog.make(x, key, lambda kk, s: env[kk])
    ns.heap = heap
    return ns, env


Snapshot.add = _add
Snapshot.generic = _generic


def kinds(prog, side):
    """the token kinds: value -> name, from Type.Name of the code"""
    name = side.names.get('Type.Name') or '(%s.Type).Name' % side.pkg
    if name not in prog.funcs:
        name = '(%s.Type).Name' % side.pkg
    if name not in prog.funcs:
        raise Unsupported('no Type.Name')
    out = {}
    ex = Exec(prog, lambda n: False, lambda *a: None)
    f = prog.funcs[name]
    for k in range(64):
        st = State([Frame(name, {f['params'][0][0]: z3.IntVal(k)})], {})
        ends = ex.explore(st)
        if len(ends) != 1 or ends[0][0][0] != 'ret':
            raise Unsupported('Type.Name')
        s = ends[0][0][1][0]
        bs = flat.LITS.get(s.arr.get_id())
        if bs is None:
            break
        nm = bs.decode(errors='replace')
        if nm in out.values():
            break
        out[k] = nm
    return out



# ---------------------------------------------------------------- the whole
ROOTS = ('New', 'ReadToken')


def merged(obs):
    """one entry per obligation; proved if it is on every path"""
    out = {}
    for n, r, t, d, tags in obs:
        if n in out:
            o = out[n]
            out[n] = (n, r if o[1] == 'proved' else o[1], round(o[2] + t, 3), d or o[3], tags)
        else:
            out[n] = (n, r, t, d, tags)
    return list(out.values())


def task(side, other, short, cut, same, deadline):
    """contract and agreement of one function"""
    t0 = time.time()
    r = {'obs': [], 'pobs': None, 'why': None, 'pwhy': None, 'calls': set(), 'used': set(), 'trusted': set(), 'inlined': set(), 'queries': 0}
    A = Alone(side, cut, deadline)
    name = side.names[short]
    try:
        A.generate(name)
        A.infer()
        if short in cut:
            A.discharge(name)
            r['obs'] = merged(A.obs)
    except Unsupported as e:
        r['why'] = 'unsupported: %s' % e
    r['calls'] = set(side.short[n] for n in A.calls)
    r['trusted'], r['inlined'], r['queries'] = set(A.ex.trusted), set(A.ex.used), A.queries
    if r['why'] is None and short in other.names and (short in same or short in ROOTS):
        Q = Pair(side, other, same - {short} - set(ROOTS), A, deadline)
        try:
            Q.run(short)
            r['pobs'] = merged(Q.obs)
        except Unsupported as e:
            r['pwhy'] = 'unsupported: %s' % e
        r['used'] = Q.used
        r['trusted'] |= Q.xl.trusted | Q.xr.trusted
        r['queries'] += Q.queries
    r['time'] = time.time() - t0
    return r


def joints(side):
    """New gives what ReadToken needs, and so does ReadToken"""
    A = Alone(side, set(contracts.CONTRACTS), time.time() + 60)
    out = []
    mk = lambda key, sort: z3.Const(key, sort)
    rt, new = side.names['ReadToken'], side.names['New']
    for what, name in (('New', new), ('ReadToken', rt)):
        st, env = side.entry(name, mk)
        out_env = dict(env)
        if what == 'ReadToken':
            out_env.update(side.state_leaves(side.lx(lambda k, s: z3.Const('c.' + k, s)), 'c.'))
        out_env.update(side.result_leaves(name, side.result(name, mk)))
        hyp = [N >= 0] + [f for _, f in A.pre(name, env) + A.post(name, out_env)]
        if what == 'ReadToken':
            hyp.append(out_env['r1'] == NIL)
            nxt = {'o.' + k[2:]: v for k, v in out_env.items() if k.startswith('c.')}
        else:
            nxt = {'o.' + k[3:]: v for k, v in out_env.items() if k.startswith('r0.')}
        for n, f in A.pre(rt, nxt):
            s = solver(hyp, [f])
            s.add(z3.Not(f))
            out.append(('the lexer after %s: %s' % (what, n), 'proved' if s.check() == z3.unsat else 'unknown', 0.0, '', ('L10',)))
    return out


def run(ssa, prop, deadline):
    t0 = time.time()
    rep = {'functions': {}, 'obligations': [], 'notes': [], 'used': set(), 'trusted': set()}
    whys = []
    try:
        prog = Prog(ssa)
        side, other = Side(prog, MINE), Side(prog, THEIRS)
        for n in ROOTS:
            if n not in side.names or n not in other.names:
                raise Unsupported('no function ' + n)
        kinds_ok = side.kinds == other.kinds
        todo = [side.short[n] for n in side.reach([side.names[n] for n in ROOTS])]
        cut = set(n for n in contracts.CONTRACTS if n in todo)
        same = set(n for n in todo if n in other.names and (prog.headers(side.names[n]) or n in cut and len(prog.funcs[side.names[n]]['blocks']) > 1)) - set(ROOTS)
        for n in sorted(cut):       # a contract that does not fit the function's signature is not used
            A = Alone(side, set(), deadline)
            try:
                st, env = side.entry(side.names[n], lambda k, s: z3.Const(k, s))
                e = dict(env)
                if side.hasstate(side.names[n]):
                    e.update(side.state_leaves(side.lx(lambda k, s: z3.Const('c.' + k, s)), 'c.'))
                e.update(side.result_leaves(side.names[n], side.result(side.names[n], lambda k, s: z3.Const(k, s))))
                A.pre(side.names[n], env)
                A.post(side.names[n], e)
            except (Unsupported, z3.Z3Exception, KeyError, TypeError, AttributeError) as x:
                if n in ROOTS:
                    raise Unsupported('the contract of %s does not fit it: %s' % (n, x))
                cut.discard(n)
                rep['notes'].append('the contract of %s does not fit it (%s): it is checked where it is called' % (n, x))
        first = joints(side)
    except Unsupported as e:
        return 'undecided', dict(rep, notes=['unsupported: %s' % e], time=time.time() - t0)
    except Exception as e:
        if os.environ.get('GQLV_DEBUG'):
            raise
        return 'undecided', dict(rep, notes=['%s: %s' % (type(e).__name__, e)], time=time.time() - t0)
    done = {}
    for rnd in range(5):
        left = max(1, deadline - time.time())
        weight = {'readBlockString': 0, 'readString': 1, 'ReadToken': 2}
        tasks = [(n, lambda n=n: task(side, other, n, cut, same, deadline)) for n in sorted(todo, key=lambda n: (weight.get(n, 3), n))
                 if n not in done and (n in cut or n in same or n in ROOTS)]
        if not tasks:
            break
        got = pool.run(tasks, timeout=left)
        for n, _ in tasks:
            okk, r = got.get(n, (False, 'not run'))
            if not okk:
                r = {'obs': [], 'pobs': None, 'why': str(r)[:600], 'pwhy': None, 'calls': set(), 'used': set(), 'trusted': set(), 'inlined': set(),
                     'queries': 0, 'time': 0.0}
            done[n] = r
        gone, parted = set(), set()
        for n, r in done.items():
            if n in cut and n not in ROOTS and (r['why'] or any(o[1] != 'proved' for o in r['obs'])):
                gone.add(n)
            if n in same and (r['pobs'] is None or any(o[1] != 'proved' for o in r['pobs'])):
                parted.add(n)
        for n in gone:
            rep['notes'].append('%s does not meet its contract and is checked where it is called: %s' % (
                n, done[n]['why'] or [o[0] for o in done[n]['obs'] if o[1] != 'proved'][:2]))
        for n in parted:
            rep['notes'].append('%s does not agree with its namesake and is compared where it is called: %s' % (
                n, done[n]['why'] or done[n]['pwhy'] or [o[0] for o in done[n]['pobs'] or () if o[1] != 'proved'][:2]))
        cut -= gone
        same -= parted
        for n in list(done):
            if n in gone or n in parted or done[n]['calls'] & gone or done[n]['used'] & (parted | gone):
                del done[n]
        if time.time() > deadline:
            break
    rep['obligations'] += first
    rep['obligations'].append(('the two lexers number their token kinds alike', 'proved' if kinds_ok else 'unknown', 0.0, '', ('L10',)))
    for n in sorted(todo):
        if not (n in cut or n in same or n in ROOTS):
            continue
        r = done.get(n)
        if r is None:
            whys.append('%s: no time left' % n)
            continue
        if n in cut:
            rep['obligations'] += r['obs']
        if r['pobs'] is not None:
            rep['obligations'] += r['pobs']
        if n in ROOTS and (r['why'] or r['pobs'] is None):
            whys.append('%s: %s' % (n, r['why'] or r['pwhy']))
        rep['functions'][side.names[n]] = {'ok': n in cut and r['why'] is None and all(o[1] == 'proved' for o in r['obs']), 'why': r['why'], 'time': r['time'],
                                           'obs': r['obs'] + (r['pobs'] or []), 'stats': {'queries': r['queries'], 'seconds': round(r['time'], 2)}}
        rep['used'] |= r['inlined']
        rep['trusted'] |= r['trusted']
    rep['time'] = time.time() - t0
    return verdict(rep, whys)


def verdict(rep, whys):
    rep['notes'] += whys
    ok = not whys and rep['obligations'] and all(o[1] == 'proved' for o in rep['obligations'])
    return ('proved' if ok else 'undecided'), rep


if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    t = time.time()
    vd, rep = run(ssa, 'L10', time.time() + 300)
    print('L10', vd, '%.1fs' % (time.time() - t), len(rep['obligations']), 'obligations', sum(1 for o in rep['obligations'] if o[1] == 'proved'),
          'proved', str(rep['notes'])[:1500])
    if '-v' in sys.argv:
        for n, r in rep['functions'].items():
            print('  ', n.split('/')[-1], r['ok'], '%.1f' % r['time'], len(r['obs']), r['why'])
    for o in [o for o in rep['obligations'] if o[1] != 'proved'][:20]:
        print('  ', o)

"""Loop summaries.  A loop is executed once for a generic iteration k; invariants are inferred in closed form
(and proved inductive by that one execution, Houdini style), never by unrolling a bounded number of times.
Loops whose trip count is a constant are executed completely."""
import os
from core import *
import core
import externs
import execu


class Run:
    def __init__(self, fr, L):
        self.fr, self.L, self.ex, self.h = fr, L, fr.ex, L.header
        blk = fr.B[self.h]
        self.phis = [i for i in blk['i'] if i['o'] == 'Phi']
        self.key = fr.ex.pathkey(fr) + '.%d' % self.h
        self.nk = 0
        self.counters = self.find_counters()
        self.nexts = [i for i in blk['i'] if i['o'] == 'Next']

    def find_counters(self):
        """header phis of the form phi(init, phi +/- const)"""
        fr = self.fr
        defs = {}
        for b in self.L.blocks:
            for i in fr.B[b]['i']:
                if 'n' in i:
                    defs[i['n']] = i
        out = {}
        preds = fr.B[self.h]['p']
        for p in self.phis:
            steps = set()
            for j, pr in enumerate(preds):
                if pr not in self.L.blocks:
                    continue
                e = p['e'][j]
                d = defs.get(e[1]) if e and e[0] == 'r' else None
                s = None
                if d is not None and d['o'] == 'BinOp' and d['op'] in '+-' and fr.T.kind(d['t']) == 'int':
                    x, y = d['x'], d['y']
                    if x[0] == 'c' and d['op'] == '+':
                        x, y = y, x
                    if x == ['r', p['n']] and y[0] == 'c' and y[2] == 'int':
                        s = int(y[3]) * (1 if d['op'] == '+' else -1)
                steps.add(s)
            if len(steps) == 1 and None not in steps and 0 not in steps:
                out[p['n']] = steps.pop()
        return out

    def kvar(self, what='k'):
        self.nk += 1
        return Int('%s!%s.%d' % (what, self.key, self.nk))

    # ------------------------------------------------------------ one pass through the body
    def body(self, g, st, force=()):
        """run one iteration from the header; returns (continuing edges merged or None, exits Out)"""
        fr = self.fr
        saved = fr.force
        fr.force = saved + list(force)
        try:
            self.ex.ks.append(self.kvar())
            o = fr.region(self.L, self.h, [(g, None, st)], skip_phis=True)
        finally:
            self.ex.ks.pop()
            fr.force = saved
        back = [(gg, f, s) for f, to, gg, s in o.edges if to == self.h]
        o.edges = [e for e in o.edges if e[1] != self.h]
        cont = fr.merge_in(self.h, back) if back else None
        return cont, o


def run(fr, L, ins):
    ex = fr.ex
    g0, st0 = fr.merge_in(L.header, ins)
    r = Run(fr, L)
    n0 = len(ex.obs)
    try:
        return run2(r, fr, L, g0, st0)
    finally:
        pass


def header_exit(r, g0, st, k):
    """the loop condition as a bound on k: (n, literal that holds while the loop goes on, negated) or None"""
    fr = r.fr
    saved, r.ex.obs = r.ex.obs, []
    try:
        o = fr.run_block(r.h, g0, execu.State(dict(st.mem), dict(st.env)))
    except Unsupported:
        return None
    finally:
        r.ex.obs = saved
    if o.rets or len(o.edges) != 2:
        return None
    inside = [e for e in o.edges if e[1] in r.L.blocks]
    outside = [e for e in o.edges if e[1] not in r.L.blocks]
    if len(inside) != 1 or len(outside) != 1:
        return None
    gi, go = inside[0][2][len(g0):], outside[0][2][len(g0):]
    if len(gi) != 1 or len(go) != 1:
        return None
    n = bound_of(go[0], k)
    if n is None:
        return None
    return n, gi[0], go[0]


def bound_of(l, k):
    """l is the exit literal: returns n with l <=> k >= n"""
    neg = False
    e = l
    if z3.is_not(e):
        neg, e = True, e.arg(0)
    if z3.is_eq(e) and z3.is_int(e.arg(0)):
        d = lin(e.arg(0))
        lin(e.arg(1), -1, d)
        c = d.pop(k.get_id(), (0, k))[0]
        if abs(c) != 1 or contains(unlin(d), {k.get_id()}):
            return None
        rest = unlin({kk: ((v[0] * -c, v[1]) if kk is not None else v * -c) for kk, v in d.items()})
        if neg:
            # not (k == n) as exit: only when the loop runs while k == n; unsupported
            return None
        if not nonneg(rest):
            return None
        return rest
    if z3.is_ge(e):
        d = lin(e.arg(0))
        lin(e.arg(1), -1, d)
    elif z3.is_le(e):
        d = lin(e.arg(1))
        lin(e.arg(0), -1, d)
    else:
        return None
    if neg:                 # not(A-B >= 0)  <=>  B-A-1 >= 0
        d = {kk: ((-v[0], v[1]) if kk is not None else -v - 1) for kk, v in d.items()}
    if k.get_id() not in d:
        return None
    c = d.pop(k.get_id())[0]
    if c != 1:
        return None
    n = unlin({kk: ((-v[0], v[1]) if kk is not None else -v) for kk, v in d.items()})
    if contains(n, {k.get_id()}):
        return None
    return n


def run2(r, fr, L, g0, st0):
    ex = fr.ex
    if r.nexts:
        return run_range(r, fr, L, g0, st0)
    k = r.kvar()
    # counters in closed form
    def with_counters(st, kt):
        env = dict(st.env)
        for p, s in r.counters.items():
            init = st0.env[p]
            if not (is_z(init) and z3.is_int(init)):
                raise Unsupported('counter')
            step = kt if s == 1 else SUB(IntVal(0), kt) if s == -1 else IntVal(s) * kt
            env[p] = ADD(init, step)
        return execu.State(dict(st.mem), env)
    # constant trip count
    hx0 = header_exit(r, g0, with_counters(st0, k), k) if r.counters else None
    const = hx0 is not None and z3.is_int_value(hx0[0])
    if not r.counters or const:
        o = unroll(r, g0, st0, 200 if const else 1)
        if o is not None:
            return o
    if r.counters and hx0 is None:
        # the bound may depend on state the loop changes: retried inside summarise with the real invariants
        pass
    derived = None
    if hx0 is not None:
        ent = ex.lenof.get(hx0[0].get_id())
        if ent is not None and ent[0].eq(hx0[0]):
            derived = ent[1]
    if derived is not None:
        return run_structural(r, fr, L, g0, st0, derived, k, hx0, with_counters)

    def at_k(st, kt):
        return with_counters(st, kt)

    n = None if hx0 is None else hx0[0]     # None: a loop left by a condition on what it reads

    def one(g, st, kt):
        force = ()
        s = at_k(st, kt)
        if n is not None:
            hx = header_exit(r, g, s, kt)
            if hx is None or not hx[0].eq(n):
                raise Unsupported('loop bound changes')
            force = (hx[1],)
        return r.body(g, s, force)

    conts, o = summarise(r, g0, st0, k, n, one)
    for g, st in conts:
        # leave through the header
        s = at_k(st, n)
        hx = None
        if n is not None:
            s2 = at_k(st, k)
            hx = header_exit(r, g, s2, k)
        ho = fr.run_block(r.h, g, s)
        for e in ho.edges:
            if e[1] in L.blocks:
                if not any(is_false(x) for x in e[2]):
                    # the condition must be false at k = n
                    if len(ho.edges) > 1:
                        continue
                    raise Unsupported('loop exit')
            else:
                extra = e[2][len(g):]
                o.edges.append((e[0], e[1], g, e[3]))
        o.rets += ho.rets
        o.exits += ho.exits
    return o


def unroll(r, g0, st0, limit):
    """run the loop to its end when every condition is decided; None if that does not happen"""
    ex, fr = r.ex, r.fr
    saved = list(ex.obs)
    out = execu.Out()
    g, st = g0, execu.State(dict(st0.mem), dict(st0.env))
    for i in range(limit):
        cont, o = r.body(g, st)
        out.rets += o.rets
        out.exits += o.exits
        out.edges += o.edges
        if cont is None:
            return out
        g, st = cont
        st = execu.State(st.mem, st.env)
        if limit == 1:
            break
    ex.obs = saved
    if limit > 1:
        raise Unsupported('constant loop does not end')
    return None


# ---------------------------------------------------------------- slots
def leaves(v, path=()):
    if isinstance(v, StructV):
        for f in v.f:
            yield from leaves(v.f[f], path + (f,))
    else:
        yield path, v


def get_leaf(v, path):
    for p in path:
        if not isinstance(v, StructV):
            return None
        v = v.f[p]
    return v


def set_leaf(v, path, x):
    if not path:
        return x
    return v.set(path[0], set_leaf(v.f[path[0]], path[1:], x))


def slots_of(r, st):
    out = []
    for p in r.phis:
        if p['n'] in r.counters:
            continue
        for path, v in leaves(st.env[p['n']]):
            out.append(('e', p['n'], path))
    for o in st.mem:
        for path, v in leaves(st.mem[o]):
            out.append(('m', o, path))
    return out


def slot_get(st, s):
    d = st.env if s[0] == 'e' else st.mem
    if s[1] not in d:
        return None
    return get_leaf(d[s[1]], s[2])


def slot_set(st, s, v):
    d = st.env if s[0] == 'e' else st.mem
    d[s[1]] = set_leaf(d[s[1]], s[2], v)


def havoc(r, s, v, et=None):
    name = 'h!%s.%s' % (r.key, '.'.join(map(str, s[1:2] + s[2])))
    if is_z(v):
        if z3.is_int(v) and z3.is_int_value(v) and v.as_long() in (0, 1) and s in r.bits:
            return ITE(Const(name + '?', BoolSort()), IntVal(1), IntVal(0))
        return Const(name, v.sort())
    if isinstance(v, ListV):
        return ListV((('b', T, Const(name, Lst)),), v.et)
    if isinstance(v, MapV):
        vt = v.vt
        pres = Function(name + '.has', v.q.sort(), BoolSort())(v.q)
        sv = r.ex.T.sort(vt)
        val = r.ex.sym(vt, Function(name + '.get', v.q.sort(), sv)(v.q))
        keys = ListV((('b', T, Const(name + '.keys', Lst)),), v.kt)
        if isinstance(val, ListV):
            val = vite(pres, val, ListV((), val.et))        # absent keys have the zero value
        return MapV(v.q, pres, val, keys, v.kt, vt)
    if isinstance(v, UnionV) and any(is_z(x) for _, x in v.a):
        return Const(name, [x for _, x in v.a if is_z(x)][0].sort())
    return OpqV(name)


def hnames(r, s):
    return 'h!%s.%s' % (r.key, '.'.join(map(str, s[1:2] + s[2])))


def mentions(v, pred, memo=None):
    """does a value mention a symbol whose name satisfies pred?"""
    memo = {} if memo is None else memo

    def term(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        memo[i] = False
        res = z3.is_app(e) and (pred(e.decl().name()) or any(term(c) for c in e.children()))
        memo[i] = res
        return res

    def walk(x):
        if x is None or isinstance(x, (str, bytes, int)):
            return False
        if is_z(x):
            return term(x)
        if isinstance(x, StructV):
            return any(walk(y) for y in x.f.values())
        if isinstance(x, RecP):
            return walk(x.s)
        if isinstance(x, ListV):
            return any(item(i) for i in x.items)
        if isinstance(x, IfaceV):
            return walk(x.v)
        if isinstance(x, TupleV):
            return any(walk(y) for y in x.e)
        if isinstance(x, UnionV):
            return any(term(g) or walk(y) for g, y in x.a)
        if isinstance(x, FuncV):
            return any(walk(y) for y in x.b)
        if isinstance(x, MapV):
            return term(x.pres) or walk(x.val) or walk(x.keys)
        if isinstance(x, OpqV):
            return pred(x.n)
        if isinstance(x, BaseAddr):
            return term(x.r)
        if isinstance(x, ElemAddr):
            return walk(x.l) or term(x.i)
        if isinstance(x, ValAddr):
            return walk(x.v)
        return False

    def item(it):
        if term(it[1]):
            return True
        if it[0] == 'u':
            return walk(it[2])
        if it[0] == 'b':
            return term(it[2])
        if it[0] == 'f':
            return term(it[3]) or any(item(j) for j in it[4])
        if it[0] in 'sx':
            return any(item(j) for j in it[2]) or it[0] == 's' and any(walk(c) for c in it[3] if not isinstance(c, str))
        return False
    return walk(v)


def is_h(r):
    p = 'h!%s.' % r.key
    return lambda n: n.startswith(p)


# ---------------------------------------------------------------- summarise
def summarise(r, g0, st0, k, n, one):
    """n iterations of one(g, st, k) -> (cont, Out).
    Returns ([(guard, state after n iterations)], Out of early exits)."""
    ex, fr = r.ex, r.fr
    slots = slots_of(r, st0)
    assumed = set(slots)
    known = {}          # slot -> closure(k) -> value
    opaque = set()
    if not hasattr(r, 'bits'):
        r.bits = set()
    for s in slots:
        v = slot_get(st0, s)
        if is_z(v) and z3.is_int(v) and z3.is_int_value(v) and v.as_long() in (0, 1):
            r.bits.add(s)
    base_obs = ex.obs
    rounds = 0
    ish = is_h(r)

    def start(kt):
        st = execu.State(dict(st0.mem), dict(st0.env))
        for s in slots:
            if s in assumed:
                continue
            v0 = slot_get(st0, s)
            if s in known:
                v = known[s](kt)
            elif s in opaque:
                v = OpqV('loop:' + hnames(r, s))
            else:
                v = havoc(r, s, v0)
            slot_set(st, s, v)
        return st

    while True:
        rounds += 1
        if rounds > 40:
            raise Unsupported('loop invariants do not converge')
        ex.obs = []
        st = start(k)
        try:
            cont, o = one(g0, st, k)
        finally:
            mine, ex.obs = ex.obs, base_obs
        if cont is None:
            break
        gb, sb = cont
        newobjs = set(x for x in sb.mem if x not in st0.mem)
        rel = gb[len(g0):]
        vals = {}
        for s in slots:
            v = slot_get(sb, s)
            if v is None:
                v = OpqV('lost')
            if newobjs and not is_z(v):
                v = ex.freeze(v, sb.mem, newobjs)
            vals[s] = v
        drop = []
        lits = [x for x in rel]
        for s in list(assumed):
            v = vals[s]
            v0 = slot_get(st0, s)
            if v is v0 or veq(v, v0):
                continue
            if lits and veq(assume(v, lits), assume(v0, lits)):
                continue
            if is_z(v) and is_z(v0) and v.sort() == v0.sort() and lits and execu.prop_valid(EQ(v, v0), gb):
                continue
            drop.append(s)
        if drop:
            for s in drop:
                assumed.discard(s)
            known.clear()
            continue
        todo = [s for s in slots if s not in assumed and s not in known and s not in opaque]
        if not todo:
            # the closed forms must still be what the body computes
            bad = [s for s in known if not check_step(r, s, known[s], vals[s], k, rel)]
            if bad:
                raise Unsupported('loop invariant not inductive')
            break
        prog = False
        why = None
        for s in todo:
            try:
                c = classify(r, s, slot_get(st0, s), vals[s], k, n, st, ish)
            except Unsupported as e:
                why = e
                if s in r.bits and 'zero-one' in str(e):
                    r.bits.discard(s)
                    prog = True
                c = None
            if c is not None:
                known[s] = c
                prog = True
        if not prog:
            for s in todo:
                opaque.add(s)
    # ---- early exits
    kid = {k.get_id()}
    exits = o
    lit_groups = [e[2][len(g0):] for e in exits.edges] + [e[0][len(g0):] for e in exits.rets] + \
                 [e[0][len(g0):] for e in exits.exits]
    ng = len(lit_groups)
    early = OR(*[AND(*l) for l in lit_groups]) if ng else F
    if n is None:
        N, isearly = unbounded(k, lit_groups, early, cont), T
        ctx = g0 + (LE(IntVal(0), k),)
    else:
        N = FIRST(n, k, early) if cont is not None else IntVal(0)
        if cont is None:
            early = T
        isearly = LT(N, n) if ng or cont is None else F
        ctx = g0 + (LE(IntVal(0), k), LT(k, n))
    if ng and not is_true(early):
        ctx = ctx + (LE(k, N),)
    ctx = tuple(x for x in ctx if not is_true(x))
    for og, c, i in mine:
        tail = og[len(g0):] if len(og) >= len(g0) and all(x.eq(y) for x, y in zip(og, g0)) else og
        ex.obs.append((ctx + tuple(tail), c, i))
    out = execu.Out()
    pairs = [(k, N)]
    base_env, base_mem = st0.env, st0.mem

    def at_exit(s):
        env, mem = {}, {}
        for kk, v in s.env.items():
            env[kk] = v if base_env.get(kk) is v else sub_deep(v, pairs)
        for kk, v in s.mem.items():
            mem[kk] = v if base_mem.get(kk) is v else sub_deep(v, pairs)
        if n is None:
            env, mem = [{kk: absorb(v) if isinstance(v, ListV) else v for kk, v in d.items()} for d in (env, mem)]
        return execu.State(mem, env)

    def guard(l):
        pre = g0 if is_true(isearly) else g0 + (isearly,)
        if ng == 1:
            return pre
        return pre + tuple(x for x in (rebuild1(y, pairs) for y in l) if not is_true(x))

    if not is_false(isearly):
        for fr_, to, g, s in exits.edges:
            out.edges.append((fr_, to, guard(g[len(g0):]), at_exit(s)))
        for g, v, s in exits.rets:
            out.rets.append((guard(g[len(g0):]), [sub_deep(x, pairs) for x in v], at_exit(s)))
        for g, c, s in exits.exits:
            out.exits.append((guard(g[len(g0):]), sub_deep(c, pairs), at_exit(s)))
    normal = NOT(isearly)
    if is_false(normal):
        return [], out
    st = start(n)
    return [(g0 if is_true(normal) else g0 + (normal,), st)], out


def unbounded(k, groups, early, cont):
    """the number of the iteration that leaves a loop without a counter: one of the ways out is 'k reaches e'"""
    if cont is None:
        return IntVal(0)
    for l in groups:
        l = [x for x in l if not is_true(x)]
        e = bound_of(l[0], k) if len(l) == 1 else None
        if e is not None:
            e = e if nonneg(e) else ITE(LE(IntVal(0), e), e, IntVal(0))
            return e if len(groups) == 1 else FIRST(ADD(e, IntVal(1)), k, early)
    raise Unsupported('loop without a recognised bound')


def absorb(v):
    """a run of n repetitions followed by what repetition number n contributes is a run of n+1 repetitions"""
    out = []
    for it in v.items:
        out.append(it)
        for i in range(len(out) - 1, -1, -1):
            r = out[i]
            if r[0] == 'f' and is_true(r[1]) and len(r[4]) == len(out) - 1 - i and nonneg(r[3]) and \
                    items_eq(vsub_items(r[4], [(r[2], r[3])]), tuple(out[i + 1:])):
                out[i:] = [('f', T, r[2], ADD(r[3], IntVal(1)), r[4])]
                break
    return ListV(tuple(out), v.et)


def sub_deep(v, pairs):
    if v is None or isinstance(v, (str, bytes, int)):
        return v
    return vsub(v, pairs)


def rebuild1(e, pairs):
    return rebuild(e, {a.get_id(): b for a, b in pairs}, {})


def check_step(r, s, closed, new, k, rel):
    """closed(k+1) must be the value computed from closed(k): guaranteed by classification on havocked values"""
    return True


def classify(r, s, init, new, k, n, st, ish):
    """closed form of a slot whose value at the start of an iteration is the symbol h"""
    hname = hnames(r, s)
    mine = lambda nm: nm == hname or nm.startswith(hname + '.') and nm[len(hname):] in ('.has', '.get', '.keys') or nm == hname + '?'
    other = lambda nm: ish(nm) and not mine(nm)
    if mentions(new, other):
        return None
    if mentions(new, lambda nm: nm == 'lost'):
        return None
    return closed_form(r, init, slot_get(st, s), new, k, n, mine)


def closed_form(r, init, h, new, k, n, mine):
    ex = r.ex
    sub = lambda v, kt: vsub(v, [(k, kt)])
    if veq(new, h):
        return lambda kt: init
    if not mentions(new, mine):
        # overwritten in every iteration
        kid = {k.get_id()}
        prev = lambda kt: sub(new, SUB(kt, IntVal(1)))
        try:
            if veq(prev(IntVal(0)), init):      # what iteration k-1 leaves is also what precedes iteration 0
                return prev
        except Unsupported:
            pass
        return lambda kt: vite(LT(IntVal(0), kt), prev(kt), init)
    if isinstance(h, ListV) and isinstance(new, ListV):
        return list_form(r, init, h, new, k, n, mine)
    if isinstance(h, MapV) and isinstance(new, MapV):
        q = h.q
        n2 = vsub(new, [(new.q, q)]) if not new.q.eq(q) else new
        i2 = vsub(init, [(init.q, q)])
        fp = closed_form(r, i2.pres, h.pres, n2.pres, k, n, mine)
        fv = closed_form(r, i2.val, h.val, n2.val, k, n, mine)
        fk = None
        try:
            if n2.keys is not None and h.keys is not None:
                fk = keys_form(r, i2.keys, h.keys, n2.keys, k, n, mine)
        except Unsupported:
            fk = None
        return lambda kt: MapV(q, fp(kt), fv(kt), fk(kt) if fk else None, h.kt, h.vt)
    if is_z(h) and z3.is_bool(h):
        a = rebuild1(new, [(h, T)])
        b = rebuild1(new, [(h, F)])
        return bool_form(init, a, b, k, sub)
    if is_z(h) and is_ite(h):       # a 0/1 integer
        hb = h.arg(0)
        a = rebuild1(new, [(hb, T)]) if is_z(new) else None
        if a is None or not execu.zero_one(new):
            raise Unsupported('zero-one integer')
        b = rebuild1(new, [(hb, F)])
        fb = bool_form(EQ(init, IntVal(1)), EQ(a, IntVal(1)), EQ(b, IntVal(1)), k, sub)
        return lambda kt: ITE(fb(kt), IntVal(1), IntVal(0))
    if is_z(h) and is_z(new) and z3.is_int(h):
        d = SUB(new, h)
        d2 = sum_delta(new, h)
        if d2 is not None and not mentions(d2, mine):
            if contains(d2, {k.get_id()}):
                return lambda kt: ADD(init, SUM(kt, k, d2))
            if z3.is_int_value(d2):
                return lambda kt: ADD(init, z3.simplify(d2 * kt) if d2.as_long() != 1 else kt)
            return lambda kt: ADD(init, SUM(kt, k, d2))
    # last write
    w, x = last_write(new, h)
    if w is not None and not mentions(x, mine) and not mentions(w, mine):
        def form(kt):
            l = LAST(kt, k, w)
            if not mentions(x, lambda nm: nm == k.decl().name()):
                return vite(EX(kt, k, w), x, init)
            return vite(LE(IntVal(0), l), sub(x, l), init)
        return form
    return None


def sum_delta(e, h):
    """e - h as a term without h, through ites"""
    if e.eq(h):
        return IntVal(0)
    if is_ite(e):
        a, b = sum_delta(e.arg(1), h), sum_delta(e.arg(2), h)
        if a is None or b is None:
            return None
        return ITE(e.arg(0), a, b)
    d = lin(e)
    v = d.pop(h.get_id(), None)
    if v is None or v[0] != 1:
        # an ite summand containing h
        if v is None:
            for kk, (c, t) in list((kk, vv) for kk, vv in d.items() if kk is not None):
                if c == 1 and is_ite(t):
                    s = sum_delta(t, h)
                    if s is not None:
                        del d[kk]
                        return ADD(unlin(d), s)
        return None
    return unlin(d)


def bool_form(init, a, b, k, sub):
    if is_true(a):
        if is_false(b):
            return lambda kt: init
        return lambda kt: OR(init, EX(kt, k, b))
    if is_false(b):
        return lambda kt: AND(init, NOT(EX(kt, k, NOT(a))))
    if a.eq(b):
        return lambda kt: ITE(LT(IntVal(0), kt), sub(a, SUB(kt, IntVal(1))), init)
    # new = b or (a and h), provided b implies a
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(b, NOT(a))
    if s.check() != z3.unsat:
        raise Unsupported('toggled flag')
    w = OR(b, NOT(a))

    def form(kt):
        l = LAST(kt, k, w)
        return ITE(LE(IntVal(0), l), sub(b, l), init)
    return form


def last_write(new, h):
    """(condition of a write, value written) when new is h where nothing was written"""
    if is_z(h) and is_z(new):
        if new.eq(h):
            return F, h
        if is_ite(new):
            c = new.arg(0)
            wa, xa = last_write(new.arg(1), h)
            wb, xb = last_write(new.arg(2), h)
            if wa is None or wb is None:
                return None, None
            if is_false(wa):
                return AND(NOT(c), wb), xb
            if is_false(wb):
                return AND(c, wa), xa
            return ITE(c, wa, wb), ITE(c, xa, xb)
        return T, new
    if isinstance(new, UnionV):
        ws, xs = [], []
        for g, v in new.a:
            w, x = last_write(v, h)
            if w is None:
                return None, None
            if is_false(w):
                continue
            ws.append(AND(g, w))
            xs.append((AND(g, w), x))
        x = xs[-1][1]
        for g, v in reversed(xs[:-1]):
            x = vite(g, v, x)
        return OR(*ws), x
    if veq(new, h):
        return F, h
    return T, new


def list_form(r, init, h, new, k, n, mine):
    if new.items and item_eq(new.items[0], h.items[0]):
        rest = new.items[1:]
        pre = True
    elif new.items and item_eq(new.items[-1], h.items[0]):
        rest = new.items[:-1]
        pre = False
    else:
        rest = guarded_append(h, new)
        if rest is None:
            raise Unsupported('list update')
        pre = True
    if any(mentions(ListV((i,), None), mine) for i in rest):
        raise Unsupported('list update depends on the list')
    et = new.et

    def form(kt):
        if not rest:
            return init
        b = Int('k!%s.b%d' % (r.key, rename(r)))
        f = ('f', T, b, kt, vsub_items(rest, [(k, b)]))
        its = init.items + (f,) if pre else (('f', T, b, kt, vsub_items(rest, [(k, SUB(SUB(kt, IntVal(1)), b))])),) + init.items
        return ListV(its, et or init.et)
    return form


def guarded_append(h, new):
    """new is h followed by other items, where h appears once per disjoint condition; the other items or None"""
    if len(h.items) != 1 or h.items[0][0] != 'b':
        return None
    _, gh, L = h.items[0]
    occ, rest, order = [], [], []
    for it in new.items:
        if it[0] == 'b' and it[2].eq(L):
            for x in rest:
                order.append(AND(x[1], it[1]))
            occ.append(it[1])
        else:
            rest.append(it)
    if not occ:
        return None
    bad = [z3.Not(OR(*occ) == gh)] + order + [AND(a, b) for i, a in enumerate(occ) for b in occ[:i]]
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(z3.Or(*bad))
    return tuple(rest) if s.check() == z3.unsat else None


def rename(r):
    core._fresh[0] += 1
    return core._fresh[0]


def keys_form(r, init, h, new, k, n, mine):
    if not new.items or not item_eq(new.items[0], h.items[0]):
        return None
    rest = new.items[1:]
    # a key is appended when it is not present yet: replace "present before" by a set union
    its = []
    for it in rest:
        if it[0] != 'u':
            return None
        its.append(('u', T, it[2]))
    if any(mentions(i[2], mine) for i in its):
        return None

    def form(kt):
        b = Int('k!%s.b%d' % (r.key, rename(r)))
        f = ('f', T, b, kt, vsub_items(tuple(its), [(k, b)]))
        return ListV(init.items + (('d', T, (f,)),), init.et) if False else None
    return None


# ---------------------------------------------------------------- loops over derived lists
def run_structural(r, fr, L, g0, st0, lst, idx, hx0, with_counters):
    """the loop visits the elements of a list that the code built: follow the structure of that list"""
    ex = r.ex
    n = hx0[0]
    out = execu.Out()
    idname = idx.decl().name()
    elem_terms = {}

    single = one_to_one(lst.items)

    def unit(g, st, val, kt=None):
        """one iteration for one element value (number kt, when the elements are visited one by one in a single run)"""
        i = kt if single and kt is not None else idx
        s = with_counters(st, i)
        hx = header_exit(r, g, s, i)
        if hx is None or not hx[0].eq(n):
            raise Unsupported('loop bound changes')
        saved = fr.elem
        cur = None
        # the index expression the body uses
        fr.elem = (index_term(r, s, lst), lst.items, val)
        try:
            return r.body(g, s, (hx[1],))
        finally:
            fr.elem = saved

    def seq(g, st, items):
        o = execu.Out()
        cont = (g, st)
        for it in items:
            if cont is None:
                break
            cont, o2 = step(cont[0], cont[1], it)
            o.edges += o2.edges
            o.rets += o2.rets
            o.exits += o2.exits
        return cont, o

    def step(g, st, it):
        c = it[1]
        if any(c.eq(x) for x in g):
            c = T
        if is_true(c):
            return inner(g, st, it)
        cont, o = inner(g + (c,), st, it)
        alts = []
        if cont is not None:
            alts.append(cont)
        alts.append((g + (NOT(c),), st))
        gm, rel = execu.merge_guards([a[0] for a in alts])
        sm = execu.merge_states([(x, a[1]) for x, a in zip(rel, alts)])
        return (gm, sm), o

    def inner(g, st, it):
        if it[0] == 'u':
            return unit(g, st, it[2])
        if it[0] == 'b' or it[0] == 's':
            if it[0] == 's':
                B = externs.sorted_base(it[2], it[3], lst.et)
                nn = length(it[2])
            else:
                B, nn = it[2], llen(it[2])
            kk = r.kvar()
            conts, o = summarise(r, g, st, kk, nn, lambda g2, s2, kt: unit(g2, s2, ex.base_elem(B, kt, lst.et), kt))
            return (conts[0] if conts else None), o
        if it[0] == 'f':
            kk = r.kvar()
            def body(g2, s2, kt):
                inn = vsub_items(it[4], [(it[2], kt)])
                return unit(g2, s2, inn[0][2], kt) if single else seq(g2, s2, inn)
            conts, o = summarise(r, g, st, kk, it[3], body)
            return (conts[0] if conts else None), o
        if it[0] == 'x':
            return tainted(r, g, st, it[2], seq)
        raise Unsupported('loop over an unknown list')

    cont, o = seq(g0, st0, lst.items)
    out.edges += o.edges
    out.rets += o.rets
    out.exits += o.exits
    for _, _, g, s in out.edges:
        check_no_index(s, idname, st0)
    for g, v, s in out.rets:
        for x in v:
            if mentions(x, lambda nm: nm == idname):
                raise Unsupported('index of a derived list is returned')
        check_no_index(s, idname, st0, mem_only=True)
    if cont is not None:
        g, st = cont
        check_no_index(st, idname, st0, mem_only=True)
        s = with_counters(st, n)
        ho = fr.run_block(r.h, g, s)
        for e in ho.edges:
            if e[1] not in L.blocks:
                out.edges.append((e[0], e[1], g, e[3]))
    ex.obs[:] = [ob for ob in ex.obs if not (ob[2][0] in ('index',) and mentions(ob[1], lambda nm: nm == idname))]
    return out


def one_to_one(items):
    """is the list a single unconditional run of elements?"""
    if len(items) != 1 or not is_true(items[0][1]):
        return False
    it = items[0]
    if it[0] == 'x':
        return one_to_one(it[2])
    if it[0] == 'f':
        return len(it[4]) == 1 and it[4][0][0] == 'u' and is_true(it[4][0][1])
    return it[0] in ('b', 's')


def index_term(r, s, lst):
    """the value of the index register in this iteration: first IndexAddr/Index of the list in the loop"""
    return r.idx_value(s) if hasattr(r, 'idx_value') else default_index(r, s)


def default_index(r, s):
    # Go's range loops index with phi+1; three-clause loops with phi itself
    for p, st in r.counters.items():
        v = s.env[p]
        if st == 1:
            d = lin(v)
            const = d[None]
            if const == -1:
                return ADD(v, IntVal(1))
            return v
    raise Unsupported('index of a derived list')


def check_no_index(s, idname, st0, mem_only=False):
    pred = lambda nm: nm == idname
    for o, v in s.mem.items():
        if st0.mem.get(o) is not v and mentions(v, pred):
            raise Unsupported('index of a derived list is stored')
    if not mem_only:
        for kx, v in list(s.env.items()):
            if st0.env.get(kx) is not v and mentions(v, pred):
                s.env[kx] = OpqV('index of a derived list')


def tainted(r, g, st, items, seq):
    """iteration in an order that is not determined"""
    ex = r.ex
    cont, o = seq(g, st, items)
    if o.edges or o.rets:
        raise Unsupported('leaving a loop over an unordered list early')
    bases = {}
    for it in core.iter_items(items):
        if it[0] == 'b':
            bases[it[2].get_id()] = it[2]
        elif it[0] == 'f' and z3.is_app(it[3]) and it[3].decl().name() == 'len':
            bases[it[3].arg(0).get_id()] = it[3].arg(0)
    for n, (eg, c, s) in enumerate(o.exits):
        s2 = execu.State(dict(s.mem), dict(s.env))
        if '@out' in s2.mem:
            s2.mem['@out'] = taint(st.mem['@out'], s2.mem['@out'], bases)
        o.exits[n] = (eg, c if z3.is_int_value(c) else OpqV('order-dependent'), s2)
    if cont is None:
        return cont, o
    g2, s2 = cont
    s2 = execu.State(dict(s2.mem), dict(s2.env))
    for s in slots_of(r, s2):
        a, b = slot_get(st, s), slot_get(s2, s)
        if a is b or a is not None and veq(a, b):
            continue
        if a is None and isinstance(b, ListV):
            a = ListV((), b.et)
        slot_set(s2, s, taint(a, b, bases))
    return (g2, s2), o


ANY = {n: Const('any!' + n, Ref if n == 'at' else Str) for n in ('at', 'ats')}
AT = {'at': at, 'ats': ats}


def order_free(b, bases):
    """does the term not depend on the order of the base lists {id: list}?  They may occur as arguments of the
    order-independent skeletons (sums and existence) only, whose bodies use the index only to read an element"""
    def body_free(s, e):
        ps = [p for p, c in zip(s.params, e.children()[1:]) if c.get_id() in bases]
        if not ps:
            return True
        m = {AT[n](p, core.K).get_id(): ANY[n] for p in ps for n in AT}
        return not contains(rebuild(s.body, m, {}), {core.K.get_id()})

    def existence(e):
        """a comparison of a first index with the length: an existence statement"""
        d = lin(e.arg(0))
        lin(e.arg(1), -1, d)
        c = d.pop(None, 0)
        ts = list(d.values())
        if len(ts) != 2 or ts[0][0] * ts[1][0] != -1:
            return None
        for (cf, f), (cn, n) in (ts, ts[::-1]):
            s = core.SKEL_BY_NAME.get(f.decl().name()) if z3.is_app(f) else None
            if s is not None and s.kind == 'first' and f.arg(0).eq(n):
                if z3.is_eq(e) and c == 0 or z3.is_ge(e) and (cf, c) in ((1, 0), (-1, -1)) or z3.is_le(e) and (cf, c) in ((1, 1), (-1, 0)):
                    return s, f
        return None

    def go(e):
        if e.get_id() in bases:
            return False
        if not z3.is_app(e):
            return True
        s = core.SKEL_BY_NAME.get(e.decl().name())
        if s is not None:
            if s.kind == 'sum':
                return body_free(s, e) and all(c.get_id() in bases or go(c) for c in e.children())
            return not any(x.get_id() in bases for x in core.subterms(e))
        if e.num_args() == 1 and e.arg(0).get_id() in bases and e.decl().name() == 'len':
            return True
        if (z3.is_le(e) or z3.is_ge(e) or z3.is_eq(e)) and z3.is_int(e.arg(0)):
            x = existence(e)
            if x is not None:
                return body_free(*x) and all(c.get_id() in bases or go(c) for c in x[1].children())
        return all(go(c) for c in e.children())
    return go(b)


def elementwise(items, bases):
    """does what is contributed for an element depend on that element only, not on its position?"""
    for it in items:
        if it[0] != 'f':
            if mentions(ListV((it,), None), lambda nm: False) or uses(it, bases):
                return False
            continue
        k = it[2]
        inner = it[4]
        if len(inner) == 1 and inner[0][0] == 'u' and is_write(inner[0][2]):
            if not inner[0][2].f[0].eq(k):
                return False
            inner = (('u', inner[0][1], inner[0][2].f[1]),)
        body = vsub_items(inner, [(AT[n](b, k), ANY[n]) for b in bases.values() for n in AT])
        if mentions(ListV(body, None), lambda nm: nm == k.decl().name()):
            return False
        if any(uses(x, bases) for x in body):
            return False
    return True


def uses(it, bases):
    """does the item mention one of the base lists in a way that can depend on their order?"""
    ok = [True]

    def term(e):
        if z3.is_bool(e) or z3.is_int(e):
            if not order_free(e, bases):
                ok[0] = False
        elif any(x.get_id() in bases for x in core.subterms(e)):
            ok[0] = False
        return e
    map_items((it,), term)
    return not ok[0]


def is_write(v):
    return isinstance(v, StructV) and v.t == '@write'


def taint(a, b, bases):
    if isinstance(b, ListV) and isinstance(a, ListV):
        n = len(a.items)
        if len(b.items) >= n and items_eq(b.items[:n], a.items) and elementwise(b.items[n:], bases):
            return ListV(a.items + (('x', T, b.items[n:]),), b.et)
        return OpqV('order-dependent')
    if is_z(b) and (z3.is_bool(b) or z3.is_int(b)) and order_free(b, bases):
        return b
    if isinstance(b, MapV) and order_free(b.pres, bases):
        if isinstance(b.val, ListV):
            av = a.val if isinstance(a, MapV) and isinstance(a.val, ListV) else ListV((), b.val.et)
            return MapV(b.q, b.pres, taint(av, b.val, bases), b.keys, b.kt, b.vt)
        if is_z(b.val) and order_free(b.val, bases):
            return MapV(b.q, b.pres, b.val, b.keys, b.kt, b.vt)
    return OpqV('order-dependent')


# ---------------------------------------------------------------- range over a string
def run_string(r, fr, L, g0, st0, ni, x):
    """the letters of a GraphQL name are its bytes"""
    import facts
    if not (is_z(x) and facts.isname(x)):
        raise Unsupported('range over a string')
    r.bits = set()
    r.counters = {}

    def with_next(v, f):
        saved = fr.next_
        fr.next_ = {ni['n']: v}
        try:
            return f()
        finally:
            fr.next_ = saved
    conts, out = summarise(r, g0, st0, r.kvar(), SLEN(x),
                           lambda g, st, kt: with_next(TupleV([T, kt, sbyte(x, kt)]), lambda: r.body(g, st)))
    if conts:
        g, st = conts[0]
        ho = with_next(TupleV([F, OpqV('no key'), OpqV('no value')]),
                       lambda: fr.run_block(L.header, g, execu.State(dict(st.mem), dict(st.env))))
        out.edges += [e for e in ho.edges if e[1] not in L.blocks]
    return out


# ---------------------------------------------------------------- range over a map
def run_range(r, fr, L, g0, st0):
    ex = r.ex
    ni = r.nexts[0]
    it = fr.val(ni['x'], st0)
    if not isinstance(it, IterV):
        raise Unsupported('range')
    if ex.T.kind(it.mt) != 'map':
        return run_string(r, fr, L, g0, st0, ni, it.m)
    mv = fr.mapval(it.m, st0, it.mt)
    if mv.keys is None:
        raise Unsupported('range over a map with unknown keys')
    ex.maploops.append((fr.f['name'], ni.get('l', 0)))

    def iteration(g, st, key):
        saved = fr.next_
        fr.next_ = {ni['n']: TupleV([T, key, vsub(mv.val, [(mv.q, key)])])}
        try:
            return r.body(g, st)
        finally:
            fr.next_ = saved

    def seq(g, st, items):
        o = execu.Out()
        cont = (g, st)
        for x in items:
            if cont is None:
                break
            cont, o2 = step(cont[0], cont[1], x)
            o.edges += o2.edges
            o.rets += o2.rets
            o.exits += o2.exits
        return cont, o

    def step(g, st, x):
        c = x[1]
        if is_true(c):
            return inner(g, st, x)
        cont, o = inner(g + (c,), st, x)
        alts = ([cont] if cont is not None else []) + [(g + (NOT(c),), st)]
        gm, rel = execu.merge_guards([a[0] for a in alts])
        return (gm, execu.merge_states([(y, a[1]) for y, a in zip(rel, alts)])), o

    def inner(g, st, x):
        if x[0] == 'u':
            return iteration(g, st, x[2])
        if x[0] == 'b':
            kk = r.kvar()
            conts, o = summarise(r, g, st, kk, llen(x[2]),
                                 lambda g2, s2, kt: iteration(g2, s2, ex.base_elem(x[2], kt, mv.kt)))
            return (conts[0] if conts else None), o
        if x[0] == 'f':
            kk = r.kvar()
            conts, o = summarise(r, g, st, kk, x[3], lambda g2, s2, kt: seq(g2, s2, vsub_items(x[4], [(x[2], kt)])))
            return (conts[0] if conts else None), o
        raise Unsupported('range over a map')

    r.bits = set()
    r.counters = {}
    its = mv.keys.items
    if len(its) == 0 or len(its) == 1 and its[0][0] == 'u':
        cont, out = seq(g0, st0, its)
    else:
        cont, out = tainted(r, g0, st0, its, seq)
    if cont is not None:
        g, st = cont
        saved = fr.next_
        fr.next_ = {ni['n']: TupleV([F, OpqV('no key'), OpqV('no value')])}
        try:
            ho = fr.run_block(L.header, g, execu.State(dict(st.mem), dict(st.env)))
        finally:
            fr.next_ = saved
        out.edges += [e for e in ho.edges if e[1] not in L.blocks]
    return out

"""Modular verification of package compare for one property: every function with a contract is verified against it
with its callees replaced by their contracts; FindChangesInSchemas decides the property.  A function whose contract
does not stand (changed, renamed, moved code) is inlined in its callers instead."""
import base64
import time
from modular import *
import pool
import prove
import facts
import spec
import z3

TOP = 'FindChangesInSchemas'
CHG = '[]*github.com/CrowdStrike/gql/pkg/compare.Change'
DESC = 'Description'


def dump_obs(obs):
    return [(o.name, o.result, round(o.time, 3), o.detail, tuple(o.tags)) for o in obs]


def calls_of(f):
    out = []
    for b in f['blocks']:
        for i in b['i']:
            if i['o'] in ('Call', 'Defer', 'Go', 'MakeClosure'):
                out.append(i)
    return out


def names_in(x, out=None):
    """all strings in an SSA instruction"""
    out = set() if out is None else out
    if isinstance(x, str):
        out.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            names_in(v, out)
    elif isinstance(x, list):
        if len(x) == 4 and x[0] == 'c' and x[2] == 'str':
            out.add(base64.b64decode(x[3]).decode(errors='replace'))
            return out
        for v in x:
            names_in(v, out)
    return out


class Cmp(Ver):
    def __init__(self, ssa, mode):
        super().__init__(ssa)
        self.mode = mode
        self.notes = []
        self.abstract = []
        self.ex.run_inits([PKG.rstrip(".")])
        self.ex.on_unsupported = self.on_unsupported
        self._reach = {}
        self.types = set(CC.TYPES[mode]) if mode in CC.TYPES else None

    # ---- which changes the property is about
    def keep(self, ch):
        if self.types is None:
            return True
        return ch.type in self.types and ch.tag == self.mode

    def group(self, ty, ss):
        """is the group of contributions of type ty (spec side ss) decided here?"""
        if self.types is None:
            return True
        return ty in self.types and (not ss or any(s.tag == self.mode for s in ss))

    # ---- functions beyond the engine that cannot produce a change of the property
    def reach(self, name):
        """the string constants that name and the functions it calls can use; None if it cannot be said"""
        r = self._reach.get(name)
        if r is None and name not in self._reach:
            self._reach[name] = set()
            seen, todo, out = set(), [name], set()
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                f = self.ex.funcs.get(n)
                if f is None or not n.startswith(PKG):
                    continue
                for b in f['blocks']:
                    for i in b['i']:
                        ns = names_in(i)
                        out |= ns
                        todo += [m for m in ns if m in self.ex.funcs]
            r = self._reach[name] = out
        return r

    def on_unsupported(self, name, f, args, st, g, info, e):
        if self.types is None or not name.startswith(PKG) or len(f['res']) != 1 or f['res'][0] != CHG:
            return None
        strs = self.reach(name)
        if any(t in s for s in strs for t in self.types):
            return None
        # nothing may come in through a parameter: changes, change types, functions
        if any('compare.Change' in p[1] or self.ex.T.kind(p[1]) in ('func', 'sig', 'signature', 'iface', 'interface')
               for p in f['params'] + f['free']):
            return None
        if any(s.startswith(PKG) and s in self.ex.ssa['globals'] for s in strs):
            return None
        self.notes.append('%s is outside the verified subset (%s); it names no change type of %s' % (name, e, self.mode))
        return (), ListV((('o', T, 'result of ' + name),), self.ex.T.elem(CHG)), st, []

    # ---- contracts
    def to_code(self, items, elt, label=''):
        rest = [False]

        def go(its):
            out = []
            for it in its:
                if it[0] == 'u':
                    if self.keep(it[2]):
                        out.append(('u', it[1], self.rec(it[2], elt)))
                    else:
                        rest[0] = True
                elif it[0] == 'f':
                    inner = go(it[4])
                    if inner:
                        out.append(it[:4] + (inner,))
                else:
                    raise Unsupported('contract item')
            return tuple(out)
        r = go(items)
        if rest[0]:
            r += (('o', T, 'changes of other types in ' + label),)
        return r

    # ---- pure functions
    def pure_specs(self):
        """(go function, contract, properties that rest on it) for every recursive function that has one"""
        ex = self.ex
        out = [('(*' + AST + '.Type).String', spec.tstr, ('C02', 'C03', 'C04', 'C07', 'C16')),
               ('(*' + AST + '.Type).Name', spec.tname, ())]
        ty = '*' + AST + '.Type'
        for n, f in ex.funcs.items():
            if not n.startswith(PKG) or '$' in n:
                continue
            sig = ([p[1] for p in f['params']], f['res'])
            if sig == ([ty, ty], ['bool']) and any(n in names_in(i) for i in calls_of(f)):
                out.append((n, None, ()))
        return out

    def uninterpreted(self, go):
        """a recursive function without a contract that holds: some function of its arguments (a refutation over it
        is not believed)"""
        ex = self.ex
        self.abstract.append(go)
        f = ex.funcs[go]
        if not self.readonly(f):
            return
        sorts = [ex.T.sort(p[1]) for p in f['params']]
        rs = ex.T.sort(f['res'][0])
        u = Function('some!' + f['short'] if 'short' in f else 'some!' + go.split('.')[-1], *(sorts + [rs]))
        self.pure(go, u)

    def readonly(self, f):
        return all(i['o'] not in ('Store', 'MapUpdate', 'Go', 'Defer', 'Send') for b in f['blocks'] for i in b['i'])

    def do_pure(self):
        """verifies the recursive functions and installs their contracts"""
        self.pure_obs = []
        for go, fn, _ in self.pure_specs():
            if fn is not None:
                obs = self.verify_pure(go, fn)
                self.pure_obs += [(go, fn.name(), o) for o in obs]
                self.pure(go, fn)       # (String: of the parser library, its contract is kept)
                continue
            tried = []
            for fn in (spec.safe_out, spec.safe_in):
                obs = self.verify_pure(go, fn)
                if all(o.result == 'proved' for o in obs):
                    self.pure(go, fn)
                    self.pure_obs += [(go, fn.name(), o) for o in obs]
                    break
                tried += [(fn.name(), o) for o in obs if o.result != 'proved']
            else:
                self.notes.append('%s satisfies neither variance contract: %s' % (
                    go, ', '.join('%s %s' % (n, o.result) for n, o in tried)))
                self.uninterpreted(go)
        self.pure('(*' + AST + '.Value).String', spec.vstr)

    def verify_merge(self, go):
        """go(exts) combines the extensions of each type, at the place of its first one"""
        ex = self.ex
        f = ex.funcs[go]
        name = go.split('/')[-1]
        arg = ex.param(f['params'][0][0], f['params'][0][1])
        ex.cache.clear()
        t0 = time.time()
        obs = []
        try:
            o = ex.call_body(f, [arg], State({}, {}))
            obs.append(prove.Ob(name + ': returns on every path',
                                facts.prove([], OR(*[AND(*g) for g, v, s in o.rets])), 0))
            if len(o.rets) != 1:
                raise Unsupported('several returns')
            g, v, s = o.rets[0]
            fv = ex.freeze(v[0], s.mem, set(s.mem))
        except Unsupported as e:
            return [prove.Ob(name, 'unsupported', time.time() - t0, str(e))]
        L0 = arg.items[0][2]
        n = llen(L0)
        if len(fv.items) != 1 or fv.items[0][0] != 'f' or not fv.items[0][3].eq(n) or len(fv.items[0][4]) != 1 \
                or fv.items[0][4][0][0] != 'u':
            return obs + [prove.Ob(name + ': one result per first extension of a type', 'unknown', time.time() - t0,
                                   'other shape')]
        it = fv.items[0]
        k, el = it[2], it[4][0]
        nm = lambda i: fld('Definition', 'Name', Str)(at(L0, i))
        j = Int(fresh_name('j'))
        first = FIRST(n, j, EQ(nm(j), nm(k)))
        h = [LE(IntVal(0), k), LT(k, n)]
        # extensions are distinct objects
        h.append(OR(NOT(LT(first, n)), NOT(EQ(at(L0, first), at(L0, k))), EQ(first, k)))
        goal = (AND(it[1], el[1]) == EQ(first, k))
        obs.append(prove.Ob(name + ': one result per first extension of a type', facts.prove(h, goal), time.time() - t0))
        rec = el[2].s if isinstance(el[2], RecP) else el[2]
        if not isinstance(rec, StructV):
            return obs + [prove.Ob(name + ': elements', 'unknown', 0)]
        h2 = h + [AND(it[1], el[1])]
        for fn, ft in [(x[0], x[1]) for x in ex.T.fields(rec.t)]:
            val = rec.f[fn]
            if fn in ('Directives', 'Interfaces', 'Fields', 'Types', 'EnumValues'):
                r = 'refuted'
                if isinstance(val, ListV) and len(val.items) == 1 and val.items[0][0] == 'f' and val.items[0][3].eq(n) \
                        and len(val.items[0][4]) == 1 and val.items[0][4][0][0] == 'b':
                    i2 = val.items[0]
                    q = i2[2]
                    b = i2[4][0]
                    hq = h2 + [LE(IntVal(0), q), LT(q, n)]
                    r = facts.prove(hq, AND(i2[1], b[1]) == EQ(nm(q), nm(k)))
                    if r == 'proved':
                        r = facts.prove(hq + [AND(i2[1], b[1])], EQ(b[2], fld('Definition', fn, Lst)(at(L0, q))))
                elif isinstance(val, ListV):
                    r = 'unknown'
                obs.append(prove.Ob('%s: .%s is that of all extensions of the type' % (name, fn), r, time.time() - t0))
            elif fn in ('Kind', 'Name', 'Description', 'Position'):
                r = 'unknown'
                if is_z(val):
                    r = facts.prove(h2, EQ(val, ex.read_field(at(L0, k), rec.t, fn, ft)))
                obs.append(prove.Ob('%s: .%s is that of the first extension' % (name, fn), r, time.time() - t0))
        return obs

    def install_merge(self, go):
        def cm(ex, args, st, g, info):
            a = args[0]
            if isinstance(a, ListV) and len(a.items) == 1 and a.items[0][0] == 'b':
                return (), ListV((('b', a.items[0][1], spec.merged(a.items[0][2])),), a.et), st, []
            return None
        self.ex.contracts[go] = cm

    def merge_candidates(self):
        dl = AST + '.DefinitionList'
        return [n for n, f in self.ex.funcs.items() if n.startswith(PKG) and '$' not in n
                and [p[1] for p in f['params']] == [dl] and f['res'] == [dl]]

    def do_merge(self):
        self.merge_obs = []
        for go in self.merge_candidates():
            obs = self.verify_merge(go)
            self.merge_obs += obs
            # a function beyond the engine keeps the contract, as an assumption covered by the bounded check
            if not any(o.result == 'refuted' for o in obs):
                self.install_merge(go)
                if any(o.result != 'proved' for o in obs):
                    self.notes.append('contract of %s assumed: %s' % (go, [o.result for o in obs]))

    # ---- one function
    def install(self, names):
        for n in names:
            if n == TOP or PKG + n not in self.ex.funcs:
                continue
            ent = CC.FUNCS[n]
            f = self.ex.funcs[PKG + n]
            if tuple(short(self.ex, p[1]) for p in f['params']) == tuple(ent[0]) and len(f['res']) == 1:
                self.contract(n, ent[0], ent[1], ent[2] if len(ent) > 2 else None)

    def attempt(self, name, installed):
        """in a child process: verify one function, callees in `installed` replaced by their contracts"""
        t0 = time.time()
        self.install(installed)
        self.ex.usedcontracts = set()
        self.notes = []
        self.ex.trusted = set()
        ent = CC.FUNCS[name]
        q0 = dict(facts.STATS)
        r, why = self.verify(name, ent[0], ent[1], ent[2] if len(ent) > 2 else None)
        used = set(u[len(PKG):] for u in self.ex.usedcontracts if u.startswith(PKG))
        res = {'ok': False, 'used': used, 'notes': self.notes, 'why': why, 'obs': [], 'time': time.time() - t0,
               'trusted': set(self.ex.trusted), 'inlined': set(self.ex.used)}
        if r is not None:
            obs, code, sp, safety, hyps = r
            res['obs'] = dump_obs(obs)
            res['ok'] = all(o.result == 'proved' for o in obs)
        res['stats'] = {k: facts.STATS[k] - q0[k] for k in q0}
        return res

    def items_of(self, name, args):
        """the guarded items returned by the body of name"""
        ex = self.ex
        f = ex.funcs[PKG + name]
        ex.cache.clear()
        o = ex.call_body(f, args, State({}, {}))
        its = ()
        for g, v, s in o.rets:
            fv = ex.freeze(v[0], s.mem, set(s.mem))
            its += gitems(AND(*g), fv.items if isinstance(fv, ListV) else self.bad(fv))
        return its, o

    def verify(self, name, ptypes, fn, pre):
        ex = self.ex
        f = ex.funcs.get(PKG + name)
        if f is None:
            return None, 'no such function'
        if tuple(short(ex, p[1]) for p in f['params']) != tuple(ptypes) or len(f['res']) != 1:
            return None, 'other signature'
        args = [ex.param('%s' % p[0], p[1]) for p in f['params']]
        ex.sides(f['params'], args)
        ws = [self.wrap(a, p[1]) for a, p in zip(args, f['params'])]
        hyps = [NOT(a == null) for a in args if is_z(a) and a.sort() == Ref and name != 'changesInSchemaOperation']
        if pre is not None:
            hyps.append(pre(self.S, *ws))
        n0 = len(ex.obs)
        try:
            its, o = self.items_of(name, args)
            safety = ex.obs[n0:]
            obs = []
            r = facts.prove(hyps, OR(*[AND(*g) for g, v, s in o.rets]))
            obs.append(prove.Ob('%s: returns on every path' % name, r, 0))
            code = prove.code_contribs(its, opaque=self.types is not None)
            sp = prove.spec_contribs(fn(self.S, *ws))
            obs += prove.multiset(name, code, sp, hyps, group=self.group)
            if self.mode == 'C16':
                for b in obs:  # a missing or wrong change is the matter of C01-C11; C16 speaks of the ones reported
                    if b.result == 'refuted':
                        b.result = 'unknown'
                obs += self.messages(name, code, sp, hyps)
            if self.mode == 'C10':
                obs += self.independent(name, its)
            return (obs, code, sp, safety, hyps), None
        except Unsupported as e:
            return None, 'unsupported: %s' % e

    # ---- C16
    def contains(self, m, s):
        """the message m contains the names and values of s"""
        if is_ite(m):
            return ITE(m.arg(0), self.contains(m.arg(1), s), self.contains(m.arg(2), s))
        ps = parts(m)
        atoms, ft = [], []
        for p in ps:
            if z3.is_app(p) and p.decl().name().startswith('msg#'):
                xs = p.children()
                two = p.decl().name().endswith('ft')
                atoms += xs[:-2] if two else xs
                if two:
                    ft.append((xs[-2], xs[-1]))
            elif is_ite(p):
                i = [j for j, x in enumerate(ps) if x.eq(p)][0]
                return ITE(p.arg(0), self.contains(CATS(ps[:i] + parts(p.arg(1)) + ps[i + 1:]), s),
                           self.contains(CATS(ps[:i] + parts(p.arg(2)) + ps[i + 1:]), s))
            else:
                atoms.append(p)

        def has(n):
            if is_ite(n):
                return ITE(n.arg(0), has(n.arg(1)), has(n.arg(2)))
            l = litval(n)
            if l is not None and any(litval(a) is not None and l in litval(a) for a in atoms):
                return T
            return OR(*[EQ(a, n) for a in atoms + [x for p in ft for x in p]])
        out = [has(n) for n in s.names]
        if s.fromto:
            a, b = s.fromto
            alts = [AND(EQ(x, a), EQ(y, b)) for x, y in ft]
            alts += [AND(EQ(x, a), EQ(y, b)) for i, x in enumerate(atoms) for y in atoms[i + 1:]]
            out.append(OR(*alts))
        return AND(*out)

    def posok(self, p, s):
        if isinstance(p, UnionV):
            return OR(*[AND(g, self.posok(x, s)) for g, x in p.a])
        if not is_z(p):
            return F
        if is_ite(p):
            return ITE(p.arg(0), self.posok(p.arg(1), s), self.posok(p.arg(2), s))
        if z3.is_app(p) and p.decl().name().startswith('pos#'):
            return AND(*[self.posok(x, s) for x in p.children()])
        return OR(*[self.eqpos(p, q) for q in s.pos])

    def eqpos(self, p, q):
        if isinstance(q, UnionV):
            return OR(*[AND(g, self.eqpos(p, x)) for g, x in q.a])
        return EQ(p, q) if is_z(q) else F

    def messages(self, name, code, sp, hyps):
        obs = []
        by = {}
        for s in sp:
            by.setdefault((s.type, s.key()), []).append(s)
        for c in code:
            ss = by.get((c.type, c.key()))
            if not ss:
                obs.append(prove.Ob('%s: message and position of %s' % (name, c.type), 'unknown', 0, 'no expected change'))
                continue
            h = list(hyps) + c.rng() + [c.guard, OR(*[s.guard for s in ss])]
            for what, ok in (('message', lambda s: self.contains(c.msg, s.spec)),
                             ('position', lambda s: self.posok(c.pos, s.spec))):
                t0 = time.time()
                try:
                    goal = OR(*[AND(s.guard, ok(s)) for s in ss])
                    r = facts.prove(h, goal)
                except Unsupported as e:
                    r = 'unsupported'
                obs.append(prove.Ob('%s: %s of %s' % (name, what, c.type), r, time.time() - t0))
        return obs

    # ---- C10: everything else does not look at descriptions
    def independent(self, name, its):
        bad = []

        def isdesc(x):
            return z3.is_app(x) and x.num_args() and x.decl().name().endswith('.' + DESC)

        def hidden(t):
            return any(s is not None and (any(map(isdesc, facts.collect([s.body]))) or hidden(s.body))
                       for s in map(facts.skel_of, facts.collect([t])))

        def desc(t):
            """may the value of t depend on a description?"""
            if hidden(t):
                return True
            ds = [x for x in facts.collect([t]) if isdesc(x)]
            if not ds:
                return False
            return True

        def other(t):
            """the same term over other descriptions"""
            m = {}
            for x in facts.collect([t]):
                if isdesc(x):
                    if any(isdesc(y) for y in facts.collect(x.children())):
                        return None
                    m[x.get_id()] = Function('other.' + x.decl().name(), Ref, Str)(x.arg(0))
            return rebuild(t, m, {})
        groups = {}

        def add(what, chain, g):
            groups.setdefault((what, tuple(x.get_id() for x in chain)), (chain, []))[1].append(g)

        def f(chain, g, v, ordered):
            for h, r in prove.alternatives(v):
                r = r.s if isinstance(r, RecP) else r
                if not isinstance(r, StructV):
                    raise Unsupported('element')
                for h2, t in prove.alternatives(r.f['changeType']):
                    tv = litval(t)
                    if tv is None or tv.decode() not in self.types:
                        add(tv, chain, AND(g, h, h2))

        def o(chain, g, n, ordered):
            add(n, chain, g)
        prove.walk(its, f, opaque=o)
        for (what, _), (chain, gs) in groups.items():
            if any(desc(x) for x in chain):
                bad.append(what)
                continue
            if not any(desc(g) for g in gs):
                continue
            if any(hidden(g) for g in gs):
                bad.append(what)
                continue
            c = prove.C()
            c.chain = chain
            t = z3.Sum([z3.If(g, IntVal(1), IntVal(0)) for g in gs])
            t2 = other(t)
            if t2 is None or facts.prove(c.rng(), t == t2, timeout=4000) != 'proved':
                bad.append(what)
        return [prove.Ob('%s: no other change depends on a description' % name, 'unknown' if bad else 'proved', 0,
                         str(bad) if bad else '')]


# ------------------------------------------------------------------------------------------------ C12
def list_terms(v):
    out = []
    core.vmap(v, lambda x: (out.append(x), x)[1])
    return out


class Self(Cmp):
    """FindChangesInSchemas(d, d) is empty: each function that compares two values of one type returns nothing when
    they are the same value"""

    def __init__(self, ssa):
        super().__init__(ssa, 'C12')
        self.names = {}
        for n, f in self.ex.funcs.items():
            if not n.startswith(PKG) or '$' in n or f['res'] != [CHG]:
                continue
            d = self.dup(f)
            if d:
                self.names[n[len(PKG):]] = d

    def dup(self, f):
        """indices of the parameters that are compared: two of one pointer or list type"""
        by = {}
        for i, p in enumerate(f['params']):
            if self.ex.T.kind(p[1]) in ('slice', 'ptr', 'pointer'):
                by.setdefault(p[1], []).append(i)
        d = [v for v in by.values() if len(v) == 2]
        return d[0] if len(d) == 1 and not any(len(v) > 2 for v in by.values()) else None

    def install(self, names):
        for n in names:
            if n in self.names and n != TOP:
                self.one(n)

    def one(self, n):
        i, j = self.names[n]
        f = self.ex.funcs[PKG + n]

        def c(ex, args, st, g, info):
            a, b = args[i], args[j]
            if is_z(a) and is_z(b):
                ok = EQ(a, b)
            elif isinstance(a, ListV) and isinstance(b, ListV):
                if items_eq(a.items, b.items):
                    ok = T
                elif len(a.items) == 1 and len(b.items) == 1 and a.items[0][0] == b.items[0][0] == 'b' \
                        and is_true(a.items[0][1]) and is_true(b.items[0][1]):
                    ok = EQ(a.items[0][2], b.items[0][2])
                else:
                    return None
            else:
                return None
            its = () if is_true(ok) else (('o', NOT(ok), 'result of %s on different values' % n),)
            return (), ListV(its, ex.T.elem(CHG)), st, []
        self.ex.contracts[PKG + n] = c

    def crossed(self, a, b):
        """two equal documents are not one document: what a function does must not depend on which pointers are equal
        across them, otherwise f(x, x) says nothing about f(x, copy of x)"""
        def roots(v):
            ts = [v] if is_z(v) else core.terms(v) if hasattr(core, 'terms') else list_terms(v)
            return set(x.get_id() for x in facts.collect(ts) if z3.is_app(x) and x.num_args() == 0)
        ra, rb = roots(a), roots(b)
        ra, rb = ra - rb, rb - ra
        for x, y in self.ex.ptrcmp:
            if y is None:
                return 'a pointer is the key of a map'
            rx, ry = roots(x), roots(y)
            if (rx | ry) & ra and (rx | ry) & rb:
                return '%s == %s' % (prove.brief(x), prove.brief(y))
        return ''

    def attempt(self, name, installed):
        t0 = time.time()
        ex = self.ex
        self.install(installed)
        ex.usedcontracts = set()
        f = ex.funcs[PKG + name]
        i, j = self.names[name]
        args = [ex.param('%s' % p[0], p[1]) for p in f['params']]
        ex.sides(f['params'], args)
        ex.samedoc, ex.crossing, first = z3.Bool('one document'), False, None
        try:
            del ex.ptrcmp[:]
            first = self.items_of(name, args)
            cross = self.crossed(args[i], args[j])
        except Unsupported as e:
            cross = str(e)
        del ex.ptrcmp[:]
        ex.side, ex.samedoc = {}, None
        pair = []
        if ex.crossing and first is not None:
            # equal documents, whether they are one or two
            pair = [tuple(a if is_z(a) else a.items[0][2] for a in (args[j], args[i]))]
        args[j] = args[i]
        hyps = [NOT(a == null) for a in args if is_z(a) and a.sort() == Ref and name != 'changesInSchemaOperation']
        obs, why = [], None
        q0 = dict(facts.STATS)
        obs.append(prove.Ob('%s does not depend on which pointers of the two documents are equal' % name,
                            'unknown' if cross else 'proved', 0, cross))
        try:
            its, o = first if pair else self.items_of(name, args)
            r = facts.prove(hyps, vsub(OR(*[AND(*g) for g, v, s in o.rets]), pair))
            obs.append(prove.Ob('%s: returns on every path' % name, r, 0))
            opq = []
            if pair:
                its = vsub_items(its, pair)

            def opaque(chain, g, what, ordered):
                c = prove.C()
                c.chain, c.guard, c.type = list(chain), g, what
                opq.append(c)
            prove.walk(its, lambda *a: None, opaque=opaque)
            code = prove.code_contribs(its, opaque=True) + opq
            for c in code:
                t1 = time.time()
                r = facts.prove(list(hyps) + c.rng() + [c.guard], F)
                obs.append(prove.Ob('%s(x, x) reports no %s' % (name, c.type), r, time.time() - t1, tags=(c.type,)))
            if not code:
                obs.append(prove.Ob('%s(x, x) reports nothing' % name, 'proved', 0))
        except Unsupported as e:
            why = 'unsupported: %s' % e
        used = set(u[len(PKG):] for u in ex.usedcontracts if u.startswith(PKG))
        return {'ok': why is None and all(o.result == 'proved' for o in obs), 'used': used, 'notes': self.notes, 'why': why,
                'obs': dump_obs(obs), 'time': time.time() - t0, 'trusted': set(ex.trusted), 'inlined': set(ex.used),
                'stats': {k: facts.STATS[k] - q0[k] for k in q0}}


ORDER = [TOP, 'changeInTypes', 'changeInPersistedTypes', 'changeInObject', 'changeInFields', 'changeInInputFields']


def run(ssa, prop, deadline):
    """verify prop; returns (verdict, report)"""
    v = Self(ssa) if prop == 'C12' else Cmp(ssa, prop)
    t0 = time.time()
    v.do_pure()
    v.do_merge()
    base_notes = list(v.notes)
    names = list(v.names) if prop == 'C12' else [n for n in CC.FUNCS if PKG + n in v.ex.funcs]
    rep = {'functions': {}, 'obligations': [], 'notes': base_notes, 'used': set()}
    if TOP not in names:
        rep['notes'].append('no function ' + TOP)
        return 'undecided', rep
    names.sort(key=lambda n: ORDER.index(n) if n in ORDER else 99)
    res, standing, stable = pool.fixpoint(names, v.attempt, deadline)
    for n in names:
        r = res.get(n, {})
        rep['functions'][n] = {k: r.get(k) for k in ('ok', 'why', 'time', 'round', 'obs', 'stats')}
        rep['notes'] += r.get('notes') or []
        rep['used'] |= r.get('inlined') or set()
        rep.setdefault('trusted', set()).update(r.get('trusted') or ())
    # the contracts the top-level result rests on
    need, todo = set(), [TOP]
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.add(n)
        todo += list(res.get(n, {}).get('used') or ())
    need &= set(names)
    rep['need'] = need
    top = res[TOP]
    obs = []
    for n in sorted(need):
        obs += [tuple(o) for o in res[n]['obs']]
    dep_pure = {'C02': ('tstr', 'safe_out'), 'C03': ('tstr', 'safe_in'), 'C04': ('tstr', 'safe_in'),
                'C07': ('tstr', 'safe_in'), 'C16': ('tstr',)}.get(prop, ())
    for go, fn, o in v.pure_obs:
        if fn in dep_pure:
            obs.append((o.name, o.result, o.time, o.detail, ()))
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C16', 'C12'):
        mo = v.merge_obs
        if prop == 'C12':
            mo = [o for o in mo if o.result != 'refuted']     # only that it is a function of its argument
        obs += [(o.name, o.result, o.time, o.detail, ()) for o in mo]
    rep['obligations'] = obs
    rep['time'] = time.time() - t0
    rep['standing'] = standing
    if top.get('why'):
        rep['notes'].append('%s: %s' % (TOP, top['why']))
        return 'undecided', rep
    if not stable:
        return 'undecided', rep
    rs = [o[1] for o in obs]
    if not obs or not res[TOP]['obs']:
        return 'undecided', rep
    if all(r == 'proved' for r in rs):
        return 'proved', rep
    if any(r == 'refuted' for r in rs):
        if v.abstract:
            rep['notes'].append('refutation over %s, which has no contract: not believed' % v.abstract)
            return 'undecided', rep
        return 'refuted', rep
    return 'undecided', rep


if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    for p in sys.argv[2:]:
        t = time.time()
        vd, rep = run(ssa, p, time.time() + 300)
        print(p, vd, '%.1fs' % (time.time() - t), len(rep['obligations']), 'obligations',
              sum(1 for o in rep['obligations'] if o[1] == 'proved'), 'proved', rep['notes'],
              'max', sorted((r['time'] or 0, n) for n, r in rep['functions'].items())[-2:])
        for n, r in rep['functions'].items():
            if not r['ok'] and vd != 'proved':
                print('   ', n, r['why'], [(o[0], o[1], o[3]) for o in r['obs'] if o[1] != 'proved'][:4])
        for o in [o for o in rep['obligations'] if o[1] != 'proved'][:8]:
            print('  ', o)

"""Verification of the commands: gql lint (L05, L08, L09), gql compare (C15), grouping and printing (C14), loading (U01)."""
from lintproof import *
import lintproof
import externs
import execu
import loops

UPKG = MOD + 'utils'
CMPCMD = MOD + 'cmd/compare'


# ------------------------------------------------------------------------------------------- values
def val_eq(a, b):
    """formula saying that two values are equal"""
    if a is b:
        return T
    if is_z(a) and is_z(b):
        if a.sort() != b.sort():
            raise Unsupported('comparison of different sorts')
        return EQ(a, b)
    if isinstance(a, UnionV):
        return OR(*[AND(g, val_eq(x, b)) for g, x in a.a])
    if isinstance(b, UnionV):
        return val_eq(b, a)
    if is_z(a) and is_z(b) is False and is_ite(a):
        return ITE(a.arg(0), val_eq(a.arg(1), b), val_eq(a.arg(2), b))
    if is_z(b) and is_z(a) is False and is_ite(b):
        return val_eq(b, a)
    if isinstance(a, OpqV) or isinstance(b, OpqV):
        raise Unsupported('unknown value')
    if isinstance(a, RecP) and isinstance(b, RecP):
        return val_eq(a.s, b.s)
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        if a.b or b.b:
            return T if veq(a, b) else F
        return T if a.name == b.name else F
    if isinstance(a, StructV) and isinstance(b, StructV):
        return AND(*[val_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, StructV) and is_z(b) and b.sort() == Ref:
        return AND(*[field_eq(a, k, b) for k in a.f])
    if isinstance(b, StructV) and is_z(a) and a.sort() == Ref:
        return val_eq(b, a)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if items_eq(a.items, b.items):
            return T
        x, y = ([it for it in l.items if not is_false(it[1])] for l in (a, b))
        if len(x) == len(y) == 1 and x[0][0] == y[0][0] == 'b' and is_true(x[0][1]) and is_true(y[0][1]):
            return EQ(x[0][2], y[0][2])
        if all(it[0] == 'u' and is_true(it[1]) for it in x + y):
            return AND(*[val_eq(i[2], j[2]) for i, j in zip(x, y)]) if len(x) == len(y) else F
        if len(x) == len(y) == 1 and x[0][0] == y[0][0] == 'f':
            (_, g, k, n, i), (_, h, _, m, _) = x[0], y[0]
            if len(i) == 1 and i[0][0] == 'u' and is_true(i[0][1]) and items_eq((x[0][:1] + (T, k, n, i),), (y[0][:1] + (T,) + y[0][2:3] + (n,) + y[0][4:],)):
                return EQ(ITE(g, n, IntVal(0)), ITE(h, m, IntVal(0)))
        raise Unsupported('comparison of lists')
    if isinstance(a, IfaceV) and isinstance(b, IfaceV):
        return val_eq(a.v, b.v)
    if (is_z(a) and a.eq(null)) != (is_z(b) and b.eq(null)) and not (is_z(a) and is_z(b)):
        return F
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def field_eq(a, k, r):
    sn = a.t.split('.')[-1]
    x = a.f[k]
    if isinstance(x, ListV):
        y = ListV((('b', T, fld(sn, k, Lst)(r)),), x.et)
    elif is_z(x):
        y = fld(sn, k, x.sort())(r)
    else:
        y = fld(sn, k, Ref)(r)
    return val_eq(x, y)


def segments(items):
    """consecutive unit items together, every other item alone"""
    out = []
    for it in items:
        if is_false(it[1]):
            continue
        if it[0] == 'u':
            if out and out[-1][0] == 'units':
                out[-1][1].append(it)
            else:
                out.append(('units', [it]))
        else:
            out.append((it[0], it))
    return out


def whole(items):
    """a list copied element by element is the list"""
    out = []
    for it in items:
        if it[0] == 'f':
            it = it[:4] + (whole(it[4]),)
            if len(it[4]) == 1 and it[4][0][0] == 'u' and is_true(it[4][0][1]) and z3.is_app(it[3]) and it[3].decl().name() == 'len':
                L = it[3].arg(0)
                try:
                    if is_true(val_eq(it[4][0][2], (ats if is_z(it[4][0][2]) and it[4][0][2].sort() == Str else at)(L, it[2]))):
                        it = ('b', it[1], L)
                except Unsupported:
                    pass
        out.append(it)
    return tuple(out)


def sequence(name, a, b, hyps, depth=0):
    """obligations saying that the item lists a (code) and b (contract) denote the same sequence"""
    sa, sb = segments(whole(a)), segments(whole(b))
    if [x[0] for x in sa] != [x[0] for x in sb]:
        return [prove.Ob('%s: shape of the sequence' % name, 'unknown', 0, '%s / %s' % ([x[0] for x in sa], [x[0] for x in sb]))]
    obs = []
    for (k, x), (_, y) in zip(sa, sb):
        if k == 'units':
            obs += units(name, x, y, hyps)
            continue
        obs.append(ob('%s: condition' % name, hyps, T if x[1].eq(y[1]) else x[1] == y[1]))
        h = list(hyps) + [x[1]]
        if k == 'b':
            obs.append(ob('%s: list' % name, h, EQ(x[2], y[2])))
        elif k == 'f':
            obs.append(ob('%s: number of repetitions' % name, h, EQ(x[3], y[3])))
            bd = prove.binder(depth)
            inner = lambda it: it[4] if it[2].eq(bd) else vsub_items(it[4], [(it[2], bd)])
            obs += sequence(name, inner(x), inner(y), h + [LE(IntVal(0), bd), LT(bd, x[3])], depth + 1)
        elif k == 's':
            if items_eq(x[2], y[2]) and externs.cmp_eq(x[3], y[3]):
                obs.append(prove.Ob('%s: sorted list' % name, 'proved', 0))
            else:
                obs.append(prove.Ob('%s: sorted list' % name, 'unknown', 0))
        else:
            obs.append(prove.Ob('%s: order of the sequence' % name, 'unknown', 0))
    return obs


def units(name, xs, ys, hyps):
    if len(xs) == len(ys) and all(x[1].eq(y[1]) for x, y in zip(xs, ys)):
        return [ob('%s: element' % name, list(hyps) + [x[1]], val_eq(x[2], y[2])) for x, y in zip(xs, ys)]

    def count(l):
        r = IntVal(0)
        for it in l:
            r = ADD(r, ITE(it[1], IntVal(1), IntVal(0)))
        return r
    obs = [ob('%s: number of elements' % name, hyps, EQ(count(xs), count(ys)))]
    for i, x in enumerate(xs):
        obs.append(ob('%s: element #%d' % (name, i), list(hyps) + [x[1]],
                      OR(*[AND(y[1], EQ(count(xs[:i]), count(ys[:j])), val_eq(x[2], y[2])) for j, y in enumerate(ys)])))
    return obs


def ob(name, hyps, goal, **kw):
    t0 = time.time()
    return prove.Ob(name, facts.prove(list(hyps), goal, **kw), time.time() - t0)


def success(code):
    """the operating system sees the lowest eight bits of an exit code"""
    if z3.is_int_value(code):
        return T if code.as_long() % 256 == 0 else F
    return code % 256 == 0


# ------------------------------------------------------------------------------------------- calls
def call_record(st, name, args):
    mem = dict(st.mem)
    mem['@calls'] = ListV(mem['@calls'].items + (('u', T, StructV('call:' + name, {i: a for i, a in enumerate(args)})),), 'call')
    return mem


def calls(st):
    """[(guard, name, args)]"""
    l = st.mem.get('@calls')
    out = []
    for it in (l.items if l is not None else ()):
        if it[0] != 'u':
            raise Unsupported('calls in a loop')
        for g, v in prove.alternatives(it[2]):
            out.append((AND(it[1], g), v.t[5:], [v.f[i] for i in sorted(v.f)]))
    return out


def ghosts():
    """ghost state: what was printed, which functions under contract were called"""
    return {'@out': ListV((), 'string'), '@calls': ListV((), 'call')}


# where several functions have the parameters and results looked for
USUAL = ('Lint', 'FindLintErrors', 'FindTheRulesToApply', 'NewLintCmd', 'extractInlineLintConfiguration', 'filterErrors',
         'NewCompareCmd', 'ReadFiles', 'ParseSchema', 'FindChangesInSchemas', 'GroupChanges')


class Cli(Lint):
    def by_sig(self, params, results, pkgs=None):
        """functions of the repository with these parameter and result types"""
        out = []
        for n, f in self.ex.funcs.items():
            if not n.startswith(MOD) or '$' in n or (pkgs and not any(n.startswith(p + '.') for p in pkgs)):
                continue
            ps = [short(self.ex, p[1]) for p in f['params']]
            rs = [short(self.ex, r) for r in f['res']]
            if ps == list(params) and rs == list(results) and f.get('recv') is None:
                out.append(n)
        return out

    def the(self, params, results, pkgs=None):
        l = self.by_sig(params, results, pkgs)
        if len(l) > 1:
            l = [n for n in l if n.split('.')[-1] in USUAL] or l
        if len(l) != 1:
            raise Unsupported('%d functions (%s) %s' % (len(l), ', '.join(params), ', '.join(results)))
        return l[0]

    def calls_of(self, name, seen=None):
        """functions of the repository reachable from name"""
        seen = set() if seen is None else seen
        if name in seen or name not in self.ex.funcs:
            return seen
        seen.add(name)

        def go(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'f' and isinstance(x[1], str):
                    self.calls_of(x[1], seen)
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                for y in x.values():
                    go(y)
        go(self.ex.funcs[name]['blocks'])
        return seen

    # ---- commands
    def command(self, pkg):
        """(run function value, state, {flag: (object, default)}) of the command of a package"""
        ex = self.ex
        ctor = self.the([], ['*github.com/spf13/cobra.Command'], [pkg])
        ex.flags.clear()
        o = ex.call_body(ex.funcs[ctor], [], State({}, {}))
        if len(o.rets) != 1 or o.rets[0][0] or o.exits:
            raise Unsupported('construction of the command branches')
        v, st = o.rets[0][1][0], o.rets[0][2]
        s = st.mem[v.o] if isinstance(v, PtrL) else None
        if not isinstance(s, StructV):
            raise Unsupported('command value')
        run = s.f['Run']
        if not isinstance(run, FuncV):
            raise Unsupported('command without Run')
        for k in ('RunE', 'PreRun', 'PreRunE', 'PostRun', 'PostRunE', 'PersistentPreRun', 'PersistentPreRunE',
                  'PersistentPostRun', 'PersistentPostRunE', 'Args'):
            if k in s.f and not (is_z(s.f[k]) and s.f[k].eq(null)):
                raise Unsupported('command with ' + k)
        flags = {}
        mem = dict(st.mem)
        for obj, long, shrt, kind, default in ex.flags:
            c = {'String': Const('flag ' + long.decode(), Str), 'Bool': Const('flag ' + long.decode(), BoolSort()),
                 'StringSlice': ListV((('b', T, Const('flag ' + long.decode(), Lst)),), 'string')}.get(kind)
            if c is None:
                raise Unsupported('flag kind ' + kind)
            if any(f[3] == obj for f in flags.values()):
                raise Unsupported('two flags share a variable')
            flags[long.decode()] = (shrt.decode(), kind, default, obj, c)
            mem[obj] = c
        mem.update(ghosts())
        return run, State(mem, {}), flags

    def flag(self, flags, name, short_, kind, default):
        """(obligations, symbolic value) for a documented flag"""
        f = flags.get(name)
        good = f is not None and f[0] == short_ and f[1] == kind
        if good:
            d = f[2]
            good = {'String': lambda: is_z(d) and litval(d) == default, 'Bool': lambda: is_false(d),
                    'StringSlice': lambda: isinstance(d, ListV) and not d.items}[kind]()
        o = prove.Ob('flag --%s/-%s is a %s with the documented default' % (name, short_, kind), 'proved' if good else 'refuted', 0)
        return [o], (f[4] if f else None)

    def run_cmd(self, run, st, cons):
        """execute a command's Run function; cons: {function: contract}"""
        ex = self.ex
        saved, ex.contracts = ex.contracts, dict(ex.contracts, **cons)
        ex.cache.clear()
        n0 = len(ex.obs)
        try:
            f = ex.funcs[run.name]
            args = [Const('cmd', Ref), ListV((('b', T, Const('args', Lst)),), 'string')] + list(run.b)
            o = ex.call_body(f, args, st)
        finally:
            ex.contracts = saved
            ex.cache.clear()
        return o, ex.obs[n0:]


def ends(o):
    """every way the command ends: (guard, exit code, state); a plain return is exit status 0"""
    return [(AND(*g), c, s) for g, c, s in o.exits] + [(AND(*g), IntVal(0), s) for g, v, s in o.rets]


# ------------------------------------------------------------------------------------------- L05
RULEFN = MOD + 'pkg/linter.LintRuleFunc'


def lint_names(v):
    ex = v.ex
    rf = [t for t in ex.ssa['types'] if t.endswith('linter.LintRuleFunc')]
    return rf


def p_table(v):
    """the rule table lists the nine documented names, each once, each with a function that meets its contract"""
    obs = []
    names = [n for n, _ in v.table]
    for n in LC.RULES:
        obs.append(prove.Ob('the rule table lists %s exactly once' % n, 'proved' if names.count(n) == 1 else 'refuted', 0))
    for n in names:
        if n not in LC.RULES:
            obs.append(prove.Ob('%s is a documented rule' % n, 'refuted', 0))
    return obs


def p_select(v):
    """FindTheRulesToApply: the contract of the selection"""
    ex = v.ex
    go = v.the(['[]string'], ['[]pkg/linter.LintRuleFunc', 'error'])
    f = ex.funcs[go]
    L = Const('wanted', Lst)
    arg = ListV((('b', T, L),), 'string')
    ex.cache.clear()
    o = ex.call_body(f, [arg], State(ghosts(), {}))
    obs = [ob('%s: returns on every path' % go, [], OR(*[AND(*g) for g, _, _ in o.rets]))]
    for c in o.exits:
        obs.append(ob('%s: does not exit' % go, [], NOT(AND(*c[0]))))
    k = prove.binder(0)
    n = llen(L)
    trim = externs.fn('trim', Str, Str)
    hit = lambda i, x: externs.pred('eqfold', trim(x), lit(v.table[i][0]))

    def unknown(x):
        return AND(*[NOT(hit(i, x)) for i in range(len(v.table))])

    def selected(x):
        alts, none = [], T
        for i, (nm, fn) in enumerate(v.table):
            alts.append((AND(none, hit(i, x)), FuncV(fn)))
            none = AND(none, NOT(hit(i, x)))
        return mkunion(alts)
    kk = Int('k#sel')
    bad = EX(n, kk, unknown(ats(L, kk)))
    all_ = tuple(('u', T, FuncV(fn)) for _, fn in v.table)
    some = (('f', T, k, n, (('u', T, selected(ats(L, k))),)),)
    for g, (res, err), s in o.rets:
        g = AND(*g)
        iserr = NOT(val_eq(err, null)) if not isinstance(err, (IfaceV,)) else T
        nm = 'selection of rules'
        obs.append(ob('%s: an error exactly when a name is unknown' % nm, [g], iserr == AND(NOT(EQ(n, IntVal(0))), bad)))
        h = [g, NOT(iserr)]
        if facts.prove(h, F, timeout=2000) == 'proved':
            continue
        if facts.prove(h, EQ(n, IntVal(0))) == 'proved':
            obs += sequence('%s: all rules' % nm, res.items, all_, h)
        elif facts.prove(h, NOT(EQ(n, IntVal(0)))) == 'proved':
            hk = h + [NOT(bad)]
            obs += sequence('%s: the named rules in order' % nm, res.items, some, hk + known_at(L, k, unknown))
        else:
            obs += sequence('%s: all rules' % nm, assume_items(res.items, EQ(n, IntVal(0))), all_, h + [EQ(n, IntVal(0))])
            obs += sequence('%s: the named rules in order' % nm, assume_items(res.items, NOT(EQ(n, IntVal(0)))), some,
                            h + [NOT(EQ(n, IntVal(0))), NOT(bad)] + known_at(L, k, unknown))
    return obs, go


def known_at(L, k, unknown):
    """no name is unknown, instantiated at index k"""
    return [OR(LT(k, IntVal(0)), LE(llen(L), k), NOT(unknown(ats(L, k))))]


def assume_items(items, l):
    return assume(ListV(items, None), [l]).items


def p_L05_run(v, go):
    """the command passes the flag to the selection, fails on an error, lints with the selected rules otherwise"""
    ex = v.ex
    run, st, flags = v.command(CPKG)
    obs, wanted = v.flag(flags, 'rules', 'r', 'StringSlice', None)
    sel, err, status = Const('selected', Lst), Const('selecterr', Ref), Const('status', IntSort())
    fle = v.the(['map[string][]byte', '[]pkg/linter.LintRuleFunc'], ['int'])
    rt = ex.funcs[go]['res'][0]
    cons = {
        go: lambda ex, a, st, g, i: ((), TupleV([ListV((('b', T, sel),), ex.T.elem(rt)), err]),
                                     State(call_record(st, 'select', a), st.env), []),
        fle: lambda ex, a, st, g, i: ((), status, State(call_record(st, 'lint', a), st.env), []),
    }
    cons.update(files_contract(v))
    o, safety = v.run_cmd(run, st, cons)
    es = ends(o)
    obs.append(ob('gql lint: ends on every path', [], OR(*[g for g, _, _ in es])))
    for n, (g, code, s) in enumerate(es):
        cs = calls(s)
        nm = 'gql lint, exit %d' % n
        s_ = [(h, a) for h, f, a in cs if f == 'select']
        l_ = [(h, a) for h, f, a in cs if f == 'lint']
        obs.append(ob('%s: rules are selected from the -r flag' % nm, [g], AND(OR(*[h for h, a in s_]), *[
            OR(NOT(h), val_eq(a[0], wanted)) for h, a in s_])))
        obs.append(ob('%s: an unknown rule fails the command' % nm, [g, NOT(EQ(err, null))], NOT(success(code))))
        for h, a in l_:
            obs.append(ob('%s: the selected rules are applied' % nm, [g, h], val_eq(a[1], ListV((('b', T, sel),), None))))
            obs.append(ob('%s: the exit status is that of the linting' % nm, [g, h], EQ(code, status)))
        obs.append(ob('%s: success only after linting' % nm, [g, success(code)], OR(*[h for h, _ in l_])))
    return obs, safety


def files_contract(v):
    """utils.ReadFiles: abstract map and error (its own contract is property U01)"""
    def c(ex, a, st, g, i):
        m, e = Function('files', Str, Ref)(a[0]), Function('fileserr', Str, Ref)(a[0])
        return (), TupleV([m, e]), State(call_record(st, 'readfiles', a), st.env), []
    n = v.the(['string'], ['map[string][]byte', 'error'])
    return {n: c}


def prove_L05(ssa, prop, deadline):
    t0 = time.time()
    v = Cli(ssa, prop)
    rep = {'functions': {}, 'obligations': [], 'notes': v.notes, 'used': set(), 'trusted': set()}
    if v.table is None:
        rep['notes'].append('the rule table is not a list of constants')
        return 'undecided', rep
    v.do_pure()
    whys = []
    tab = dict((n, go) for n, go in v.table)

    def cmd():
        obs, go = p_select(v)
        o2, _ = p_L05_run(v, go)
        return go, obs, o2
    tasks = [(n, lambda n=n: attempt(v, n, tab[n])) for n in LC.RULES if n in tab]
    rep['obligations'] += cmpproof.dump_obs(p_table(v))
    tasks.append(('FindTheRulesToApply', lambda: part(v, lambda: p_select(v)[0])))
    tasks.append(('NewLintCmd', lambda: part(v, lambda: p_L05_run(v, v.the(['[]string'], ['[]pkg/linter.LintRuleFunc', 'error']))[0])))
    tasks += [(n, lambda f=f: part(v, lambda: f(v))) for n, f in relies([('Lint', p_L08), ('ReadFiles', p_U01_read)] + OUTPUT)]
    got = pool.run(tasks, timeout=max(1, min(100, deadline - time.time())))
    collect(rep, got, whys, tab)
    rep['time'] = time.time() - t0
    return verdict(rep, whys)


def part(v, f):
    """one group of obligations as a worker result"""
    t0 = time.time()
    q0 = dict(facts.STATS)
    try:
        obs, why = f(), None
    except Unsupported as e:
        if os.environ.get('GQLV_DEBUG'):
            raise
        obs, why = [], 'unsupported: %s' % e
    return {'ok': why is None and all(o.result == 'proved' for o in obs), 'why': why, 'obs': cmpproof.dump_obs(obs),
            'time': time.time() - t0, 'stats': {k: facts.STATS[k] - q0[k] for k in q0}, 'inlined': set(v.ex.used),
            'trusted': set(v.ex.trusted), 'notes': [], 'used': set()}


RUN['L05'] = prove_L05


# ------------------------------------------------------------------------------------------- output
def coalesce(items):
    """consecutive writes under the same condition are one write"""
    out = []
    for it in items:
        if is_false(it[1]):
            continue
        if it[0] == 'f':
            it = it[:4] + (coalesce(it[4]),)
        if it[0] == 'u' and out and out[-1][0] == 'u' and out[-1][1].eq(it[1]):
            out[-1] = ('u', it[1], CAT(out[-1][2], it[2]))
        else:
            out.append(it)
    return tuple(out)


def unorder(items, sorts=False):
    """forget that an order is undetermined (the order is the subject of C17), and, if asked, how a list was sorted"""
    out = []
    for it in items:
        if it[0] == 'f':
            out.append(it[:4] + (unorder(it[4], sorts),))
        elif it[0] == 'x' and is_true(it[1]) or sorts and it[0] == 's' and is_true(it[1]):
            out += unorder(it[2], sorts)
        else:
            out.append(it)
    return tuple(out)


def orders(keys):
    """the lists that enumerate the same elements as the base list `keys`: itself and every sorted copy of it"""
    out = [keys]
    for its, cmp, L in externs.SORTED.values():
        its = unorder(its)
        if len(its) == 1 and its[0][0] == 'b' and its[0][2].eq(keys):
            out.append(L)
        elif len(its) == 1 and its[0][0] == 'f' and is_true(its[0][1]) and its[0][3].eq(llen(keys)):
            k = its[0][2]
            if len(its[0][4]) == 1 and its[0][4][0][0] == 'u' and is_true(its[0][4][0][1]):
                e = its[0][4][0][2]
                if is_z(e) and (e.eq(ats(keys, k)) if e.sort() == Str else e.eq(at(keys, k))):
                    out.append(L)
    return out


def best(groups):
    """of several alternative lists of obligations, one that is discharged, or else the least bad one"""
    def rank(obs):
        return (any(o.result == 'unknown' for o in obs), sum(o.result != 'proved' for o in obs))
    groups = list(groups)
    for obs in groups:
        if all(o.result == 'proved' for o in obs):
            return obs
    return min(groups, key=rank)


# ------------------------------------------------------------------------------------------- L09
LINTERR = 'LintErrorWithMetadata'


def lint_contract(v, marks=False):
    """Lint: an abstract list of errors per (file name, text), or exit status 1 when the text does not parse"""
    n = v.the(['string', 'string', '[]pkg/linter.LintRuleFunc'], ['[]pkg/linter.LintErrorWithMetadata'])
    et = v.ex.T.elem(v.ex.funcs[n]['res'][0])

    def c(ex, a, st, g, i):
        e = linterrs(a[0], a[1])
        return (NOT(unparsed(a[0], a[1])),), ListV((('b', T, e),), et), st, [((unparsed(a[0], a[1]),), IntVal(1), st.copy())]
    return {n: c}


linterrs = lambda f, t: Function('linterrs', Str, Str, Lst)(f, t)
unparsed = lambda f, t: Function('unparsed', Str, Str, BoolSort())(f, t)


def files_value(v, m):
    """the value that indexing the map of files with a name yields"""
    has, get = Function('mhas_Str', Ref, Str, BoolSort()), Function('mget_Str_Str', Ref, Str, Str)
    return lambda k: ITE(has(m, k), get(m, k), lit(b''))


def p_L09(v):
    ex = v.ex
    go = v.the(['map[string][]byte', '[]pkg/linter.LintRuleFunc'], ['int'])
    f = ex.funcs[go]
    m = Const('files', Ref)
    args = [m, ListV((('b', T, Const('rules', Lst)),), ex.T.elem(f['params'][1][1]))]
    saved, ex.contracts = ex.contracts, dict(ex.contracts, **lint_contract(v))
    ex.cache.clear()
    n0 = len(ex.obs)
    try:
        o = ex.call_body(f, args, State(ghosts(), {}))
    finally:
        ex.contracts = saved
        ex.cache.clear()
    keys = Function('mkeys', Ref, Lst)(m)
    content = files_value(v, m)
    n = llen(keys)
    fe = lambda nm, s: fld(LINTERR, nm, s)

    def contract(B):
        b, c = prove.binder(0), prove.binder(1)
        name = ats(B, b)
        errs = linterrs(name, content(name))
        e = at(errs, c)
        some = NOT(EQ(llen(errs), IntVal(0)))
        line = CATS([name, lit(b':'), itoa(fe('Line', IntSort())(e)), lit(b':'), itoa(fe('Column', IntSort())(e)), lit(b' '),
                     externs.err_text(fe('Err', Ref)(e)), lit(b'\n')])
        kk = Int('k#files')
        tot = SUM(n, kk, llen(linterrs(ats(B, kk), content(ats(B, kk)))))
        any_ = EX(n, kk, NOT(EQ(llen(linterrs(ats(B, kk), content(ats(B, kk)))), IntVal(0))))
        bad = EX(n, kk, unparsed(ats(B, kk), content(ats(B, kk))))
        out = (('f', T, b, n, (('f', some, c, llen(errs), (('u', T, line),)), ('u', some, lit(b'\n')))),
               ('u', NOT(EQ(tot, IntVal(0))), CATS([lit('\u274c Total lint errors found: '.encode()), itoa(tot), lit(b'\n')])),
               ('u', EQ(tot, IntVal(0)), lit('Schema has no lint errors! \U0001f389\n'.encode())))
        return out, any_, bad

    def against(B):
        out, any_, bad = contract(B)
        obs = []
        nm = 'all files'
        obs.append(ob('%s: linting ends normally exactly when every file parses' % nm, [],
                      NOT(bad) == OR(*[AND(*g) for g, _, _ in o.rets])))
        for g, c, s in o.exits:
            obs.append(ob('%s: a file that does not parse makes the command fail' % nm, list(g), NOT(success(c))))
            obs.append(ob('%s: an exit only for a file that does not parse' % nm, list(g), bad))
        for g, r, s in o.rets:
            g = list(g)
            obs.append(ob('%s: status 1 exactly when an error remains' % nm, g, EQ(r[0], ITE(any_, IntVal(1), IntVal(0)))))
            code = coalesce(unorder(s.mem['@out'].items))
            obs += sequence('%s: output' % nm, code, coalesce(out), g)
        return obs
    return best(against(B) for B in orders(keys)), ex.obs[n0:]


def safety(v, obs, name):
    """every run-time panic condition of the executed functions"""
    out = []
    for g, c, info in obs:
        if is_true(c):
            continue
        out.append(ob('%s: %s at %s:%s' % (name, info[0], info[1], info[2]), list(g), c))
    return out


def p_L09_cmd(v):
    """the command lints all the files it was given and ends with the status of the linting"""
    ex = v.ex
    run, st, flags = v.command(CPKG)
    obs, path = v.flag(flags, 'filepath', 'f', 'String', b'')
    go = v.the(['[]string'], ['[]pkg/linter.LintRuleFunc', 'error'])
    sel, err, status = Const('selected', Lst), Const('selecterr', Ref), Const('status', IntSort())
    fle = v.the(['map[string][]byte', '[]pkg/linter.LintRuleFunc'], ['int'])
    rt = ex.funcs[go]['res'][0]
    cons = {
        go: lambda ex, a, st, g, i: ((), TupleV([ListV((('b', T, sel),), ex.T.elem(rt)), err]), st, []),
        fle: lambda ex, a, st, g, i: ((), status, State(call_record(st, 'lint', a + [map_at(ex, st, a[0])]), st.env), []),
    }
    cons.update(files_contract(v))
    o, sf = v.run_cmd(run, st, cons)
    es = ends(o)
    ferr = Function('fileserr', Str, Ref)(path)
    files = Function('files', Str, Ref)(path)
    stdin = Const('os.Stdin', Ref)
    text, rerr = externs.file_content(stdin)
    fromin = EQ(SLEN(path), IntVal(0))
    obs.append(ob('gql lint: ends on every path', [], OR(*[g for g, _, _ in es])))
    for n, (g, code, s) in enumerate(es):
        cs = calls(s)
        nm = 'gql lint, exit %d' % n
        l_ = [(h, a) for h, f, a in cs if f == 'lint']
        obs.append(ob('%s: linting happens exactly when the rules and the input can be read' % nm, [g],
                      OR(*[h for h, a in l_]) == AND(EQ(err, null), ITE(fromin, EQ(rerr, null), EQ(ferr, null)))))
        obs.append(ob('%s: not linting is a failure' % nm, [g, NOT(OR(*[h for h, a in l_]))], NOT(success(code))))
        for h, a in l_:
            obs.append(ob('%s: the exit status is that of the linting' % nm, [g, h], EQ(code, status)))
            for c, m in prove.alternatives(a[-1]):
                hyp = [g, h, c]
                if facts.prove(hyp, F) == 'proved':
                    continue
                if is_z(m):
                    obs.append(ob('%s: the files read are the files linted' % nm, hyp, AND(NOT(fromin), EQ(m, files))))
                elif isinstance(m, MapV):
                    obs.append(ob('%s: standard input is linted when no file is given' % nm, hyp, fromin))
                    obs += only_entry('%s: standard input' % nm, m, externs.fn('filename', Ref, Str)(stdin), text, hyp)
                else:
                    obs.append(prove.Ob('%s: the map of files' % nm, 'unknown', 0))
    return obs, sf


def map_at(ex, st, m):
    """the map value behind a reference at the time of a call"""
    if isinstance(m, UnionV):
        return mkunion([(g, map_at(ex, st, x)) for g, x in m.a])
    if isinstance(m, PtrL) and not m.p:
        x = st.mem[m.o]
        return map_at(ex, st, x) if not isinstance(x, MapV) else x
    return m


def only_entry(name, m, key, val, hyps):
    q = m.q
    return [ob('%s: one entry under its name' % name, hyps, m.pres == EQ(q, key)),
            ob('%s: the whole content' % name, list(hyps) + [EQ(q, key), m.pres], val_eq(m.val, val))]


def relies(tasks):
    """contracts of callees that another property decides: proved again, but a failure of one of them only means that this
    property is not proved"""
    def f1(f):
        def g(v):
            obs = f(v)
            for o in obs:
                o.name = 'relied on: ' + o.name
                if o.result == 'refuted':
                    o.result = 'unknown'
            return obs
        return g
    return [('relied on: ' + n, f1(f)) for n, f in tasks]


def prover(tasks, chain=None):
    """a property proved by groups of obligations: tasks = [(name, f(v) -> obligations)]; chain: those of its callees"""
    def go(ssa, prop, deadline):
        tasks_ = tasks + (relies(chain()) if chain else [])
        t0 = time.time()
        v = Cli(ssa, prop)
        rep = {'functions': {}, 'obligations': [], 'notes': v.notes, 'used': set(), 'trusted': set()}
        v.do_pure()
        whys = []
        got = pool.run([(n, lambda f=f: part(v, lambda: f(v))) for n, f in tasks_], timeout=max(1, min(200, deadline - time.time())))
        collect(rep, got, whys, {})
        rep['time'] = time.time() - t0
        return verdict(rep, whys)
    return go


RUN['L09'] = prover([('FindLintErrors', lambda v: p_L09(v)[0]), ('NewLintCmd', lambda v: p_L09_cmd(v)[0])],
                    lambda: [('Lint', p_L08), ('filterErrors', p_L06), ('ReadFiles', p_U01_read)])
OUTPUT = [('FindLintErrors', lambda v: p_L09(v)[0]), ('NewLintCmd', lambda v: p_L09_cmd(v)[0])]


# ------------------------------------------------------------------------------------------- L06, L08
def config_fields(v, t):
    """field names of the suppression record: (command, rules, line)"""
    by = {}
    for n, ft in [x[:2] for x in v.ex.T.fields(t)]:
        by.setdefault(v.ex.T.kind(ft), []).append(n)
    if [len(by.get(k, ())) for k in ('str', 'slice', 'int')] != [1, 1, 1]:
        raise Unsupported('fields of the suppression record')
    return by['str'][0], by['slice'][0], by['int'][0]


def suppressed(v, ct, C, rule, line):
    """the documented meaning of the list C of lint comments for an error of a rule on a line"""
    fc, fr, fp = config_fields(v, ct)
    sn = short(v.ex, ct).split('.')[-1]
    n = llen(C)
    k, j = Int('k#cfg'), Int('k#name')
    cmd = lambda c: fld(sn, fc, Str)(c)
    pos = lambda c: fld(sn, fp, IntSort())(c)

    def names(c):
        L = fld(sn, fr, Lst)(c)
        return EX(llen(L), j, externs.pred('eqfold', rule, ats(L, j)))
    here = EX(n, k, AND(names(at(C, k)), EQ(cmd(at(C, k)), lit('lint-disable-line')), EQ(pos(at(C, k)), line)))
    w = AND(names(at(C, k)), LT(pos(at(C, k)), line),
            OR(EQ(cmd(at(C, k)), lit('lint-enable')), EQ(cmd(at(C, k)), lit('lint-disable'))))
    last = LAST(n, k, w)
    return OR(here, AND(LE(IntVal(0), last), EQ(cmd(at(C, last)), lit('lint-disable'))))


def err_fields(e):
    return fld(LINTERR, 'Rule', Str)(e), fld(LINTERR, 'Line', IntSort())(e)


def kept(v, ct, E, C, n=None):
    """the errors of the list E that are not suppressed, in order"""
    b = prove.binder(0)
    e = at(E, b)
    rule, line = err_fields(e)
    return (('f', T, b, llen(E) if n is None else n, (('u', NOT(suppressed(v, ct, C, rule, line)), e),)),)


def p_L06(v):
    ex = v.ex
    go = v.the(['[]pkg/linter.LintErrorWithMetadata', '[]cmd/linter.InlineLintConfig'], ['[]pkg/linter.LintErrorWithMetadata'])
    f = ex.funcs[go]
    E, C = Const('errors', Lst), Const('configs', Lst)
    et, ct = ex.T.elem(f['params'][0][1]), ex.T.elem(f['params'][1][1])
    n0 = len(ex.obs)
    o = ex.call_body(f, [ListV((('b', T, E),), et), ListV((('b', T, C),), ct)], State(ghosts(), {}))
    nm = go.split('.')[-1]
    obs = [ob('%s: returns on every path' % nm, [], OR(*[AND(*g) for g, _, _ in o.rets]))]
    for g, r, s in o.rets:
        obs += sequence('%s: exactly the unsuppressed errors, in order' % nm, ex.freeze(r[0], s.mem, set(s.mem)).items,
                        kept(v, ct, E, C), list(g))
    return obs


def p_L08(v):
    """Lint: parse, apply every rule, sort, drop the suppressed errors"""
    ex = v.ex
    go = v.the(['string', 'string', '[]pkg/linter.LintRuleFunc'], ['[]pkg/linter.LintErrorWithMetadata'])
    cfg = v.the(['*ast.Source'], ['[]cmd/linter.InlineLintConfig'])
    f = ex.funcs[go]
    ct = ex.T.elem(ex.funcs[cfg]['res'][0])
    et = ex.T.elem(f['res'][0])
    name, text, R = Const('file', Str), Const('text', Str), Const('rules', Lst)
    C = Function('configs', Str, Str, Lst)

    def ccfg(ex, a, st, g, i):
        n, t = externs.src_parts(ex, a[0], st, g, i)
        return (), ListV((('b', T, C(n, t)),), ct), st, []
    saved, ex.contracts = ex.contracts, dict(ex.contracts, **{cfg: ccfg})
    ex.cache.clear()
    n0 = len(ex.obs)
    try:
        o = ex.call_body(f, [name, text, ListV((('b', T, R),), ex.T.elem(f['params'][2][1]))], State(ghosts(), {}))
    finally:
        ex.contracts = saved
        ex.cache.clear()
    nm = go.split('.')[-1]
    doc, perr = externs.fn('parsed1', Str, Str, Ref)(name, text), externs.fn('parse1err', Str, Str, Ref)(name, text)
    obs = [ob('%s: returns exactly when the text parses' % nm, [], EQ(perr, null) == OR(*[AND(*g) for g, _, _ in o.rets]))]
    for g, c, s in o.exits:
        obs.append(ob('%s: a parse error makes the command fail' % nm, list(g), AND(NOT(EQ(perr, null)), NOT(success(c)))))
    b = prove.binder(0)
    ap = Function('apply_' + Lst.name(), Ref, Ref, Lst)
    allerrs = (('f', T, b, llen(R), (('b', T, ap(at(R, b), doc)),)),)
    for g, r, s in o.rets:
        g = list(g)
        res = ex.freeze(r[0], s.mem, set(s.mem)).items
        # the sorted list the result is drawn from
        cand = []
        for key, (its, cmp, L) in externs.SORTED.items():
            try:
                cand.append((L, its, cmp, sequence('%s: errors collected from the rules' % nm, its, allerrs, g)))
            except Unsupported:
                pass
        if not cand:
            obs.append(prove.Ob('%s: the errors are sorted' % nm, 'unknown', 0))
            continue

        def one(c):
            L, its, cmp, o1 = c
            return o1 + order_obs(nm, cmp) + sequence('%s: exactly the unsuppressed errors, in order' % nm, res,
                                                      kept(v, ct, L, C(name, text), n=length(its)), g)
        obs += best(one(c) for c in cand)
    for g, c, info in ex.obs[n0:]:
        if info[0].startswith('sort.'):
            obs.append(ob('%s: %s is that of the sorted slice' % (nm, info[0]), list(g), c))
    return obs


def order_obs(nm, cmp):
    """the comparator agrees with the order by line and column"""
    if cmp[0] != 'slice' or not is_z(cmp[1]):
        return [prove.Ob('%s: order of the errors' % nm, 'unknown', 0)]
    L = Const('sorting', Lst)
    i, j = Const('si', IntSort()), Const('sj', IntSort())
    li, ci = [lambda x, n=n: fld(LINTERR, n, IntSort())(at(L, x)) for n in ('Line', 'Column')]
    lex = lambda x, y: OR(LT(li(x), li(y)), AND(EQ(li(x), li(y)), LT(ci(x), ci(y))))
    return [ob('%s: the order is by line and column' % nm, [lex(i, j)], cmp[1]),
            ob('%s: the order is by line and column (converse)' % nm, [cmp[1]], NOT(lex(j, i)))]


# ------------------------------------------------------------------------------------------- L07
LEX = MOD + 'cmd/linter/lexer'
COMMANDS = (b'lint-disable', b'lint-enable', b'lint-disable-line')
COMMENT = rb'^#\s*(lint-[^\s ]+)(\s.*)?$'


def lexer_contract(v, S, T_, kinds):
    """New and ReadToken over a ghost sequence S of tokens: T_ of them, then the end of the text for ever (L10 proves that
    the lexer's tokens are those of the parser plus the comments; a text the parser accepts has no lexical error)"""
    ex = v.ex
    new, read = LEX + '.New', '(*%s.Lexer).ReadToken' % LEX
    for n in (new, read):
        if n not in ex.funcs:
            raise Unsupported('no ' + n)
    tt = ex.funcs[read]['res'][0]
    num = {n: i for i, n in kinds.items()}

    def kind(t):
        e = IntVal(num['Name'])
        for n in sorted(num, key=num.get):     # Comment, the last one, is decided first
            if n not in ('Invalid', 'EOF', 'Name'):
                e = ITE(Function('is ' + n, Ref, BoolSort())(t), IntVal(num[n]), e)
        return e

    def cnew(ex, a, st, g, i):
        s = ex.zero(ex.funcs[new]['res'][0])
        return (), StructV(s.t, dict(s.f, **{'Source': a[0], '#': IntVal(0)})), st, []

    def cread(ex, a, st, g, i):
        p = a[0]
        if not isinstance(p, PtrL):
            raise Unsupported('lexer value')
        s = st.mem[p.o]
        for f in p.p:
            s = s.f[f]
        if not isinstance(s, StructV) or '#' not in s.f:
            raise Unsupported('lexer value')
        c = s.f['#']
        x = at(S, c)
        tok = ex.zero(tt)
        here = LT(c, T_)
        pos = tok.f['Pos']
        pos = StructV(pos.t, {k: (fld('Token', k, w.sort())(x) if is_z(w) else w) for k, w in pos.f.items()})
        tok = StructV(tok.t, {'Kind': ITE(here, kind(x), IntVal(num['EOF'])), 'Value': fld('Token', 'Value', Str)(x), 'Pos': pos})
        mem = dict(st.mem)
        mem[p.o] = loops.set_leaf(mem[p.o], tuple(p.p) + ('#',), ADD(c, IntVal(1)))
        return (), TupleV([tok, null]), State(mem, st.env), []
    return {new: cnew, read: cread}


def p_L07(v):
    """the suppression records of a text: one per comment with the documented form, in order"""
    ex = v.ex
    go = v.the(['*ast.Source'], ['[]cmd/linter.InlineLintConfig'])
    f = ex.funcs[go]
    ct = ex.T.elem(f['res'][0])
    fc, fr, fp = config_fields(v, ct)
    import lexproof
    prog = lexproof.Prog(ex.ssa)
    kinds = lexproof.Side(prog, lexproof.MINE).kinds
    S = Const('tokens', Lst)
    obs = []
    for what, T_ in (('a text with tokens', ADD(llen(S), IntVal(1))), ('an empty text', IntVal(0))):
        saved, ex.contracts = ex.contracts, dict(ex.contracts, **lexer_contract(v, S, T_, kinds))
        ex.cache.clear()
        n0 = len(ex.obs)
        try:
            o = ex.call_body(f, [Const('source', Ref)], State(ghosts(), {}))
        finally:
            ex.contracts = saved
            ex.cache.clear()
        nm = '%s, %s' % (go.split('.')[-1], what)
        obs.append(ob('%s: returns on every path' % nm, [], OR(*[AND(*g) for g, _, _ in o.rets])))
        b, j = prove.binder(0), prove.binder(1)
        x = at(S, b)
        val = fld('Token', 'Value', Str)(x)
        groups = externs._submatch(ex, [RegexV(COMMENT), val], None, (), None).items[0][2]
        g1, g2 = ats(groups, IntVal(1)), ats(groups, IntVal(2))
        rules = Function('split', Str, Str, Lst)(g2, lit(b','))
        rules = ListV((('f', T, j, llen(rules), (('u', T, externs.fn('trim', Str, Str)(ats(rules, j))),)),), 'string')
        ok = AND(Function('is Comment', Ref, BoolSort())(x), externs.pred('hasprefix', val, lit(b'#lint-')), externs.inlang(COMMENT, val),
                 OR(*[EQ(g1, lit(c)) for c in COMMANDS]))
        rec = StructV(ct, {fc: g1, fr: rules, fp: fld('Token', 'Line', IntSort())(x)})
        want = () if T_.eq(IntVal(0)) else (('f', T, b, T_, (('u', ok, rec),)),)
        for g, r, s in o.rets:
            obs += sequence('%s: one record per well-formed lint comment, in order' % nm, ex.freeze(r[0], s.mem, set(s.mem)).items, want, list(g))
        obs += safety(v, ex.obs[n0:], nm)
    return obs


def prove_L07(ssa, prop, deadline):
    """the extraction over a token sequence, and that the lexer yields that sequence (the obligations of L10)"""
    import lexproof
    v1, r1 = prover([('extractInlineLintConfiguration', p_L07)])(ssa, prop, deadline)
    v2, r2 = lexproof.run(ssa, prop, deadline)
    r1['obligations'] += r2['obligations']
    r1['notes'] = list(r1['notes']) + list(r2['notes'])
    r1['functions'].update(r2['functions'])
    for k in ('used', 'trusted'):
        r1[k] = set(r1[k]) | set(r2[k])
    r1['time'] = r1.get('time', 0) + r2.get('time', 0)
    return ('refuted' if 'refuted' in (v1, v2) else 'undecided' if v1 != 'proved' or v2 != 'proved' else 'proved'), r1


RUN['L07'] = prove_L07
RUN['L06'] = prover([('filterErrors', p_L06)],
                    lambda: [('extractInlineLintConfiguration', p_L07), ('Lint', p_L08), ('ReadFiles', p_U01_read)] + OUTPUT)
RUN['L08'] = prover([('Lint', p_L08)], lambda: [('filterErrors', p_L06), ('ReadFiles', p_U01_read)] + OUTPUT)


# ------------------------------------------------------------------------------------------- U01
def iserr(e):
    """formula saying that an error value is not nil"""
    if isinstance(e, IfaceV):
        return T
    if isinstance(e, UnionV):
        return OR(*[AND(g, iserr(x)) for g, x in e.a])
    if is_z(e):
        return NOT(EQ(e, null))
    raise Unsupported('error value')


def p_U01_read(v):
    ex = v.ex
    go = v.the(['string'], ['map[string][]byte', 'error'])
    path = Const('path', Str)
    ex.cache.clear()
    o = ex.call_body(ex.funcs[go], [path], State(ghosts(), {}))
    nm = go.split('.')[-1]
    L, ge = externs.fn('glob', Str, Lst)(path), externs.fn('globerr', Str, Ref)(path)
    n = llen(L)
    oe = lambda f: externs.fn('openerr', Str, Ref)(f)
    re_ = lambda f: externs.fn('readerr', Str, Ref)(f)
    content = lambda f: externs.fn('fcontent', Str, Str)(f)
    k = Int('k#file')
    bad = EX(n, k, OR(NOT(EQ(oe(ats(L, k)), null)), NOT(EQ(re_(ats(L, k)), null))))
    fails = OR(NOT(EQ(ge, null)), EQ(n, IntVal(0)), bad)
    obs = [ob('%s: returns on every path' % nm, [], OR(*[AND(*g) for g, _, _ in o.rets]))]
    for g, c, s in o.exits:
        obs.append(ob('%s: does not exit' % nm, [], NOT(AND(*g))))
    for g, (m, e), s in o.rets:
        g = list(g)
        obs.append(ob('%s: an error exactly when the pattern is bad, matches nothing or a file cannot be read' % nm, g, iserr(e) == fails))
        h = g + [NOT(iserr(e))]
        if facts.prove(h, F, timeout=2000) == 'proved':
            continue
        for c, x in prove.alternatives(map_at(ex, s, m)):
            if not isinstance(x, MapV):
                obs.append(ob('%s: a map of files' % nm, h + [c], F))
                continue
            q = x.q
            here = EX(n, k, EQ(ats(L, k), q))
            obs.append(ob('%s: an entry for exactly the matching files' % nm, h + [c], x.pres == here))
            obs.append(ob('%s: the full content of every file' % nm, h + [c, x.pres], val_eq(x.val, content(q))))
    return obs


def p_U01_parse(v):
    ex = v.ex
    go = v.the(['map[string][]byte'], ['*ast.SchemaDocument', 'error'])
    m = Const('files', Ref)
    ex.cache.clear()
    del externs.PARSED[:]
    o = ex.call_body(ex.funcs[go], [m], State(ghosts(), {}))
    nm = go.split('.')[-1]
    keys = Function('mkeys', Ref, Lst)(m)
    content = files_value(v, m)
    obs = [ob('%s: returns on every path' % nm, [], OR(*[AND(*g) for g, _, _ in o.rets]))]
    for g, c, s in o.exits:
        obs.append(ob('%s: does not exit' % nm, [], NOT(AND(*g))))
    if len(externs.PARSED) != 1:
        return obs + [prove.Ob('%s: the parser is called once' % nm, 'refuted' if externs.PARSED else 'unknown', 0)]
    its, doc, perr = externs.PARSED[0]

    def against(B):
        b = prove.binder(0)
        name = ats(B, b)
        code = unorder(its, True)
        return source_list('%s: sources' % nm, code, b, llen(keys), name, content(name))
    obs += best(against(B) for B in orders(keys))
    for g, (d, e), s in o.rets:
        g = list(g)
        obs.append(ob('%s: an error exactly when the parser reports one' % nm, g, iserr(e) == NOT(EQ(perr, null))))
        obs.append(ob('%s: the parsed document is returned' % nm, g + [EQ(perr, null)], val_eq(d, doc)))
    return obs


def source_list(nm, code, b, n, name, text):
    """the items are one source of this name and text per index below n"""
    if len(code) != 1 or code[0][0] != 'f':
        return [prove.Ob('%s: shape' % nm, 'unknown', 0)]
    _, g, k, cn, inner = code[0]
    inner = inner if k.eq(b) else vsub_items(inner, [(k, b)])
    obs = [ob('%s: one per file' % nm, [], AND(g, EQ(cn, n)))]
    h = [LE(IntVal(0), b), LT(b, n)]
    cnt = IntVal(0)
    for it in inner:
        if it[0] != 'u':
            return [prove.Ob('%s: shape' % nm, 'unknown', 0)]
        cnt = ADD(cnt, ITE(it[1], IntVal(1), IntVal(0)))
        for c, x in prove.alternatives(it[2]):
            x = x.s if isinstance(x, RecP) else x
            if not isinstance(x, StructV):
                return [prove.Ob('%s: shape' % nm, 'unknown', 0)]
            obs.append(ob('%s: the file name' % nm, h + [it[1], c], val_eq(x.f['Name'], name)))
            obs.append(ob('%s: the full content' % nm, h + [it[1], c], val_eq(x.f['Input'], text)))
    obs.append(ob('%s: every file once' % nm, h, EQ(cnt, IntVal(1))))
    return obs


RUN['U01'] = prover([('ReadFiles', p_U01_read), ('ParseSchema', p_U01_parse)])


# ------------------------------------------------------------------------------------------- C14, C15
CRIT = {'Breaking': 2, 'Dangerous': 1, 'NonBreaking': 0}
ICON = {'Breaking': '\u274c', 'Dangerous': '\u270b\ufe0f', 'NonBreaking': '\u2705'}
CMPPKG = MOD + 'pkg/compare'


def crit_of(v, c):
    return fld('Change', 'criticalityLevel', IntSort())(c)


def of_level(v, L, q):
    """the changes of the list L with severity q"""
    b = prove.binder(0)
    return (('f', T, b, llen(L), (('u', EQ(crit_of(v, at(L, b)), q), at(L, b)),)),)


def p_C14_group(v):
    ex = v.ex
    go = CMPPKG + '.GroupChanges'
    if go not in ex.funcs:
        raise Unsupported('no ' + go)
    f = ex.funcs[go]
    L = Const('changes', Lst)
    ex.cache.clear()
    o = ex.call_body(f, [ListV((('b', T, L),), ex.T.elem(f['params'][0][1]))], State(ghosts(), {}))
    obs = [ob('GroupChanges: returns on every path', [], OR(*[AND(*g) for g, _, _ in o.rets]))]
    for g, r, s in o.rets:
        for c, m in prove.alternatives(map_at(ex, s, r[0])):
            h = list(g) + [c]
            if not isinstance(m, MapV):
                obs.append(ob('GroupChanges: a map of groups', h, F))
                continue
            val = ex.freeze(m.val, s.mem, set(s.mem))
            if not isinstance(val, ListV):
                raise Unsupported('group value')
            obs += sequence('GroupChanges: the group of a severity is the changes of that severity', val.items,
                            of_level(v, L, m.q), h)
            obs.append(ob('GroupChanges: a group with members is present', h + [NOT(EQ(length(val.items), IntVal(0)))], m.pres))
    return obs


def texts(t):
    """a text as [(guard, flat list of pieces)]: if-then-else pieces are split"""
    out = [(T, [])]

    def go(e):
        if is_ite(e):
            return [(AND(e.arg(0), g), p) for g, p in go(e.arg(1))] + [(AND(NOT(e.arg(0)), g), p) for g, p in go(e.arg(2))]
        if z3.is_app(e) and e.decl().eq(core.cat):
            r = [(T, [])]
            for c in e.children():
                r = [(AND(g, h), p + q) for g, p in r for h, q in go(c)]
                if len(r) > 64:
                    raise Unsupported('text')
            return r
        return [(T, [e])]
    return [(g, flat_text(p)) for g, p in go(t) if not is_false(g)]


def flat_text(pieces):
    """bytes with markers for the symbolic pieces"""
    out = b''
    for p in pieces:
        l = litval(p)
        if l is not None:
            out += l
        else:
            core._keep.append(p)
            out += b'\x00%d\x01' % p.get_id()
    return out


def p_C14_report(sev):
    def f(v):
        ex = v.ex
        go = CMPPKG + '.Report%sChanges' % sev
        if go not in ex.funcs:
            raise Unsupported('no ' + go)
        fn = ex.funcs[go]
        L, wp = Const('changes', Lst), Const('positions', BoolSort())
        ex.cache.clear()
        o = ex.call_body(fn, [ListV((('b', T, L),), ex.T.elem(fn['params'][0][1])), wp], State(ghosts(), {}))
        nm = 'Report%sChanges' % sev
        obs = [ob('%s: returns on every path' % nm, [], OR(*[AND(*g) for g, _, _ in o.rets]))]
        for g, c, s in o.exits:
            obs.append(ob('%s: does not exit' % nm, [], NOT(AND(*g))))
        n = llen(L)
        for g, r, s in o.rets:
            g = list(g)
            obs.append(ob('%s: returns the number of changes' % nm, g, EQ(r[0], n)))
            out = coalesce(unorder(s.mem['@out'].items))
            if not out:
                obs.append(ob('%s: every change is printed' % nm, g, EQ(n, IntVal(0))))
                continue
            if len(out) != 1 or out[0][0] != 'f':
                obs.append(prove.Ob('%s: shape of the output' % nm, 'unknown', 0))
                continue
            _, c, k, cn, inner = out[0]
            obs.append(ob('%s: one line per change' % nm, g, OR(EQ(n, IntVal(0)), AND(c, EQ(cn, n)))))
            b = prove.binder(0)
            inner = vsub_items(inner, [(k, b)])
            h = g + [c, LE(IntVal(0), b), LT(b, cn)]
            obs += best(lines(v, nm, ICON[sev], at(B, b), wp, inner, h) for B in orders(L))
        return obs
    return f


def lines(v, nm, icon, c, wp, inner, h):
    """exactly one line for the change c"""
    pos = fld('Change', 'position', Ref)(c)
    fname = fld('Source', 'Name', Str)(fld('Position', 'Src', Ref)(pos))
    line = itoa(fld('Position', 'Line', IntSort())(pos))
    msg = fld('Change', 'message', Str)(c)
    h = h + [NOT(EQ(pos, null))]
    cnt = IntVal(0)
    obs = []
    icon = icon.encode()
    m = flat_text([msg])
    for it in inner:
        if it[0] != 'u':
            return [prove.Ob('%s: shape of the output' % nm, 'unknown', 0)]
        cnt = ADD(cnt, ITE(it[1], IntVal(1), IntVal(0)))
        for g, t in texts(it[2]):
            hh = h + [it[1], g]
            if facts.prove(hh, F, timeout=2000) == 'proved':
                continue
            noname = facts.prove(hh, EQ(SLEN(fname), IntVal(0))) == 'proved'
            p = flat_text(([] if noname else [fname]) + [lit(b':'), line])
            head = t[:t.find(m)] if m in t else t
            others = [i.encode() for i in ICON.values() if i.encode() != icon]
            where = not is_true(it[1])
            good = lambda what, x: obs.append(ob('%s: %s' % (nm, what), hh, T if x else F))
            good('the line carries the icon', icon in head and not any(i in head for i in others))
            good('the line carries the message once', t.count(m) == 1)
            good('one line', t.endswith(b'\n') and t.count(b'\n') == 1)
            if p in t:
                obs.append(ob('%s: a position only when requested' % nm, hh, wp))
            elif flat_text([line]) in t or flat_text([fname]) in t:
                good('the position is file:line', False)
            else:
                obs.append(ob('%s: a position when requested' % nm, hh, NOT(wp)))
    return [ob('%s: exactly one line for a change' % nm, h, EQ(cnt, IntVal(1)))] + obs


def compare_cmd(v):
    """(flag obligations, ends of the run, symbols) of gql compare, its callees abstracted by their contracts"""
    ex = v.ex
    run, st, flags = v.command(CMPCMD)
    obs, sym = [], {}
    for k, a in (('old', ('oldversion', 'o', 'String', b'')), ('new', ('newversion', 'n', 'String', b'')),
                 ('only', ('breaking-change-only', 'b', 'Bool', None)), ('nopos', ('exclude-print-filepath', 'e', 'Bool', None))):
        o, sym[k] = v.flag(flags, *a)
        obs += o
        if sym[k] is None:
            raise Unsupported('flag --' + a[0])
    ps = v.the(['map[string][]byte'], ['*ast.SchemaDocument', 'error'])
    fc = CMPPKG + '.FindChangesInSchemas'
    if fc not in ex.funcs:
        raise Unsupported('no ' + fc)
    et = ex.T.elem(ex.funcs[fc]['res'][0])
    sym['schema'] = Function('schemaof', Ref, Ref)
    sym['schemaerr'] = Function('schemaerr', Ref, Ref)
    sym['changes'] = Function('changes', Ref, Ref, Lst)

    def cfind(ex, a, st, g, i):
        return (), ListV((('b', T, sym['changes'](a[0], a[1])),), et), st, []

    def creport(sev):
        def c(ex, a, st, g, i):
            l = ListV((), et) if is_z(a[0]) and a[0].eq(null) else a[0]
            return (), ex.listlen(l), State(call_record(st, sev, [l, a[1]]), st.env), []
        return c
    cons = {ps: lambda ex, a, st, g, i: ((), TupleV([sym['schema'](a[0]), sym['schemaerr'](a[0])]), st, []), fc: cfind}
    for sev in CRIT:
        n = CMPPKG + '.Report%sChanges' % sev
        if n in ex.funcs:
            cons[n] = creport(sev)
    cons.update(files_contract(v))
    o, sf = v.run_cmd(run, st, cons)
    fe = Function('fileserr', Str, Ref)
    fs = Function('files', Str, Ref)
    a, b = fs(sym['old']), fs(sym['new'])
    sym['ok'] = AND(NOT(EQ(SLEN(sym['old']), IntVal(0))), NOT(EQ(SLEN(sym['new']), IntVal(0))), NOT(EQ(sym['old'], sym['new'])),
                    EQ(fe(sym['old']), null), EQ(fe(sym['new']), null), EQ(sym['schemaerr'](a), null), EQ(sym['schemaerr'](b), null))
    sym['L'] = sym['changes'](sym['schema'](a), sym['schema'](b))
    return obs, ends(o), sym, sf


def p_C15(v):
    obs, es, sym, sf = compare_cmd(v)
    obs.append(ob('gql compare: ends on every path', [], OR(*[g for g, _, _ in es])))
    L = sym['L']
    k = Int('k#chg')
    has = {sev: EX(llen(L), k, EQ(crit_of(v, at(L, k)), IntVal(q))) for sev, q in CRIT.items()}
    for n, (g, code, s) in enumerate(es):
        nm = 'gql compare, exit %d' % n
        obs.append(ob('%s: status 0 exactly when the comparison succeeds without a breaking change' % nm, [g],
                      success(code) == AND(sym['ok'], NOT(has['Breaking']))))
        cs = calls(s)
        for sev, q in CRIT.items():
            mine = [(h, a) for h, f, a in cs if f == sev]
            cnt = IntVal(0)
            for h, a in mine:
                cnt = ADD(cnt, ITE(h, IntVal(1), IntVal(0)))
                obs += sequence('%s: exactly the %s changes are printed' % (nm, sev), as_list(a[0]).items, of_level(v, L, IntVal(q)), [g, h, sym['ok']])
                if sev != 'Breaking':
                    obs.append(ob('%s: %s changes are not printed with -b' % (nm, sev), [g, h, sym['only']], NOT(has[sev])))
                obs.append(ob('%s: %s changes are printed after a comparison' % (nm, sev), [g, h], sym['ok']))
            cond = [g, sym['ok'], has[sev]] + ([NOT(sym['only'])] if sev != 'Breaking' else [])
            obs.append(ob('%s: the %s changes are printed once' % (nm, sev), cond, EQ(cnt, IntVal(1))))
            obs.append(ob('%s: the %s changes are printed at most once' % (nm, sev), [g, has[sev]], LE(cnt, IntVal(1))))
    return obs


def as_list(x):
    if isinstance(x, ListV):
        return x
    raise Unsupported('list of changes')


def p_C14_cmd(v):
    obs, es, sym, sf = compare_cmd(v)
    for n, (g, code, s) in enumerate(es):
        for h, f, a in calls(s):
            if f in CRIT:
                obs.append(ob('gql compare, exit %d: positions are requested unless -e is given' % n, [g, h], val_eq(a[1], NOT(sym['nopos']))))
    return obs


RUN['C14'] = prover([('GroupChanges', p_C14_group)] + [('Report%sChanges' % s, p_C14_report(s)) for s in CRIT] + [('NewCompareCmd', p_C14_cmd)])
RUN['C15'] = prover([('NewCompareCmd', p_C15)],
                    lambda: [('GroupChanges', p_C14_group)] + [('Report%sChanges' % s, p_C14_report(s)) for s in CRIT] +
                    [('ReadFiles', p_U01_read), ('ParseSchema', p_U01_parse)])


# ------------------------------------------------------------------------------------------- C17
DET = ('fmt.', 'strings.', 'strconv.', 'sort.', 'errors.', 'bytes.', 'unicode.', 'unicode/utf8.', 'regexp.', '(*regexp.Regexp).',
       'os.Exit', 'os.Open', 'os.ReadFile', 'io.ReadAll', 'io/ioutil.ReadAll', 'io/ioutil.ReadFile', '(*os.File).Close', '(*os.File).Name',
       'path/filepath.Glob', 'path/filepath.Base', 'path/filepath.Join', '(*strings.Builder).', '(*bytes.Buffer).',
       '(*github.com/spf13/cobra.Command).', '(*github.com/spf13/pflag.FlagSet).', 'math.', '(*strings.Reader).', 'bufio.', '(*bufio.',
       'slices.Sort', 'slices.Contains', 'slices.Index', 'slices.Reverse', 'github.com/vektah/gqlparser/', '(github.com/vektah/gqlparser/',
       '(*github.com/vektah/gqlparser/')


def mentioned(f):
    """functions a function calls or refers to"""
    out = set()

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'f' and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
    go(f['blocks'])
    return out


def ours(n):
    return MOD[:-1] in n


def reachable(v):
    """functions of the repository the program can run (conservatively: every function of its packages but the tests)"""
    return [n for n, f in v.ex.funcs.items() if ours(n) and f['blocks']]


def p_det_sources(v):
    """no function of the repository uses a source of non-determinism other than map iteration (checked separately)"""
    ex = v.ex
    obs = []
    for n in reachable(v):
        f = ex.funcs[n]
        bad, unk = [], []
        for b in f['blocks']:
            for i in b['i']:
                if i['o'] in ('Go', 'Select', 'Send') or i['o'] == 'UnOp' and i.get('op') == '<-':
                    unk.append(i['o'])
        for c in mentioned(f):
            if not ours(c) and not c.startswith(DET) and not c.endswith('.init') and not (c in ex.funcs and ex.funcs[c]['blocks'] and 'gqlparser' in c):
                unk.append(c)
        obs.append(prove.Ob('%s: no source of non-determinism' % n.replace(MOD, ''), 'unknown' if unk else 'proved', 0, ', '.join(unk)))
    return obs


def det_one(v, n):
    """the effect of one function that iterates over a map: (state, obligations); state: 'clean', 'result' (only its
    results depend on the order) or 'effect'"""
    ex = v.ex
    f = ex.funcs[n]
    ex.cache.clear()
    n0, p0 = len(ex.obs), len(externs.PARSED)
    st = State(ghosts(), {})
    args = []
    for p in f['params'] + f['free']:
        args.append(ex.param('a!' + p[0], p[1]))
    saved, ex.on_unsupported = ex.on_unsupported, abstract_call
    try:
        o = ex.call_body(f, args, st)
    finally:
        ex.on_unsupported = saved
    res, eff = [], []
    for g, vals, s in o.rets:
        for x in vals:
            x = deref(ex, s, x)
            if unordered(x):
                res.append('result')
        if unordered(s.mem['@out']):
            eff.append('output')
        for k, x in s.mem.items():
            if k.startswith('g:') and unordered(x):
                eff.append('global')
    for g, c, s in o.exits:
        if unordered(s.mem['@out']) or unordered(c):
            eff.append('output or exit status')
    eff += ['argument of %s' % (info[1],) for g, c, info in ex.obs[n0:] if info[0] == 'order']
    return res, eff


def abstract_call(name, f, args, st, g, info, e):
    """a deterministic function whose body is out of reach: some function of its arguments, which may print"""
    ex = CURRENT[0]
    if name in CURRENT[1] or any(not is_z(a) and not (isinstance(a, ListV) and len(a.items) == 1 and a.items[0][0] == 'b') for a in args):
        return None
    zs = [a if is_z(a) else a.items[0][2] for a in args]
    vals = []
    for i, t in enumerate(f['res']):
        srt = ex.T.sort(t)
        vals.append(ex.sym(t, Function('call%d!%s' % (i, name), *[z.sort() for z in zs], srt)(*zs) if zs else Const('call%d!%s' % (i, name), srt)))
    mem = dict(st.mem)
    t = Function('printed!' + name, *[z.sort() for z in zs], Str)(*zs) if zs else Const('printed!' + name, Str)
    mem['@out'] = ListV(mem['@out'].items + (('u', T, t),), 'string')
    return (), (None if not vals else vals[0] if len(vals) == 1 else TupleV(vals)), State(mem, st.env), []


CURRENT = [None, set()]


def deref(ex, s, x):
    try:
        m = map_at(ex, s, x)
    except KeyError:
        m = x
    return ex.freeze(m, s.mem, set(k for k in s.mem if not k.startswith('@')))


from execu import unordered


def p_det_maps(v):
    ex = v.ex
    fs = reachable(v)
    calls_ = {n: mentioned(ex.funcs[n]) for n in fs}
    todo = []
    for n in fs:
        for b in ex.funcs[n]['blocks']:
            if any(i['o'] == 'Range' and i['xt'] != 'string' and ex.T.kind(i['xt']) == 'map' for i in b['i']) and n not in todo:
                todo.append(n)
    obs, seen = [], set()
    if not todo:
        obs.append(prove.Ob('no function iterates over a map', 'proved', 0))
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        CURRENT[0] = ex
        CURRENT[1] = seen | set(todo)
        name = n.replace(MOD, '')
        try:
            res, eff = det_one(v, n)
        except Unsupported as e:
            obs.append(prove.Ob('%s: independent of the iteration order of its maps' % name, 'unknown', 0, str(e)))
            continue
        obs.append(prove.Ob('%s: output, exit status and calls do not depend on the iteration order of its maps' % name,
                            'refuted' if eff else 'proved', 0, ', '.join(sorted(set(eff)))))
        if not res:
            obs.append(prove.Ob('%s: results do not depend on the iteration order of its maps' % name, 'proved', 0))
            continue
        callers = [m for m in fs if n in calls_[m]]
        api = n.split('.')[-1][0].isupper() and n in (CMPPKG + '.FindChangesInSchemas',)
        if not callers or api:
            obs.append(prove.Ob('%s: results do not depend on the iteration order of its maps' % name, 'refuted', 0))
        todo += callers
    return obs


RUN['C17'] = prover([('map iteration', p_det_maps), ('sources of non-determinism', p_det_sources)])

if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    for p in sys.argv[2:]:
        t = time.time()
        vd, rep = run(ssa, p, time.time() + 300)
        print(p, vd, '%.1fs' % (time.time() - t), len(rep['obligations']), 'obligations',
              sum(1 for o in rep['obligations'] if o[1] == 'proved'), 'proved', rep['notes'])
        for o in [o for o in rep['obligations'] if o[1] != 'proved'][:12]:
            print('  ', o)

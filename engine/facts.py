"""Background facts, instantiated on the terms of a query (no quantifiers reach the solver).

Three kinds: the definitions of the loop skeletons (first/last index, sum), the invariants of parsed documents
(WF, listed in every evidence file), and the unfoldings of the pure functions that contracts mention."""
from core import *
import core
import externs
import words
import z3

# ---------------------------------------------------------------- invariants of parsed documents
# pointer fields that the parser always sets
NONNULL_FIELDS = {
    'FieldDefinition.Type', 'FieldDefinition.Position', 'ArgumentDefinition.Type', 'ArgumentDefinition.Position',
    'Definition.Position', 'EnumValueDefinition.Position', 'Directive.Position', 'Argument.Position',
    'Argument.Value', 'DirectiveDefinition.Position', 'SchemaDefinition.Position',
    'OperationTypeDefinition.Position', 'Type.Position', 'Position.Src', 'Change.position', 'parsed1',
}
# strings that are never empty
NONEMPTY = {'Definition.Name', 'FieldDefinition.Name', 'ArgumentDefinition.Name', 'EnumValueDefinition.Name',
            'Directive.Name', 'Argument.Name', 'DirectiveDefinition.Name', 'OperationTypeDefinition.Type',
            'OperationTypeDefinition.Operation', 'Definition.Kind'}
# strings that are GraphQL names: /[_A-Za-z][_0-9A-Za-z]*/
NAMES = {'Definition.Name', 'FieldDefinition.Name', 'ArgumentDefinition.Name', 'EnumValueDefinition.Name',
         'Directive.Name', 'Argument.Name', 'DirectiveDefinition.Name', 'OperationTypeDefinition.Type'}
# lists whose members have distinct names: list-valued field -> name field (None: list of strings)
UNIQUE = {
    'SchemaDocument.Definitions': 'Definition.Name', 'Definition.Fields': 'FieldDefinition.Name',
    'FieldDefinition.Arguments': 'ArgumentDefinition.Name', 'Definition.EnumValues': 'EnumValueDefinition.Name',
    'SchemaDocument.Directives': 'DirectiveDefinition.Name', 'DirectiveDefinition.Arguments': 'ArgumentDefinition.Name',
    'Directive.Arguments': 'Argument.Name', 'Definition.Types': None, 'Definition.Interfaces': None,
    'merged': 'Definition.Name',
}
NONNULL.update(NONNULL_FIELDS)

# parts that only some kinds of definition have
BYKIND = {'Definition.Fields': ('OBJECT', 'INTERFACE', 'INPUT_OBJECT'), 'Definition.EnumValues': ('ENUM',),
          'Definition.Types': ('UNION',), 'Definition.Interfaces': ('OBJECT',)}


def has_merged(e):
    return any(x.decl().name() == 'merged' for x in collect([e]) if z3.is_app(x))


UNFOLD = {}         # function name -> (term -> list of facts)


def collect(terms):
    seen, out = set(), []
    stack = list(terms)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        stack.extend(e.children())
    return out


INDEXERS = ('at', 'ats', 'at_int', 'at_bool', 'at_slice', 'at_map')


def skel_of(e):
    if z3.is_app(e) and e.num_args() > 0:
        return core.SKEL_BY_NAME.get(e.decl().name())
    return None


_inst = {}


def inst(s, e, t):
    """body of the skeleton application e at index t"""
    key = (e.get_id(), t.get_id())
    r = _inst.get(key)
    if r is None:
        args = e.children()[1:]
        m = {p.get_id(): a for p, a in zip(s.params, args)}
        m[core.K.get_id()] = t
        r = rebuild(s.body, m, {})
        _inst[key] = r
        core._keep.append((e, t, r, m))
    return r


_klists = {}


def klists(s, e):
    """the lists that the skeleton body indexes directly by its index variable"""
    key = e.get_id()
    r = _klists.get(key)
    if r is None:
        r = set()
        args = e.children()[1:]
        m = {p.get_id(): a for p, a in zip(s.params, args)}
        for x in collect([s.body]):
            if x.num_args() == 2 and x.decl().name() in INDEXERS and x.arg(1).eq(core.K):
                L = rebuild(x.arg(0), m, {})
                core._keep.append(L)
                r.add(L.get_id())
        _klists[key] = r
        core._keep.append((e, m))
    return r


def namechar(c):
    return [AND(LE(IntVal(a), c), LE(c, IntVal(b))) for a, b in ((65, 90), (97, 122), (95, 95))]


ASCII = [False]     # are the strings compared without regard to case ASCII strings? (an assumption of the rule selection)


def casefact(how, e):
    """two ASCII strings are equal but for case exactly when they are equal in lower (upper) case"""
    if not ASCII[0]:
        return T
    f = lambda x: externs.TABLE['strings.ToLower' if how == 'lower' else 'strings.ToUpper'](None, [x], None, (), ())
    return e == EQ(f(e.arg(0)), f(e.arg(1)))


def facts(terms, unique=True, rounds=3, cap=4000):
    out, done = [], set()
    work = list(terms)
    idx = {}            # list id -> {index id: index}
    lists = {}
    skels = {}
    pairs = set()
    seenterm = set()
    lits = {}
    folds = {}
    cases, folded = {}, {}
    new = list(terms)

    def add(f):
        if is_true(f) or f.get_id() in done:
            return
        done.add(f.get_id())
        out.append(f)
        nxt.append(f)

    for rnd in range(rounds + 1):
        nxt = []
        for e in collect(new):
            i = e.get_id()
            if i in seenterm or not z3.is_app(e):
                continue
            seenterm.add(i)
            n = e.decl().name()
            if e.num_args() == 0:
                if litval(e) is not None:
                    lits[i] = e
                if e.sort() == core.Ref and not e.eq(null) and n in NONNULL:
                    add(NOT(e == null))
                continue
            if n in INDEXERS:
                idx.setdefault(e.arg(0).get_id(), {})[e.arg(1).get_id()] = e.arg(1)
                lists[e.arg(0).get_id()] = e.arg(0)
                if n == 'at':
                    add(NOT(e == null))
            elif n == 'len':
                out.append(e >= 0)
                f = externs.FACTS.get(e.arg(0).get_id())
                if f is not None:
                    add(f)
                if e.arg(0).decl().name() == 'split':
                    add(e >= 1)
                if e.arg(0).decl().name() == 'mkeys':
                    add(OR(NOT(EQ(e.arg(0).arg(0), null)), EQ(e, IntVal(0))))
                ks = BYKIND.get(e.arg(0).decl().name())
                if ks is not None and not has_merged(e.arg(0)):
                    kd = fld('Definition', 'Kind', Str)(e.arg(0).arg(0))
                    add(OR(LE(e, IntVal(0)), *[EQ(kd, lit(x)) for x in ks]))
            elif n == 'slen':
                out.append(e >= 0)
                x = e.arg(0)
                if z3.is_app(x) and x.num_args():
                    if x.decl().name() in NONEMPTY:
                        add(e >= 1)
                    if x.decl().name() == 'cat':
                        add(e == ADD(SLEN(x.arg(0)), SLEN(x.arg(1))))
            elif n == 'ssub':
                x, a, b = e.children()
                add(OR(LT(a, IntVal(0)), LT(b, a), LT(SLEN(x), b), EQ(slen(e), SUB(b, a))))
            elif n == 'sindex':
                add(AND(LE(IntVal(-1), e), LT(e, slen(e.arg(0)) + 1)))
                add((e >= 0) == externs.pred('contains', e.arg(0), e.arg(1)))
            elif n == 'slt':
                a, b = e.arg(0), e.arg(1)
                r = core.slt(b, a)
                out.append(OR(e, r, EQ(a, b)))
                out.append(OR(NOT(e), NOT(r)))
                out.append(OR(NOT(e), NOT(EQ(a, b))))
            elif n == 'sbyte':
                x, i = e.children()
                rng = [LT(i, IntVal(0)), LE(SLEN(x), i)]
                out.append(OR(*rng, AND(LE(IntVal(0), e), LE(e, IntVal(255)))))
                if z3.is_app(x) and x.decl().name() in NAMES:
                    add(OR(*rng, *namechar(e), AND(NOT(EQ(i, IntVal(0))), LE(IntVal(48), e), LE(e, IntVal(57)))))
            elif n in ('lower', 'upper') and e.num_args() == 1:
                cases.setdefault(n, {})[e.arg(0).get_id()] = e.arg(0)
                for c in folded.values():
                    add(casefact(n, c))
            elif n == 'Value.Kind':
                out.append(AND(LE(IntVal(0), e), LE(e, IntVal(9))))
            elif n in NONNULL_FIELDS:
                out.append(NOT(e == null))
            elif n == 'eqfold':
                a, b = e.arg(0), e.arg(1)
                out.append(e == e.decl()(b, a))
                out.append(OR(NOT(EQ(a, b)), e))
                if i not in folded:
                    folded[i] = e
                    for c in cases:
                        add(casefact(c, e))
                l = litval(b)
                if l is not None:
                    for l2, e2 in folds.setdefault(a.get_id(), []):
                        if l2.lower() != l.lower():
                            out.append(OR(NOT(e), NOT(e2)))
                    folds[a.get_id()].append((l, e))
            s = core.SKEL_BY_NAME.get(n)
            if s is not None:
                skels[i] = (s, e)
                m = e.arg(0)
                if s.kind == 'first':
                    out += [e >= 0, OR(LT(m, IntVal(0)), e <= m)]
                    add(OR(LE(m, e), inst(s, e, e)))
                elif s.kind == 'last':
                    out += [e >= -1, OR(LT(m, IntVal(0)), e <= m - 1)]
                    add(OR(LT(e, IntVal(0)), inst(s, e, e)))
                elif s.kind == 'sum':
                    b = s.body
                    if nonneg(b):
                        out.append(e >= 0)
                        k = Int('K#s')
                        ex = FIRST(m, k, NOT(EQ(inst(s, e, k), IntVal(0))))
                        add((e == 0) == (ex >= m))
            if n in UNFOLD:
                for f in UNFOLD[n](e):
                    add(f)
        # index instances
        for i, (s, e) in list(skels.items()):
            for L in klists(s, e):
                for t in list(idx.get(L, {}).values()):
                    key = (i, t.get_id())
                    if key in pairs or t.eq(e):
                        continue
                    pairs.add(key)
                    m = e.arg(0)
                    b = inst(s, e, t)
                    if s.kind == 'first':
                        add(OR(LT(t, IntVal(0)), LE(e, t), NOT(b)))
                    elif s.kind == 'last':
                        add(OR(LE(t, e), LE(m, t), NOT(b)))
                    elif s.kind == 'sum' and nonneg(s.body):
                        add(OR(LT(t, IntVal(0)), LE(m, t), LE(b, e)))
                        for t2 in list(idx.get(L, {}).values()):
                            if t2.get_id() < t.get_id():
                                add(OR(LT(t, IntVal(0)), LE(m, t), LT(t2, IntVal(0)), LE(m, t2), EQ(t, t2),
                                       LE(ADD(b, inst(s, e, t2)), e)))
        # sums with the same bound and equal terms are equal
        ss = [(s, e) for s, e in skels.values() if s.kind == 'sum']
        for a in range(len(ss)):
            for b in range(a):
                (s1, e1), (s2, e2) = ss[a], ss[b]
                key = ('sum', e1.get_id(), e2.get_id())
                if key in pairs or not e1.arg(0).eq(e2.arg(0)):
                    continue
                pairs.add(key)
                k = Int('K#d')
                w = FIRST(e1.arg(0), k, NOT(EQ(inst(s1, e1, k), inst(s2, e2, k))))
                add(OR(LT(w, e1.arg(0)), EQ(e1, e2)))
        if unique:
            for L, ts in list(idx.items()):
                l = lists[L]
                if not z3.is_app(l):
                    continue
                n = l.decl().name()
                if n not in UNIQUE:
                    continue
                ts = list(ts.values())
                for a in range(len(ts)):
                    for b in range(a):
                        key = ('u', L, ts[a].get_id(), ts[b].get_id())
                        if key in pairs:
                            continue
                        pairs.add(key)
                        x, y = ts[a], ts[b]
                        nf = UNIQUE[n]
                        nm = (lambda t: ats(l, t)) if nf is None else (lambda t: fld(*nf.split('.'), Str)(at(l, t)))
                        rng = [LE(IntVal(0), x), LT(x, llen(l)), LE(IntVal(0), y), LT(y, llen(l))]
                        add(OR(*[NOT(r) for r in rng], NOT(EQ(nm(x), nm(y))), EQ(x, y)))
        new = nxt
        if not nxt or len(out) > cap:
            break
    for e in collect(new):
        if z3.is_app(e) and e.num_args() == 0 and litval(e) is not None:
            lits[e.get_id()] = e
    ls = list(lits.values())
    if len(ls) > 1:
        out.append(z3.Distinct(*ls))
    for l in ls:
        out.append(slen(l) == len(litval(l)))
    out += words.facts([x for x in collect(list(terms) + out)], isname)
    return out


def isname(x):
    return z3.is_app(x) and x.decl().name() in NAMES and x.num_args() == 1


# ---------------------------------------------------------------- queries
STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'trivial': 0}


def strite(e):
    """a condition on which a string built by concatenation depends"""
    for x in collect([e]):
        if z3.is_app(x) and x.decl().name() == 'cat':
            for c in x.children():
                if is_ite(c):
                    return c.arg(0)
    return None


# functions on strings that are not axiomatised completely: a query with one that no contract mentions is never refuted
WEAK = {'upper', 'lower', 'trim', 'trimx_Trim', 'trimx_TrimLeft', 'trimx_TrimRight', 'sindex', 'ssub', 'quote', 'contains', 'hasprefix', 'hassuffix', 'eqfold', 'runestr', 'split', 'rune0',
        'rune0len', 'IsLower', 'IsUpper', 'IsLetter', 'IsDigit', 'IsNumber', 'IsSpace', 'sbyte', 'slt'}
WEAK_OK = set()
UNIQ = [True]       # do names in one list differ? (C13 is about all documents the parser accepts)


# results of library calls of which nothing (or only that it is a permutation) is known
HAVOC = ('join!', 'fmt!', 'fmt_', 'cap!', 'sorted!', 'sorting')


def weak(n):
    return n in WEAK and n not in WEAK_OK or n.startswith(HAVOC)


def prove(hyps, goal, unique=True, timeout=8000, rounds=3, splits=5):
    """'proved' | 'refuted' | 'unknown' for hyps |- goal"""
    unique = unique and UNIQ[0]
    c = strite(goal) if splits else None
    if c is not None:
        for side, val in ((c, T), (NOT(c), F)):
            m = {c.get_id(): val}
            n = NOT(c)
            m[n.get_id()] = NOT(val)
            r = prove(list(hyps) + [side], rebuild(goal, m, {}), unique, timeout, rounds, splits - 1)
            if r != 'proved':
                return r
        return 'proved'
    return prove1(hyps, goal, unique, timeout, rounds)


def prove1(hyps, goal, unique, timeout, rounds):
    import time
    g = goal
    if is_true(g) or any(is_false(h) for h in hyps):
        STATS['trivial'] += 1
        return 'proved'
    for h in hyps:
        if h.eq(g):
            STATS['trivial'] += 1
            return 'proved'
    t0 = time.time()
    q = list(hyps) + [z3.Not(g)]
    res = None
    for rnd in (1, rounds):
        s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(*q)
        s.add(*facts(q, unique, rnd))
        STATS['queries'] += 1
        r = s.check()
        if r == z3.unsat:
            res = 'proved'
            STATS['unsat'] += 1
            break
        res = 'refuted' if r == z3.sat else 'unknown'
    if res == 'refuted' and any(z3.is_app(e) and weak(e.decl().name()) for e in collect(q)):
        res = 'unknown'         # of this function the solver knows too little for a counterexample to be one
    if res != 'proved':
        STATS['sat' if res == 'refuted' else 'unknown'] += 1
    STATS['time'] += time.time() - t0
    return res

"""Regular facts: the conditions a program puts on one string (a suffix, a regular expression, an upper-case form, a byte)
are regular languages; their possible combinations, over all strings or over all GraphQL names, are enumerated by a product
of automata.  Exact, for any length."""
import re
import z3
import core
from core import *
import dfa
import externs

NAME = r'^[_A-Za-z][_0-9A-Za-z]*$'
BYTES = [('[a-z]', 97, 122), ('[A-Z]', 65, 90), ('[0-9]', 48, 57), ('_', 95, 95)]
LIMIT = 4000        # product states


def q(l):
    if not l.isascii():
        return None
    return ''.join('\\x%02x' % b for b in l)


def fold(l):
    """case-insensitive literal, over ASCII strings only"""
    return ''.join('[%s]' % (chr(b).lower() + chr(b).upper()) if chr(b).isalpha() else '\\x%02x' % b for b in l) if l.isascii() else None


def const(e):
    return e.as_long() if z3.is_int_value(e) else None


def piece(e):
    """e as a fixed slice of a term: (term, from, to)"""
    if z3.is_app(e) and e.decl().name() == 'ssub' and e.num_args() == 3:
        a, b = const(e.arg(1)), const(e.arg(2))
        if a is not None and b is not None and 0 <= a <= b <= 8:
            return e.arg(0), a, b
        if a is not None and 0 <= a <= 8 and e.arg(2).eq(slen(e.arg(0))):
            return e.arg(0), a, None
    return e, 0, None


def letters(s, e, x):
    """the names of which no letter satisfies the body of the loop skeleton, as a regular expression"""
    rx = ''
    m0 = {p.get_id(): a for p, a in zip(s.params, e.children()[1:])}
    for pos, suffix in ((0, ''), (5, '*$')):
        m = dict(m0)
        m[core.K.get_id()] = core.K
        body = rebuild(s.body, m, {})
        cs = []
        for c in sorted(dfa.WORD):
            m2 = {sbyte(x, core.K).get_id(): IntVal(c), core.K.get_id(): IntVal(pos)}
            b = z3.simplify(rebuild(body, m2, {}))
            if z3.is_false(b):
                cs.append(c)
            elif not z3.is_true(b):
                return None
        if not cs:
            return '^$' if pos == 0 else rx + '$'
        rx += ('^' if pos == 0 else '') + '[' + ''.join('\\x%02x' % c for c in cs) + ']' + suffix
    for y in core.subterms(s.body):          # the index itself may only be told apart from 0
        if z3.is_app(y) and any(c.eq(core.K) for c in y.children()) and y.decl().name() != 'sbyte':
            k = [const(c) for c in y.children() if not c.eq(core.K)]
            if not z3.is_bool(y) or any(v is None or v not in (0, 1) for v in k):
                return None
    return rx


def atoms(terms, isname):
    """term id -> (term, [(z3 formula, regular expression)])"""
    out, seen = {}, set()

    def put(t, f, rx):
        if rx is None or f.get_id() in seen or litval(t) is not None:
            return
        seen.add(f.get_id())
        out.setdefault(t.get_id(), (t, []))[1].append((f, rx))

    for e in terms:
        if not z3.is_app(e) or e.num_args() == 0:
            continue
        n, k = e.decl().name(), e.decl().kind()
        if n.startswith('inlang#') and n[7:] in dfa.LANG:
            put(e.arg(0), e, n)
        elif n in ('hassuffix', 'hasprefix', 'contains') and e.num_args() == 2:
            l = litval(e.arg(1))
            if l is not None and l.isascii():
                put(e.arg(0), e, ('^' if n == 'hasprefix' else '') + q(l) + ('$' if n == 'hassuffix' else ''))
        elif n == 'eqfold' and e.num_args() == 2:
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                l = litval(b)
                if l is not None and isname(a) and fold(l) is not None:
                    put(a, e, '^' + fold(l) + '$')
        elif k == z3.Z3_OP_EQ and e.arg(0).sort() == core.Str:
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                l = litval(b)
                if l is not None and l.isascii():
                    x, i, j = piece(a)
                    if i == 0 and j is None:
                        put(a, e, '^' + q(l) + '$')
                    elif j is not None and j - i == len(l) and isname(x):
                        put(x, e, '^[\\x00-\\x7f]{%d}%s' % (i, q(l)))
                if z3.is_app(a) and a.decl().name() in ('upper', 'lower') and a.num_args() == 1 and a.arg(0).eq(b):
                    x, i, j = piece(b)
                    if isname(x):
                        c = '[^a-z]' if a.decl().name() == 'upper' else '[^A-Z]'
                        put(x, e, '^[\\x00-\\x7f]{%d}%s' % (i, c + ('*$' if j is None else '{%d}' % (j - i))))
        elif n == 'sbyte':
            x, i = e.arg(0), const(e.arg(1))
            if i is not None and 0 <= i <= 8 and isname(x):
                for rx, a, b in BYTES:
                    put(x, AND(LE(IntVal(a), e), LE(e, IntVal(b))), '^[\\x00-\\x7f]{%d}%s' % (i, rx))
        elif n in core.SKEL_BY_NAME and core.SKEL_BY_NAME[n].kind == 'first' and z3.is_app(e.arg(0)) and e.arg(0).decl().name() == 'slen':
            x = e.arg(0).arg(0)
            if isname(x):
                put(x, EQ(e, e.arg(0)), letters(core.SKEL_BY_NAME[n], e, x))
        elif n == 'slen':
            x = e.arg(0)
            if isname(x):
                for i in (0, 1):
                    put(x, EQ(e, IntVal(i)), '^[\\x00-\\x7f]{%d}$' % i)
    return out


_dfa = {}


def table(rx):
    r = _dfa.get(rx)
    if r is None:
        r = dfa.LANG[rx[7:]] if rx.startswith('inlang#') else dfa.LANG[dfa.canon(rx)]
        _dfa[rx] = r
    return r


_vec = {}


def vectors(rxs, name):
    """the combinations of membership that some string (some GraphQL name) has; None if there are too many"""
    key = (tuple(rxs), name)
    if key in _vec:
        return _vec[key]
    ds = [table(r) for r in rxs] + ([table(NAME)] if name else [])
    al = [i for i, c in enumerate(dfa.ALPHA) if not name or c in dfa.WORD]
    s0 = (0,) * len(ds)
    seen, work, out = {s0}, [s0], set()
    while work:
        s = work.pop()
        if not name or ds[-1][s[-1]][0]:
            out.add(tuple(bool(d[x][0]) for d, x in zip(ds, s))[:len(rxs)])
        for i in al:
            t = tuple(d[x][i + 1] for d, x in zip(ds, s))
            if t not in seen:
                seen.add(t)
                work.append(t)
        if len(seen) > LIMIT:
            out = None
            break
    _vec[key] = out
    return out


def facts(terms, isname):
    out = []
    for x, fs in atoms(terms, isname).values():
        name = isname(x)
        fs = [(f, r) for f, r in fs if not z3.is_true(f) and not z3.is_false(f)][:14]
        if len(fs) < 2 and not name:
            continue
        v = vectors([r for f, r in fs], name)
        if v is not None and len(v) <= 200:
            groups = [fs]
        else:
            groups = [[fs[i], fs[j]] for i in range(len(fs)) for j in range(i)]
        for g in groups:
            v = vectors([r for f, r in g], name)
            if v is None or len(v) == 2 ** len(g):
                continue
            out.append(z3.Or(*[z3.And(*[f if b else z3.Not(f) for (f, r), b in zip(g, w)]) for w in v]))
    return out

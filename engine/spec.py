"""The contract language.  A contract is a Python function over an abstract evaluator S; the same text is read
symbolically (Sym, by the prover) and concretely (Con, as the oracle when a counterexample is replayed)."""

NB, DG, BR = 0, 1, 2


class Change:
    """one expected change: what the property fixes (type, level, path), and what C16 asks of message and position"""
    __slots__ = ('tag', 'type', 'level', 'path', 'names', 'fromto', 'pos')

    def __init__(self, tag, type, level, path, names, fromto, pos):
        self.tag, self.type, self.level, self.path = tag, type, level, path
        self.names, self.fromto, self.pos = names, fromto, pos


# ------------------------------------------------------------------------------------------------ symbolic
try:
    from core import *
    import core
    import facts as F_
    import dfa
    SYM = True
except ImportError:
    SYM = False

AST = 'github.com/vektah/gqlparser/v2/ast.'

if SYM:
    tstr = Function('tstr', Ref, Str)
    tname = Function('tname', Ref, Str)
    vstr = Function('vstr', Ref, Str)
    safe_out = Function('safe_out', Ref, Ref, BoolSort())
    safe_in = Function('safe_in', Ref, Ref, BoolSort())
    merged = Function('merged', Lst, Lst)

    class N:
        """a pointer to a Go struct (value v, Go pointer type t)"""
        __slots__ = ('S', 'v', 't')

        def __init__(self, S, v, t):
            self.S, self.v, self.t = S, v, t

        def __getattr__(self, f):
            ex = self.S.ex
            st = ex.T.u(self.t)['e']
            for fl in ex.T.fields(st):
                if fl[0] == f:
                    return self.S.wrap(self.S.field(self.v, st, f, fl[1]), fl[1])
            raise AttributeError(f)

    class L:
        """a Go slice (ListV v, Go slice type t)"""
        __slots__ = ('S', 'v', 't')

        def __init__(self, S, v, t):
            self.S, self.v, self.t = S, v, t

    class Sym:
        concrete = False

        def __init__(self, ex):
            self.ex = ex
            self.n = 0

        # values
        def wrap(self, v, t):
            k = self.ex.T.kind(t)
            if k == 'slice':
                return L(self, v, t)
            if k == 'pointer' or k == 'ptr':
                return N(self, v, t)
            return v

        def field(self, v, st, f, ft):
            if is_z(v):
                v = strip_null(v)
                if is_ite(v):
                    return vite(v.arg(0), self.field(v.arg(1), st, f, ft), self.field(v.arg(2), st, f, ft))
                return self.ex.read_field(v, st, f, ft)
            if isinstance(v, RecP):
                return v.s.f[f]
            if isinstance(v, StructV):
                return v.f[f]
            if isinstance(v, UnionV):
                alts = [(g, self.field(x, st, f, ft)) for g, x in v.a if not (is_z(x) and x.eq(null))]
                r = alts[-1][1]
                for g, x in reversed(alts[:-1]):
                    r = vite(g, x, r)
                return r
            raise Unsupported('spec field of %s' % type(v).__name__)

        def node(self, name, t):
            return N(self, Const(name, Ref), t)

        def list(self, name, t):
            return L(self, ListV((('b', T, Const(name, Lst)),), self.ex.T.elem(t)), t)

        # booleans, integers, strings
        true, false = T, F

        def s(self, x):
            return lit(x) if isinstance(x, (str, bytes)) else x

        def and_(self, *a):
            return AND(*[x() if callable(x) else x for x in a])

        def or_(self, *a):
            return OR(*[x() if callable(x) else x for x in a])

        def not_(self, a):
            return NOT(a)

        def eq(self, a, b):
            if isinstance(a, bool) or isinstance(b, bool):
                a = BoolVal(a) if isinstance(a, bool) else a
                b = BoolVal(b) if isinstance(b, bool) else b
            if isinstance(a, int):
                a = IntVal(a)
            if isinstance(b, int):
                b = IntVal(b)
            return EQ(self.s(a), self.s(b))

        def ne(self, a, b):
            return NOT(self.eq(a, b))

        def lt(self, a, b):
            a = IntVal(a) if isinstance(a, int) else a
            b = IntVal(b) if isinstance(b, int) else b
            return LT(a, b)

        def le(self, a, b):
            return NOT(self.lt(b, a))

        def ite(self, c, a, b):
            a = a() if callable(a) else a
            b = b() if callable(b) else b
            if isinstance(a, N):
                return N(self, vite(c, a.v, b.v), a.t)
            if isinstance(a, L):
                return L(self, vite(c, a.v, b.v), a.t)
            if isinstance(a, int) and not isinstance(a, bool):
                a = IntVal(a)
            if isinstance(b, int) and not isinstance(b, bool):
                b = IntVal(b)
            return vite(c, self.s(a), self.s(b))

        def cat(self, *a):
            return CATS([p for x in a for p in parts(self.s(x))])

        def len(self, x):
            return SLEN(x)

        def byte(self, x, i):
            return sbyte(x, IntVal(i))

        def itoa(self, x):
            import externs
            return externs.itoa_(x)

        def upper(self, x):
            return Function('upper', Str, Str)(x)

        def has_suffix(self, x, y):
            import externs
            return externs.pred('hassuffix', x, lit(y))

        def matches(self, pat, x):
            import externs
            return externs.inlang(pat.encode(), x)

        # pointers
        def isnil(self, n):
            v = n.v
            if is_z(v):
                return EQ(v, null)
            if isinstance(v, RecP):
                return F
            if isinstance(v, UnionV):
                return OR(*[AND(g, self.isnil(N(self, x, n.t))) for g, x in v.a])
            raise Unsupported('isnil')

        # lists
        def elem(self, l, v):
            return self.wrap(v, self.ex.T.elem(l.t))

        def each(self, l, f):
            """[f(x) for x in l], flattened"""
            return self._each(l.v.items, l, f)

        def _each(self, items, l, f):
            out = []
            for it in items:
                if it[0] == 'u':
                    out += gitems(it[1], f(self.elem(l, it[2])))
                elif it[0] == 'b':
                    k = Int(fresh_name('s!k'))
                    inner = f(self.elem(l, self.ex.base_elem(it[2], k, l.v.et)))
                    if inner:
                        out.append(('f', it[1], k, llen(it[2]), tuple(inner)))
                elif it[0] == 'f':
                    inner = self._each(it[4], l, f)
                    if inner:
                        k = Int(fresh_name('s!k'))
                        out.append(('f', it[1], k, it[3], vsub_items(inner, [(it[2], k)])))
                else:
                    raise Unsupported('spec list')
            return tuple(out)

        def filter(self, l, p):
            its = self._each(l.v.items, l, lambda x: gitems(p(x), (('u', T, x.v if isinstance(x, (N, L)) else x),)))
            return L(self, ListV(its, l.v.et), l.t)

        def find(self, l, p):
            """first element of l satisfying p, or nil"""
            its = self.filter(l, p).v.items
            v = null
            for it in reversed(its):
                e = self.ex.elem0((it,), l.v.et)
                v = vite(self.some((it,)), e, v)
            return N(self, v, self.ex.T.elem(l.t))

        def some(self, items):
            """is one of the items present?"""
            r = []
            for it in items:
                if it[0] == 'u':
                    r.append(it[1])
                elif it[0] == 'b':
                    r.append(AND(it[1], LT(IntVal(0), llen(it[2]))))
                elif it[0] == 'f':
                    r.append(AND(it[1], EX(it[3], it[2], self.some(it[4]))))
                else:
                    raise Unsupported('spec list')
            return OR(*r)

        def exists(self, l, p):
            return self.some(self._each(l.v.items, l, lambda x: gitems(p(x), (('u', T, null),))))

        def all(self, l, p):
            return NOT(self.exists(l, lambda x: NOT(p(x))))

        def count(self, l):
            return length(l.v.items)

        def empty(self, l):
            return NOT(self.some(l.v.items))

        def has(self, l, s):
            return self.exists(l, lambda x: EQ(x, s))

        def byname(self, l, n):
            return self.find(l, lambda x: EQ(self.s(n), x.Name))

        # item lists
        def when(self, c, f):
            if is_false(c):
                return ()
            return gitems(c, f())

        def cases(self, *cs):
            """first case whose condition holds"""
            out, neg = (), T
            for c, f in cs:
                out += self.when(AND(neg, c), f)
                neg = AND(neg, NOT(c))
            return out

        def item(self, v):
            return (('u', T, v),)

        def change(self, tag, type, level, path, names=(), fromto=None, pos=()):
            lv = level if is_z(level) else IntVal(level)
            return self.item(Change(tag, type, lv, self.s(path), [self.s(x) for x in names],
                                    fromto and (self.s(fromto[0]), self.s(fromto[1])), [p.v for p in pos]))

        # functions of the model
        def tstr(self, t):
            return tstr(t.v)

        def tname(self, t):
            return tname(t.v)

        def vstr(self, v):
            return vstr(v.v) if not is_ite(v.v) else ITE(v.v.arg(0), vstr(v.v.arg(1)), vstr(v.v.arg(2)))

        def safe_out(self, a, b):
            return safe_out(a.v, b.v)

        def safe_in(self, a, b):
            return safe_in(a.v, b.v)

        def merged(self, l):
            its = l.v.items
            if len(its) == 1 and its[0][0] == 'b':
                return L(self, ListV((('b', its[0][1], merged(its[0][2])),), l.v.et), l.t)
            raise Unsupported('merged of a derived list')

    def change_map(c, fn):
        return Change(c.tag, c.type, fn(c.level), fn(c.path), [fn(x) for x in c.names],
                      c.fromto and (fn(c.fromto[0]), fn(c.fromto[1])), [vmap(p, fn) for p in c.pos])

    _vmap = core.vmap

    def vmap2(v, fn, memo=None):
        if isinstance(v, Change):
            return change_map(v, fn)
        return _vmap(v, fn, memo)
    core.vmap = vmap2
    core.map_items.__globals__['vmap'] = vmap2

    # ---- unfoldings of the pure functions
    def _ty(t):
        return fld('Type', 'NamedType', Str)(t), fld('Type', 'Elem', Ref)(t), fld('Type', 'NonNull', BoolSort())(t)

    def wf_type(t):
        nt, el, nn = _ty(t)
        return [OR(t == null, (slen(nt) == 0) == NOT(el == null))]

    def unfold_tstr(e):
        t = e.arg(0)
        nt, el, nn = _ty(t)
        return [OR(NOT(slen(nt) == 0), nn, e == cat(lit('['), cat(tstr(el), lit(']')))),
                OR(NOT(slen(nt) == 0), NOT(nn), e == cat(lit('['), cat(tstr(el), lit(']!')))),
                OR(slen(nt) == 0, nn, e == nt), OR(slen(nt) == 0, NOT(nn), e == cat(nt, lit('!')))]

    def unfold_tname(e):
        t = e.arg(0)
        nt, el, nn = _ty(t)
        return [ITE(slen(nt) == 0, e == tname(el), e == nt)]

    def unfold_safe(e, rec, a, b):
        """a is the side that may be less specific: a's non-null must be kept by b"""
        x, y = e.arg(0), e.arg(1)
        nx, ex_, nnx = _ty(x)
        ny, ey, nny = _ty(y)
        req = OR(NOT(nnx), nny) if a == 0 else OR(NOT(nny), nnx)
        lx, ly = slen(nx) == 0, slen(ny) == 0
        return [e == AND(req, lx == ly, ITE(lx, rec(ex_, ey), nx == ny))]

    UNF = {
        'tstr': unfold_tstr, 'tname': unfold_tname,
        'safe_out': lambda e: unfold_safe(e, safe_out, 0, 1),
        'safe_in': lambda e: unfold_safe(e, safe_in, 1, 0),
    }


# ------------------------------------------------------------------------------------------------ concrete
class Node:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getattr__(self, f):
        return wrapc(self.d[f])

    def __eq__(self, o):
        return isinstance(o, Node) and self.d is o.d

    def __hash__(self):
        return id(self.d)


def wrapc(v):
    if isinstance(v, dict):
        return Node(v)
    return v


class Con:
    concrete = True
    true, false = True, False

    def wrap(self, v):
        return wrapc(v)

    def s(self, x):
        return x

    def and_(self, *a):
        for x in a:
            if not (x() if callable(x) else x):
                return False
        return True

    def or_(self, *a):
        for x in a:
            if x() if callable(x) else x:
                return True
        return False

    def not_(self, a):
        return not a

    def eq(self, a, b):
        return a == b

    def ne(self, a, b):
        return a != b

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def ite(self, c, a, b):
        x = a if c else b
        return x() if callable(x) else x

    def cat(self, *a):
        return ''.join(a)

    def len(self, x):
        return len(x.encode('utf8', 'surrogateescape'))

    def byte(self, x, i):
        return x.encode('utf8', 'surrogateescape')[i]

    def itoa(self, x):
        return str(x)

    def upper(self, x):
        return x.upper()

    def has_suffix(self, x, y):
        return x.endswith(y)

    def matches(self, pat, x):
        import re
        return re.search(pat.replace('$', r'\Z'), x) is not None

    def isnil(self, n):
        return n is None

    def each(self, l, f):
        return [y for x in (l or []) for y in f(wrapc(x))]

    def filter(self, l, p):
        return [x for x in (l or []) if p(wrapc(x))]

    def find(self, l, p):
        for x in (l or []):
            if p(wrapc(x)):
                return wrapc(x)
        return None

    def exists(self, l, p):
        return any(p(wrapc(x)) for x in (l or []))

    def all(self, l, p):
        return all(p(wrapc(x)) for x in (l or []))

    def count(self, l):
        return len(l or [])

    def empty(self, l):
        return not l

    def has(self, l, s):
        return s in (l or [])

    def byname(self, l, n):
        return self.find(l, lambda x: x.Name == n)

    def when(self, c, f):
        return list(f()) if c else []

    def cases(self, *cs):
        for c, f in cs:
            if c() if callable(c) else c:
                return list(f())
        return []

    def item(self, v):
        return [v]

    def change(self, tag, type, level, path, names=(), fromto=None, pos=()):
        return [Change(tag, type, level, path, list(names), fromto, [p for p in pos])]

    def tstr(self, t):
        r = t.NamedType if t.NamedType else '[' + self.tstr(t.Elem) + ']'
        return r + ('!' if t.NonNull else '')

    def tname(self, t):
        return t.NamedType if t.NamedType else self.tname(t.Elem)

    def vstr(self, v):
        if v is None:
            return '<nil>'
        return v.d['_str']

    def safe_out(self, a, b):
        if a.NonNull and not b.NonNull:
            return False
        if bool(a.NamedType) != bool(b.NamedType):
            return False
        return a.NamedType == b.NamedType if a.NamedType else self.safe_out(a.Elem, b.Elem)

    def safe_in(self, a, b):
        if b.NonNull and not a.NonNull:
            return False
        if bool(a.NamedType) != bool(b.NamedType):
            return False
        return a.NamedType == b.NamedType if a.NamedType else self.safe_in(a.Elem, b.Elem)

    def merged(self, l):
        out, by = [], {}
        for d in l or []:
            n = d['Name']
            if n not in by:
                m = dict(d)
                for f in ('Directives', 'Interfaces', 'Fields', 'Types', 'EnumValues'):
                    m[f] = []
                by[n] = m
                out.append(m)
            for f in ('Directives', 'Interfaces', 'Fields', 'Types', 'EnumValues'):
                by[n][f] = by[n][f] + (d[f] or [])
        return out

"""Terms, values and lists of the verifier (see DESIGN.md, "Engine")."""
import z3
from z3 import IntVal, BoolVal, Int, Const, Function, IntSort, BoolSort, is_true, is_false

z3.set_param('verbose', 0)


class Unsupported(Exception):
    """The code uses something outside the verified subset (never a verdict on the code)."""


Ref = z3.DeclareSort('Ref')
Str = z3.DeclareSort('Str')
Lst = z3.DeclareSort('Lst')
null = Const('null', Ref)
T, F = BoolVal(True), BoolVal(False)

# ---------------------------------------------------------------- booleans


def is_z(v):
    return isinstance(v, z3.ExprRef)


def NOT(a):
    if is_true(a):
        return F
    if is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _flat(op, xs):
    for x in xs:
        if op == z3.Z3_OP_AND and z3.is_and(x) or op == z3.Z3_OP_OR and z3.is_or(x):
            yield from _flat(op, x.children())
        else:
            yield x


def AND(*xs):
    out, seen = [], {}
    for x in _flat(z3.Z3_OP_AND, xs):
        if is_true(x):
            continue
        if is_false(x):
            return F
        i = x.get_id()
        if i in seen:
            continue
        if NOT(x).get_id() in seen:
            return F
        seen[i] = 1
        out.append(x)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    out.sort(key=skey)
    return z3.And(*out)


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in _flat(z3.Z3_OP_OR, xs)])) if False else _or(xs)


def _or(xs):
    out, seen = [], {}
    for x in _flat(z3.Z3_OP_OR, xs):
        if is_false(x):
            continue
        if is_true(x):
            return T
        i = x.get_id()
        if i in seen:
            continue
        if NOT(x).get_id() in seen:
            return T
        seen[i] = 1
        out.append(x)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    out.sort(key=skey)
    return z3.Or(*out)


_skey = {}
_keep = []


def skey(e):
    """A stable structural key (content hash), independent of creation order."""
    i = e.get_id()
    k = _skey.get(i)
    if k is None:
        if z3.is_app(e):
            k = hash((e.decl().name(), e.decl().arity()) + tuple(skey(c) for c in e.children())
                     + ((str(e),) if z3.is_int_value(e) else ()))
        else:
            k = hash(str(e))
        _skey[i] = k
        _keep.append(e)
    return k


def ITE(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a):
            return OR(c, b)
        if is_false(a):
            return AND(NOT(c), b)
        if is_true(b):
            return OR(NOT(c), a)
        if is_false(b):
            return AND(c, a)
    if z3.is_not(c):
        return ITE(c.arg(0), b, a)
    # collapse repeated conditions
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def is_ite(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE)


# ---------------------------------------------------------------- strings
LITS = {}          # python bytes -> Const
_litname = {}
cat = Function('cat', Str, Str, Str)
slen = Function('slen', Str, IntSort())
sbyte = Function('sbyte', Str, IntSort(), IntSort())
ssub = Function('ssub', Str, IntSort(), IntSort(), Str)
itoa = Function('itoa', IntSort(), Str)
slt = Function('slt', Str, Str, BoolSort())


def lit(s):
    if isinstance(s, str):
        s = s.encode()
    if s not in LITS:
        c = Const('"' + s.decode('latin1') + '"', Str)
        LITS[s] = c
        _litname[c.get_id()] = s
    return LITS[s]


def litval(e):
    """bytes of a literal term or None"""
    return _litname.get(e.get_id())


def CAT(a, b):
    la, lb = litval(a), litval(b)
    if la == b'':
        return b
    if lb == b'':
        return a
    if la is not None and lb is not None:
        return lit(la + lb)
    if z3.is_app(a) and a.decl().eq(cat):
        return CAT(a.arg(0), CAT(a.arg(1), b))
    if la is not None and z3.is_app(b) and b.decl().eq(cat):
        l2 = litval(b.arg(0))
        if l2 is not None:
            return cat(lit(la + l2), b.arg(1))
    return cat(a, b)


def CATS(parts):
    r = lit(b'')
    for p in reversed(parts):
        r = CAT(p, r)
    return r


def parts(e):
    """flatten a cat term"""
    if z3.is_app(e) and e.decl().eq(cat):
        return parts(e.arg(0)) + parts(e.arg(1))
    return [e]


def SLEN(e):
    l = litval(e)
    if l is not None:
        return IntVal(len(l))
    if is_ite(e):
        a, b = SLEN(e.arg(1)), SLEN(e.arg(2))
        return ITE(e.arg(0), a, b)
    return slen(e)


# ---------------------------------------------------------------- references and base lists
llen = Function('len', Lst, IntSort())
at = Function('at', Lst, IntSort(), Ref)
ats = Function('ats', Lst, IntSort(), Str)

FIELDS = {}        # name -> z3 function
NONNULL = set()    # field function names assumed non-null


def fld(struct, field, sort):
    k = struct + '.' + field
    if k not in FIELDS:
        FIELDS[k] = Function(k, Ref, sort)
    return FIELDS[k]


def nonnull(t):
    if is_ite(t):
        return nonnull(t.arg(1)) and nonnull(t.arg(2))
    if z3.is_app(t) and t.num_args() > 0:
        n = t.decl().name()
        return n == 'at' or n in NONNULL
    return False


def strip_null(t):
    """the value of a pointer known to be non-null"""
    if is_ite(t):
        if t.arg(1).eq(null):
            return strip_null(t.arg(2))
        if t.arg(2).eq(null):
            return strip_null(t.arg(1))
        return ITE(t.arg(0), strip_null(t.arg(1)), strip_null(t.arg(2)))
    return t


def EQ(a, b):
    if a.eq(b):
        return T
    if a.sort() == Str:
        la, lb = litval(a), litval(b)
        if la is not None and lb is not None:
            return F
        if la == b'' or lb == b'':
            # the empty string is always written as a length test
            return EQ(SLEN(b if la == b'' else a), IntVal(0))
        for x, y in ((a, b), (b, a)):
            if is_ite(x):
                p, q = EQ(x.arg(1), y), EQ(x.arg(2), y)
                if z3.is_bool(p) and (is_true(p) or is_false(p) or is_true(q) or is_false(q)):
                    return ITE(x.arg(0), p, q)
        # strip common literal/term prefixes and suffixes
        pa, pb = parts(a), parts(b)
        if len(pa) > 1 or len(pb) > 1:
            while pa and pb and pa[0].eq(pb[0]):
                pa, pb = pa[1:], pb[1:]
            while pa and pb and pa[-1].eq(pb[-1]):
                pa, pb = pa[:-1], pb[:-1]
            a2, b2 = CATS(pa), CATS(pb)
            if not (a2.eq(a) and b2.eq(b)) and not (a2.eq(b) and b2.eq(a)):
                return EQ(a2, b2)
    if a.sort() == Ref:
        for x, y in ((a, b), (b, a)):
            if y.eq(null):
                if nonnull(x):
                    return F
                if is_ite(x):
                    return ITE(x.arg(0), EQ(x.arg(1), y), EQ(x.arg(2), y))
    if z3.is_int(a):
        if z3.is_int_value(a) and z3.is_int_value(b):
            return BoolVal(a.as_long() == b.as_long())
        for x, y in ((a, b), (b, a)):
            if is_ite(x) and z3.is_int_value(y):
                return ITE(x.arg(0), EQ(x.arg(1), y), EQ(x.arg(2), y))
            if z3.is_int_value(y) and z3.is_add(x) and any(z3.is_int_value(c) and c.as_long() > y.as_long() for c in x.children()) and nonneg(x):
                return F            # n + c is at least c
    if z3.is_bool(a):
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return NOT(b)
        if is_false(b):
            return NOT(a)
    if skey(a) > skey(b):
        a, b = b, a
    return a == b


# ---------------------------------------------------------------- integers (mathematical)

def lin(e, sign=1, d=None):
    """linear form {term id: (coef, term)}, constant under key None"""
    if d is None:
        d = {None: 0}
    if z3.is_int_value(e):
        d[None] += sign * e.as_long()
    elif z3.is_add(e):
        for c in e.children():
            lin(c, sign, d)
    elif z3.is_sub(e):
        ch = e.children()
        lin(ch[0], sign, d)
        for c in ch[1:]:
            lin(c, -sign, d)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        lin(e.arg(0), -sign, d)
    elif z3.is_mul(e) and z3.is_int_value(e.arg(0)) and e.num_args() == 2:
        lin(e.arg(1), sign * e.arg(0).as_long(), d)
    else:
        i = e.get_id()
        c = d.get(i, (0, e))[0] + sign
        if c == 0:
            d.pop(i, None)
        else:
            d[i] = (c, e)
    return d


def unlin(d):
    ts = []
    for k, v in sorted(((k, v) for k, v in d.items() if k is not None), key=lambda kv: skey(kv[1][1])):
        c, t = v
        ts.append(t if c == 1 else IntVal(c) * t)
    if d[None] or not ts:
        ts.append(IntVal(d[None]))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def ADD(a, b):
    d = lin(a)
    lin(b, 1, d)
    return unlin(d)


def SUB(a, b):
    d = lin(a)
    lin(b, -1, d)
    return unlin(d)


NONNEG = {'len', 'slen'}


def nonneg(e):
    if z3.is_int_value(e):
        return e.as_long() >= 0
    if z3.is_add(e):
        return all(nonneg(c) for c in e.children())
    if is_ite(e):
        return nonneg(e.arg(1)) and nonneg(e.arg(2))
    if z3.is_app(e):
        n = e.decl().name()
        return n in NONNEG or n.startswith('sum#') or n.startswith('first#')
    return False


def LT(a, b):
    """a < b, normalised to x >= y forms over a zero-free linear difference"""
    d = lin(b)
    lin(a, -1, d)       # b - a > 0
    d[None] -= 1        # b - a - 1 >= 0
    return GE0(d)


def GE0(d):
    if len(d) == 1:
        return BoolVal(d[None] >= 0)
    pos = {None: max(d[None], 0)}
    neg = {None: max(-d[None], 0)}
    for k, v in d.items():
        if k is None:
            continue
        if v[0] > 0:
            pos[k] = v
        else:
            neg[k] = (-v[0], v[1])
    p, n = unlin(pos), unlin(neg)
    if z3.is_int_value(n) and n.as_long() <= 0 and nonneg(p):
        return T
    if z3.is_int_value(n) and n.as_long() == 1 and nonneg(p) and not z3.is_int_value(p):
        # p >= 1  <=>  p != 0
        return NOT(EQ(p, IntVal(0)))
    if z3.is_int_value(p) and p.as_long() == 0 and nonneg(n):
        return EQ(n, IntVal(0))
    if first_norm(p, n):
        return T
    if z3.is_app(p) and p.decl().name().startswith('first#') and len(lin(n)) == 2 and nonneg(p.arg(0)):
        d1 = lin(n)
        lin(p.arg(0), -1, d1)
        if len(d1) == 1 and d1[None] >= 1:
            return F
    # one atom per inequality and its negation: the leading term is positive
    lead = min((kk for kk in d if kk is not None), key=lambda kk: skey(d[kk][1]))
    if d[lead][0] < 0:
        return z3.Not(unlin_ge({kk: ((-v[0], v[1]) if kk is not None else -v - 1) for kk, v in d.items()}))
    return unlin_ge(d)


def unlin_ge(d):
    pos = {None: max(d[None], 0)}
    neg = {None: max(-d[None], 0)}
    for k, v in d.items():
        if k is None:
            continue
        if v[0] > 0:
            pos[k] = v
        else:
            neg[k] = (-v[0], v[1])
    return unlin(pos) >= unlin(neg)


def first_norm(p, n):
    """first#(m, ..) >= m is kept as the one atom; first# <= m always holds"""
    if z3.is_app(n) and n.decl().name().startswith('first#') and n.arg(0).eq(p) and nonneg(p):
        return T
    return None


def LE(a, b):
    return NOT(LT(b, a))


# ---------------------------------------------------------------- values
class V:
    pass


class StructV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return StructV(self.t, g)

    def __repr__(self):
        return '%s%r' % (self.t.split('.')[-1], self.f)


class RecP(V):
    """pointer to an immutable record that was built by the code (identity dropped)"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return '&%r' % self.s


class PtrL(V):
    """pointer into a local object: path is a tuple of field names / ints"""
    __slots__ = ('o', 'p')

    def __init__(self, o, p=()):
        self.o, self.p = o, p

    def __repr__(self):
        return 'PtrL(%s%s)' % (self.o, self.p)


class BaseAddr(V):
    """address of field f of the base object r"""
    __slots__ = ('r', 'st', 'f', 'ft')

    def __init__(self, r, st, f, ft):
        self.r, self.st, self.f, self.ft = r, st, f, ft


class ElemAddr(V):
    """address of element i of a list value"""
    __slots__ = ('l', 'i')

    def __init__(self, l, i):
        self.l, self.i = l, i


class ValAddr(V):
    """read-only address of a field of an element value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class ListV(V):
    """key: 'doc' for a list read from an object or passed in, 'own' for one built by append on nothing"""
    __slots__ = ('items', 'et', 'key')

    def __init__(self, items, et, key=None):
        self.items, self.et, self.key = tuple(items), et, key

    def __repr__(self):
        return 'ListV%r' % (self.items,)


class MapV(V):
    """lambda q. (present, value), plus the list of keys when it can be enumerated"""
    __slots__ = ('q', 'pres', 'val', 'keys', 'kt', 'vt')

    def __init__(self, q, pres, val, keys, kt, vt):
        self.q, self.pres, self.val, self.keys, self.kt, self.vt = q, pres, val, keys, kt, vt


class FuncV(V):
    __slots__ = ('name', 'b')

    def __init__(self, name, b=()):
        self.name, self.b = name, tuple(b)

    def __repr__(self):
        return 'Func(%s)' % self.name


class IfaceV(V):
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return 'Iface(%s,%r)' % (self.t, self.v)


class TupleV(V):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class UnionV(V):
    """guarded alternatives (exactly one guard holds)"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = tuple(a)

    def __repr__(self):
        return 'Union%r' % (self.a,)


class OpqV(V):
    """an unknown value: any use that matters is Unsupported"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class IterV(V):
    __slots__ = ('m', 'mt')

    def __init__(self, m, mt):
        self.m, self.mt = m, mt


class RegexV(V):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class ObjV(V):
    """an external object known only by name (os.Stdin, cobra command, open file...)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d

    def __repr__(self):
        return 'Obj(%s)' % self.n


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def fresh(p, sort):
    return Const(fresh_name(p), sort)


# ---------------------------------------------------------------- list items
# ('u', g, elem) | ('b', g, Lterm) | ('f', g, kvar, n, items) | ('o', g, name) | ('s', g, items, cmp) | ('x', g, items)

def gitems(g, items):
    if is_true(g):
        return tuple(items)
    if is_false(g):
        return ()
    out = []
    for it in items:
        g2 = AND(g, it[1])
        if not is_false(g2):
            out.append((it[0], g2) + it[2:])
    return tuple(out)


def item_eq(a, b):
    if a is b:
        return True
    if a[0] != b[0] or not a[1].eq(b[1]):
        return False
    if a[0] == 'u':
        return veq(a[2], b[2])
    if a[0] == 'b':
        return a[2].eq(b[2])
    if a[0] == 'o':
        return a[2] == b[2]
    if a[0] == 'f':
        if not a[3].eq(b[3]):
            return False
        if a[2].eq(b[2]):
            return items_eq(a[4], b[4])
        return items_eq(a[4], vsub_items(b[4], [(b[2], a[2])]))
    if a[0] in ('s', 'x'):
        return items_eq(a[2], b[2]) and (a[0] == 'x' or CMP_EQ[0](a[3], b[3]))
    return False


CMP_EQ = [lambda a, b: a is b]       # equality of the orders of two sorted lists (externs.cmp_eq)


def items_eq(a, b):
    return len(a) == len(b) and all(item_eq(x, y) for x, y in zip(a, b))


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.sort() == b.sort() and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, StructV):
        return a.t == b.t and all(veq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, RecP):
        return veq(a.s, b.s)
    if isinstance(a, PtrL):
        return a.o == b.o and a.p == b.p
    if isinstance(a, ListV):
        return items_eq(a.items, b.items)
    if isinstance(a, FuncV):
        return a.name == b.name and len(a.b) == len(b.b) and all(veq(x, y) for x, y in zip(a.b, b.b))
    if isinstance(a, IfaceV):
        return a.t == b.t and veq(a.v, b.v)
    if isinstance(a, TupleV):
        return len(a.e) == len(b.e) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, UnionV):
        return len(a.a) == len(b.a) and all(g.eq(h) and veq(x, y) for (g, x), (h, y) in zip(a.a, b.a))
    if isinstance(a, RegexV):
        return a.p == b.p
    if isinstance(a, ObjV):
        return a.n == b.n
    if isinstance(a, OpqV):
        return a.n == b.n
    if isinstance(a, BaseAddr):
        return a.r.eq(b.r) and a.st == b.st and a.f == b.f
    if isinstance(a, MapV):
        return a.pres.eq(vsub(b.pres, [(b.q, a.q)])) and veq(a.val, vsub(b.val, [(b.q, a.q)]))
    return False


def rebuild(e, m, memo):
    """substitution that goes through the normalising constructors"""
    i = e.get_id()
    if i in m:
        return m[i]
    if i in memo:
        return memo[i][0]
    if not z3.is_app(e) or e.num_args() == 0:
        memo[i] = (e, e)
        return e
    ch = e.children()
    nc = [rebuild(c, m, memo) for c in ch]
    if all(a is b or a.eq(b) for a, b in zip(ch, nc)):
        r = e
    else:
        r = reapp(e, nc)
    memo[i] = (r, e)
    return r


def reapp(e, nc):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return AND(*nc)
    if k == z3.Z3_OP_OR:
        return OR(*nc)
    if k == z3.Z3_OP_NOT:
        return NOT(nc[0])
    if k == z3.Z3_OP_ITE:
        return ITE(*nc)
    if k == z3.Z3_OP_EQ:
        return EQ(*nc)
    if k == z3.Z3_OP_ADD:
        r = nc[0]
        for c in nc[1:]:
            r = ADD(r, c)
        return r
    if k == z3.Z3_OP_SUB:
        return SUB(*nc)
    if k == z3.Z3_OP_GE:
        return LE(nc[1], nc[0])
    if k == z3.Z3_OP_LE:
        return LE(nc[0], nc[1])
    if k == z3.Z3_OP_LT:
        return LT(nc[0], nc[1])
    if k == z3.Z3_OP_GT:
        return LT(nc[1], nc[0])
    n = e.decl().name()
    if n == 'cat':
        return CAT(*nc)
    if n == 'slen':
        return SLEN(*nc)
    if n in REAPP:
        return REAPP[n](*nc)
    return e.decl()(*nc)


REAPP = {}


def vsub(v, pairs):
    m = {a.get_id(): b for a, b in pairs}
    return vmap(v, lambda e: rebuild(e, m, memo), memo := {})


def vsub_items(items, pairs):
    m = {a.get_id(): b for a, b in pairs}
    memo = {}
    return map_items(items, lambda e: rebuild(e, m, memo))


def map_items(items, fn):
    out = []
    for it in items:
        g = fn(it[1])
        if is_false(g):
            continue
        if it[0] == 'u':
            out.append(('u', g, vmap(it[2], fn)))
        elif it[0] == 'b':
            out.append(('b', g, fn(it[2])))
        elif it[0] == 'o':
            out.append(('o', g, it[2]))
        elif it[0] == 'f':
            out.append(('f', g, it[2], fn(it[3]), map_items(it[4], fn)))
        elif it[0] == 's':
            out.append(('s', g, map_items(it[2], fn), it[3]))
        elif it[0] == 'x':
            out.append(('x', g, map_items(it[2], fn)))
    return tuple(out)


def vmap(v, fn, memo=None):
    if v is None or isinstance(v, (str, bytes, int)):
        return v
    if is_z(v):
        return fn(v)
    if isinstance(v, StructV):
        return StructV(v.t, {k: vmap(x, fn) for k, x in v.f.items()})
    if isinstance(v, RecP):
        return RecP(vmap(v.s, fn))
    if isinstance(v, ListV):
        return ListV(map_items(v.items, fn), v.et, v.key)
    if isinstance(v, IfaceV):
        return IfaceV(v.t, vmap(v.v, fn))
    if isinstance(v, TupleV):
        return TupleV([vmap(x, fn) for x in v.e])
    if isinstance(v, UnionV):
        return mkunion([(fn(g), vmap(x, fn)) for g, x in v.a])
    if isinstance(v, FuncV):
        return FuncV(v.name, [vmap(x, fn) for x in v.b])
    if isinstance(v, MapV):
        return MapV(v.q, fn(v.pres), vmap(v.val, fn), vmap(v.keys, fn), v.kt, v.vt)
    if isinstance(v, BaseAddr):
        return BaseAddr(fn(v.r), v.st, v.f, v.ft)
    if isinstance(v, ElemAddr):
        return ElemAddr(vmap(v.l, fn), fn(v.i))
    if isinstance(v, ValAddr):
        return ValAddr(vmap(v.v, fn))
    if isinstance(v, ObjV):
        return ObjV(v.n, {k: vmap(x, fn) for k, x in v.d.items()}) if v.d else v
    return v


def mkunion(alts):
    out = []
    for g, v in alts:
        if is_false(g):
            continue
        if isinstance(v, UnionV):
            for h, w in v.a:
                out.append((AND(g, h), w))
        else:
            out.append((g, v))
    merged = []
    for g, v in out:
        if is_false(g):
            continue
        for i, (h, w) in enumerate(merged):
            if veq(v, w):
                merged[i] = (OR(g, h), w)
                break
        else:
            merged.append((g, v))
    if not merged:
        return OpqV('empty-union')
    if len(merged) == 1:
        return merged[0][1]
    return UnionV(merged)


def vite(c, a, b):
    """value merge"""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if veq(a, b):
        return a
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, OpqV):
        return a
    if isinstance(b, OpqV):
        return b
    if is_z(a) and is_z(b):
        if a.sort() != b.sort():
            raise Unsupported('merge of different sorts')
        return ITE(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.t == b.t:
        return StructV(a.t, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, ListV) and isinstance(b, ListV):
        return ListV(lite(c, a.items, b.items), a.et or b.et, a.key if a.key == b.key else None)
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        return TupleV([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, MapV) and isinstance(b, MapV):
        b2 = vsub(b, [(b.q, a.q)])
        keys = None
        if a.keys is not None and b.keys is not None:
            keys = ListV(lite(c, a.keys.items, b.keys.items), a.keys.et)
        return MapV(a.q, ITE(c, a.pres, b2.pres), vite(c, a.val, b2.val), keys, a.kt, a.vt)
    if isinstance(a, RecP) and isinstance(b, RecP) and a.s.t == b.s.t:
        return RecP(vite(c, a.s, b.s))
    return mkunion([(c, a), (NOT(c), b)])


def lite(c, a, b):
    n = 0
    while n < len(a) and n < len(b) and item_eq(a[n], b[n]):
        n += 1
    return a[:n] + gitems(c, a[n:]) + gitems(NOT(c), b[n:])


def assume(v, lits):
    """simplify v under the assumption that each literal holds (syntactic)"""
    m = {}
    for l in lits:
        m[l.get_id()] = T
        m[NOT(l).get_id()] = F
    if not m:
        return v
    memo = {}
    keep = [NOT(l) for l in lits]
    r = vmap(v, lambda e: rebuild(e, m, memo))
    del keep
    return r


def contains(e, ids):
    """does the z3 term contain one of the terms (by id)?"""
    return _contains(e, ids, {})


def _contains(e, ids, memo):
    i = e.get_id()
    if i in ids:
        return True
    r = memo.get(i)
    if r is None:
        r = any(_contains(c, ids, memo) for c in e.children())
        memo[i] = r
    return r


def vterms(v):
    """all z3 terms in a value"""
    out = []
    vmap(v, lambda e: (out.append(e), e)[1])
    return out


def vcontains(v, ids):
    memo = {}
    if isinstance(v, ListV):
        for it in iter_items(v.items):
            if it[0] == 'o' and it[2] in ids:
                return True
    if isinstance(v, OpqV) and v.n in ids:
        return True
    if isinstance(v, StructV):
        return any(vcontains(x, ids) for x in v.f.values())
    if isinstance(v, (RecP,)):
        return vcontains(v.s, ids)
    if isinstance(v, IfaceV):
        return vcontains(v.v, ids)
    if isinstance(v, TupleV):
        return any(vcontains(x, ids) for x in v.e)
    if isinstance(v, UnionV):
        return any(_contains(g, ids, memo) or vcontains(x, ids) for g, x in v.a)
    if isinstance(v, MapV):
        return _contains(v.pres, ids, memo) or vcontains(v.val, ids)
    return any(_contains(t, ids, memo) for t in vterms(v))


def subterms(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            st += x.children()


def iter_items(items):
    for it in items:
        yield it
        if it[0] == 'f':
            yield from iter_items(it[4])
        elif it[0] in ('s', 'x'):
            yield from iter_items(it[2])
        elif it[0] == 'u':
            if isinstance(it[2], (StructV, RecP)):
                s = it[2] if isinstance(it[2], StructV) else it[2].s
                for x in s.f.values():
                    if isinstance(x, ListV):
                        yield from iter_items(x.items)


# ---------------------------------------------------------------- skeletons: first index, last index, sum
class Skel:
    """kind#id(n, params): K is the index variable of `body`, P the parameters"""

    def __init__(self, kind, name, params, body, ret):
        self.kind, self.name, self.params, self.body = kind, name, params, body
        self.decl = Function(name, *([IntSort()] + [p.sort() for p in params] + [ret]))


K = Int('K#')
SKELS = {}          # (kind, body id) -> Skel
SKEL_BY_NAME = {}


def abstract(e, k):
    """replace the maximal subterms of e that do not contain k by parameters; returns (body over K, args)"""
    args, params = [], []
    memo, inside = {}, {}
    kid = {k.get_id()}

    def has(x):
        return _contains(x, kid, inside)

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if x.eq(k):
            r = K
        elif not has(x):
            if z3.is_int_value(x) or is_true(x) or is_false(x) or litval(x) is not None or x.eq(null):
                r = x
            else:
                p = Const('P%d%s' % (len(args), x.sort().name()), x.sort())
                args.append(x)
                params.append(p)
                r = p
        else:
            r = x.decl()(*[go(c) for c in ordered(x)])
        memo[i] = r
        return r

    shapes = {}

    def shape(x):
        i = x.get_id()
        if i not in shapes:
            if x.eq(k):
                r = 'K'
            elif not has(x):
                if z3.is_int_value(x) or is_true(x) or is_false(x) or litval(x) is not None or x.eq(null):
                    r = str(x)
                else:
                    r = '~' + x.sort().name()
            else:
                r = (x.decl().name(),) + tuple(shape(c) for c in ordered(x))
            shapes[i] = hash(r), len(str(r)) if isinstance(r, str) else 9
        return shapes[i]

    def ordered(x):
        if x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD):
            return sorted(x.children(), key=shape)
        return x.children()
    return go(e), args, params


def skel(kind, n, k, e):
    body, args, params = abstract(e, k)
    key = (kind, body.get_id())
    s = SKELS.get(key)
    if s is None:
        s = Skel(kind, '%s#%d' % (kind, len(SKELS)), params, body, IntSort())
        SKELS[key] = s
        SKEL_BY_NAME[s.name] = s
    return s.decl(n, *args)


def FIRST(n, k, e):
    """least i in [0,n) with e(i), else n"""
    if is_false(e):
        return n
    if z3.is_int_value(n) and n.as_long() <= 0:
        return n
    if not contains(e, {k.get_id()}):
        return ITE(e, IntVal(0), n)     # n >= 0; with n == 0 both are 0
    q = shifted(k, e)
    if q is not None:
        # k > 0 and q(k-1): the least such k is one more than the least k with q(k)
        f = FIRST(n, k, q)
        return ITE(LE(n, IntVal(0)), n, ADD(IntVal(1), ITE(LT(f, SUB(n, IntVal(1))), f, SUB(n, IntVal(1)))))
    return skel('first', n, k, e)


def shifted(k, e):
    """q when e is 'k is not 0 and q(k-1)'"""
    if not z3.is_and(e):
        return None
    kid = {k.get_id()}
    zero = [c for c in e.children() if c.eq(LE(IntVal(1), k)) or c.eq(LT(IntVal(0), k)) or c.eq(NOT(EQ(k, IntVal(0))))]
    rest = [c for c in e.children() if not any(c.eq(z) for z in zero)]
    if not zero or not rest:
        return None
    k2 = Int('k#shift')
    pre = SUB(k, IntVal(1))
    q = rebuild(AND(*rest), {pre.get_id(): k2}, {})
    if contains(q, kid) or contains(AND(*rest), {k2.get_id()}):
        return None
    return rebuild(q, {k2.get_id(): k}, {})


def LAST(n, k, e):
    """greatest i in [0,n) with e(i), else -1"""
    if is_false(e):
        return IntVal(-1)
    if is_true(e):
        return SUB(n, IntVal(1))
    return skel('last', n, k, e)


def SUM(n, k, e):
    if z3.is_int_value(e) and e.as_long() == 0:
        return IntVal(0)
    if z3.is_int_value(e) and e.as_long() == 1:
        return n
    if z3.is_int_value(n) and n.as_long() <= 0:
        return IntVal(0)
    return skel('sum', n, k, e)


def EX(n, k, e):
    """exists i in [0,n). e(i)"""
    if not contains(e, {k.get_id()}):
        return AND(e, LT(IntVal(0), n))
    return LT(FIRST(n, k, e), n)


def length(items):
    r = IntVal(0)
    for it in items:
        g = it[1]
        if it[0] == 'u':
            x = IntVal(1)
        elif it[0] == 'b':
            x = llen(it[2])
        elif it[0] == 'f':
            x = SUM(it[3], it[2], length(it[4]))
        elif it[0] in ('s', 'x'):
            x = length(it[2])
        else:
            x = Function('opqlen', Str, IntSort())(lit(it[2]))
        r = ADD(r, ITE(g, x, IntVal(0)))
    return r

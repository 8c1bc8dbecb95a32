"""Symbolic execution of SSA functions over all inputs; loops are summarised, never unrolled (unless the
number of iterations is a constant)."""
import json
import os
from core import *
import core
import externs


DEBUG = os.environ.get('GQLV_DEBUG')


class Types:
    def __init__(self, tab):
        self.t = tab

    def u(self, t):
        d = self.t[t]
        while d.get('k') == 'named':
            t = d['u']
            d = self.t[t]
        return d

    def kind(self, t):
        d = self.u(t)
        k = d['k']
        if k == 'basic':
            if d['bool']:
                return 'bool'
            if d['str']:
                return 'str'
            if d['int']:
                return 'int'
            return 'other'
        if k == 'slice':
            e = self.u(d['e'])
            if e['k'] == 'basic' and e['name'] in ('uint8', 'byte'):
                return 'bytes'
        return k

    def short(self, t):
        d = self.t[t]
        if d['k'] == 'named':
            return d['short']
        return t

    def sort(self, t):
        k = self.kind(t)
        return {'bool': BoolSort(), 'int': IntSort(), 'str': Str, 'bytes': Str, 'slice': Lst}.get(k, Ref)

    def elem(self, t):
        return self.u(t)['e']

    def fields(self, t):
        return self.u(t)['f']


class State:
    __slots__ = ('mem', 'env')

    def __init__(self, mem, env):
        self.mem, self.env = mem, env

    def copy(self):
        return State(dict(self.mem), dict(self.env))


def merge_dicts(c, a, b):
    if a is b:
        return a
    out = dict(a)
    for k, v in b.items():
        if k in out:
            if out[k] is not v:
                out[k] = vite_safe(c, out[k], v)
        else:
            out[k] = v
    return out


def vite_safe(c, a, b):
    try:
        return vite(c, a, b)
    except Unsupported as e:
        return OpqV('merge:' + str(e))


def merge_states(alts):
    """alts: [(cond, State)], exactly one cond holds"""
    c, s = alts[-1]
    mem, env = s.mem, s.env
    for c, s in reversed(alts[:-1]):
        mem = merge_dicts(c, s.mem, mem)
        env = merge_dicts(c, s.env, env)
    return State(dict(mem), dict(env))


def merge_guards(gs):
    """gs: list of tuples of literals -> (common prefix tuple incl. the rest as one literal, relative conds)"""
    n = 0
    while all(len(g) > n for g in gs) and all(g[n].eq(gs[0][n]) for g in gs):
        n += 1
    pre = gs[0][:n]
    rel = [g[n:] for g in gs]
    work = [tuple(r) for r in rel]
    changed = True
    while changed and len(work) > 1:
        changed = False
        for i in range(len(work)):
            for j in range(i + 1, len(work)):
                a, b = work[i], work[j]
                if len(a) == len(b) and len(a) and all(x.eq(y) for x, y in zip(a[:-1], b[:-1])):
                    if a[-1].eq(NOT(b[-1])):
                        work = [w for k, w in enumerate(work) if k not in (i, j)] + [a[:-1]]
                        changed = True
                        break
            if changed:
                break
    if any(len(w) == 0 for w in work):
        rest = ()
    else:
        d = OR(*[AND(*w) for w in work])
        # the alternatives may be exhaustive without being syntactic complements
        rest = () if is_true(d) or prop_valid(d, pre) else (d,)
    return pre + rest, [AND(*r) for r in rel]


_valid = {}


def prop_valid(d, hyps=(), ms=300):
    """is d valid under hyps (quick; False when undecided)"""
    key = (d.get_id(),) + tuple(h.get_id() for h in hyps)
    r = _valid.get(key)
    if r is None:
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*hyps)
        s.add(z3.Not(d))
        r = s.check() == z3.unsat
        _valid[key] = r
        core._keep.append((d, hyps))
    return r


class Out:
    """outcome of a region"""

    def __init__(self):
        self.edges = []   # (from, to, guard tuple, State)
        self.rets = []    # (guard tuple, [values], State)
        self.exits = []   # (guard tuple, code, State)


class Exec:
    MAXDEPTH = 40

    def origin(self, t):
        """the document that a pointer into one of the two documents belongs to, if that is plain"""
        while True:
            if is_ite(t):
                a, b = [x for x in (t.arg(1), t.arg(2))]
                if a.eq(null) or b.eq(null):
                    t = b if a.eq(null) else a
                    continue
                x, y = self.origin(a), self.origin(b)
                return x if x == y else None
            if not z3.is_app(t) or t.sort() not in (Ref, Lst):
                return None
            if t.num_args() == 0:
                return self.side.get(t.get_id())
            if t.arg(0).sort() not in (Ref, Lst):
                return None
            t = t.arg(0)

    def sides(self, params, args):
        """a function of a pair of elements: the first belongs to the old document, the second to the new one"""
        self.side = {}
        by = {}
        for p, a in zip(params, args):
            if self.T.kind(p[1]) in ('slice', 'ptr', 'pointer'):
                by.setdefault(p[1], []).append(a)
        for l in by.values():
            if len(l) == 2:
                for k, a in zip(('old', 'new'), l):
                    for x in ([a] if is_z(a) else [i[2] for i in a.items if i[0] == 'b'] if isinstance(a, ListV) else []):
                        if z3.is_app(x) and x.num_args() == 0:
                            self.side[x.get_id()] = k
                            core._keep.append(x)

    def __init__(self, ssa, config=None):
        self.ssa = ssa
        self.T = Types(ssa['types'])
        self.funcs = {f['name']: f for f in ssa['funcs']}
        self.nobj = 0
        self.makes, self.mkread = {}, set()   # slices made with a length
        self.writes = None      # element stores of a Swap method under inspection
        self.obs = []           # (guard tuple, cond, info)
        self.side = {}          # constant -> which of the two documents it belongs to
        self.samedoc, self.crossing = None, False   # are the two documents one?
        self.ptrcmp = []        # pointers that are compared with each other
        self.stack = []
        self.cache = {}
        self.lenof = {}
        self.contracts = {}     # name -> callable(ex, args, state) -> value or None
        self.config = config or {}
        self.globals = {}
        self._mutable = {}
        self.used = set()       # functions executed from source
        self.trusted = set()    # external contracts used
        self.usedcontracts = set()
        self.on_unsupported = None
        self.maploops = []
        self.imprecise = []
        self.frames = 0
        self.loopinfo = {}
        self.flags = []
        self.pathids = {}
        self.frs = []
        self.strict = False     # must changes of lists in place be known not to touch a document?
        self.ks = []            # indices of the loops being executed

    # ------------------------------------------------------------ memory
    def alloc(self, st, v):
        self.nobj += 1
        o = 'o%d' % self.nobj
        st.mem[o] = v
        return PtrL(o)

    def zero(self, t):
        k = self.T.kind(t)
        if k == 'bool':
            return F
        if k == 'int':
            return IntVal(0)
        if k in ('str', 'bytes'):
            return lit(b'')
        if k == 'slice':
            return ListV((), self.T.elem(t))
        if k == 'struct':
            return StructV(t, {f[0]: self.zero(f[1]) for f in self.T.fields(t)})
        if k == 'array':
            d = self.T.u(t)
            return StructV(t, {i: self.zero(d['e']) for i in range(d['n'])})
        return null

    def sym(self, t, term):
        """the value of Go type t denoted by a z3 term of the matching sort"""
        if term.sort() == Lst:
            return ListV((('b', T, term),), self.T.elem(t), 'doc')
        return term

    def param(self, name, t):
        return self.sym(t, Const(name, self.T.sort(t)))

    def read_field(self, r, t, f, ft):
        """field f (of type ft) of the base object r of struct type t"""
        sn = self.T.short(t)
        if f == '_addr':
            raise Unsupported('addr')
        v = fld(sn, f, self.T.sort(ft))(r)
        return self.sym(ft, v)

    def base_elem(self, L, i, et):
        k = self.T.kind(et)
        if k in ('str', 'bytes'):
            return ats(L, i)
        if k in ('int', 'bool', 'slice', 'map'):
            return self.sym(et, Function('at_' + k, Lst, IntSort(), self.T.sort(et))(L, i))
        return at(L, i)

    def field_of(self, v, t, f, ft):
        """field of a struct value"""
        if isinstance(v, StructV):
            return v.f[f]
        if is_z(v):
            return self.read_field(v, t, f, ft)
        if isinstance(v, UnionV):
            return mkunion_v([(g, self.field_of(x, t, f, ft)) for g, x in v.a])
        raise Unsupported('field of %r' % type(v).__name__)

    def struct_of(self, v, t):
        """deep struct value of a base struct"""
        if isinstance(v, StructV):
            return v
        if is_z(v):
            return StructV(t, {f[0]: self.read_field(v, t, f[0], f[1]) for f in self.T.fields(t)})
        raise Unsupported('struct_of')

    def path_get(self, v, p, t=None):
        for x in p:
            if isinstance(v, StructV):
                v = v.f[x]
            elif isinstance(v, UnionV):
                v = mkunion_v([(g, self.path_get(y, (x,))) for g, y in v.a])
            else:
                raise Unsupported('path into %s' % type(v).__name__)
        return v

    def path_set(self, v, p, x):
        if not p:
            return x
        if not isinstance(v, StructV):
            raise Unsupported('store into %s' % type(v).__name__)
        return v.set(p[0], self.path_set(v.f[p[0]], p[1:], x))

    def load(self, st, a, t, info, g):
        """t: type of the loaded value"""
        if isinstance(a, PtrL):
            if a.o not in st.mem:
                if a.o.startswith('g:'):
                    st.mem[a.o] = self.global_init(a.o[2:])
                else:
                    raise Unsupported('dangling')
            return self.path_get(st.mem[a.o], a.p)
        if isinstance(a, BaseAddr):
            return self.read_field(a.r, a.st, a.f, a.ft)
        if isinstance(a, ValAddr):
            return a.v
        if isinstance(a, RecP):
            return a.s
        if isinstance(a, ElemAddr):
            return self.elem(st, a.l, a.i)
        if is_z(a) and a.sort() == Ref:
            self.ob('nil-deref', g, NOT(EQ(a, null)), info)
            a = strip_null(a)
            if self.T.kind(t) == 'struct':
                return self.struct_of(a, t)
            return self.sym(t, Function('deref_' + self.T.sort(t).name(), Ref, self.T.sort(t))(a))
        if isinstance(a, UnionV):
            return mkunion_v([(c, self.load(st, x, t, info, g + (c,))) for c, x in a.a])
        raise Unsupported('load from %s' % type(a).__name__)

    def store(self, st, a, v, info, g):
        if isinstance(a, PtrL):
            if a.o.startswith('g:') and a.o not in st.mem:
                st.mem[a.o] = self.global_init(a.o[2:])
            if is_z(v) and v.sort() == Ref:
                old = self.path_get(st.mem[a.o], a.p)
                if isinstance(old, StructV):
                    v = self.struct_of(v, old.t)
            st.mem[a.o] = self.path_set(st.mem[a.o], a.p, v)
        elif isinstance(a, ElemAddr) and ismade(a.l):
            m = st.mem.get(a.l.o)
            if m is None or not is_false(m.f['done']) or a.l.o in self.mkread:
                raise Unsupported('store into a list that has been read')
            w = m.f['w']
            st.mem[a.l.o] = StructV('@made', {'w': ListV(w.items + (('u', T, StructV('@write', {0: a.i, 1: v})),), w.et), 'done': F})
        elif isinstance(a, ElemAddr) and self.writes is not None:
            self.writes.append((a.l, a.i, v))
        elif isinstance(a, ElemAddr):
            self.inplace(a.l, g, info, always=True)
        elif isinstance(a, BaseAddr) or is_z(a):
            self.given(a if is_z(a) else a.r, 'store to an object that is not a parameter')
            self.ob('frame', g, F, info)
        elif isinstance(a, UnionV):
            for c, x in a.a:
                if isinstance(x, PtrL):
                    old = self.path_get(st.mem[x.o], x.p)
                    st.mem[x.o] = self.path_set(st.mem[x.o], x.p, vite(c, v, old))
                else:
                    self.store(st, x, v, info, g + (c,))
        else:
            raise Unsupported('store to %s' % type(a).__name__)

    def given(self, t, why):
        """the object is (part of) a parameter: not one that another function may have made"""
        while z3.is_app(t) and t.num_args():
            if '!' in t.decl().name() or t.decl().name() == 'merged':
                raise Unsupported(why)
            t = t.arg(0)
        if not z3.is_const(t) or '!' in t.decl().name():
            raise Unsupported(why)

    def inplace(self, l, g, info, always=False):
        """the elements of the list are changed in place; lists of documents must not be"""
        if not isinstance(l, ListV):
            raise Unsupported('store into %s' % type(l).__name__)
        base = [it for it in l.items if it[0] == 'b' and ofdoc(it[2], l.et)]
        if base and l.key != 'own':
            if len(l.items) != 1 or l.key != 'doc':
                if self.strict:
                    raise Unsupported('a list that may share its elements with a document is changed in place')
            else:
                self.given(base[0][2], 'change of a list that is not a parameter')
                self.ob('frame', g, F, info)
                return
        if always:
            raise Unsupported('store into a list')

    def global_init(self, name):
        if name in self.globals:
            why = self.mutable(name)
            if why:
                raise Unsupported('global %s: %s' % (name, why))
            return self.globals[name]
        if name in ('os.Stdin', 'os.Stdout', 'os.Stderr'):
            return Const(name, Ref)
        raise Unsupported('global ' + name)

    READERS = ('builtin len', 'builtin cap', 'sort.SearchStrings', 'strings.Join', 'fmt.Sprintf', 'slices.Contains',
               'strings.Contains', 'strings.Replace')

    def composite(self, t, seen=()):
        """a value of the type can be changed through a copy of it"""
        k = self.T.kind(t)
        if k in ('str', 'int', 'bool', 'float', 'func', 'sig', 'signature') or t in seen:
            return False
        if t in ('*regexp.Regexp', 'error'):
            return False
        if k == 'struct':
            return any(self.composite(f[1], seen + (t,)) for f in self.T.fields(t))
        return True

    def mutable(self, name):
        """why the package variable may differ, while the program runs, from what its initialiser gave it; None if it cannot.
        Nothing outside the package initialisers may store to it, and what it holds is only read"""
        if name not in self._mutable:
            self._mutable[name] = 'recursive'
            pkg = name[:name.rindex('.')]
            why = self._uses_of(name)
            if why is None and self.composite(self.T.u(self.ssa['globals'][name])['e']):
                for g, t in self.ssa['globals'].items():      # another variable may hold the same object
                    if g != name and g[:g.rindex('.')] == pkg and self.composite(self.T.u(t)['e']) and \
                            g not in ('init$guard',) and self._uses_of(g):
                        why = 'it may share its value with %s' % g
            self._mutable[name] = why
        return self._mutable[name]

    def _uses_of(self, name):
        for f in self.funcs.values():
            short = f['name'][f['name'].rindex('.') + 1:] if '.' in f['name'] else f['name']
            if short == 'init' or (short.startswith('init#') and '$' not in short):
                continue
            why = self._track(f, ('g', name), True, ())
            if why:
                return '%s in %s' % (why, f['name'])
        return None

    def _track(self, f, op, addr, seen):
        """op: an operand that is the address of (addr) or the value of something that must not be changed"""
        if (f['name'], op) in seen:
            return None
        seen = seen + ((f['name'], op),)
        is_ = lambda v: isinstance(v, (list, tuple)) and len(v) >= 2 and v[0] == op[0] and v[1] == op[1]
        for b in f['blocks']:
            for i in b['i']:
                if not isinstance(i, dict):
                    continue
                used = [k for k, v in i.items() if is_(v) or isinstance(v, list) and any(
                    is_(w) or isinstance(w, list) and any(is_(y) for y in w) for w in v if isinstance(w, list))]
                if not used:
                    continue
                o = i['o']
                res = ('r', i.get('n'))
                if o == 'DebugRef' or o == 'If':
                    continue
                if addr:
                    if o == 'UnOp' and i['op'] == '*':
                        if self.composite(i['t']):
                            why = self._track(f, res, False, seen)
                            if why:
                                return why
                        continue
                    if o == 'FieldAddr' or o == 'IndexAddr' and used == ['x']:
                        why = self._track(f, res, True, seen)
                        if why:
                            return why
                        continue
                    return 'its address is used by %s' % o
                if o in ('BinOp', 'Next', 'Range', 'Lookup', 'Extract', 'Phi', 'Slice', 'Field', 'ChangeType') and \
                        used != ['i']:
                    t = i.get('t')
                    if o in ('Range', 'Next') or t is not None and (t.startswith('(') or self.composite(t)):
                        why = self._track(f, res, False, seen)
                        if why:
                            return why
                    continue
                if o == 'FieldAddr' or o == 'IndexAddr' and used == ['x']:
                    why = self._track(f, res, True, seen)
                    if why:
                        return why
                    continue
                if o == 'UnOp' and i['op'] == '*':
                    if self.composite(i['t']):
                        why = self._track(f, res, False, seen)
                        if why:
                            return why
                    continue
                if o == 'Call':
                    v = i.get('v')
                    n = (v[1] if v[0] == 'f' else 'builtin ' + v[1] if v[0] == 'b' else None) if v else None
                    if n in self.READERS:
                        continue
                    c = self.funcs.get(n)
                    if c is not None and c.get('blocks'):
                        for a, p in zip(i['args'], c['params']):
                            if is_(a):
                                why = self._track(c, ('r', p[0]), False, seen)
                                if why:
                                    return why
                        continue
                return 'its value is used by %s' % o
        return None

    def run_inits(self, pkgs):
        for p in pkgs:
            f = self.funcs.get(p + '.init')
            if f is None:
                continue
            st = State({}, {})
            for g, t in self.ssa['globals'].items():
                if g.startswith(p + '.') and '/' not in g[len(p) + 1:]:
                    st.mem['g:' + g] = self.zero(self.T.u(t)['e'])
            st.mem['g:%s.init$guard' % p] = F
            saved = dict(self.contracts)
            for n in self.funcs:
                if n.endswith('.init') and n != p + '.init':
                    self.contracts[n] = lambda ex, args, st, g, info: ((), None, st, [])
            try:
                o = self.call_body(f, [], st)
                if len(o.rets) >= 1:
                    gs, rel = merge_guards([r[0] for r in o.rets])
                    s2 = merge_states([(c, r[2]) for c, r in zip(rel, o.rets)])
                    frozen = {}
                    for k, v in s2.mem.items():
                        if k.startswith('g:'):
                            self.globals[k[2:]] = self.freeze(v, s2.mem, set(s2.mem), maps=True)
            except Unsupported as e:
                self.imprecise.append('init of %s: %s' % (p, e))
            finally:
                self.contracts = saved
        self.obs.clear()

    # ------------------------------------------------------------ obligations
    def ob(self, kind, g, cond, info):
        self.obs.append((tuple(g), cond, (kind,) + info))

    # ------------------------------------------------------------ lists
    def made(self, x, st):
        """the list value of a slice made with a length, once all of its elements (or none) have been written"""
        if isinstance(x, UnionV) and any(ismade(y) for _, y in x.a):
            return mkunion_v([(g, self.made(y, st)) for g, y in x.a])
        if not ismade(x):
            return x
        n, zero, et = self.makes[x.o]
        m = st.mem.get(x.o)
        if not isinstance(m, StructV):
            raise Unsupported('list made with a length')
        w = m.f['w']
        if is_true(m.f['done']):
            return w
        if not is_false(m.f['done']) or not isinstance(w, ListV):
            raise Unsupported('list made with a length')
        self.mkread.add(x.o)
        if not w.items:
            if z3.is_int_value(n) and n.as_long() <= 64:
                return ListV([('u', T, zero)] * n.as_long(), et)
            return ListV((('f', T, Int('k!' + x.o), n, (('u', T, zero),)),), et)
        its = filled(w.items, n)
        if its is None:
            raise Unsupported('list made with a length, partly written')
        return ListV(its, et)

    def elem(self, st, l, i):
        """element i of list value l"""
        if ismade(l):
            l = self.made(l, st)
        if isinstance(l, UnionV):
            return mkunion_v([(g, self.elem(st, x, i)) for g, x in l.a])
        if not isinstance(l, ListV):
            raise Unsupported('index of %s' % type(l).__name__)
        for fr in reversed(self.frs):
            if fr.elem is not None and fr.elem[0].eq(i) and items_eq(fr.elem[1], l.items):
                return fr.elem[2]
        its = l.items
        if len(its) == 1 and its[0][0] == 'b' and is_true(its[0][1]):
            return self.base_elem(its[0][2], i, l.et)
        if len(its) == 1 and its[0][0] == 's':
            key = self.sortkey(its[0])
            return self.base_elem(key, i, l.et)
        if z3.is_int_value(i):
            n = i.as_long()
            if all(x[0] == 'u' and is_true(x[1]) for x in its[:n + 1]) and len(its) > n:
                return its[n][2]
            if n == 0:
                v = self.elem0(its, l.et)
                if v is not None:
                    return v
        v = self.map_elem(its, i, l.et)
        if v is not None:
            return v
        raise Unsupported('index into a derived list')

    def map_elem(self, its, i, et):
        """a list of the shape [v(k) for k in range(n)] indexed by i"""
        if len(its) == 1 and its[0][0] == 'f' and is_true(its[0][1]):
            _, g, k, n, inner = its[0]
            if len(inner) == 1 and inner[0][0] == 'u' and is_true(inner[0][1]):
                return vsub(inner[0][2], [(k, i)])
        return None

    def sortkey(self, it):
        """a base list standing for a sorted/permuted list"""
        return externs.sorted_base(it[2], it[3], None)

    def elem0(self, its, et):
        if not its:
            return OpqV('no element')
        it = its[0]
        if it[0] == 'u':
            x, ne = it[2], it[1]
        elif it[0] == 'b':
            x, ne = self.base_elem(it[2], IntVal(0), et), AND(it[1], NOT(EQ(llen(it[2]), IntVal(0))))
        elif it[0] == 'f':
            _, g, k, n, inner = it
            inn = NOT(EQ(length(inner), IntVal(0)))
            fi = FIRST(n, k, inn)
            x = self.elem0(vsub_items(inner, [(k, fi)]), et)
            ne = AND(g, LT(fi, n))
        else:
            return None
        if x is None:
            return None
        if len(its) == 1:
            return x
        r = self.elem0(its[1:], et)
        if r is None:
            return None
        return vite(ne, x, r)

    def listlen(self, l):
        if is_z(l) and l.sort() == Str:
            return SLEN(l)
        if isinstance(l, UnionV):
            r = None
            for g, x in l.a:
                n = self.listlen(x)
                r = n if r is None else ITE(g, n, r)
            return r
        if isinstance(l, ListV):
            n = length(l.items)
            if not (len(l.items) == 1 and l.items[0][0] == 'b'):
                self.lenof[n.get_id()] = (n, l)
            return n
        raise Unsupported('len of %s' % type(l).__name__)

    # ------------------------------------------------------------ functions
    def call_body(self, f, args, st):
        """run a function body; returns Out with rets and exits (guards relative to the call)"""
        if f['name'] in [s for s in self.stack]:
            raise Unsupported('recursion in ' + f['name'])
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('call depth')
        self.stack.append(f['name'])
        self.used.add(f['name'])
        fr = Frame(self, f)
        self.frs.append(fr)
        try:
            env = {}
            names = [p[0] for p in f['params']] + [p[0] for p in f['free']]
            for n, a in zip(names, args):
                env[n] = a
            s = State(st.mem, env)
            o = fr.region(fr.top, 0, [((), None, s)])
            return o
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, z3.Z3Exception) as e:
            if DEBUG:
                raise
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            raise Unsupported('%s in %s (%s at %s:%d)' % (e, f['name'], type(e).__name__, tb.tb_frame.f_code.co_name, tb.tb_lineno))
        finally:
            self.frs.pop()
            self.stack.pop()

    def pathkey(self, fr):
        p = '|'.join('%s:%s' % (f.f['name'], f.cur if f is not fr else '') for f in self.frs)
        return 'p%d' % self.pathids.setdefault(p, len(self.pathids))

    def freeze(self, v, mem, objs, depth=0, maps=False):
        """turn pointers to local objects in objs into pointers to immutable records"""
        if depth > 12:
            raise Unsupported('cyclic local objects')

        def go(x):
            if x is None or is_z(x) or isinstance(x, (str, bytes, int, OpqV, RegexV, BaseAddr)):
                return x
            if isinstance(x, PtrL):
                if x.o in objs and not x.o.startswith('g:'):
                    if x.p == ():
                        v2 = mem[x.o]
                        if isinstance(v2, StructV):
                            return RecP(self.freeze(v2, mem, objs, depth + 1, maps))
                        if maps and isinstance(v2, MapV):
                            return self.freeze(v2, mem, objs, depth + 1, maps)
                    return OpqV('escaped local')
                return x
            if isinstance(x, StructV):
                return StructV(x.t, {k: go(y) for k, y in x.f.items()})
            if isinstance(x, RecP):
                return RecP(go(x.s))
            if isinstance(x, ListV):
                return ListV(fi(x.items), x.et, x.key)
            if isinstance(x, IfaceV):
                return IfaceV(x.t, go(x.v))
            if isinstance(x, TupleV):
                return TupleV([go(y) for y in x.e])
            if isinstance(x, UnionV):
                return mkunion([(g, go(y)) for g, y in x.a])
            if isinstance(x, FuncV):
                return FuncV(x.name, [go(y) for y in x.b])
            if isinstance(x, MapV):
                return MapV(x.q, x.pres, go(x.val), go(x.keys), x.kt, x.vt)
            return x

        def fi(items):
            out = []
            for it in items:
                if it[0] == 'u':
                    out.append(('u', it[1], go(it[2])))
                elif it[0] == 'f':
                    out.append(it[:4] + (fi(it[4]),))
                elif it[0] == 's':
                    out.append(it[:2] + (fi(it[2]),) + it[3:])
                elif it[0] == 'x':
                    out.append(it[:2] + (fi(it[2]),))
                else:
                    out.append(it)
            return tuple(out)
        return go(v)

    def argkey(self, v):
        if v is None:
            return None
        if is_z(v):
            core._keep.append(v)
            return ('z', v.get_id())
        if isinstance(v, ListV):
            k = []
            for it in v.items:
                if it[0] == 'b':
                    core._keep.append(it[2])
                    core._keep.append(it[1])
                    k.append((it[1].get_id(), it[2].get_id()))
                else:
                    return None
            return ('l', tuple(k))
        if isinstance(v, FuncV) and not v.b:
            return ('fn', v.name)
        return None

    def call(self, name, args, st, g, info):
        """returns (retguard tuple, value or None, State, exits)"""
        f = self.funcs.get(name)
        con = self.contracts.get(name)
        if con is not None and name not in self.stack_verifying():
            r = con(self, args, st, g, info)
            if r is not None:
                self.usedcontracts.add(name)
                return r
        ext = externs.TABLE.get(name)
        if ext is not None and (f is None or name in externs.OVERRIDE):
            self.trusted.add(name)
            if not name.startswith('sort.') and any(unordered(a) for a in args):
                self.ob('order', g, F, info)
            r = ext(self, args, st, g, info)
            if isinstance(r, Outcome):
                return r.ret, r.val, r.st, r.exits
            return (), r, st, []
        if f is None or not f['blocks']:
            raise Unsupported('call of external ' + name)
        keys = [self.argkey(a) for a in args]
        ck = None
        if all(k is not None for k in keys):
            ck = (name, tuple(keys))
            hit = self.cache.get(ck)
            if hit is not None:
                rg, val, exits, obs = hit
                for og, c, i in obs:
                    self.obs.append((tuple(g) + og, c, i))
                return rg, val, st, []
        saved = self.obs
        self.obs = []
        mem0 = dict(st.mem)
        try:
            o = self.call_body(f, args, st)
            mine = self.obs
        except Unsupported as e:
            r = self.on_unsupported and self.on_unsupported(name, f, args, st, g, info, e)
            if not r:
                raise
            return r
        finally:
            self.obs = saved
        for og, c, i in mine:
            self.obs.append((tuple(g) + og, c, i))
        if not o.rets:
            return (F,), None, st, o.exits
        rg, rel = merge_guards([r[0] for r in o.rets])
        s2 = merge_states([(c, State(r[2].mem, {})) for c, r in zip(rel, o.rets)])
        vals = []
        for i in range(len(o.rets[0][1])):
            v = o.rets[-1][1][i]
            for c, r in reversed(list(zip(rel, o.rets))[:-1]):
                v = vite(c, r[1][i], v)
            vals.append(v)
        val = None if not vals else vals[0] if len(vals) == 1 else TupleV(vals)
        if ck is not None and not o.exits:
            pure = all(k in s2.mem and s2.mem[k] is v for k, v in mem0.items())
            newobjs = set(k for k in s2.mem if k not in mem0)
            if pure:
                fv = self.freeze(val, s2.mem, newobjs)
                if not (isinstance(val, PtrL) or has_opq(fv)):
                    self.cache[ck] = (rg, fv, [], mine)
                    return rg, fv, State(mem0, st.env), []
        return rg, val, State(s2.mem, st.env), o.exits

    def stack_verifying(self):
        return self.config.get('verifying', ())


def has_opq(v):
    found = []

    def walk(x):
        if isinstance(x, OpqV):
            found.append(x)
        elif isinstance(x, StructV):
            for y in x.f.values():
                walk(y)
        elif isinstance(x, RecP):
            walk(x.s)
        elif isinstance(x, FuncV):
            for y in x.b:
                walk(y)
        elif isinstance(x, IfaceV):
            walk(x.v)
        elif isinstance(x, ListV):
            for it in iter_items(x.items):
                if it[0] == 'u':
                    walk(it[2])
        elif isinstance(x, (TupleV,)):
            for y in x.e:
                walk(y)
        elif isinstance(x, UnionV):
            for _, y in x.a:
                walk(y)
        elif isinstance(x, IfaceV):
            walk(x.v)
    walk(v)
    return bool(found)


def ofdoc(t, et):
    """is the list part of a document?"""
    return z3.is_app(t) and (AST in (et or '') or t.num_args() == 1 and t.arg(0).sort() == Ref and '.' in t.decl().name())


AST = 'github.com/vektah/gqlparser/v2/ast'


def ismade(x):
    """a slice made with a length: its elements are written one by one"""
    return isinstance(x, PtrL) and x.o.startswith('mk')


def filled(items, n):
    """the items of a list of length n after the recorded writes, which must be one write to each index; or None"""
    import facts
    if len(items) == 1 and items[0][0] == 'x':
        r = filled(items[0][2], n)
        return None if r is None else (('x', items[0][1], r),)
    if len(items) == 1 and items[0][0] == 'f' and is_true(items[0][1]):
        _, g, k, cnt, inner = items[0]
        if len(inner) != 1 or inner[0][0] != 'u' or not is_true(inner[0][1]):
            return None
        w = inner[0][2]
        if not isinstance(w, StructV) or w.t != '@write' or not w.f[0].eq(k):
            return None
        if not cnt.eq(n) and facts.prove([], cnt == n, timeout=2000) != 'proved':
            return None
        return (('f', T, k, n, (('u', T, w.f[1]),)),)
    if z3.is_int_value(n) and len(items) == n.as_long():
        out = {}
        for it in items:
            w = it[2] if it[0] == 'u' and is_true(it[1]) else None
            if not isinstance(w, StructV) or w.t != '@write' or not z3.is_int_value(w.f[0]):
                return None
            out[w.f[0].as_long()] = ('u', T, w.f[1])
        if sorted(out) == list(range(len(items))):
            return tuple(out[i] for i in range(len(items)))
    return None


def unordered(v):
    """does the value depend on the iteration order of a map?"""
    found = []

    def items(its):
        for it in its:
            if it[0] == 'x':
                found.append(it)
            elif it[0] == 's':
                if it[3][0] != 'strings' and it[3][-1] != 'total' and any(x[0] == 'x' for x in core.iter_items(it[2])):
                    found.append(it)
            elif it[0] == 'f':
                items(it[4])
            elif it[0] == 'u':
                walk(it[2])

    def walk(x):
        if isinstance(x, OpqV):
            if x.n == 'order-dependent':
                found.append(x)
        elif isinstance(x, StructV):
            for y in x.f.values():
                walk(y)
        elif isinstance(x, RecP):
            walk(x.s)
        elif isinstance(x, ListV):
            items(x.items)
        elif isinstance(x, TupleV):
            for y in x.e:
                walk(y)
        elif isinstance(x, UnionV):
            for _, y in x.a:
                walk(y)
        elif isinstance(x, IfaceV):
            walk(x.v)
        elif isinstance(x, FuncV):
            for y in x.b:
                walk(y)
        elif isinstance(x, MapV):
            walk(x.val)
    walk(v)
    return bool(found)


class Outcome:
    def __init__(self, ret=(), val=None, st=None, exits=()):
        self.ret, self.val, self.st, self.exits = ret, val, st, list(exits)


def mkunion_v(alts):
    """union of values; scalars and lists are merged"""
    r = alts[-1][1]
    for g, v in reversed(alts[:-1]):
        r = vite(g, v, r)
    return r


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks, self.subs = header, blocks, []


SHARED = {}


def shared_appends(f):
    """the appends of f whose first argument is extended more than once: append is modelled as a function of values, which is
    right only when no two of the results share spare capacity"""
    if f['name'] in SHARED:
        return SHARED[f['name']]
    home, apps, defs = {}, [], {}
    for bn, b in enumerate(f['blocks']):
        for x in b['i']:
            if x.get('n'):
                home[x['n']], defs[x['n']] = bn, x
            if x['o'] == 'Call' and x['v'][:2] == ['b', 'append'] and x['args'][0][0] != 'c':
                apps.append((x['args'][0], bn, x['n']))

    def fresh_array(v):
        d = defs.get(v[1]) if v[0] == 'r' else None
        return d is not None and d['o'] == 'Slice' and d['xt'].startswith('*[') and (d['hi'] is None or d['xt'].startswith('*[0]'))

    def again(b, d, a):
        """can b be reached from a without passing through d?"""
        seen, todo = set(), list(f['blocks'][a]['s'])
        while todo:
            c = todo.pop()
            if c == d or c in seen:
                continue
            if c == b:
                return True
            seen.add(c)
            todo += f['blocks'][c]['s']
        return False
    out = set()
    for v, b, n in apps:
        if fresh_array(v):
            continue
        d = home.get(v[1], 0) if v[0] == 'r' else -1
        if d != b and again(b, d, b) or any(w == v and m != n and (c == b or d != b and again(b, d, c) or d != c and again(c, d, b)) for w, c, m in apps):
            out.add(n)
    SHARED[f['name']] = out
    return out


class Frame:
    def __init__(self, ex, f):
        self.ex, self.f, self.T = ex, f, ex.T
        self.B = f['blocks']
        self.elem = None        # (index term, items, elem value) of the structural loop being executed
        self.force = []         # assumed literals for branch conditions
        self.cur = ''           # the call being executed
        self.next_ = {}         # values of the Next instructions of the map loops being executed
        self.loops()

    # ---------------------------------------------------------- loop structure
    def loops(self):
        ex = self.ex.loopinfo.get(self.f['name'])
        if ex is not None:
            self.top, self.dom = ex
            return
        n = len(self.B)
        succ = [b['s'] for b in self.B]
        order, seen = [], set()

        def dfs(x):
            stack = [(x, iter(succ[x]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z not in seen:
                        seen.add(z)
                        stack.append((z, iter(succ[z])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.B[b]['p'] if p in idx]
                d = set.intersection(*[dom[p] for p in ps]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(p for p in self.B[x]['p'] if p in idx)
                elif idx[s] <= idx[b]:
                    raise Unsupported('irreducible control flow')
        ls = sorted((Loop(h, bl) for h, bl in loops.items()), key=lambda l: len(l.blocks))
        top = Loop(None, set(rpo))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and l is not m:
                    m.subs.append(l)
                    break
            else:
                top.subs.append(l)
        self.rpo = rpo
        top.rpo = rpo
        for l in ls:
            l.rpo = [b for b in rpo if b in l.blocks]
        self.top, self.dom = top, dom
        self.ex.loopinfo[self.f['name']] = (top, dom)

    # ---------------------------------------------------------- regions
    def region(self, L, entry, incoming, skip_phis=False):
        """incoming: [(guard, pred block, State)] edges into entry"""
        out = Out()
        sub = {}
        hdr = {}
        for l in L.subs:
            for b in l.blocks:
                sub[b] = l
            hdr[l.header] = l
        pend = {entry: [(g, p, s) for g, p, s in incoming]}
        for b in L.rpo:
            if b in sub and b not in hdr:
                continue
            ins = [e for e in pend.pop(b, []) if not any(is_false(x) for x in e[0])]
            if not ins:
                continue
            if b in hdr:
                o = self.loop(hdr[b], ins)
            else:
                o = self.block(b, ins, skip_phis and b == entry)
            out.rets += o.rets
            out.exits += o.exits
            for fr, to, g, s in o.edges:
                if to in L.blocks and to != entry:
                    pend.setdefault(to, []).append((g, fr, s))
                elif to == entry and L.header is not None:
                    out.edges.append((fr, to, g, s))
                else:
                    out.edges.append((fr, to, g, s))
        return out

    def merge_in(self, b, ins, phis=True):
        """merge incoming edges of block b: guard tuple and State with phis evaluated"""
        blk = self.B[b]
        ph = [i for i in blk['i'] if i['o'] == 'Phi'] if phis else []
        alts = []
        for g, p, s in ins:
            s = State(s.mem, s.env)
            if ph:
                k = blk['p'].index(p)
                env = dict(s.env)
                for i in ph:
                    env[i['n']] = self.val(i['e'][k], s, raw=True)
                s = State(s.mem, env)
            alts.append((g, s))
        g, rel = merge_guards([a[0] for a in alts])
        st = merge_states([(c, a[1]) for c, a in zip(rel, alts)])
        return g, st

    def block(self, b, ins, skip_phis):
        g, st = self.merge_in(b, ins, not skip_phis)
        return self.run_block(b, g, st)

    def run_block(self, b, g, st):
        out = Out()
        blk = self.B[b]
        for i in blk['i']:
            o = i['o']
            if o == 'Phi':
                continue
            if o == 'If':
                c = self.val(i['x'], st)
                if not is_z(c):
                    raise Unsupported('branch on %s' % type(c).__name__)
                for f in self.force:
                    if c.eq(f):
                        c = T
                    elif c.eq(NOT(f)):
                        c = F
                # conditions already decided by the path
                for x in g:
                    if x.eq(c):
                        c = T
                        break
                    if x.eq(NOT(c)):
                        c = F
                        break
                if not is_false(c):
                    out.edges.append((b, blk['s'][0], g if is_true(c) else g + (c,), st.copy()))
                if not is_true(c):
                    out.edges.append((b, blk['s'][1], g if is_false(c) else g + (NOT(c),), st.copy()))
                return out
            if o == 'Jump':
                out.edges.append((b, blk['s'][0], g, st))
                return out
            if o == 'Return':
                out.rets.append((g, [self.val(x, st) for x in i['x']], st))
                return out
            if o == 'Panic':
                self.ex.ob('panic', g, F, (self.f['name'], i.get('l', 0)))
                return out
            g, st, ex = self.instr(i, g, st)
            out.exits += ex
            if any(is_false(x) for x in g):
                return out
        return out

    # ---------------------------------------------------------- operands
    def val(self, v, st, raw=False):
        if v is None:
            return None
        k = v[0]
        if k == 'r':
            if v[1] not in st.env:
                raise Unsupported('undefined register ' + v[1])
            x = st.env[v[1]]
            return x if raw else self.ex.made(x, st)
        if k == 'c':
            t, kind, x = v[1], v[2], v[3]
            if kind == 'zero':
                return self.ex.zero(t)
            if kind == 'bool':
                return BoolVal(x)
            if kind == 'str':
                import base64
                return lit(base64.b64decode(x) if x else b'')
            if kind == 'int':
                if self.T.kind(t) == 'str':
                    return lit(chr(int(x)).encode())
                return IntVal(int(x))
            raise Unsupported('constant ' + str(x))
        if k == 'g':
            return PtrL('g:' + v[1])
        if k == 'f':
            return FuncV(v[1])
        if k == 'b':
            return FuncV('builtin ' + v[1])
        raise Unsupported('operand')

    # ---------------------------------------------------------- instructions
    def instr(self, i, g, st):
        o = i['o']
        ex = self.ex
        info = (self.f['name'], i.get('l', 0))
        V_ = lambda x: self.val(x, st)
        exits = []
        r = None
        if o == 'Alloc':
            r = ex.alloc(st, ex.zero(self.T.u(i['t'])['e']))
        elif o == 'FieldAddr':
            pt = self.T.u(i['xt'])['e']
            fn, ft = self.T.fields(pt)[i['i']][:2]
            x = V_(i['x'])
            if isinstance(x, ElemAddr) and ismade(x.l):
                x = ElemAddr(ex.made(x.l, st), x.i)
            r = self.fieldaddr(x, pt, fn, ft, g, info)
        elif o == 'Field':
            fn, ft = self.T.fields(i['xt'])[i['i']][:2]
            r = ex.field_of(V_(i['x']), i['xt'], fn, ft)
        elif o == 'UnOp':
            x = V_(i['x'])
            if i['op'] == '*':
                r = ex.load(st, x, i['t'], info, g)
            elif i['op'] == '!':
                r = NOT(x)
            elif i['op'] == '-':
                r = SUB(IntVal(0), x)
            else:
                raise Unsupported('unary ' + i['op'])
        elif o == 'Store':
            ex.store(st, V_(i['a']), V_(i['x']), info, g)
        elif o == 'BinOp':
            r = self.binop(i['op'], V_(i['x']), V_(i['y']), i, st, g, info)
        elif o in ('ChangeType', 'ChangeInterface'):
            r = V_(i['x'])
        elif o == 'Convert':
            r = self.convert(V_(i['x']), i['xt'], i['t'])
        elif o == 'MakeInterface':
            r = IfaceV(i['xt'], V_(i['x']))
        elif o == 'Extract':
            t = V_(i['x'])
            if isinstance(t, UnionV):
                r = mkunion_v([(c, x.e[i['i']]) for c, x in t.a])
            elif isinstance(t, TupleV):
                r = t.e[i['i']]
            else:
                raise Unsupported('extract')
        elif o == 'IndexAddr':
            x, ix = self.val(i['x'], st, raw=True), V_(i['i'])
            if ismade(x):
                n = ex.makes[x.o][0]
                ex.ob('index', g, AND(LE(IntVal(0), ix), LT(ix, n)), info)
                r = ElemAddr(x, ix)
            elif isinstance(x, PtrL):
                if not z3.is_int_value(ix):
                    raise Unsupported('array index')
                r = PtrL(x.o, x.p + (ix.as_long(),))
            elif isinstance(x, ListV) or isinstance(x, UnionV):
                self.bounds(x, ix, g, info)
                r = ElemAddr(x, ix)
                et = self.T.u(i['t'])['e']
                if self.T.kind(et) == 'struct':
                    r = ElemAddr(x, ix)
            elif is_z(x) and x.sort() == Str:
                self.bounds(x, ix, g, info)
                r = ValAddr(sbyte(x, ix))
            else:
                raise Unsupported('indexaddr of %s' % type(x).__name__)
        elif o == 'Index':
            x, ix = V_(i['x']), V_(i['i'])
            self.bounds(x, ix, g, info)
            if is_z(x) and x.sort() == Str:
                r = sbyte_of(x, ix)
            elif isinstance(x, StructV) and z3.is_int_value(ix):
                r = x.f[ix.as_long()]
            else:
                r = ex.elem(st, x, ix)
        elif o == 'Lookup':
            r = self.lookup(i, V_(i['x']), V_(i['i']), st, g, info)
        elif o == 'MakeMap':
            mt = self.T.u(i['t'])
            ks = self.T.sort(mt['key'])
            q = fresh('q', ks)
            r = ex.alloc(st, MapV(q, F, ex.zero(mt['e']), ListV((), mt['key']), mt['key'], mt['e']))
        elif o == 'MapUpdate':
            self.mapupdate(V_(i['m']), V_(i['k']), V_(i['x']), st, g, info)
        elif o == 'MakeSlice':
            n = V_(i['len'])
            if z3.is_int_value(n) and n.as_long() == 0:
                r = ListV((), self.T.elem(i['t'])) if self.T.kind(i['t']) != 'bytes' else lit(b'')
            else:
                if self.T.kind(i['t']) == 'bytes' or not z3.is_int(n):
                    raise Unsupported('make with a length')
                ex.ob('make', g, LE(IntVal(0), n), info)
                et = self.T.elem(i['t'])
                ex.nobj += 1
                o_ = 'mk%d' % ex.nobj
                ex.makes[o_] = (n, ex.zero(et), et)
                st.mem[o_] = StructV('@made', {'w': ListV((), et), 'done': F})
                r = PtrL(o_)
        elif o == 'Slice':
            r = self.slice(i, st, g, info)
        elif o == 'MakeClosure':
            r = FuncV(i['x'][1], [V_(b) for b in i['b']])
        elif o == 'Call':
            self.cur = i.get('n', '')
            rg, r, s2, exits = self.callinstr(i, g, st, info)
            exits = [(g + eg, c, s) for eg, c, s in exits]
            st = State(s2.mem, st.env)
            g = g + tuple(x for x in rg if not is_true(x))
        elif o == 'Range':
            x = V_(i['x'])
            r = IterV(x, i['xt'])
        elif o == 'Next':
            it = V_(i['x'])
            r = self.next(i, it, st)
        elif o == 'RunDefers':
            pass
        elif o == 'Defer':
            n = i['v'][1] if i['v'] and i['v'][0] == 'f' else None
            if n not in ('(*os.File).Close',):
                raise Unsupported('defer of %s' % n)
        elif o == 'TypeAssert':
            raise Unsupported('type assertion')
        else:
            raise Unsupported('instruction ' + o)
        if 'n' in i and o != 'Store':
            st.env[i['n']] = r
        return g, st, exits

    def fieldaddr(self, x, pt, fn, ft, g, info):
        ex = self.ex
        if is_z(x):
            ex.ob('nil-deref', g, NOT(EQ(x, null)), info)
            return BaseAddr(strip_null(x), pt, fn, ft)
        if isinstance(x, PtrL):
            return PtrL(x.o, x.p + (fn,))
        if isinstance(x, RecP):
            return ValAddr(x.s.f[fn])
        if isinstance(x, ValAddr):
            return ValAddr(ex.field_of(x.v, pt, fn, ft))
        if isinstance(x, ElemAddr):
            return ValAddr(ex.field_of(ex.elem(None, x.l, x.i), pt, fn, ft))
        if isinstance(x, BaseAddr):
            # address of a nested struct: treat the nested struct as an object of its own
            return BaseAddr(ex.read_field(x.r, x.st, x.f, x.ft), pt, fn, ft)
        if isinstance(x, UnionV):
            alts = []
            for c, y in x.a:
                if is_z(y) and y.eq(null):
                    ex.ob('nil-deref', g + (c,), F, info)
                    continue
                alts.append((c, self.fieldaddr(y, pt, fn, ft, g + (c,), info)))
            return mkunion(alts)
        if isinstance(x, ObjV):
            return ObjV(x.n + '.' + fn)
        raise Unsupported('field address of %s' % type(x).__name__)

    def bounds(self, x, ix, g, info):
        ex = self.ex
        if isinstance(x, StructV):
            return
        for fr in reversed(ex.frs):
            if fr.elem is not None and isinstance(x, ListV) and fr.elem[0].eq(ix) and items_eq(fr.elem[1], x.items):
                return
        n = ex.listlen(x)
        c = AND(LE(IntVal(0), ix), LT(ix, n))
        ex.ob('index', g, c, info)

    def binop(self, op, x, y, i, st, g, info):
        if op in ('==', '!='):
            r = self.equal(x, y, i['xt'], st)
            return r if op == '==' else NOT(r)
        if is_z(x) and is_z(y) and x.sort() == Str:
            if op == '+':
                return CAT(x, y)
            if op == '<':
                return str_lt(x, y)
            if op == '>':
                return str_lt(y, x)
            if op == '<=':
                return NOT(str_lt(y, x))
            if op == '>=':
                return NOT(str_lt(x, y))
        if is_z(x) and is_z(y) and z3.is_int(x):
            if op == '+':
                return ADD(x, y)
            if op == '-':
                return SUB(x, y)
            if op == '<':
                return LT(x, y)
            if op == '<=':
                return LE(x, y)
            if op == '>':
                return LT(y, x)
            if op == '>=':
                return LE(y, x)
            if op in ('|', '&') and z3.is_int_value(x) and z3.is_int_value(y):
                a, b = x.as_long(), y.as_long()
                return IntVal(a | b if op == '|' else a & b)
            if op == '|':
                # bit operations only on values known to be 0/1
                for a, b in ((x, y), (y, x)):
                    if z3.is_int_value(b) and b.as_long() == 1 and zero_one(a):
                        return IntVal(1)
                    if z3.is_int_value(b) and b.as_long() == 0:
                        return a
                if zero_one(x) and zero_one(y):
                    return ITE(OR(EQ(x, IntVal(1)), EQ(y, IntVal(1))), IntVal(1), IntVal(0))
            if op == '*':
                if z3.is_int_value(x) or z3.is_int_value(y):
                    return z3.simplify(x * y)
            if op in ('/', '%') and z3.is_int_value(y) and y.as_long() > 0 and nonneg(x):
                return x / y if op == '/' else x % y
        if isinstance(x, OpqV) or isinstance(y, OpqV):
            return OpqV('op')
        raise Unsupported('binary %s on %s' % (op, i['xt']))

    def equal(self, x, y, t, st):
        if isinstance(x, UnionV):
            return OR(*[AND(g, self.equal(v, y, t, st)) for g, v in x.a])
        if isinstance(y, UnionV):
            return self.equal(y, x, t, st)
        if is_z(x) and is_z(y):
            if x.sort() == Ref and not x.eq(null) and not y.eq(null):
                if self.ex.side:
                    a, b = self.ex.origin(x), self.ex.origin(y)
                    if a and b and a != b:      # the two documents share no element
                        self.ex.crossing = True
                        r = AND(EQ(x, null), EQ(y, null))
                        return r if self.ex.samedoc is None else ITE(self.ex.samedoc, EQ(x, y), r)
                self.ex.ptrcmp.append((x, y))
            return EQ(x, y)
        isnull = lambda v: is_z(v) and v.eq(null)
        if isnull(x) or isnull(y):
            v = y if isnull(x) else x
            if isinstance(v, (RecP, PtrL, IfaceV, FuncV, MapV, ObjV, RegexV)):
                return F
            if isinstance(v, ListV):
                return EQ(length(v.items), IntVal(0))
        if isinstance(x, ListV) and isinstance(y, ListV) and (not x.items or not y.items):
            return EQ(length((x if x.items else y).items), IntVal(0))
        if isinstance(x, PtrL) and isinstance(y, PtrL):
            return BoolVal(x.o == y.o and x.p == y.p)
        if isinstance(x, (PtrL, RecP)) and is_z(y) or isinstance(y, (PtrL, RecP)) and is_z(x):
            return F    # a fresh object is not part of the input
        if isinstance(x, StructV) and isinstance(y, StructV):
            return AND(*[self.equal(x.f[k], y.f[k], None, st) for k in x.f])
        if isinstance(x, IfaceV) and isinstance(y, IfaceV) and is_z(x.v) and is_z(y.v) and x.t == y.t:
            return EQ(x.v, y.v)
        if isinstance(x, ObjV) and isinstance(y, ObjV) and x.n == y.n:
            return T
        raise Unsupported('comparison of %s and %s' % (type(x).__name__, type(y).__name__))

    def convert(self, x, xt, t):
        a, b = self.T.kind(xt), self.T.kind(t)
        if a == b or {a, b} <= {'str', 'bytes'}:
            return x
        if a == 'int' and b == 'int':
            return x
        if a == 'int' and b == 'str':
            if z3.is_int_value(x):
                return lit(chr(x.as_long()).encode())
            return Function('runestr', IntSort(), Str)(x)
        raise Unsupported('conversion %s to %s' % (xt, t))

    def mapval(self, m, st, mt):
        """the MapV behind a map reference"""
        ex = self.ex
        if isinstance(m, PtrL):
            v = ex.load(st, m, mt, (self.f['name'], 0), ())
            if isinstance(v, PtrL):
                v = st.mem[v.o]
            if isinstance(v, MapV):
                return v
        if isinstance(m, RecP) or isinstance(m, MapV):
            return m
        if is_z(m):
            d = self.T.u(mt)
            ks, vs = self.T.sort(d['key']), self.T.sort(d['e'])
            q = fresh('q', ks)
            if m.eq(null):
                return MapV(q, F, ex.zero(d['e']), ListV((), d['key']), d['key'], d['e'])
            pres = Function('mhas_' + ks.name(), Ref, ks, BoolSort())(m, q)
            val = ex.sym(d['e'], Function('mget_%s_%s' % (ks.name(), vs.name()), Ref, ks, vs)(m, q))
            keys = ListV((('b', T, Function('mkeys', Ref, Lst)(m)),), d['key'])
            return MapV(q, pres, vite(pres, val, ex.zero(d['e'])), keys, d['key'], d['e'])
        raise Unsupported('map %s' % type(m).__name__)

    def lookup(self, i, m, k, st, g, info):
        if is_z(m) and m.sort() == Str:
            self.bounds(m, k, g, info)
            return sbyte_of(m, k)
        mv = self.mapval(m, st, i['xt'])
        if isinstance(k, IfaceV):
            raise Unsupported('map key')
        if is_z(k) and k.sort() == Ref:
            self.ex.ptrcmp.append((k, None))
        pres = vsub(mv.pres, [(mv.q, k)])
        val = vsub(mv.val, [(mv.q, k)])
        if i['ok']:
            return TupleV([val, pres])
        return val

    def mapupdate(self, m, k, v, st, g, info):
        if not isinstance(m, PtrL):
            if is_z(m):
                self.ex.given(m, 'update of a map that is not a parameter')
                self.ex.ob('frame', g, F, info)
                return
            raise Unsupported('map update')
        o = m.o
        if m.p:
            raise Unsupported('map in a struct')
        mv = st.mem[o]
        if isinstance(mv, PtrL):
            o = mv.o
            mv = st.mem[o]
        if not isinstance(mv, MapV) or not is_z(k):
            raise Unsupported('map update')
        c = EQ(k, mv.q)
        lits = [c] if not is_true(c) else []
        if lits and isinstance(v, PtrL):
            pass
        keys = None
        if mv.keys is not None:
            keys = ListV(mv.keys.items + (('u', NOT(vsub(mv.pres, [(mv.q, k)])), k),), mv.kt)
        if lits and isinstance(v, ListV) and not z3.is_int_value(k) and litval(k) is None:
            v = vsub(v, [(k, mv.q)])        # under the condition that q is the key
        v2 = assume(v, lits) if lits and not isinstance(v, PtrL) else v
        st.mem[o] = MapV(mv.q, OR(c, mv.pres), vite(c, v2, mv.val), keys, mv.kt, mv.vt)

    def slice(self, i, st, g, info):
        x, lo, hi = (self.val(i[k], st) for k in ('x', 'lo', 'hi'))
        if isinstance(x, PtrL):
            a = self.ex.load(st, x, None, info, g)
            if isinstance(a, StructV):
                if isinstance(x.o, str) and x.o.startswith('g:'):
                    raise Unsupported('slice of a global array')
                if lo is not None or hi is not None:
                    if hi is not None and z3.is_int_value(hi) and hi.as_long() == 0 and lo is None:
                        return ListV((), self.T.elem(i['t']))
                    raise Unsupported('slice of part of an array')
                n = len(a.f)
                if self.T.kind(i['t']) == 'bytes':
                    raise Unsupported('byte array')
                return ListV([('u', T, a.f[j]) for j in range(n)], self.T.elem(i['t']))
        if is_z(x) and x.sort() == Str:
            lo = lo if lo is not None else IntVal(0)
            n = SLEN(x)
            hi = hi if hi is not None else n
            self.ex.ob('slice', g, AND(LE(IntVal(0), lo), LE(lo, hi), LE(hi, n)), info)
            l = litval(x)
            if l is not None and z3.is_int_value(lo) and z3.is_int_value(hi):
                return lit(l[lo.as_long():hi.as_long()])
            return ssub(x, lo, hi)
        if isinstance(x, ListV):
            if (lo is None or z3.is_int_value(lo) and lo.as_long() == 0) and hi is None:
                return x
            if lo is not None and z3.is_int_value(lo) and hi is None and \
                    all(t[0] == 'u' and is_true(t[1]) for t in x.items) and lo.as_long() <= len(x.items):
                return ListV(x.items[lo.as_long():], x.et)
        raise Unsupported('slice expression')

    def next(self, i, it, st):
        if i['n'] in self.next_:
            return self.next_[i['n']]
        raise Unsupported('range outside a recognised loop')

    # ---------------------------------------------------------- calls
    def callinstr(self, i, g, st, info):
        ex = self.ex
        if i['v'] and i['v'][0] == 'b' and i['v'][1] in ('len', 'copy', 'cap'):
            return (), self.builtin(i['v'][1], [self.val(a, st, raw=n == 0) for n, a in enumerate(i['args'])], i, st, g, info), st, []
        args = [self.val(a, st) for a in i['args']]
        if 'm' in i:
            recv = self.val(i['v'], st)
            return (), externs.invoke(ex, recv, i['m'], args, st, g, info), st, []
        v = i['v']
        if v[0] == 'b':
            return (), self.builtin(v[1], args, i, st, g, info), st, []
        fv = self.val(v, st)
        if isinstance(fv, UnionV):
            raise Unsupported('call of one of several functions')
        if isinstance(fv, FuncV):
            name = fv.name
            if 'origin' in i and i['origin'] in externs.TABLE:
                name = i['origin']
            return ex.call(name, args + list(fv.b), st, g, info)
        if is_z(fv):
            # a function value of the input: its contract is that of its type (pure)
            return (), externs.apply_symbolic(ex, fv, args, i, st, g, info), st, []
        raise Unsupported('call of %s' % type(fv).__name__)

    def builtin(self, n, args, i, st, g, info):
        ex = self.ex
        if n == 'copy':
            import facts
            d, x = args
            if not ismade(d) or not isinstance(x, ListV):
                raise Unsupported('copy')
            m = st.mem.get(d.o)
            k, l = ex.makes[d.o][0], ex.listlen(x)
            if not is_false(m.f['done']) or m.f['w'].items or d.o in ex.mkread or not k.eq(l) and facts.prove([], k == l, timeout=2000) != 'proved':
                raise Unsupported('copy')
            st.mem[d.o] = StructV('@made', {'w': x, 'done': T})
            return k
        if n == 'len':
            a = args[0]
            if ismade(a):
                return ex.makes[a.o][0]
            if isinstance(a, UnionV):
                a = ex.made(a, st)
            if isinstance(a, PtrL):
                a = st.mem.get(a.o) if not a.p else None
                if isinstance(a, PtrL):
                    a = st.mem.get(a.o)
                if not isinstance(a, MapV) or a.keys is None:
                    raise Unsupported('len of map')
                return ex.listlen(a.keys)
            if isinstance(a, MapV):
                if a.keys is None:
                    raise Unsupported('len of map')
                return ex.listlen(a.keys)
            if is_z(a) and a.sort() == Ref:
                return llen(Function('mkeys', Ref, Lst)(a))
            return ex.listlen(a)
        if n == 'append':
            a, b = args
            if is_z(a) and is_z(b):
                return CAT(a, b)
            if isinstance(a, ListV) and isinstance(b, ListV):
                if i['n'] in shared_appends(self.f):
                    raise Unsupported('two slices may share the array that append writes to')
                return ListV(a.items + b.items, a.et or b.et, 'own' if not a.items or a.key == 'own' else None)
            raise Unsupported('append of %s and %s' % (type(a).__name__, type(b).__name__))
        if n == 'cap':
            return fresh('cap', IntSort())
        if n == 'ssa:wrapnilchk':
            return args[0]
        if n in ('min', 'max') and len(args) == 2 and z3.is_int(args[0]):
            c = LE(args[0], args[1])
            return ITE(c, args[0], args[1]) if n == 'min' else ITE(c, args[1], args[0])
        raise Unsupported('builtin ' + n)

    # ---------------------------------------------------------- loops
    def loop(self, L, ins):
        import loops
        return loops.run(self, L, ins)


def zero_one(e):
    if z3.is_int_value(e):
        return e.as_long() in (0, 1)
    if is_ite(e):
        return zero_one(e.arg(1)) and zero_one(e.arg(2))
    return False


def str_lt(a, b):
    if a.eq(b):
        return F
    la, lb = litval(a), litval(b)
    if la is not None and lb is not None:
        return BoolVal(la < lb)
    return slt(a, b)


def sbyte_of(x, ix):
    l = litval(x)
    if l is not None and z3.is_int_value(ix) and 0 <= ix.as_long() < len(l):
        return IntVal(l[ix.as_long()])
    if is_ite(x):
        return ITE(x.arg(0), sbyte_of(x.arg(1), ix), sbyte_of(x.arg(2), ix))
    return sbyte(x, ix)

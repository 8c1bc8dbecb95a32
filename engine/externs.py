"""Assumed contracts of functions outside the repository (standard library, gqlparser's parser, cobra).

Each entry is (ex, args, st, guard, info) -> value | Outcome.  They are the trusted base: every one that a
proof used is listed in that property's evidence."""
import os
from core import *
import core
import dfa
import z3

TABLE = {}
OVERRIDE = set()        # names for which the assumed contract is used although a body is available
CTX = {}


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def fn(name, *sorts):
    return Function(name, *sorts)


def sval(x):
    """the string behind a value"""
    if isinstance(x, IfaceV):
        x = x.v
    if is_z(x) and x.sort() == Str:
        return x
    raise Unsupported('string argument')


def unwrap(x):
    return x.v if isinstance(x, IfaceV) else x


# ---------------------------------------------------------------- formatting
def fmt_piece(ex, verb, a):
    if isinstance(a, UnionV):
        r = None
        for g, x in reversed(a.a):
            p = fmt_piece(ex, verb, x)
            r = p if r is None else ITE(g, p, r)
        return r
    t = a.t if isinstance(a, IfaceV) else None
    v = unwrap(a)
    if verb in ('s', 'v'):
        if t == 'error' or t is None and is_z(v) and v.sort() == Ref:
            return err_text(v)
        if t is not None and method_of(ex, t, 'Error'):
            raise Unsupported('formatting of %s' % t)
        if t is not None and method_of(ex, t, 'String'):
            m = method_of(ex, t, 'String')
            _, r, _, exits = ex.call(m, [v], CTX['st'], (), CTX['info'])
            if exits:
                raise Unsupported('String exits')
            return r
        if is_z(v) and v.sort() == Str and ex.T.kind(t) == 'str':
            return v
        if verb == 'v' and is_z(v) and z3.is_int(v):
            return itoa_(v)
    if verb == 'd' and is_z(v) and z3.is_int(v):
        return itoa_(v)
    if verb == 'q' and is_z(v) and v.sort() == Str:
        return fn('quote', Str, Str)(v)
    if is_z(v):
        return fn('fmt_%s_%s' % (verb, v.sort().name()), v.sort(), Str)(v)
    core._fresh[0] += 1
    return Const('fmt!%d' % core._fresh[0], Str)


def itoa_(v):
    if z3.is_int_value(v):
        return lit(str(v.as_long()).encode())
    if is_ite(v):
        return ITE(v.arg(0), itoa_(v.arg(1)), itoa_(v.arg(2)))
    return itoa(v)


def err_text(v):
    if isinstance(v, IfaceV):
        v = v.v
    if is_z(v) and v.sort() == Str:
        return v
    if is_z(v) and v.sort() == Ref:
        return fn('errtext', Ref, Str)(v)
    if isinstance(v, UnionV):
        r = None
        for g, x in reversed(v.a):
            p = err_text(x)
            r = p if r is None else ITE(g, p, r)
        return r
    raise Unsupported('error text')


def method_of(ex, t, m):
    for n in ('(%s).%s' % (t, m), '(%s).%s' % (t.lstrip('*'), m)):
        if n in ex.funcs and ex.funcs[n]['blocks']:
            return n
    return None


def sprintf(ex, args, st, g, info):
    CTX['st'], CTX['info'] = st, info
    f = litval(args[0]) if is_z(args[0]) else None
    if f is None and is_z(args[0]) and is_ite(args[0]):
        a = args[0]
        return ITE(a.arg(0), sprintf(ex, [a.arg(1)] + args[1:], st, g, info),
                   sprintf(ex, [a.arg(2)] + args[1:], st, g, info))
    if f is None:
        raise Unsupported('non-constant format')
    rest = args[1] if len(args) > 1 else ListV((), None)
    if is_z(rest) and rest.eq(null):
        rest = ListV((), None)
    if not isinstance(rest, ListV) or any(i[0] != 'u' or not is_true(i[1]) for i in rest.items):
        raise Unsupported('format arguments')
    vals = [i[2] for i in rest.items]
    out, i, n = [], 0, 0
    buf = b''
    while i < len(f):
        c = f[i:i + 1]
        if c != b'%':
            buf += c
            i += 1
            continue
        i += 1
        verb = f[i:i + 1]
        i += 1
        if verb == b'%':
            buf += b'%'
            continue
        if verb.decode('latin1') not in 'svdqwtx' or not verb:
            raise Unsupported('format verb %r' % verb)
        if n >= len(vals):
            buf += b'%!' + verb + b'(MISSING)'
            continue
        if buf:
            out.append(lit(buf))
            buf = b''
        out.append(fmt_piece(ex, 's' if verb == b'w' else verb.decode(), vals[n]))
        n += 1
    if n < len(vals):
        raise Unsupported('extra format arguments')
    if buf:
        out.append(lit(buf))
    return CATS(out)


@ext('fmt.Sprintf')
def _sprintf(ex, args, st, g, info):
    return sprintf(ex, args, st, g, info)


@ext('fmt.Errorf')
def _errorf(ex, args, st, g, info):
    return IfaceV('error', sprintf(ex, args, st, g, info))


@ext('errors.New')
def _errnew(ex, args, st, g, info):
    return IfaceV('error', args[0])


def emit(ex, st, text):
    """one write to standard output; ghost state @out is the list of them"""
    cur = st.mem.get('@out')
    if cur is None:
        return          # the output is not tracked
    st.mem['@out'] = ListV(cur.items + (('u', T, text),), 'string')


@ext('fmt.Printf')
def _printf(ex, args, st, g, info):
    emit(ex, st, sprintf(ex, args, st, g, info))
    return TupleV([fresh('n', IntSort()), null])


def println(ex, args, st, sep, end):
    CTX['st'], CTX['info'] = st, ('print', 0)
    l = args[0]
    if not isinstance(l, ListV) or any(i[0] != 'u' or not is_true(i[1]) for i in l.items):
        raise Unsupported('print arguments')
    ps = []
    for n, it in enumerate(l.items):
        if n and sep:
            ps.append(lit(b' '))
        ps.append(fmt_piece(ex, 'v', it[2]))
    return CATS(ps + [lit(end)])


@ext('fmt.Println')
def _println(ex, args, st, g, info):
    emit(ex, st, println(ex, args, st, True, b'\n'))
    return TupleV([fresh('n', IntSort()), null])


@ext('fmt.Print')
def _print(ex, args, st, g, info):
    l = args[0]
    if isinstance(l, ListV) and len(l.items) > 1:
        raise Unsupported('Print of several operands')
    emit(ex, st, println(ex, args, st, False, b''))
    return TupleV([fresh('n', IntSort()), null])


@ext('fmt.Sprint')
def _sprint(ex, args, st, g, info):
    if len(args[0].items) > 1:
        raise Unsupported('Sprint of several operands')
    return println(ex, args, st, False, b'')


@ext('fmt.Fprintf', 'fmt.Fprintln', 'fmt.Fprint')
def _fprintf(ex, args, st, g, info):
    raise Unsupported('Fprint of this kind')


def to_file(name):
    """fmt.Fprint* to standard output is fmt.Print*; to standard error it leaves standard output alone"""
    def f(ex, args, st, g, info):
        w = unwrap(args[0])
        if is_z(w) and w.eq(Const('os.Stdout', Ref)):
            return TABLE['fmt.P' + name](ex, args[1:], st, g, info)
        if is_z(w) and w.eq(Const('os.Stderr', Ref)):
            return TupleV([fresh('n', IntSort()), null])
        raise Unsupported('Fp' + name)
    return f


for _n in ('rintf', 'rintln', 'rint'):
    TABLE['fmt.Fp' + _n] = to_file(_n)


# ---------------------------------------------------------------- strings
def pred(name, *args):
    ls = [litval(a) for a in args]
    if all(l is not None for l in ls):
        if name == 'hassuffix':
            return BoolVal(ls[0].endswith(ls[1]))
        if name == 'hasprefix':
            return BoolVal(ls[0].startswith(ls[1]))
        if name == 'contains':
            return BoolVal(ls[1] in ls[0])
        if name == 'eqfold' and all(l.isascii() for l in ls):
            return BoolVal(ls[0].lower() == ls[1].lower())
    for j, a in enumerate(args):
        if is_ite(a):
            f = lambda x: pred(name, *(args[:j] + (x,) + args[j + 1:]))
            return ITE(a.arg(0), f(a.arg(1)), f(a.arg(2)))
    if name == 'eqfold':
        if args[0].eq(args[1]):
            return T
        args = sorted(args, key=lambda a: (litval(a) is not None, skey(a)))
    return fn(name, *([Str] * len(args) + [BoolSort()]))(*args)


@ext('strings.EqualFold')
def _eqfold(ex, args, st, g, info):
    return pred('eqfold', args[0], args[1])


@ext('strings.HasSuffix')
def _hassuffix(ex, args, st, g, info):
    return pred('hassuffix', args[0], args[1])


@ext('strings.HasPrefix')
def _hasprefix(ex, args, st, g, info):
    return pred('hasprefix', args[0], args[1])


@ext('strings.Contains')
def _contains_(ex, args, st, g, info):
    return pred('contains', args[0], args[1])


@ext('strings.ContainsAny')
def _containsany(ex, args, st, g, info):
    l = litval(args[1])
    if l is None or not l.isascii() or not l:
        raise Unsupported('strings.ContainsAny')
    x = args[0]
    if z3.is_app(x) and x.decl().name() == 'ssub' and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)) and \
            x.arg(2).as_long() == x.arg(1).as_long() + 1:
        return OR(*[EQ(sbyte(x.arg(0), x.arg(1)), IntVal(b)) for b in sorted(set(l))])
    return inlang(('[' + ''.join('\\x%02x' % b for b in sorted(set(l))) + ']').encode(), args[0])


@ext('strings.ContainsRune')
def _containsrune(ex, args, st, g, info):
    l, c = litval(args[0]), args[1]
    if z3.is_int_value(c) and 0 <= c.as_long() < 128:
        return pred('contains', args[0], lit(bytes([c.as_long()])))
    if l is None or not l.isascii():
        raise Unsupported('strings.ContainsRune')
    return OR(*[EQ(args[1], IntVal(b)) for b in sorted(set(l))])


@ext('unicode/utf8.DecodeRuneInString')
def _decoderune(ex, args, st, g, info):
    s = args[0]
    b = sbyte(s, IntVal(0))
    asc = AND(LT(IntVal(0), SLEN(s)), LT(b, IntVal(128)), LE(IntVal(0), b))
    return TupleV([ITE(asc, b, fn('rune0', Str, IntSort())(s)), ITE(asc, IntVal(1), fn('rune0len', Str, IntSort())(s))])


def sfun(name, pyf=None):
    def f(ex, args, st, g, info):
        a = args[0]
        l = litval(a)
        if l is not None and pyf is not None:
            return lit(pyf(l))
        return fn(name, Str, Str)(a)
    return f


TABLE['strings.ToUpper'] = sfun('upper', lambda b: b.upper() if b.isascii() else b)
TABLE['strings.ToLower'] = sfun('lower', lambda b: b.lower() if b.isascii() else b)
TABLE['strings.TrimSpace'] = sfun('trim', lambda b: b.strip(b' \t\n\v\f\r') if b.isascii() else b)
TABLE['strconv.Quote'] = sfun('quote')


def _trimmer(name):
    def f(ex, args, st, g, info):
        return fn('trimx_' + name, Str, Str, Str)(args[0], args[1])
    TABLE['strings.' + name] = f


for _n in ('Trim', 'TrimLeft', 'TrimRight'):
    _trimmer(_n)


@ext('strings.TrimSuffix')
def _trimsuffix(ex, args, st, g, info):
    s, l = args
    return ITE(pred('hassuffix', s, l), ssub(s, IntVal(0), SUB(SLEN(s), SLEN(l))), s)


@ext('strings.TrimPrefix')
def _trimprefix(ex, args, st, g, info):
    s, l = args
    return ITE(pred('hasprefix', s, l), ssub(s, SLEN(l), SLEN(s)), s)


@ext('strings.Index')
def _index(ex, args, st, g, info):
    return fn('sindex', Str, Str, IntSort())(args[0], args[1])


@ext('strings.IndexByte', 'strings.IndexRune')
def _indexbyte(ex, args, st, g, info):
    c = args[1]
    if not z3.is_int_value(c) or not 0 <= c.as_long() < 128:
        raise Unsupported('strings.IndexByte')
    return fn('sindex', Str, Str, IntSort())(args[0], lit(bytes([c.as_long()])))


def runeclass(name, ranges):
    """exact below 128, unknown above"""
    def f(ex, args, st, g, info):
        c = args[0]
        asc = OR(*[AND(LE(IntVal(a), c), LE(c, IntVal(b))) for a, b in ranges])
        return ITE(AND(LE(IntVal(0), c), LT(c, IntVal(128))), asc, fn(name, IntSort(), BoolSort())(c))
    TABLE['unicode.' + name] = f


runeclass('IsLower', [(97, 122)])
runeclass('IsUpper', [(65, 90)])
runeclass('IsLetter', [(65, 90), (97, 122)])
runeclass('IsDigit', [(48, 57)])
runeclass('IsNumber', [(48, 57)])
runeclass('IsSpace', [(9, 13), (32, 32)])


@ext('strings.Split')
def _split(ex, args, st, g, info):
    return ListV((('b', T, fn('split', Str, Str, Lst)(args[0], args[1])),), 'string')


@ext('strings.Join')
def _join(ex, args, st, g, info):
    l = args[0]
    if isinstance(l, ListV) and all(it[0] == 'u' and is_true(it[1]) and is_z(it[2]) for it in l.items):
        ps = []
        for i, it in enumerate(l.items):
            ps += [args[1], it[2]] if i else [it[2]]
        return CATS(ps) if ps else lit('')
    core._fresh[0] += 1
    return Const('join!%d' % core._fresh[0], Str)


# ---------------------------------------------------------------- strings.Builder, bytes.Buffer: the bytes written so far
def _buf(ex, p, st):
    if not isinstance(p, PtrL) or p.o.startswith('g:'):
        raise Unsupported('a builder that is not a local variable')
    v = ex.path_get(st.mem[p.o], p.p)
    if not isinstance(v, StructV) or not is_z(v.f.get('buf')) or v.f['buf'].sort() != Str:
        raise Unsupported('a builder that is not a local variable')
    return v.f['buf']


def _bufset(ex, p, st, x):
    st.mem[p.o] = ex.path_set(st.mem[p.o], p.p + ('buf',), x)


def _bufwrite(conv, res):
    def f(ex, args, st, g, info):
        p, x = args
        _bufset(ex, p, st, CATS([_buf(ex, p, st), conv(x)]))
        return res(x)
    return f


def _byte1(x):
    if not z3.is_int_value(x) or not 0 <= x.as_long() < 128:
        raise Unsupported('byte written to a builder')
    return lit(bytes([x.as_long()]))


def _bufread(ex, args, st, g, info):
    return _buf(ex, args[0], st)


def _buflen(ex, args, st, g, info):
    return SLEN(_buf(ex, args[0], st))


def _bufreset(ex, args, st, g, info):
    _buf(ex, args[0], st)
    _bufset(ex, args[0], st, lit(b''))
    return None


def _bufgrow(ex, args, st, g, info):
    _buf(ex, args[0], st)
    if not z3.is_int_value(args[1]) or args[1].as_long() < 0:
        ex.ob('grow', g, LE(IntVal(0), args[1]), info)
    return None


for _t in ('strings.Builder', 'bytes.Buffer'):
    TABLE['(*%s).WriteString' % _t] = _bufwrite(lambda x: x, lambda x: TupleV([SLEN(x), null]))
    TABLE['(*%s).Write' % _t] = _bufwrite(lambda x: x, lambda x: TupleV([SLEN(x), null]))
    TABLE['(*%s).WriteByte' % _t] = _bufwrite(_byte1, lambda x: null)
    TABLE['(*%s).WriteRune' % _t] = _bufwrite(_byte1, lambda x: TupleV([IntVal(1), null]))
    TABLE['(*%s).String' % _t] = _bufread
    TABLE['(*%s).Len' % _t] = _buflen
    TABLE['(*%s).Reset' % _t] = _bufreset
    TABLE['(*%s).Grow' % _t] = _bufgrow


@ext('strings.Compare')
def _compare(ex, args, st, g, info):
    from execu import str_lt
    return ITE(EQ(args[0], args[1]), IntVal(0), ITE(str_lt(args[0], args[1]), IntVal(-1), IntVal(1)))


@ext('bytes.Equal')
def _bytesequal(ex, args, st, g, info):
    return EQ(args[0], args[1])


@ext('strconv.Itoa')
def _itoa(ex, args, st, g, info):
    return itoa_(args[0])


# ---------------------------------------------------------------- regular expressions
@ext('regexp.Compile')
def _compile(ex, args, st, g, info):
    p = litval(args[0])
    if p is None:
        raise Unsupported('regexp')
    try:
        dfa.parse(p.decode())
    except dfa.Bad as e:
        raise Unsupported('regexp %s' % e)
    return TupleV([RegexV(p), null])


@ext('regexp.MustCompile')
def _mustcompile(ex, args, st, g, info):
    return _compile(ex, args, st, g, info).e[0]


def inlang(pattern, s):
    """s matches the (unanchored) pattern; one symbol per language"""
    key = dfa.canon(pattern.decode())
    return fn('inlang#' + key, Str, BoolSort())(s)


@ext('(*regexp.Regexp).MatchString')
def _match(ex, args, st, g, info):
    r, s = args
    if not isinstance(r, RegexV):
        raise Unsupported('regexp value')
    return inlang(r.p, s)


@ext('(*regexp.Regexp).FindStringSubmatch')
def _submatch(ex, args, st, g, info):
    r, s = args
    if not isinstance(r, RegexV):
        raise Unsupported('regexp value')
    L = fn('groups#' + dfa.groupkey(r.p.decode()), Str, Lst)(s)
    FACTS[L.get_id()] = EQ(llen(L), ITE(inlang(r.p, s), IntVal(dfa.ngroups(r.p.decode()) + 1), IntVal(0)))
    GROUPN[L.decl().name()] = (r.p, dfa.ngroups(r.p.decode()) + 1)
    core._keep.append(L)
    return ListV((('b', T, L),), 'string')


FACTS = {}
GROUPN = {}


# ---------------------------------------------------------------- sorting
def replace_list(ex, st, old, new):
    """in-place permutation: every holder of the same slice sees it"""
    for k, v in list(st.env.items()):
        if isinstance(v, ListV) and v is not new and (v is old or items_eq(v.items, old.items) and v.items):
            st.env[k] = new
    for k, v in list(st.mem.items()):
        if k.startswith('@'):
            continue
        if k.startswith('mk') and isinstance(v, StructV):
            if not is_true(v.f['done']) and not getattr(v.f['w'], 'items', ()):
                continue        # nothing written yet: its elements are all zero
            try:
                w = ex.made(PtrL(k), st)
            except Unsupported:
                continue
            if items_eq(w.items, old.items) and w.items:
                st.mem[k] = StructV('@made', {'w': new, 'done': T})
            continue
        if isinstance(v, ListV) and (v is old or items_eq(v.items, old.items) and v.items):
            st.mem[k] = new


@ext('sort.Strings')
def _sortstrings(ex, args, st, g, info):
    l = args[0]
    if not isinstance(l, ListV):
        raise Unsupported('sort of %s' % type(l).__name__)
    new = ListV((('s', T, l.items, ('strings',)),), l.et)
    if len(l.items) == 0 or len(l.items) == 1 and l.items[0][0] == 'u':
        return None
    ex.inplace(l, g, info)
    replace_list(ex, st, l, new)


@ext('sort.Slice', 'sort.SliceStable')
def _sortslice(ex, args, st, g, info):
    l = unwrap(args[0])
    less = args[1]
    if not isinstance(l, ListV) or not isinstance(less, FuncV):
        raise Unsupported('sort.Slice arguments')
    cap = [b for b in less.b if isinstance(b, ListV)]
    capp = [b for b in less.b if isinstance(b, PtrL)]
    for p in capp:
        v = ex.load(st, p, None, info, g)
        if isinstance(v, ListV):
            cap.append(v)
    if not cap or not all(c is l or items_eq(c.items, l.items) for c in cap):
        if ex.strict and len(l.items) == 1 and l.key == 'doc' and ofdoc(l):
            ex.inplace(l, g, info)      # a list of a document: an obligation that fails
            return
        raise Unsupported('sort.Slice with a comparator over another slice')
    L = Const('sorting', Lst)
    base = ListV((('b', T, L),), l.et)
    st2 = type(st)(dict(st.mem), dict(st.env))
    for p in capp:
        st2.mem[p.o] = base
    i, j = Const('si', IntSort()), Const('sj', IntSort())
    saved, ex.obs = ex.obs, []
    try:
        rg, r, _, exits = ex.call(less.name, [i, j] + [base if isinstance(b, ListV) else b for b in less.b], st2, (), info)
        mine = ex.obs
    finally:
        ex.obs = saved
    ctx = (LE(IntVal(0), i), LT(i, llen(L)), LE(IntVal(0), j), LT(j, llen(L)))
    ELEMS.append((L, l))
    for og, c, inf in mine:
        ex.obs.append((tuple(g) + ctx + og, c, inf))
    resort(ex, st, l, r, g, info)


def ofdoc(l):
    import execu
    return l.items[0][0] == 'b' and execu.ofdoc(l.items[0][2], l.et)


def resort(ex, st, l, r, g, info):
    """the list sorted by a comparator r over 'sorting', 'si', 'sj'"""
    import facts
    ex.inplace(l, g, info)
    L, i, j = Const('sorting', Lst), Const('si', IntSort()), Const('sj', IntSort())
    total = None
    if l.et is not None and ex.T.sort(l.et) == Str:
        for x, y, c in ((i, j, ('strings',)), (j, i, ('strings', 'descending'))):
            if total is None and facts.prove([], r == slt(ats(L, x), ats(L, y)), timeout=2000) == 'proved':
                total = c
    if total:
        new = ListV((('s', T, l.items, total),), l.et)
    elif any(x[0] == 'x' for x in core.iter_items(l.items)):
        if not distinct(ex, l, r):
            return      # elements the comparator does not tell apart keep an undetermined order
        new = ListV((('s', T, l.items, ('slice', r, 'total')),), l.et)
    else:
        new = ListV((('s', T, l.items, ('slice', r)),), l.et)
    replace_list(ex, st, l, new)


def distinct(ex, l, r):
    """is the comparator total on the elements, one for each key of a map? (then there is one sorted order)"""
    import facts
    if len(l.items) != 1 or l.items[0][0] != 'x':
        return False
    its = l.items[0][2]
    if len(its) != 1 or its[0][0] != 'f' or not is_true(its[0][1]):
        return False
    _, _, k, n, inner = its[0]
    keys = n.arg(0) if is_z(n) and n.num_args() == 1 and n.decl().eq(llen) else None
    if keys is None or keys.num_args() != 1 or keys.decl().name() != 'mkeys' or len(inner) != 1 or inner[0][0] != 'u' or not is_true(inner[0][1]):
        return False
    e = inner[0][2]
    L, i, j = Const('sorting', Lst), Const('si', IntSort()), Const('sj', IntSort())
    k1, k2 = Int('k1!t'), Int('k2!t')
    e1, e2 = vsub(e, [(k, k1)]), vsub(e, [(k, k2)])
    hyp = [same_elem(e1, at(L, i)), same_elem(e2, at(L, j)), NOT(EQ(ats(keys, k1), ats(keys, k2)))]
    if l.et is not None and ex.T.sort(l.et) == Str:
        hyp[:2] = [EQ(e1, ats(L, i)), EQ(e2, ats(L, j))]
    r2 = z3.substitute(r, (i, j), (j, i))
    return facts.prove(hyp, OR(r, r2), timeout=3000) == 'proved'


def same_elem(v, t):
    import cliproof
    return cliproof.val_eq(v.s if isinstance(v, RecP) else v, t)


ELEMS = []


@ext('sort.Sort', 'sort.Stable')
def _sortsort(ex, args, st, g, info):
    """the methods of the sort.Interface must be those of a slice: Len its length, Swap the exchange of two elements"""
    a = args[0]
    if not isinstance(a, IfaceV) or not isinstance(a.v, ListV):
        raise Unsupported('sort.Sort argument')
    l = a.v
    if a.t == 'sort.StringSlice':
        return _sortstrings(ex, [l], st, g, info)
    ms = [method_of(ex, a.t, m) for m in ('Len', 'Less', 'Swap')]
    if None in ms:
        raise Unsupported('sort.Sort of %s' % a.t)
    L = Const('sorting', Lst)
    base = ListV((('b', T, L),), l.et)
    i, j = Const('si', IntSort()), Const('sj', IntSort())
    saved, ex.obs = ex.obs, []
    savedw, ex.writes = ex.writes, []
    try:
        rg, n, _, e1 = ex.call(ms[0], [base], type(st)(dict(st.mem), dict(st.env)), (), info)
        rg2, r, _, e2 = ex.call(ms[1], [base, i, j], type(st)(dict(st.mem), dict(st.env)), (), info)
        rg3, _, s3, e3 = ex.call(ms[2], [base, i, j], type(st)(dict(st.mem), dict(st.env)), (), info)
        mine, w = ex.obs, ex.writes
    finally:
        ex.obs, ex.writes = saved, savedw
    if e1 or e2 or e3 or any(not is_true(x) for x in rg + rg2 + rg3):
        raise Unsupported('sort methods that do not return')
    ex.obs.append((tuple(g), EQ(n, llen(L)), ('sort.Interface Len',) + info))
    good = len(w) == 2 and all(is_z(x[1]) for x in w) and (
        w[0][1].eq(i) and w[1][1].eq(j) and _same(w[0][2], at(L, j), ex) and _same(w[1][2], at(L, i), ex)
        or w[0][1].eq(j) and w[1][1].eq(i) and _same(w[0][2], at(L, i), ex) and _same(w[1][2], at(L, j), ex))
    if not good:
        raise Unsupported('Swap of %s' % a.t)
    ctx = (LE(IntVal(0), i), LT(i, llen(L)), LE(IntVal(0), j), LT(j, llen(L)))
    for og, c, inf in mine:
        ex.obs.append((tuple(g) + ctx + og, c, inf))
    resort(ex, st, l, r, g, info)


def _same(v, r, ex):
    return is_z(v) and v.eq(r) or isinstance(v, StructV) and veq(v, ex.struct_of(r, v.t))


SORTED = {}


def sorted_base(items, cmp, et):
    """the base list standing for the permutation of `items` that sorting yields"""
    key = None
    for k, (its, c, L) in SORTED.items():
        if items_eq(its, items) and cmp_eq(c, cmp):
            return L
    L = Const('sorted!%d' % len(SORTED), Lst)
    SORTED[len(SORTED)] = (items, cmp, L)
    return L


def cmp_eq(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    return all(x == y if isinstance(x, str) else veq(x, y) for x, y in zip(a[1:], b[1:]))


core.CMP_EQ[0] = cmp_eq


# ---------------------------------------------------------------- operating system and files
@ext('os.Exit')
def _exit(ex, args, st, g, info):
    from execu import Outcome
    return Outcome(ret=(F,), val=None, st=st, exits=[((), args[0], st.copy())])


@ext('path/filepath.Glob')
def _glob(ex, args, st, g, info):
    return TupleV([ListV((('b', T, fn('glob', Str, Lst)(args[0])),), 'string'), fn('globerr', Str, Ref)(args[0])])


@ext('os.Open')
def _open(ex, args, st, g, info):
    return TupleV([fn('file', Str, Ref)(args[0]), fn('openerr', Str, Ref)(args[0])])


def file_content(f):
    """content and read error of an open file"""
    if f.num_args() == 1 and f.decl().name() == 'file':
        n = f.arg(0)
        return fn('fcontent', Str, Str)(n), fn('readerr', Str, Ref)(n)
    return fn('rcontent', Ref, Str)(f), fn('rerr', Ref, Ref)(f)


@ext('io.ReadAll', 'io/ioutil.ReadAll')
def _readall(ex, args, st, g, info):
    f = unwrap(args[0])
    if not is_z(f):
        raise Unsupported('ReadAll of %s' % type(f).__name__)
    return TupleV(list(file_content(f)))


@ext('os.ReadFile', 'io/ioutil.ReadFile')
def _readfile(ex, args, st, g, info):
    n = args[0]
    oe, re_ = fn('openerr', Str, Ref)(n), fn('readerr', Str, Ref)(n)
    return TupleV([fn('fcontent', Str, Str)(n), ITE(EQ(oe, null), re_, oe)])


@ext('(*os.File).Close')
def _close(ex, args, st, g, info):
    return null


@ext('(*os.File).Name')
def _name(ex, args, st, g, info):
    return fn('filename', Ref, Str)(args[0])


# ---------------------------------------------------------------- gqlparser
def src_parts(ex, p, st, g, info):
    """name and text of an *ast.Source"""
    if isinstance(p, PtrL):
        s = st.mem[p.o]
    elif isinstance(p, RecP):
        s = p.s
    elif is_z(p):
        return fld('Source', 'Name', Str)(p), fld('Source', 'Input', Str)(p)
    else:
        raise Unsupported('source')
    return s.f['Name'], s.f['Input']


@ext('github.com/vektah/gqlparser/v2/parser.ParseSchema')
def _parse1(ex, args, st, g, info):
    n, i = src_parts(ex, args[0], st, g, info)
    return TupleV([fn('parsed1', Str, Str, Ref)(n, i), fn('parse1err', Str, Str, Ref)(n, i)])


@ext('github.com/vektah/gqlparser/v2/parser.ParseSchemas')
def _parseN(ex, args, st, g, info):
    l = args[0]
    if not isinstance(l, ListV):
        raise Unsupported('ParseSchemas argument')
    l = ex.freeze(l, st.mem, set(st.mem))
    for n, (its, d, e) in enumerate(PARSED):
        if items_eq(its, l.items):
            return TupleV([d, e])
    d, e = Const('parsed!%d' % len(PARSED), Ref), Const('parsederr!%d' % len(PARSED), Ref)
    PARSED.append((l.items, d, e))
    return TupleV([d, e])


PARSED = []


# ---------------------------------------------------------------- cobra
@ext('(*github.com/spf13/cobra.Command).PersistentFlags', '(*github.com/spf13/cobra.Command).Flags')
def _flags(ex, args, st, g, info):
    return ObjV('flags')


def flagvar(kind, has_short):
    def f(ex, args, st, g, info):
        p = args[1]
        if not isinstance(p, PtrL):
            raise Unsupported('flag variable')
        ex.flags.append((p.o, litval(args[2]), litval(args[3]) if has_short else b'', kind,
                         args[4] if has_short else args[3]))
        return None
    return f


for _k in ('String', 'Bool', 'StringSlice', 'Int', 'StringArray'):
    TABLE['(*github.com/spf13/pflag.FlagSet).%sVarP' % _k] = flagvar(_k, True)
    TABLE['(*github.com/spf13/pflag.FlagSet).%sVar' % _k] = flagvar(_k, False)


# ---------------------------------------------------------------- other calls
def invoke(ex, recv, m, args, st, g, info):
    if m == 'Error':
        return err_text(recv)
    if isinstance(recv, IfaceV):
        n = method_of(ex, recv.t, m)
        if n:
            rg, v, s2, exits = ex.call(n, [recv.v] + args, st, g, info)
            if not exits and all(is_true(x) for x in rg) and s2.mem is st.mem:
                return v
    raise Unsupported('dynamic call of ' + m)


def apply_symbolic(ex, fv, args, i, st, g, info):
    """a function value of the input, assumed pure"""
    zs = []
    for a in args:
        if not is_z(a):
            raise Unsupported('argument of an unknown function')
        zs.append(a)
    t = i['t']
    f = fn('apply_' + ex.T.sort(t).name(), *([Ref] + [z.sort() for z in zs] + [ex.T.sort(t)]))
    return ex.sym(t, f(fv, *zs))


# package initialisers of dependencies have no effect on the verified state
def _nop(ex, args, st, g, info):
    return None


for _p in ('fmt', 'os', 'io', 'sort', 'strings', 'bytes', 'regexp', 'strconv', 'math', 'path/filepath', 'errors',
           'unicode', 'unicode/utf8', 'reflect', 'encoding/json', 'github.com/spf13/cobra', 'slices', 'maps', 'cmp',
           'github.com/vektah/gqlparser/v2/parser', 'github.com/vektah/gqlparser/v2/gqlerror', 'bufio',
           'github.com/vektah/gqlparser/v2/ast', 'github.com/vektah/gqlparser/v2/lexer', 'io/ioutil'):
    TABLE[_p + '.init'] = _nop

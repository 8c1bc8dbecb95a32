"""Symbolic execution of go/ssa for code over integers, bytes and strings held in one mutable object (the lexers).

A path is executed from one cut point (function entry, loop header) to the next; calls are cut at the callee's
contract, or the callee's body is entered.  Values:
  int, bool             z3 Int, Bool (machine integers as mathematical integers)
  S(arr, off, ln)       a string or []byte: ln bytes of arr from off
  P(oid, path, nil)     pointer into a heap object
  Sl(oid, off, ln)      a []string over a list object
  St([...])             struct, tuple, array
  anything else         a term of sort Obj
The code is that of the functions as go/ssa gives it; what is not understood raises Unsupported."""
import base64
import z3


class Unsupported(Exception):
    pass


Bytes = z3.DeclareSort('Bytes')
Obj = z3.DeclareSort('LObj')
I, B = z3.IntSort(), z3.BoolSort()
byte = z3.Function('byte', Bytes, I, I)
K = z3.Function('K', Bytes, I, I)       # control characters before a position (tab is none)
H = z3.Function('H', Bytes, I, I)       # '#' before a position
L = z3.Function('L', Bytes, I, I)       # ends of lines before a position (\\n, \\r\\n, \\r; counted at their last byte)
dec_r = z3.Function('dec_r', Bytes, I, I, I)
dec_w = z3.Function('dec_w', Bytes, I, I, I)
NIL = z3.Const('nil', Obj)
_funs = {}
_consts = {}
_fresh = [0]
LITS = {}                               # Bytes constants -> python bytes


def uf(name, ins, out):
    key = (name, tuple(x.sort().name() for x in ins), out.name())
    f = _funs.get(key)
    if f is None:
        f = _funs[key] = z3.Function('|'.join((name,) + key[1]) + '>' + key[2], *([x.sort() for x in ins] + [out]))
    return f(*ins)


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


def lit(bs):
    name = 's_' + bs.hex()
    c = _consts.get(name)
    if c is None:
        c = _consts[name] = z3.Const(name, Bytes)
        LITS[c.get_id()] = bs
    return S(c, z3.IntVal(0), z3.IntVal(len(bs)))


def simp(x):
    return z3.simplify(x)


def num(x):
    x = simp(x)
    return x.as_long() if z3.is_int_value(x) else None


class S:
    def __init__(self, arr, off, ln):
        self.arr, self.off, self.ln = arr, off, ln

    def at(self, i):
        j = simp(self.off + i)
        bs = LITS.get(self.arr.get_id())
        if bs is not None and z3.is_int_value(j) and 0 <= j.as_long() < len(bs):
            return z3.IntVal(bs[j.as_long()])
        return byte(self.arr, j)


class P:
    def __init__(self, oid, path=(), nil=False):
        self.oid, self.path, self.nil = oid, path, nil if z3.is_expr(nil) else z3.BoolVal(nil)


class Sl:
    def __init__(self, oid, off, ln):
        self.oid, self.off, self.ln = oid, off, ln


class St:
    def __init__(self, v, frozen=False):
        self.v, self.frozen = v, frozen


class Elem:
    """address of an element"""
    def __init__(self, base, i):
        self.base, self.i = base, i


class Fn:
    def __init__(self, name):
        self.name = name


class Prog:
    def __init__(self, ssa):
        self.types = ssa['types']
        self.funcs = {f['name']: f for f in ssa['funcs']}
        self._live = {}

    def under(self, t):
        d = self.types.get(t)
        while d is not None and d['k'] == 'named':
            t = d['u']
            d = self.types.get(t)
        if d is None:
            raise Unsupported('type ' + t)
        return d

    def named(self, t):
        d = self.types.get(t)
        return (d.get('pkg', ''), d['short']) if d and d['k'] == 'named' else None

    def kind(self, t):
        d = self.under(t)
        if d['k'] == 'basic':
            return 'int' if d['int'] else 'str' if d['str'] else 'bool' if d['bool'] else 'other'
        if d['k'] == 'slice':
            e = self.under(d['e'])
            if e['k'] == 'basic' and e['name'] in ('uint8', 'byte'):
                return 'str'
            if e['k'] == 'basic' and e['str']:
                return 'strs'
            return 'obj'
        if d['k'] == 'struct':
            return 'struct'
        if d['k'] == 'ptr':
            return 'ptr'
        if d['k'] == 'array':
            return 'array'
        if d['k'] == 'tuple':
            return 'tuple'
        return 'obj'

    def fields(self, t):
        return self.under(t)['f']

    def isbuf(self, t):
        return self.named(t) in (('bytes', 'Buffer'), ('strings', 'Builder'))

    def zero(self, t):
        if self.isbuf(t):
            return lit(b'')
        k = self.kind(t)
        if k == 'int':
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'str':
            return lit(b'')
        if k == 'struct':
            return St([self.zero(f[1]) for f in self.fields(t)])
        if k == 'array':
            d = self.under(t)
            if d['n'] > 64:
                raise Unsupported('big array')
            return St([self.zero(d['e']) for _ in range(d['n'])])
        if k == 'ptr':
            return P(None, (), True)
        if k == 'obj':
            return NIL
        raise Unsupported('zero of ' + t)

    def leaves(self, v, t, key=''):
        """[(key, term)] of a value of type t"""
        k = self.kind(t)
        if isinstance(v, S):
            return [(key + '.arr', v.arr), (key + '.off', v.off), (key + '.len', v.ln)]
        if k in ('int', 'bool'):
            return [(key, v)]
        if k == 'struct':
            if not isinstance(v, St):
                raise Unsupported('struct value')
            out = []
            for f, x in zip(self.fields(t), v.v):
                out += self.leaves(x, f[1], key + '.' + f[0])
            return out
        if k in ('ptr', 'obj'):
            if isinstance(v, P):
                if v.oid is None:
                    return [(key, NIL)]
                if v.oid == 'SRC' and not v.path:
                    return [(key, z3.Const('SRC', Obj))]
                raise Unsupported('pointer as data')
            if z3.is_expr(v):
                return [(key, v)]
        raise Unsupported('leaf of type %s' % t)

    def make(self, t, key, f):
        """a value of type t whose leaves are f(key, sort)"""
        k = self.kind(t)
        if k == 'int':
            return f(key, I)
        if k == 'bool':
            return f(key, B)
        if k == 'str':
            return S(f(key + '.arr', Bytes), f(key + '.off', I), f(key + '.len', I))
        if k == 'struct':
            return St([self.make(x[1], key + '.' + x[0], f) for x in self.fields(t)])
        if k in ('ptr', 'obj'):
            return f(key, Obj)
        raise Unsupported('value of type %s' % t)

    # control flow
    def headers(self, name):
        f = self.funcs[name]
        if '_hd' not in f:
            hd, color = set(), {}
            st = [(0, iter(f['blocks'][0]['s']))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if color.get(s) == 1:
                        hd.add(s)
                    elif s not in color:
                        color[s] = 1
                        st.append((s, iter(f['blocks'][s]['s'])))
                        break
                else:
                    color[b] = 2
                    st.pop()
            f['_hd'] = hd
        return f['_hd']

    def uses(self, x, out):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                out.add(x[1])
            else:
                for y in x:
                    self.uses(y, out)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k not in ('n', 't', 'o', 'xt', 'sig', 'res', 'c'):
                    self.uses(y, out)

    def liveness(self, name):
        if name in self._live:
            return self._live[name]
        f = self.funcs[name]
        bl = f['blocks']
        livein = [set() for _ in bl]
        ch = True

        def through(b, out):
            for i in reversed(bl[b]['i']):
                if i['o'] == 'Phi':
                    break
                out.discard(i.get('n'))
                self.uses(i, out)
            return out
        while ch:
            ch = False
            for b in range(len(bl) - 1, -1, -1):
                out = set()
                for s in bl[b]['s']:
                    ph = [i for i in bl[s]['i'] if i['o'] == 'Phi']
                    names = set(p['n'] for p in ph)
                    out |= livein[s] - names
                    k = bl[s]['p'].index(b)
                    for p in ph:
                        self.uses(p['e'][k], out)
                new = through(b, out)
                for i in bl[b]['i']:
                    if i['o'] == 'Phi':
                        new.add(i['n'])
                if new != livein[b]:
                    livein[b] = new
                    ch = True
        self._live[name] = livein
        return livein

    def live_at(self, name, b, idx):
        """registers live before instruction idx of block b"""
        f = self.funcs[name]
        bl = f['blocks']
        li = self.liveness(name)
        out = set()
        for s in bl[b]['s']:
            ph = [i for i in bl[s]['i'] if i['o'] == 'Phi']
            names = set(p['n'] for p in ph)
            out |= li[s] - names
            k = bl[s]['p'].index(b)
            for p in ph:
                self.uses(p['e'][k], out)
        for i in reversed(bl[b]['i'][idx:]):
            out.discard(i.get('n'))
            self.uses(i, out)
        return out


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'dst')

    def __init__(self, fn, regs, blk=0, idx=0, dst=None):
        self.fn, self.regs, self.blk, self.idx, self.dst = fn, regs, blk, idx, dst

    def copy(self):
        return Frame(self.fn, dict(self.regs), self.blk, self.idx, self.dst)


class State:
    def __init__(self, frames, heap, items=()):
        self.frames, self.heap, self.items = frames, heap, list(items)

    def copy(self):
        return State([f.copy() for f in self.frames], dict(self.heap), self.items)


INP = z3.Const('INP', Bytes)
N = z3.Const('n', I)


def source(prog, t):
    """the object a *ast.Source parameter points to"""
    def f(key, sort):
        if key == '.Input.arr':
            return INP
        if key == '.Input.off':
            return z3.IntVal(0)
        if key == '.Input.len':
            return N
        return z3.Const('src' + key, sort)
    return prog.make(t, '', f)


class Exec:
    """mode: hooks(call(st, frame, instr, fn, args) -> value or None to enter the body), safety(name, formula)"""

    def __init__(self, prog, own, call, check=None, safety=True, maxpaths=3000):
        self.p, self.own, self.call, self.check, self.safety = prog, own, call, check, safety
        self.maxpaths = maxpaths
        self.n = 0
        self.used = set()
        self.trusted = set()
        self.solver = None
        self.lits = None

    # ---- values
    def val(self, st, fr, x):
        if x is None:
            return None
        k = x[0]
        if k == 'r':
            if x[1] not in fr.regs:
                raise Unsupported('register %s' % x[1])
            return fr.regs[x[1]]
        if k == 'c':
            if x[2] == 'int':
                return z3.IntVal(int(x[3]))
            if x[2] == 'bool':
                return z3.BoolVal(x[3])
            if x[2] == 'str':
                return lit(base64.b64decode(x[3]))
            if x[2] == 'zero':
                return self.p.zero(x[1])
        if k == 'f':
            return Fn(x[1])
        raise Unsupported('operand %s' % (x[:2],))

    def ob(self, st, what, f):
        if self.safety:
            f = simp(f)
            if not z3.is_true(f):
                st.items.append(('ob', what, f))
            else:
                st.items.append(('ob', what, None))
        else:
            st.items.append(('c', f))

    def load(self, st, a):
        if isinstance(a, Elem):
            b = a.base
            if isinstance(b, S):
                return b.at(a.i)
            if isinstance(b, Sl):
                A = st.heap[b.oid]
                i = simp(b.off + a.i)
                return S(A[0][i], A[1][i], A[2][i])
        if isinstance(a, P):
            if a.oid is None:
                raise Unsupported('nil dereference')
            v = st.heap[a.oid]
            for i in a.path:
                v = v.v[i]
            return v
        raise Unsupported('load')

    def store(self, st, a, v):
        if isinstance(a, Elem) and isinstance(a.base, Sl):
            A = st.heap[a.base.oid]
            i = simp(a.base.off + a.i)
            st.heap[a.base.oid] = (z3.Store(A[0], i, v.arr), z3.Store(A[1], i, v.off), z3.Store(A[2], i, v.ln))
            return
        if isinstance(a, P) and a.oid is not None:
            if a.oid == 'SRC':
                raise Unsupported('the source is written')

            def up(x, path):
                if not path:
                    return v
                if x.frozen:
                    raise Unsupported('an array is written after it was sliced')
                vs = list(x.v)
                vs[path[0]] = up(vs[path[0]], path[1:])
                return St(vs)
            if a.oid == 'S' and a.path and a.path[0] == self.srcfield and not (isinstance(v, P) and v.oid == 'SRC'):
                raise Unsupported('the source of the lexer is replaced')
            st.heap[a.oid] = up(st.heap[a.oid], a.path)
            return
        raise Unsupported('store')

    srcfield = 0

    def streq(self, a, b):
        for x, y in ((a, b), (b, a)):
            bs = LITS.get(y.arr.get_id())
            ln = num(y.ln)
            if bs is not None and ln is not None and num(y.off) is not None:
                o = num(y.off)
                return simp(z3.And([x.ln == ln] + [x.at(z3.IntVal(i)) == bs[o + i] for i in range(ln)]))
        if a.arr.eq(b.arr) and simp(a.off).eq(simp(b.off)) and simp(a.ln).eq(simp(b.ln)):
            return z3.BoolVal(True)
        ins = [a.arr, a.off, a.ln, b.arr, b.off, b.ln]
        return z3.And(a.ln == b.ln, uf('streq', ins, B))

    def ufstr(self, name, ins, ln=None):
        return S(uf(name, ins, Bytes), z3.IntVal(0), uf(name + '#', ins, I) if ln is None else simp(ln))

    def binop(self, st, i, x, y):
        op = i['op']
        if isinstance(x, S) and isinstance(y, S):
            if op in ('==', '!='):
                e = self.streq(x, y)
                return e if op == '==' else simp(z3.Not(e))
            if op == '+':
                if num(x.ln) == 0:
                    return y
                if num(y.ln) == 0:
                    return x
                return self.ufstr('cat', [x.arr, x.off, x.ln, y.arr, y.off, y.ln], x.ln + y.ln)
            raise Unsupported('string ' + op)
        if op in ('==', '!='):
            if isinstance(x, P) or isinstance(y, P):
                if isinstance(x, P) and isinstance(y, P):
                    if y.oid is None:
                        e = x.nil
                    elif x.oid is None:
                        e = y.nil
                    else:
                        raise Unsupported('pointer comparison')
                else:
                    raise Unsupported('pointer comparison')
            elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                e = x == y
            else:
                raise Unsupported('comparison')
            return simp(e if op == '==' else z3.Not(e))
        if not (z3.is_expr(x) and z3.is_expr(y) and x.sort() == I and y.sort() == I):
            raise Unsupported('operator %s' % op)
        if op == '+':
            return simp(x + y)
        if op == '-':
            return simp(x - y)
        if op == '*':
            return simp(x * y)
        if op in ('<', '<=', '>', '>='):
            return simp({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if op in ('/', '%'):
            self.ob(st, 'division', y != 0)
        if op in ('<<', '>>', '|', '&', '^', '&^', '/', '%'):
            if op == '<<' and num(y) is not None and 0 <= num(y) < 32 and False:
                return simp(x * (1 << num(y)))
            return uf('op' + op, [x, y], I)
        raise Unsupported('operator ' + op)

    def decode(self, st, s, pos):
        """rune and width at byte position pos of s (the contract of utf8.DecodeRuneInString)"""
        a, i, rem = s.arr, simp(s.off + pos), simp(s.ln - pos)
        r, w = dec_r(a, i, rem), dec_w(a, i, rem)
        b = byte(a, i)
        st.items.append(('c', z3.If(rem <= 0, z3.And(r == 65533, w == 0), z3.And(
            w >= 1, w <= 4, w <= rem, r >= 0, r <= 0x10ffff, (r < 128) == (b < 128), z3.Implies(r < 128, z3.And(w == 1, r == b)),
            z3.Implies(r >= 128, z3.And(K(a, i + w) == K(a, i), H(a, i + w) == H(a, i), L(a, i + w) == L(a, i)))))))
        self.trusted.add('unicode/utf8.DecodeRuneInString')
        return r, w

    def bufput(self, st, p, how, v):
        if not isinstance(p, P) or p.oid is None:
            raise Unsupported('buffer')
        self.ob(st, 'write to a nil buffer', z3.Not(p.nil))
        c = self.load(st, p)
        if how == 'byte':
            n = self.ufstr('appb', [c.arr, c.off, c.ln, v], c.ln + 1)
        elif how == 'rune':
            k = num(v)
            if k is not None and 0 <= k < 128:
                return self.bufput(st, p, 'byte', v)
            n = self.ufstr('appr', [c.arr, c.off, c.ln, v], c.ln + uf('runelen', [v], I))
        else:
            bs, ln, o = LITS.get(v.arr.get_id()), num(v.ln), num(v.off)
            if bs is not None and ln is not None and o is not None:
                for b in bs[o:o + ln]:
                    self.bufput(st, p, 'byte', z3.IntVal(b))
                return
            n = self.ufstr('apps', [c.arr, c.off, c.ln, v.arr, v.off, v.ln], c.ln + v.ln)
        self.store(st, p, n)

    def newlist(self, st, name, ins):
        oid = ('list', _fresh[0])
        _fresh[0] += 1
        A = z3.ArraySort(I, Bytes), z3.ArraySort(I, I), z3.ArraySort(I, I)
        st.heap[oid] = tuple(uf(name + '.%d' % k, ins, s) for k, s in enumerate(A))
        ln = uf(name + '.n', ins, I)
        st.items.append(('c', ln >= 0))
        x = z3.Const('x_', I)
        st.items.append(('list', oid, st.heap[oid]))
        return Sl(oid, z3.IntVal(0), ln)

    def extern(self, st, fr, i, name, args):
        """contracts of the library"""
        self.trusted.add(name)
        if name in ('unicode/utf8.DecodeRuneInString', 'unicode/utf8.DecodeRune'):
            r, w = self.decode(st, args[0], z3.IntVal(0))
            return St([r, w])
        if name == 'bytes.NewBufferString':
            oid = ('buf', _fresh[0])
            _fresh[0] += 1
            st.heap[oid] = args[0]
            return P(oid)
        for t in ('(*bytes.Buffer).', '(*strings.Builder).'):
            if name.startswith(t):
                m = name[len(t):]
                if m == 'WriteByte':
                    self.bufput(st, args[0], 'byte', args[1])
                    return NIL
                if m == 'WriteRune':
                    self.bufput(st, args[0], 'rune', args[1])
                    return St([uf('runelen', [args[1]], I), NIL])
                if m in ('WriteString', 'Write'):
                    self.bufput(st, args[0], 'str', args[1])
                    return St([args[1].ln, NIL])
                if m in ('String', 'Bytes'):
                    self.ob(st, 'a nil buffer', z3.Not(args[0].nil))
                    return self.load(st, args[0])
                if m == 'Len':
                    return self.load(st, args[0]).ln
                if m == 'Reset':
                    self.store(st, args[0], lit(b''))
                    return None
                if m == 'Grow':
                    return None
        if name == 'strings.Split':
            a, b = args
            v = self.newlist(st, 'split', [a.arr, a.off, a.ln, b.arr, b.off, b.ln])
            if num(b.ln):
                st.items.append(('c', v.ln >= 1))
            return v
        if name == 'strings.Join':
            a, b = args
            A = st.heap[a.oid]
            return self.ufstr('join', list(A) + [a.off, a.ln, b.arr, b.off, b.ln])
        if name == 'github.com/vektah/gqlparser/v2/gqlerror.ErrorLocf':
            ins = []
            for a in args:
                ins += [a.arr, a.off, a.ln] if isinstance(a, S) else [a]
            e = uf('ErrorLocf', ins, Obj)
            st.items.append(('c', e != NIL))
            return e
        if name in ('strings.HasPrefix', 'strings.HasSuffix'):
            s, q = args
            n = num(q.ln)
            if n is not None and LITS.get(q.arr.get_id()) is not None:
                base = z3.IntVal(0) if name.endswith('HasPrefix') else simp(s.ln - n)
                return simp(z3.And([s.ln >= n] + [s.at(simp(base + k)) == q.at(z3.IntVal(k)) for k in range(n)]))
        if name in PURE:
            ins = []
            for a in args:
                if isinstance(a, S):
                    ins += [a.arr, a.off, a.ln]
                elif z3.is_expr(a):
                    ins.append(a)
                else:
                    raise Unsupported(name)
            k = self.p.kind(i['t'])
            if k == 'int':
                return uf(name, ins, I)
            if k == 'bool':
                return uf(name, ins, B)
            if k == 'str':
                s = self.ufstr(name, ins)
                st.items.append(('c', s.ln >= 0))
                return s
        raise Unsupported('call of %s' % name)

    # ---- instructions
    def instr(self, st, fr, i):
        o = i['o']
        V = lambda x: self.val(st, fr, x)
        R = fr.regs
        if o == 'Alloc':
            t = self.p.types[i['t']]['e'] if i['t'] in self.p.types else None
            oid = (fr.fn, i['n'], len(st.frames))
            st.heap[oid] = self.p.zero(t)
            R[i['n']] = P(oid)
        elif o == 'BinOp':
            R[i['n']] = self.binop(st, i, V(i['x']), V(i['y']))
        elif o == 'UnOp':
            x = V(i['x'])
            if i['op'] == '*':
                if isinstance(x, P) and not z3.is_false(simp(x.nil)):
                    self.ob(st, 'nil dereference', z3.Not(x.nil))
                R[i['n']] = self.load(st, x)
            elif i['op'] == '!':
                R[i['n']] = simp(z3.Not(x))
            elif i['op'] == '-':
                R[i['n']] = simp(-x)
            else:
                raise Unsupported('operator ' + i['op'])
        elif o == 'FieldAddr':
            x = V(i['x'])
            if not isinstance(x, P) or x.oid is None:
                raise Unsupported('field of a pointer')
            if not z3.is_false(simp(x.nil)):
                self.ob(st, 'nil dereference', z3.Not(x.nil))
            R[i['n']] = P(x.oid, x.path + (i['i'],))
        elif o == 'Field':
            R[i['n']] = V(i['x']).v[i['i']]
        elif o == 'Extract':
            R[i['n']] = V(i['x']).v[i['i']]
        elif o == 'Store':
            self.store(st, V(i['a']), V(i['x']))
        elif o in ('ChangeType', 'ChangeInterface'):
            R[i['n']] = V(i['x'])
        elif o == 'Convert':
            R[i['n']] = self.convert(V(i['x']), i)
        elif o == 'MakeInterface':
            ls = self.p.leaves(V(i['x']), i['xt'])
            e = uf('iface:' + i['xt'], [x for _, x in ls], Obj)
            st.items.append(('c', e != NIL))
            R[i['n']] = e
        elif o in ('Index', 'Lookup'):
            x, k = V(i['x']), V(i['i'])
            if not isinstance(x, S):
                raise Unsupported('index')
            self.ob(st, 'index', z3.And(k >= 0, k < x.ln))
            R[i['n']] = x.at(k)
        elif o == 'IndexAddr':
            x, k = V(i['x']), V(i['i'])
            if isinstance(x, (S, Sl)):
                self.ob(st, 'index', z3.And(k >= 0, k < x.ln))
                R[i['n']] = Elem(x, k)
            elif isinstance(x, P) and num(k) is not None:
                R[i['n']] = P(x.oid, x.path + (num(k),))
            else:
                raise Unsupported('element address')
        elif o == 'Slice':
            R[i['n']] = self.slice(st, fr, i, V)
        elif o == 'Range':
            x = V(i['x'])
            if not isinstance(x, S):
                raise Unsupported('range')
            oid = (fr.fn, i['n'], len(st.frames))
            st.heap[oid] = St([x, z3.IntVal(0)])
            R[i['n']] = P(oid)
        elif o == 'Next':
            p = V(i['x'])
            s, pos = st.heap[p.oid].v
            ok = simp(pos < s.ln)
            r, w = self.decode(st, s, pos)
            st.heap[p.oid] = St([s, simp(z3.If(ok, pos + w, pos))])
            R[i['n']] = St([ok, pos, r])
        elif o == 'Call':
            return self.docall(st, fr, i)
        else:
            raise Unsupported('instruction ' + o)

    def convert(self, x, i):
        f, t = self.p.kind(i['xt']), self.p.kind(i['t'])
        if f == 'str' and t == 'str' and isinstance(x, S):
            return x
        if f == 'int' and t == 'int':
            size = {'int8': 7, 'uint8': 8, 'byte': 8, 'int16': 15, 'uint16': 16, 'int32': 31, 'rune': 31, 'uint32': 32, 'int': 63, 'int64': 63,
                    'uint': 64, 'uint64': 64, 'uintptr': 64}
            a, b = self.p.under(i['xt'])['name'], self.p.under(i['t'])['name']
            sg = lambda n: not n.startswith('u') and n != 'byte'
            if size[a] <= size[b] and (sg(b) or not sg(a)):
                return x
            k = num(x)
            if k is not None and 0 <= k < 128:
                return x
            return uf('conv:%s>%s' % (a, b), [x], I)
        if f == 'int' and t == 'str':
            k = num(x)
            if k is not None and 0 <= k < 128:
                return lit(bytes([k]))
            return self.ufstr('chr', [x])
        raise Unsupported('conversion %s > %s' % (i['xt'], i['t']))

    def slice(self, st, fr, i, V):
        x, lo, hi = V(i['x']), V(i['lo']), V(i['hi'])
        if lo is None:
            lo = z3.IntVal(0)
        if isinstance(x, P):
            v = self.load(st, x)
            if not isinstance(v, St) or num(lo) != 0 or hi is not None:
                raise Unsupported('slice of an array')
            et = self.p.under(self.p.under(i['xt'])['e'])['e']
            k = self.p.kind(et)
            vs = v.v
            self.store(st, x, St(vs, True))
            if k == 'int' and self.p.kind(i['t']) == 'str':
                if all(z3.is_int_value(simp(e)) for e in vs):
                    return lit(bytes(simp(e).as_long() for e in vs))
                s = S(uf('bytes%d' % len(vs), vs, Bytes), z3.IntVal(0), z3.IntVal(len(vs)))
                for k, e in enumerate(vs):
                    st.items.append(('c', s.at(z3.IntVal(k)) == e))
                return s
            if k == 'obj':
                return uf('objs%d' % len(vs), vs, Obj) if vs else NIL
            raise Unsupported('slice of an array of ' + et)
        if hi is None:
            hi = x.ln
        if isinstance(x, (S, Sl)):
            self.ob(st, 'slice bounds', z3.And(lo >= 0, lo <= hi, hi <= x.ln))
            if isinstance(x, S):
                return S(x.arr, simp(x.off + lo), simp(hi - lo))
            return Sl(x.oid, simp(x.off + lo), simp(hi - lo))
        raise Unsupported('slice')

    def docall(self, st, fr, i):
        v = i['v']
        args = [self.val(st, fr, a) for a in i['args']]
        if v[0] == 'b':
            if v[1] in ('len', 'cap') and isinstance(args[0], (S, Sl)) and v[1] == 'len':
                fr.regs[i['n']] = args[0].ln
                return
            if v[1] in ('min', 'max') and len(args) == 2:
                a, b = args
                fr.regs[i['n']] = simp(z3.If(a <= b, a, b) if v[1] == 'min' else z3.If(a >= b, a, b))
                return
            if v[1] == 'append' and len(args) == 2 and isinstance(args[0], S) and isinstance(args[1], S):
                a, b = args
                bs, ln, o = LITS.get(b.arr.get_id()), num(b.ln), num(b.off)
                if bs is not None and ln is not None:
                    for c in bs[o:o + ln]:
                        a = self.ufstr('appb', [a.arr, a.off, a.ln, z3.IntVal(c)], a.ln + 1)
                else:
                    a = self.ufstr('apps', [a.arr, a.off, a.ln, b.arr, b.off, b.ln], a.ln + b.ln)
                fr.regs[i['n']] = a
                return
            raise Unsupported('builtin ' + v[1])
        if v[0] != 'f':
            raise Unsupported('dynamic call')
        name = v[1]
        if name in self.p.funcs and self.own(name):
            r = self.call(self, st, fr, i, name, args)
            if r is not None:
                if 'n' in i:
                    fr.regs[i['n']] = r[0]
                return
            f = self.p.funcs[name]
            if len(st.frames) > 6:
                raise Unsupported('depth of calls at ' + name)
            self.used.add(name)
            st.frames.append(Frame(name, dict(zip([q[0] for q in f['params']], args)), 0, 0, i.get('n')))
            return 'enter'
        r = self.extern(st, fr, i, name, args)
        if 'n' in i and r is not None:
            fr.regs[i['n']] = r

    # ---- paths
    def explore(self, st):
        """[(end, state)]: end = ('loop',) at a loop header, ('ret', value); obligations and conditions in state.items"""
        out = []
        self._go(st, out)
        return out

    def feasible(self, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.solver is None:
            return None
        if self.lits is not None:
            if c.get_id() in self.lits:
                return True
            if simp(z3.Not(c)).get_id() in self.lits:
                return False
        return None

    def _go(self, st, out):
        while True:
            self.n += 1
            if self.n > 400000 or len(out) > self.maxpaths:
                raise Unsupported('too many paths')
            fr = st.frames[-1]
            f = self.p.funcs[fr.fn]
            bl = f['blocks'][fr.blk]
            i = bl['i'][fr.idx]
            o = i['o']
            if o == 'Phi':
                fr.idx += 1         # set on the edge
                continue
            if o == 'Jump':
                if self.edge(st, fr, bl['s'][0]):
                    out.append((('loop',), st))
                    return
                continue
            if o == 'If':
                c = simp(self.val(st, fr, i['x']))
                todo = []
                for k, cc in ((0, c), (1, simp(z3.Not(c)))):
                    fz = self.feasible(cc)
                    if fz is False:
                        continue
                    todo.append((k, cc, fz))
                if len(todo) == 1 and todo[0][2] is True:
                    if self.edge(st, fr, bl['s'][todo[0][0]]):
                        out.append((('loop',), st))
                        return
                    continue
                for k, cc, fz in todo:
                    if fz is None and self.solver is not None:
                        self.solver.push()
                        self.solver.add(cc)
                        if self.solver.check() == z3.unsat:
                            self.solver.pop()
                            continue
                    s2 = st.copy()
                    s2.items.append(('c', cc))
                    ids = None
                    if self.lits is not None and cc.get_id() not in self.lits:
                        ids = cc.get_id()
                        self.lits[ids] = cc
                    if self.edge(s2, s2.frames[-1], bl['s'][k]):
                        out.append((('loop',), s2))
                    else:
                        self._go(s2, out)
                    if ids is not None:
                        del self.lits[ids]
                    if fz is None and self.solver is not None:
                        self.solver.pop()
                return
            if o == 'Return':
                vs = [self.val(st, fr, x) for x in i['x']]
                v = vs[0] if len(vs) == 1 else St(vs)
                if len(st.frames) == 1:
                    out.append((('ret', vs), st))
                    return
                st.frames.pop()
                if fr.dst is not None:
                    st.frames[-1].regs[fr.dst] = v
                continue
            if o == 'Panic':
                if self.safety:
                    st.items.append(('ob', 'panic', z3.BoolVal(False)))
                return
            if o == 'RunDefers':
                fr.idx += 1
                continue
            fr.idx += 1
            self.instr(st, fr, i)

    def edge(self, st, fr, to):
        """take the edge; True when a loop header is reached"""
        f = self.p.funcs[fr.fn]
        k = f['blocks'][to]['p'].index(fr.blk)
        new = {}
        for i in f['blocks'][to]['i']:
            if i['o'] == 'Phi':
                new[i['n']] = self.val(st, fr, i['e'][k])
        fr.regs.update(new)
        fr.blk, fr.idx = to, 0
        return to in self.p.headers(fr.fn)


PURE = {'strings.TrimSpace', 'strings.Contains', 'strings.ToLower', 'strings.ToUpper', 'strings.TrimLeft', 'strings.TrimRight', 'strings.Trim',
        'strings.IndexByte', 'strings.Index', 'strings.IndexAny', 'strings.ContainsRune', 'strings.ContainsAny', 'strings.IndexRune',
        'unicode.IsDigit', 'unicode.IsLetter', 'unicode.IsSpace', 'unicode.IsControl', 'strings.Count', 'strings.Repeat', 'strconv.Quote', 'strconv.Itoa',
        'unicode/utf8.RuneCountInString', 'unicode/utf8.RuneLen', 'strings.TrimPrefix', 'strings.TrimSuffix', 'strings.ReplaceAll'}


# ---- facts about the counting functions
def atoms(es):
    """byte(a, i) and the positions of the counting functions in the expressions"""
    seen, todo = set(), list(es)
    pos = {}
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            d = e.decl()
            nm = d.name()
            if nm in ('byte', 'K', 'H', 'L') and e.num_args() == 2:
                a, i = e.arg(0), e.arg(1)
                pos.setdefault(a, {}).setdefault(simp(i), set()).add(nm)
            todo.extend(e.children())
    return pos


def facts(es, pairs=True):
    """unfoldings of the counting functions at the positions in es, and their monotonicity"""
    out = []
    for a, d in atoms(es).items():
        bs = LITS.get(a.get_id())
        cnt = any(v & {'K', 'H', 'L'} for v in d.values())
        for i, names in d.items():
            if 'byte' in names:
                b = byte(a, i)
                out.append(z3.And(b >= 0, b <= 255))
                if cnt:
                    out += unfold(a, i)
        if bs is not None:
            for k, c in enumerate(bs):
                out.append(byte(a, z3.IntVal(k)) == c)
                if cnt:
                    out += unfold(a, z3.IntVal(k))
            if cnt:
                out += [f(a, z3.IntVal(0)) == 0 for f in (K, H, L)]
        if cnt:
            out += [f(a, z3.IntVal(0)) == 0 for f in (K, H, L)]
        if cnt and pairs and not a.eq(INP):
            ps = {}
            for i, names in d.items():
                ps[i.get_id()] = i
                if 'byte' in names:
                    j = simp(i + 1)
                    ps[j.get_id()] = j
            ps = list(ps.values())
            for x in range(len(ps)):
                for y in range(len(ps)):
                    if x != y:
                        i, j = ps[x], ps[y]
                        out.append(z3.Implies(i <= j, z3.And(K(a, i) <= K(a, j), H(a, i) <= H(a, j), L(a, i) <= L(a, j),
                                                            z3.Implies(K(a, i) == K(a, j), L(a, i) == L(a, j)))))
    return out


def unfold(a, i):
    b = byte(a, i)
    j = simp(i + 1)
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    crlf = byte(a, j) == 10
    if a.eq(INP):
        crlf = z3.And(j < N, crlf)
    return [K(a, j) == K(a, i) + one(z3.And(b < 32, b != 9)), H(a, j) == H(a, i) + one(b == 35),
            L(a, j) == L(a, i) + one(z3.Or(b == 10, z3.And(b == 13, z3.Not(crlf))))]

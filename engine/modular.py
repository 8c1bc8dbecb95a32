"""Modular verification of package compare: every function with a contract is verified against it bottom-up (callees
replaced by their verified contracts), then the whole comparison."""
import sys, os, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))
from execu import *
import core, facts, spec, prove
import compare as CC

MOD = 'github.com/CrowdStrike/gql/'
PKG = MOD + 'pkg/compare.'
AST = 'github.com/vektah/gqlparser/v2/ast'


def short(ex, t):
    return t.replace(AST + '.', 'ast.').replace(MOD, '')


class Ver:
    def __init__(self, ssa):
        self.ex = Exec(ssa)
        self.S = spec.Sym(self.ex)
        self.obs = []           # Ob
        self.verified = {}      # go function -> list of Ob
        self.failed = {}        # go function -> (reason, obs)
        self.log = []
        self.time = {}
        self.n = 0

    # ---- pure contracts
    def pure(self, go, fn):
        def c(ex, args, st, g, info):
            if not all(is_z(a) for a in args):
                return None
            for a in args:
                if a.sort() == Ref and fn.name() != 'vstr':
                    ex.ob('nil argument of ' + fn.name(), g, NOT(EQ(a, null)), info)
            return (), self.apply_pure(fn, args), st, []
        self.ex.contracts[go] = c

    def apply_pure(self, fn, args):
        for i, a in enumerate(args):
            if is_ite(a):
                return ITE(a.arg(0), self.apply_pure(fn, args[:i] + [a.arg(1)] + args[i + 1:]),
                           self.apply_pure(fn, args[:i] + [a.arg(2)] + args[i + 1:]))
        return fn(*args)

    def verify_pure(self, go, fn):
        """the recursive function `go` computes fn, whose defining equation is unfolded once"""
        ex = self.ex
        f = ex.funcs.get(go)
        name = go.split('/')[-1]
        if f is None:
            return [prove.Ob(name + ' exists', 'missing', 0)]
        t0 = time.time()
        saved = ex.contracts
        ex.contracts = dict(saved)
        self.pure(go, fn)
        ex.cache.clear()
        try:
            args = [ex.param(p[0], p[1]) for p in f['params']]
            n0 = len(ex.obs)
            o = ex.call_body(f, args, State({}, {}))
        except Unsupported as e:
            ex.contracts = saved
            return [prove.Ob('%s == %s' % (name, fn.name()), 'unsupported', time.time() - t0, str(e))]
        finally:
            ex.cache.clear()
        ex.contracts = saved
        wf = [x for a in args for x in spec.wf_type(a) + [NOT(a == null)]]
        target = fn(*args)
        out = []
        for n in ('tstr', 'tname'):
            facts.UNFOLD[n] = lambda e, n=n: spec.UNF[n](e) + spec.wf_type(e.arg(0))
        unf = spec.UNF[fn.name()](target)
        for g, v, s in o.rets:
            r = facts.prove(list(g) + wf + unf, EQ(v[0], target))
            out.append(prove.Ob('%s == %s (unfolded once)' % (name, fn.name()), r, time.time() - t0))
        if not o.rets:
            out.append(prove.Ob('%s returns' % name, 'refuted', 0))
        for g, c, inf in ex.obs[n0:]:
            r = facts.prove(list(g) + wf, c)
            if r != 'proved':
                out.append(prove.Ob('%s: %s at line %s' % (name, inf[0], inf[2]), r, 0))
        facts.UNFOLD.clear()
        return out

    # ---- contracts of change-producing functions
    def wrap(self, v, t):
        k = self.ex.T.kind(t)
        if k == 'slice':
            return spec.L(self.S, v, t)
        if k in ('ptr', 'pointer'):
            return spec.N(self.S, v, t)
        return v

    def rec(self, ch, elt):
        """the record a contract gives its caller: message and position are known only as far as the contract says"""
        st = self.ex.T.u(elt)['e']
        margs = list(ch.names) + (list(ch.fromto) if ch.fromto else [])
        msg = Function('msg#%d%s' % (len(ch.names), 'ft' if ch.fromto else ''), *([Str] * len(margs) + [Str]))(*margs) \
            if margs else Const('msg#', Str)
        pos = ch.pos
        if len(pos) == 1:
            p = pos[0]
        else:
            p = Function('pos#%d' % len(pos), *([Ref] * len(pos) + [Ref]))(*pos)
        return RecP(StructV(st, {'changeType': lit(ch.type), 'criticalityLevel': ch.level, 'path': ch.path,
                                 'message': msg, 'position': p}))

    def to_code(self, items, elt, label=''):
        def go(its):
            out = []
            for it in its:
                if it[0] == 'u':
                    out.append(('u', it[1], self.rec(it[2], elt)))
                elif it[0] == 'f':
                    out.append(it[:4] + (go(it[4]),))
                else:
                    raise Unsupported('contract item')
            return tuple(out)
        return go(items)

    def contract(self, name, ptypes, fn, pre):
        go = PKG + name
        f = self.ex.funcs[go]
        rt = f['res'][0]

        def c(ex, args, st, g, info):
            ws = []
            for a, p in zip(args, f['params']):
                if isinstance(a, (OpqV,)):
                    return None
                ws.append(self.wrap(a, p[1]))
            try:
                if pre is not None:
                    pr = pre(self.S, *ws)
                    if facts.prove(list(g), pr, timeout=2000) != 'proved':
                        return None
                items = fn(self.S, *ws)
                for a, p in zip(args, f['params']):
                    if is_z(a) and a.sort() == Ref and name != 'changesInSchemaOperation':
                        ex.ob('nil argument of ' + name, g, NOT(EQ(a, null)), info)
                return (), ListV(self.to_code(items, ex.T.elem(rt), '%s(%s)' % (name, ', '.join(self.label(a) for a in args))), ex.T.elem(rt)), st, []
            except Unsupported as e:
                self.log.append('contract of %s not used at %s: %s' % (name, info, e))
                return None
        self.ex.contracts[go] = c

    def label(self, a):
        if is_z(a):
            return a.sexpr()
        if isinstance(a, ListV) and all(i[0] == 'b' for i in a.items):
            return ' '.join(i[1].sexpr() + i[2].sexpr() for i in a.items)
        return fresh_name('arg')

    def verify(self, name, ptypes, fn, pre):
        ex = self.ex
        go = PKG + name
        f = ex.funcs.get(go)
        if f is None:
            return None, 'no such function'
        pts = tuple(short(ex, p[1]) for p in f['params'])
        if pts != tuple(ptypes) or len(f['res']) != 1:
            return None, 'signature %s' % (pts,)
        args = [ex.param('%s' % p[0], p[1]) for p in f['params']]
        ws = [self.wrap(a, p[1]) for a, p in zip(args, f['params'])]
        hyps = []
        for a in args:
            if is_z(a) and a.sort() == Ref and name != 'changesInSchemaOperation':
                hyps.append(NOT(a == null))
        if pre is not None:
            hyps.append(pre(self.S, *ws))
        t0 = time.time()
        ex.cache.clear()
        n0 = len(ex.obs)
        try:
            o = ex.call_body(f, args, State({}, {}))
            safety = ex.obs[n0:]
            obs = []
            if len(o.rets) != 1:
                guards = [AND(*r[0]) for r in o.rets]
            code = []
            for g, v, s in o.rets:
                newobjs = set(s.mem)
                fv = ex.freeze(v[0], s.mem, newobjs)
                its = gitems(AND(*g), fv.items if isinstance(fv, ListV) else self.bad(fv))
                code += prove.code_contribs(its)
            # every path returns
            r = facts.prove(hyps, OR(*[AND(*g) for g, v, s in o.rets]))
            obs.append(prove.Ob('%s: returns on every path' % name, r, 0))
            sp = prove.spec_contribs(fn(self.S, *ws))
            t1 = time.time()
            obs += prove.multiset(name, code, sp, hyps)
            self.time[name] = (t1 - t0, time.time() - t1)
            return (obs, code, sp, safety, hyps), None
        except Unsupported as e:
            self.time[name] = (time.time() - t0, 0)
            return None, 'unsupported: %s' % e

    def bad(self, v):
        raise Unsupported('result is %s' % type(v).__name__)

    def run(self, upto=None):
        for go, fn in (('(*' + AST + '.Type).String', spec.tstr), ('(*' + AST + '.Type).Name', spec.tname),
                       (PKG + 'isSafeChangeForFieldType', spec.safe_out), (PKG + 'isSafeChangeForInputValue', spec.safe_in)):
            obs = self.verify_pure(go, fn)
            self.obs += obs
            if all(o.result == 'proved' for o in obs):
                self.pure(go, fn)
                self.verified[go] = obs
            else:
                self.failed[go] = obs
        self.pure('(*' + AST + '.Value).String', spec.vstr)
        me = PKG + 'mergeExtensions'

        def cm(ex, args, st, g, info):
            a = args[0]
            if isinstance(a, ListV) and len(a.items) == 1 and a.items[0][0] == 'b':
                return (), ListV((('b', a.items[0][1], spec.merged(a.items[0][2])),), a.et), st, []
            return None
        if me in self.ex.funcs:
            self.ex.contracts[me] = cm
        for name, ent in CC.FUNCS.items():
            r, why = self.verify(name, ent[0], ent[1], ent[2] if len(ent) > 2 else None)
            if r is None:
                self.failed[name] = why
                continue
            bad = [o for o in r[0] if o.result != 'proved']
            if bad:
                self.failed[name] = bad
            else:
                self.verified[name] = r[0]
                self.contract(name, ent[0], ent[1], ent[2] if len(ent) > 2 else None)
            self.obs += r[0]


if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    t = time.time()
    v = Ver(ssa)
    v.run()
    for n, o in v.verified.items():
        print('ok  ', n, len(o), v.time.get(n))
    for n, why in v.failed.items():
        print('FAIL', n, v.time.get(n))
        if isinstance(why, str):
            print('     ', why)
        else:
            for o in why:
                print('     ', o.result, o.name, o.detail)
    print(v.log)
    print('%.1fs' % (time.time() - t), facts.STATS)

"""Verification of package linter (rules) and cmd/linter."""
import json
import sys
import time
from modular import *
import cmpproof
import pool
import prove
import facts
import spec
import z3
import lint as LC

LPKG = MOD + 'pkg/linter'
CPKG = MOD + 'cmd/linter'
FIELDS = ('Rule', 'Line', 'Column', 'Err', 'Err')


class Lint(cmpproof.Cmp):
    def __init__(self, ssa, mode):
        Ver.__init__(self, ssa)
        self.mode = mode
        self.notes, self.abstract = [], []
        self.ex.run_inits([LPKG, CPKG])
        self.table = self.rule_table()

    # ---- the rule table
    def rule_table(self):
        """[(name, go function)] of AllTheRules, or None"""
        v = self.ex.globals.get(LPKG + '.AllTheRules')
        if v is not None and self.ex.mutable(LPKG + '.AllTheRules'):
            return None
        if not isinstance(v, ListV):
            return None
        out = []
        for it in v.items:
            if it[0] != 'u' or not is_true(it[1]) or not isinstance(it[2], StructV):
                return None
            n, f = litval(it[2].f['Name']), it[2].f['RuleFunction']
            if n is None or not isinstance(f, FuncV) or f.b:
                return None
            out.append((n.decode(), f.name))
        return out

    def do_pure(self):
        self.pure_obs = []
        for go, fn in (('(*' + AST + '.Type).String', spec.tstr), ('(*' + AST + '.Type).Name', spec.tname)):
            self.pure_obs += [(go, fn.name(), o) for o in self.verify_pure(go, fn)]
            self.pure(go, fn)
        for n in ('tname',):
            facts.UNFOLD[n] = lambda e, n=n: spec.UNF[n](e) + spec.wf_type(e.arg(0))

    def run_rule(self, go):
        """guarded items returned by the rule function go on the document doc"""
        ex = self.ex
        f = ex.funcs[go]
        ex.cache.clear()
        doc = ex.param('doc', f['params'][0][1])
        n0 = len(ex.obs)
        o = ex.call_body(f, [doc], State({}, {}))
        its = ()
        for g, v, s in o.rets:
            fv = ex.freeze(v[0], s.mem, set(s.mem))
            its += gitems(AND(*g), fv.items if isinstance(fv, ListV) else self.bad(fv))
        return doc, its, o, ex.obs[n0:]

    def check_rule(self, rule, go):
        """obligations: the function go satisfies the contract of the rule"""
        ex = self.ex
        name = '%s (%s)' % (rule, go.split('/')[-1])
        try:
            doc, its, o, safety = self.run_rule(go)
            ft = ex.funcs[go]['params'][0][1]
            hyps = [NOT(doc == null)]
            obs = [prove.Ob('%s: returns on every path' % name, facts.prove(hyps, OR(*[AND(*g) for g, v, s in o.rets])), 0)]
            code = prove.code_contribs(its, fields=FIELDS)
            sp = prove.spec_contribs(LC.RULES[rule](self.S, self.wrap(doc, ft)))
            obs += prove.multiset(name, code, sp, hyps)
            for c in code:
                c.msg = externs_text(c.msg)
            obs += self.names(name, code, sp, hyps)
            return {'ok': all(x.result == 'proved' for x in obs), 'why': None, 'obs': cmpproof.dump_obs(obs)}
        except Unsupported as e:
            return {'ok': False, 'why': 'unsupported: %s' % e, 'obs': []}

    def names(self, name, code, sp, hyps):
        """the message of every error names the element"""
        obs = []
        by = {}
        for s in sp:
            by.setdefault((s.type, s.key()), []).append(s)
        for c in code:
            ss = by.get((c.type, c.key()), [])
            h = list(hyps) + c.rng() + [c.guard]
            t0 = time.time()
            goal = OR(*[AND(s.guard, EQ(c.level, s.level), EQ(c.path, s.path), self.contains(c.msg, s.spec)) for s in ss])
            obs.append(prove.Ob('%s: the message names the element' % name, facts.prove(h, goal), time.time() - t0))
        return obs


def externs_text(v):
    import externs
    return externs.err_text(v)


def attempt(v, rule, go):
    t0 = time.time()
    q0 = dict(facts.STATS)
    r = v.check_rule(rule, go)
    r.update(time=time.time() - t0, stats={k: facts.STATS[k] - q0[k] for k in q0}, inlined=set(v.ex.used),
             trusted=set(v.ex.trusted), notes=v.notes, used=set())
    return r


def verdict(rep, whys):
    rs = [o[1] for o in rep['obligations']]
    if whys:
        rep['notes'] += whys
        return 'undecided', rep
    if not rs:
        return 'undecided', rep
    if all(r == 'proved' for r in rs):
        return 'proved', rep
    return ('refuted' if 'refuted' in rs else 'undecided'), rep


def run_rules(ssa, prop, deadline):
    t0 = time.time()
    v = Lint(ssa, prop)
    rep = {'functions': {}, 'obligations': [], 'notes': v.notes, 'used': set(), 'trusted': set()}
    if v.table is None:
        rep['notes'].append('the rule table is not a list of constants')
        return 'undecided', rep
    v.do_pure()
    want = LC.OF[prop]
    tab = {}
    for n, go in v.table:
        tab.setdefault(n, go)
    miss = [n for n in want if n not in tab]
    rep['obligations'] += [('the rule table has %s' % n, 'refuted' if n in miss else 'proved', 0, '', ()) for n in want]
    got = pool.run([(n, lambda n=n: attempt(v, n, tab[n])) for n in want if n in tab],
                   timeout=max(1, min(100, deadline - time.time())))
    whys = []
    collect(rep, got, whys, tab)
    rep['time'] = time.time() - t0
    for go, fn, o in v.pure_obs:
        if fn == 'tname':
            rep['obligations'].append((o.name, o.result, o.time, o.detail, ()))
    return verdict(rep, whys)


def collect(rep, got, whys, tab):
    for n, (good, r) in got.items():
        if not good:
            r = {'ok': False, 'why': r, 'obs': [], 'time': 0, 'stats': {}, 'inlined': set(), 'trusted': set(), 'notes': []}
        fn = tab.get(n, n)
        rep['functions'][fn.replace(MOD, '')] = {k: r.get(k) for k in ('ok', 'why', 'time', 'obs', 'stats')}
        rep['obligations'] += [tuple(o) for o in r['obs']]
        rep['used'] |= r['inlined']
        rep['trusted'] |= r['trusted']
        rep['notes'] += r['notes'] if r['notes'] is not rep['notes'] else []
        if r['why']:
            whys.append('%s: %s' % (n, r['why']))


RUN = {'L01': run_rules, 'L02': run_rules, 'L03': run_rules, 'L04': run_rules}


# the functions on strings that the contracts of a property speak about
SPOKEN = {'L02': {'upper', 'sbyte'}, 'L03': {'hassuffix'}, 'L04': {'hassuffix'}, 'L05': {'trim', 'eqfold'}, 'L06': {'eqfold'},
          'L07': {'split', 'trim', 'hasprefix'}, 'L08': {'slt'}}


def run(ssa, prop, deadline):
    facts.ASCII[0] = prop in ('L05', 'L06')
    facts.WEAK_OK = SPOKEN.get(prop, set())
    return RUN[prop](ssa, prop, deadline)


if __name__ == '__main__':
    ssa = json.load(open(sys.argv[1]))
    for p in sys.argv[2:]:
        t = time.time()
        vd, rep = run(ssa, p, time.time() + 300)
        print(p, vd, '%.1fs' % (time.time() - t), len(rep['obligations']), 'obligations',
              sum(1 for o in rep['obligations'] if o[1] == 'proved'), 'proved', rep['notes'])
        for o in [o for o in rep['obligations'] if o[1] != 'proved'][:12]:
            print('  ', o)

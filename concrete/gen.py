"""Random schema documents, and pairs of related documents, for the concrete side of the checks."""
import copy
import random

KINDS = ['OBJECT', 'INTERFACE', 'INPUT_OBJECT', 'ENUM', 'UNION', 'SCALAR']
LOCS = ['FIELD', 'OBJECT', 'FIELD_DEFINITION', 'ENUM', 'INTERFACE', 'QUERY', 'SCHEMA']


class Gen:
    def __init__(self, rng, words=(), dup=False, ints=(), fresh=None):
        self.r = rng
        fresh = fresh or {}
        self.words = [w for w in words if w.isidentifier() and w.isascii()]
        self.texts = list(words)
        self.ints = sorted(set(k for k in ints if 1 < k <= 5000))     # numbers the code mentions
        self.fresh = sorted(set(k for k in fresh.get('sizes', ()) if 3 < k <= 5000))     # those the unmodified code does not mention
        self.freshwords = [w for w in fresh.get('words', ()) if w.isidentifier() and w.isascii()]
        self.dup = dup          # may names collide where GraphQL forbids it?
        self.pools()

    def pools(self):
        r = self.r

        def pool(base, n):
            p = r.sample(base, min(n, len(base)))
            if self.words and r.random() < 0.5:
                p += r.sample(self.words, min(len(self.words), 3))
            if self.freshwords and r.random() < 0.5:
                p += r.sample(self.freshwords, min(len(self.freshwords), 2))
            return list(dict.fromkeys(p))
        self.tn = pool(['A', 'B', 'C', 'Abc', 'Query', 'Mutation', 'User', 'UserConnection', 'a', 'z', 'PageInfo', 'Int', 'String'], 5)
        self.fn = pool(['a', 'b', 'c', 'id', 'A', 'name', 'first', 'last', 'after', 'before', 'edges', 'pageInfo', '_x', 'aB1'], 5)
        self.an = pool(['a', 'b', 'x', 'first', 'last', 'after', 'before', 'id', 'reason'], 4)
        self.vn = pool(['A', 'B', 'C', 'a', 'RED', 'Red', 'X_1'], 4)
        self.dn = pool(['x', 'y', 'z', 'auth', 'key'], 3) + ['deprecated']
        self.ds = pool(['d', 'D', 'd2', 'another one', 'Deprecated', ' d', 'two\nlines', 'quo"te', 'ünï', '#lint-disable x', '100%', '%s %d %!', 'a\tb', 'back\\slash', '0', 'null'], 3) + ['']
        self.big = r.random() < 0.1
        self.size, self.dim, self.k = None, None, 0
        if r.random() < 0.05:       # names whose concatenations coincide
            l = ['A', 'B', 'AB', 'BA', 'AA', 'BB', 'ABA', 'AAB', 'C', 'BC', 'CA']
            self.tn, self.fn, self.an, self.vn = (r.sample(l, 6) for _ in range(4))
        if r.random() < 0.25:       # names close to names with a meaning, or to one another
            for l, base in ((self.tn, self.tn), (self.fn, self.fn), (self.an, ['reason'] + self.an), (self.vn, self.vn), (self.dn, ['deprecated'] * 3 + self.dn)):
                if r.random() < 0.4:
                    x = self.twist(r.choice(base))
                    if x not in l and x not in ('true', 'false', 'null'):
                        l.append(x)
        if r.random() < (0.4 if self.fresh else 0.2):
            self.dimension()
        x = r.random()
        self.kinds = KINDS if x < 0.3 else [r.choice(KINDS)] if x < 0.75 else r.sample(KINDS, 2)
        self.deep = r.random()
        self.only = r.choice([None, None, None, 'type', 'default', 'desc', 'dirs', 'args', 'dep', 'list'])
        self.fancy = r.random()
        self.pext = r.choice([0, 0.2, 0.7])
        self.pdir = r.choice([0, 0.15, 0.5])
        self.pdep = r.choice([0.1, 0.5])
        self.pdesc = r.choice([0.1, 0.5, 0.9])
        self.parg = r.choice([0.1, 0.6])

    DIMS = {'members': 40, 'desc': 3000, 'name': 300, 'tdepth': 40, 'vdepth': 40, 'vlen': 3000, 'dirs': 40, 'args': 40, 'files': 30,
            'lines': 5000, 'defs': 40, 'exts': 30, 'indent': 300}

    def dimension(self):
        """make one dimension of the document about as large as a number the code mentions"""
        r = self.r
        self.dim = r.choice(sorted(self.DIMS) + ['members'] * 3)
        cap = self.DIMS[self.dim]
        if self.fresh and r.random() < 0.6:
            cap = max(cap, 300)
            ks = [k for k in self.fresh if k <= cap]
        else:
            ks = []
        ks = ks or [k for k in self.ints if k <= cap]
        self.k = max(2, (r.choice(ks) if ks and r.random() < 0.8 else r.choice([k for k in (5, 8, 12, 20, 40, 100, 256, 1000) if k <= cap])) + r.randint(-1, 2))
        if self.dim == 'members':
            self.size, self.big = self.k, True
            for l in (self.tn, self.fn, self.an, self.vn):
                l += self.near(l, self.size + 4)
        elif self.dim == 'defs':
            self.tn += self.near(self.tn, self.k + 2)
        elif self.dim == 'args':
            self.an += self.near(self.an, self.k + 2)
        elif self.dim == 'dirs':
            self.dn = self.near(self.dn, self.k + 2) + self.dn
        elif self.dim == 'desc':
            x = ''.join(r.choice('abc d') for _ in range(self.k)).strip() or 'a'
            self.ds = [x, x + 'x', x[:-1] + 'y', 'x' + x[1:], x[:-1], ''] + self.ds[:1]
        elif self.dim == 'name':
            for l in (self.tn, self.fn, self.an, self.vn, self.dn):
                x = r.choice('aAbX') * self.k
                l[:0] = [x] + r.sample([x[:-1] + 'y', x + 'z', 'q' + x[1:], x + '_', x[:-1] + '_', x + '9', x + 'A', '_' + x, 'a' + x[1:] + '_'], r.randint(1, 4))

    def twist(self, x):
        """a name close to x"""
        r = self.r
        i = r.randrange(len(x))
        return r.choice(['_' + x, x + '_', x + 's', x + '1', x[:-1] or 'q', x[1:] if x[1:].isidentifier() else 'q', x[:i] + x[i].swapcase() + x[i + 1:], x.lower(), x.upper(), x.title().replace('_', ''),
                         x[:i] + x[i] + x[i:], x[:i] + '_' + x[i:], 'x' + x, x + x, '__' + x, x[::-1] if x[::-1].isidentifier() else x])

    def near(self, pool, n):
        """n names, many of them one character away from one another"""
        r, out = self.r, []
        while len(out) < n:
            x = r.choice(pool + out)
            i = r.randrange(len(x) + 1)
            x = r.choice([x + str(len(out)), x[:i].swapcase() + x[i:], x.swapcase(), x[:1].swapcase() + x[1:], x[:i] + r.choice('abXY_') + x[i:], 'M%d' % len(out)])
            if len(x) > 24 or not x.isidentifier() or x in pool or x in out:
                continue
            out.append(x)
        return out

    def many(self, pool, hi):
        """members of a definition: normally a few; sometimes about as many as a number the code mentions"""
        if self.size and self.r.random() < 0.6:
            return self.some(pool, min(len(pool), max(0, self.size - 2)), self.size + 2)
        if self.dim and len(pool) > 12:
            pool = self.r.sample(pool, 12)
        return self.some(pool, 0, hi)

    def some(self, pool, lo=0, hi=4):
        hi = max(0, min(hi, len(pool)))
        n = self.r.randint(max(0, min(lo, hi)), hi)
        l = self.r.sample(pool, n)
        if self.dup and l and self.r.random() < 0.3:
            l.append(self.r.choice(l))
        return l

    def desc(self):
        return self.r.choice(self.ds) if self.r.random() < self.pdesc else ''

    def type(self, depth=None):
        r = self.r
        if self.dim == 'tdepth' and depth is None and r.random() < 0.5:
            t = self.type(4)
            for _ in range(max(0, self.k + r.randint(-2, 1))):
                t = {'el': t, 'nn': r.random() < 0.3}
            return t
        if r.random() < (0.35 if depth is None else 0.4) and (depth or 0) < 4:
            return {'el': self.type((depth or 0) + 1), 'nn': r.random() < 0.4}
        return {'n': r.choice(self.tn + ['Int', 'String', 'Boolean', 'PageInfo']), 'nn': r.random() < 0.4}

    def revalue(self, v):
        """a value that differs little from v"""
        r = self.r
        if v is None or r.random() < 0.4:
            return self.value()
        k = r.randrange(9)
        if k == 0 and v[:1] == '"' and v[:3] != '"""':
            return r.choice(['"""' + v[1:-1] + '"""' if '\\' not in v and v != '""' else v, v[1:-1] if v[1:-1].isidentifier() else v, v[:-1] + ' "', '" ' + v[1:]])
        if k == 1 and v[:1] != '"' and '"' not in v:
            return '"' + v + '"'
        if k == 2:
            return '[' + v + ']'
        if k == 3 and v[:1] == '[' and v[-1:] == ']' and ']' not in v[1:-1]:
            l = v[1:-1].split(', ')
            r.shuffle(l)
            return '[' + ', '.join(l + l[:r.randrange(2)]) + ']'
        if k == 4 and v[:1] in '[{' and '"' not in v:
            return v.replace('1', '2', 1) if '1' in v else v.replace('a', 'b', 1)
        if k == 5 and '\\' not in v and '\n' not in v and v.swapcase() not in ('TRUE', 'FALSE', 'NULL'):
            return v.swapcase() if 'E' not in v.upper() else v
        if k == 6 and v.isdigit():
            return r.choice([v + '0', v + '.0', '-' + v, v + 'e0'])
        if k == 7 and v[:1] == '"' and v[:3] != '"""':
            return v[:-1] + r.choice('ab0 %') + '"'
        return self.value()

    def redesc(self, d):
        r = self.r
        if not d or r.random() < 0.5:
            return self.desc()
        return r.choice([d + ' ', ' ' + d, d.swapcase(), d + '.', d[:-1], d + d, d.replace(' ', '  '), d.capitalize(), d.rstrip('.') + '\n' + d])

    def value(self, depth=0):
        r = self.r
        if depth == 0 and self.dim in ('vlen', 'vdepth') and r.random() < 0.5:
            n, y = max(0, self.k + r.randint(-2, 1)), r.random()
            if self.dim == 'vdepth':
                a, b = ('[', ']') if y < 0.5 else ('{a: ', '}')
                return a * n + self.value(2) + b * n
            if y < 0.4:
                return '"' + 'a' * n + r.choice(['', 'b', 'c']) + '"'
            if y < 0.7:
                return str(n)
            return '[' + ', '.join([r.choice(['1', '2']) if r.random() < 0.1 else '1' for _ in range(min(n, 60))]) + ']'
        k = r.randrange(9 if depth < 2 else 7)
        if k == 0:
            return r.choice(['0', '1', '2', '-1', '10', '01'[1:], '11', '-10'])
        if k == 1:
            return r.choice(['1.0', '1.5', '1e0', '1.50', '0.0', '-0.0'])
        if k == 2:
            return r.choice(['"1"', '"a"', '"b"', '""', '"A"', '"null"', '"a b"', '"a\\"b"', '"a\\nb"', '"100%"', '"%d%s"', '"true"', '"ä"', '"a,b"', '"[1]"', '" a"'])
        if k == 3:
            return r.choice(['true', 'false'])
        if k == 4:
            return 'null'
        if k == 5:
            return r.choice(['A', 'B', 'RED', 'null_'])
        if k == 6:
            return r.choice(['"""a"""', '"""\nblock\n"""'])
        if k == 7:
            return '[' + ', '.join(self.value(depth + 1) for _ in range(r.randrange(3))) + ']'
        return '{' + ', '.join('%s: %s' % (n, self.value(depth + 1)) for n in self.some(['a', 'b', 'c'], 0, 2)) + '}'

    def depargs(self, p=0.6):
        """arguments of @deprecated: a reason, rarely something else (any directive may be applied with any argument)"""
        r = self.r
        out = []
        if r.random() < p:
            out.append({'name': 'reason', 'v': r.choice(['"r1"', '"r2"', '""', '"No longer supported"']) if r.random() < 0.9 else self.value()})
        if r.random() < 0.12:
            out.insert(r.choice([0, len(out)]), {'name': r.choice(['why', 'since', 'a']), 'v': self.value()})
        return out

    def dirs(self, p=None):
        r = self.r
        out = []
        if r.random() < self.pdep:
            if r.random() < 0.3:
                out.append({'name': 'deprecated', 'args': self.depargs()})
        if r.random() < (self.pdir if p is None else p):
            many = self.dim == 'dirs' and r.random() < 0.6
            for n in self.some(self.dn, self.k - 2, self.k + 2) if many and r.random() < 0.6 else \
                    [r.choice(self.dn) for _ in range(self.k if many else r.randint(1, 3))]:
                if n == 'deprecated':
                    continue
                out.append({'name': n, 'args': [{'name': a, 'v': self.value()} for a in self.some(self.an, 0, 2)]})
        r.shuffle(out)
        return out

    def argnames(self):
        if self.dim == 'args' and self.r.random() < 0.5:
            return self.some(self.an, min(len(self.an), self.k - 1), self.k + 1)
        return self.some(self.an, 0, 3)

    def arg(self, n):
        return {'name': n, 'type': self.type(), 'desc': self.desc(), 'default': self.value() if self.r.random() < 0.3 else None,
                'dirs': self.dirs(0.05)}

    def field(self, n, inp):
        return {'name': n, 'type': self.type(), 'desc': self.desc(), 'dirs': self.dirs(),
                'args': [] if inp else [self.arg(a) for a in self.argnames()] if self.r.random() < self.parg else [],
                'default': self.value() if inp and self.r.random() < 0.4 else None}

    def ev(self, n):
        return {'name': n, 'desc': self.desc(), 'dirs': self.dirs()}

    def tdef(self, name, ext=False, kind=None):
        r = self.r
        k = kind or r.choice(self.kinds)
        d = {'kind': k, 'name': name, 'desc': '' if ext else self.desc(), 'dirs': self.dirs(), 'ext': ext,
             'fields': [], 'values': [], 'types': [], 'ifs': []}
        self.members(d)
        return d

    def members(self, d):
        k = d['kind']
        d['fields'], d['values'], d['types'], d['ifs'] = [], [], [], []
        hi = 9 if self.big else 4
        if k in ('OBJECT', 'INTERFACE', 'INPUT_OBJECT'):
            d['fields'] = [self.field(n, k == 'INPUT_OBJECT') for n in self.many(self.fn, hi)]
        if k == 'OBJECT':
            d['ifs'] = self.some(self.tn, 0, 3) if self.r.random() < 0.5 else []
        if k == 'ENUM':
            d['values'] = [self.ev(n) for n in self.many(self.vn, hi)]
        if k == 'UNION':
            d['types'] = self.many(self.tn, hi)

    def ddef(self, name):
        r = self.r
        return {'name': name, 'desc': self.desc(), 'rep': r.random() < 0.4, 'locs': r.sample(LOCS, r.randint(1, 3)),
                'args': [self.arg(a) for a in self.argnames()]}

    def ops(self):
        return [{'op': o, 't': self.r.choice(self.tn)} for o in self.some(['query', 'mutation', 'subscription'], 1, 3)]

    def blocks(self):
        r = self.r
        if r.random() < 0.6:
            return []
        ops = self.ops()
        n = r.choice([1, 1, 2, 3])
        bs = [[] for _ in range(n)]
        for o in ops:
            r.choice(bs).append(o)
        return [{'ops': b, 'dirs': []} for b in bs if b]

    def doc(self):
        r = self.r
        defs, dd = [], []
        for n in self.some(self.tn, self.k - 2, self.k + 2) if self.dim == 'defs' and self.k - 2 <= len(self.tn) else \
                self.some(self.tn, 0, 9 if self.big and not self.size else 4):
            defs.append(self.tdef(n))
        have = {}
        seen = {}
        for d in defs:
            have[d['name']] = d['kind']
        exts = []
        for n in self.tn[:8]:
            if r.random() < self.pext:
                k = have.get(n) if r.random() < 0.8 and n in have else r.choice(self.kinds)
                es = [self.tdef(n, True, k) for _ in range(self.k if self.dim == 'exts' and r.random() < 0.5 else r.choice([1, 1, 2, 3]))]
                if not self.dup:
                    self.uniq(es)
                exts += es
        for d in exts:
            defs.insert(r.randint(0, len(defs)), d)
        if r.random() < 0.5:
            dd = [self.ddef(n) for n in self.some(self.dn, 0, 3)]
        return {'defs': defs, 'dirs': dd, 'schema': self.blocks(), 'sext': self.blocks()}

    def uniq(self, es):
        """members of several extensions of one type must not collide"""
        for key in ('fields', 'values'):
            s = set()
            for e in es:
                e[key] = [x for x in e[key] if not (x['name'] in s or s.add(x['name']))]
        for key in ('types', 'ifs'):
            s = set()
            for e in es:
                e[key] = [x for x in e[key] if not (x in s or s.add(x))]

    # -------------------------------------------------------------- related document
    def mutate(self, doc, n=None):
        r = self.r
        d = copy.deepcopy(doc)
        n = r.choice([0, 1, 1, 2, 3, 5, 9]) if n is None else n
        for _ in range(n):
            self.edit(d)
        if not self.dup:
            self.repair(d)
        return d

    def repair(self, d):
        seen = set()
        d['defs'] = [x for x in d['defs'] if x['ext'] or not (x['name'] in seen or seen.add(x['name']))]
        groups = {}
        for x in d['defs']:
            if x['ext']:
                groups.setdefault(x['name'], []).append(x)
        for es in groups.values():
            self.uniq(es)
            for e in es:
                e['kind'] = es[0]['kind']
        for x in d['defs']:
            if not x['ext']:
                self.uniq([x])
            for f in x['fields']:
                s = set()
                f['args'] = [a for a in f['args'] if not (a['name'] in s or s.add(a['name']))]
        s = set()
        d['dirs'] = [x for x in d['dirs'] if not (x['name'] in s or s.add(x['name']))]
        for x in d['dirs']:
            s = set()
            x['args'] = [a for a in x['args'] if not (a['name'] in s or s.add(a['name']))]
        for key in ('schema', 'sext'):
            s = set()
            for b in d[key]:
                b['ops'] = [o for o in b['ops'] if not (o['op'] in s or s.add(o['op']))]
            d[key] = [b for b in d[key] if b['ops']]

    def listedit(self, l, make, names):
        """edit a list of named things"""
        r = self.r
        k = r.randrange(6)
        nm = lambda e: e['name'] if isinstance(e, dict) else e
        if len(l) > 1 and r.random() < 0.1:     # two names with a character moved from one to the other
            i, j = r.sample(range(len(l)), 2)
            if r.random() < 0.7:                # neighbours in alphabetical order
                o = sorted(range(len(l)), key=lambda q: nm(l[q]))
                q = r.randrange(len(l) - 1)
                i, j = o[q], o[q + 1]
            x, y = nm(l[i]), nm(l[j])
            x, y = (x + y[:1], y[1:]) if r.random() < 0.5 else (x[:-1], x[-1:] + y)
            if x.isidentifier() and y.isidentifier() and x != y and not {x, y} & {nm(e) for e in l}:
                for q, n in ((i, x), (j, y)):
                    if isinstance(l[q], dict):
                        l[q]['name'] = n
                    else:
                        l[q] = n
        elif k == 5 and l:        # a name that differs little
            i = r.randrange(len(l))
            n = l[i]['name'] if isinstance(l[i], dict) else l[i]
            n = r.choice([n.swapcase(), n[:1].swapcase() + n[1:], n + '_', n + 's', n[:-1] or n])
            if n not in [x['name'] if isinstance(x, dict) else x for x in l]:
                if isinstance(l[i], dict):
                    l[i]['name'] = n
                else:
                    l[i] = n
        elif k == 0 and l:
            del l[r.randrange(len(l))]
        elif k == 1:
            free = [n for n in names if n not in [x['name'] if isinstance(x, dict) else x for x in l]]
            if free:
                l.insert(r.randint(0, len(l)), make(r.choice(free)))
        elif k == 2:
            r.shuffle(l)
        elif k == 3 and l:
            i = r.randrange(len(l))
            l[i] = make(l[i]['name'] if isinstance(l[i], dict) else r.choice(names))
        elif k == 4 and l:
            l.reverse()

    def edit(self, d):
        r = self.r
        k = r.randrange(12)
        if self.deep > 0.4 and d['defs']:
            k = 11
        if k == 0:
            self.listedit(d['defs'], lambda n: self.tdef(n), self.tn)
        elif k == 1:
            self.listedit(d['dirs'], self.ddef, self.dn)
        elif k == 2:
            d[r.choice(['schema', 'sext'])] = self.blocks()
        elif k == 3 and d['dirs']:
            x = r.choice(d['dirs'])
            j = r.randrange(5)
            if j == 0:
                x['rep'] = not x['rep']
            elif j == 1:
                x['locs'] = r.sample(LOCS, r.randint(1, 3))
            elif j == 2:
                x['desc'] = self.redesc(x['desc'])
            elif j == 3:
                self.listedit(x['args'], self.arg, self.an)
            elif x['args']:
                self.argedit(r.choice(x['args']))
        elif k == 4:
            ops = [o for b in d['schema'] + d['sext'] for o in b['ops']]
            if ops:
                r.choice(ops)['t'] = r.choice(self.tn)
        elif d['defs']:
            self.typeedit(r.choice(d['defs']))

    def typeedit(self, x):
        r = self.r
        k = r.randrange(9)
        inp = x['kind'] == 'INPUT_OBJECT'
        if k == 0 and not x['ext']:
            x['desc'] = self.redesc(x['desc'])
        elif k == 1:
            x['dirs'] = self.dirs(0.8)
        elif k == 2:
            self.diredit(x['dirs'])
        elif k == 3 and not x['ext']:
            x['kind'] = r.choice(KINDS)
            if r.random() < 0.7 or x['kind'] in ('ENUM', 'UNION', 'SCALAR', 'INPUT_OBJECT') or inp:
                self.members(x)
        elif x['kind'] in ('OBJECT', 'INTERFACE', 'INPUT_OBJECT'):
            if k == 4:
                self.listedit(x['fields'], lambda n: self.field(n, inp), self.fn)
            elif k == 5 and x['kind'] == 'OBJECT':
                self.listedit(x['ifs'], lambda n: n, self.tn)
            elif x['fields']:
                self.fieldedit(r.choice(x['fields']), inp)
        elif x['kind'] == 'ENUM':
            if k < 6:
                self.listedit(x['values'], self.ev, self.vn)
            elif x['values']:
                v = r.choice(x['values'])
                if r.random() < 0.4:
                    v['desc'] = self.redesc(v['desc'])
                else:
                    self.diredit(v['dirs'])
        elif x['kind'] == 'UNION':
            self.listedit(x['types'], lambda n: n, self.tn)

    def fieldedit(self, f, inp):
        r = self.r
        k = r.randrange(7)
        if self.only:
            k = {'type': 1, 'default': 4, 'desc': 0, 'dirs': 3, 'args': 5, 'dep': 3, 'list': r.randrange(7)}[self.only]
            if self.only == 'args' and f['args'] and r.random() < 0.8:
                k = 6
        if k == 0:
            f['desc'] = self.redesc(f['desc'])
        elif k in (1, 2):
            f['type'] = self.typechange(f['type'])
        elif k == 3:
            self.diredit(f['dirs'])
        elif k == 4 and inp:
            f['default'] = self.revalue(f['default']) if r.random() < 0.75 else None
        elif k == 5 or not f['args']:
            if not inp:
                self.listedit(f['args'], self.arg, self.an)
        elif f['args']:
            self.argedit(r.choice(f['args']))

    def argedit(self, a):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            a['desc'] = self.redesc(a['desc'])
        elif k == 1:
            a['default'] = self.revalue(a['default']) if r.random() < 0.75 else None
        elif k == 2:
            a['type'] = self.typechange(a['type'])
        else:
            self.diredit(a['dirs'])

    def typechange(self, t):
        r = self.r
        t = copy.deepcopy(t)
        k = r.randrange(6)
        nodes = []
        x = t
        while True:
            nodes.append(x)
            if 'el' not in x:
                break
            x = x['el']
        if k == 0:
            return self.type()
        if k == 1:
            return {'el': t, 'nn': r.random() < 0.3}
        if k == 2 and 'el' in t:
            return t['el']
        if k == 3:
            n = nodes[-1]['n']
            nodes[-1]['n'] = r.choice(self.tn) if r.random() < 0.6 else r.choice([n.swapcase(), n + 's', n[:-1] or n, n[:1].swapcase() + n[1:]])
            return t
        for _ in range(r.choice([1, 1, 2])):
            x = r.choice(nodes)
            x['nn'] = not x['nn']
        return t

    def diredit(self, l):
        r = self.r
        k = r.randrange(8)
        dep = [x for x in l if x['name'] == 'deprecated']
        if k == 0:
            if dep:
                l.remove(dep[0])
            else:
                l.append({'name': 'deprecated', 'args': self.depargs()})
        elif k == 1 and dep:
            dep[0]['args'] = self.depargs(0.8)
        elif k == 2 and l:
            del l[r.randrange(len(l))]
        elif k == 3:
            r.shuffle(l)
        elif k == 4 and [x for x in l if x['args']]:
            x = r.choice([x for x in l if x['args']])
            y = r.choice(x['args'])
            y['v'] = self.revalue(y['v']) if x['name'] != 'deprecated' else r.choice(['"r1"', '"r2"'])
        elif k == 5 and [x for x in l if x['name'] != 'deprecated']:
            x = r.choice([x for x in l if x['name'] != 'deprecated'])
            self.listedit(x['args'], lambda n: {'name': n, 'v': self.value()}, self.an)
        elif k == 6 and [x for x in l if x['name'] != 'deprecated']:
            l.append(copy.deepcopy(r.choice([x for x in l if x['name'] != 'deprecated'])))
        else:
            l.extend(x for x in self.dirs(0.7) if x['name'] != 'deprecated')

    # -------------------------------------------------------------- text
    def pair(self):
        r = self.r
        self.pools()
        a = self.doc()
        if not self.dup:
            self.repair(a)
        x = r.random()
        if x < 0.1:
            b = self.doc()
            if not self.dup:
                self.repair(b)
        else:
            b = self.mutate(a)
        return self.text(a), self.text(b, 'new')

    def text(self, d, tag='old'):
        r = self.r
        parts = []
        for x in d['defs']:
            parts.append(self.tdef_text(x))
        for x in d['dirs']:
            parts.append('%sdirective @%s%s%s on %s' % (self.dtext(x['desc'], ''), x['name'], self.args_text(x['args']),
                                                        ' repeatable' if x['rep'] else '', ' | '.join(x['locs'])))
        for b in d['schema']:
            parts.append('schema {%s}' % ' '.join('%s: %s' % (o['op'], o['t']) for o in b['ops']))
        for b in d['sext']:
            parts.append('extend schema {%s}' % ' '.join('%s: %s' % (o['op'], o['t']) for o in b['ops']))
        n = self.k if self.dim == 'files' else r.choice([1, 1, 1, 2, 3])
        ind = ' ' * self.k if self.dim == 'indent' else ''
        nl = '\n' * (self.k if self.dim == 'lines' else r.randrange(3))
        files = [[] for _ in range(n)]
        for p in parts:
            files[r.randrange(n)].append(p)
        out = []
        for i, f in enumerate(files):
            out.append({'name': '%s%d%s.graphql' % (tag, i, r.choice(['%d', ' x', 'é', '%', '%s']) if r.random() < 0.04 else ''), 'text': nl + '\n'.join(ind + t for t in f) + '\n'})
            nl = '\n' * r.randrange(3)
        return out

    def dtext(self, s, ind):
        if not s:
            return ''
        if '\n' in s or self.r.random() < 0.2:
            return ind + '"""' + s.replace('"""', '') + '"""\n' + ind if not s.endswith('"') else ind + '"""' + s + ' """\n' + ind
        return ind + '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '" '

    def type_text(self, t):
        return ('[%s]' % self.type_text(t['el']) if 'el' in t else t['n']) + ('!' if t['nn'] else '')

    def dirs_text(self, ds):
        return ''.join(' @' + d['name'] + ('(' + ', '.join('%s: %s' % (a['name'], a['v']) for a in d['args']) + ')' if d['args'] else '')
                       for d in ds)

    def args_text(self, args):
        if not args:
            return ''
        return '(' + ', '.join('%s%s: %s%s%s' % (self.dtext(a['desc'], ''), a['name'], self.type_text(a['type']),
                                                 ' = ' + a['default'] if a['default'] is not None else '',
                                                 self.dirs_text(a['dirs'])) for a in args) + ')'

    def tdef_text(self, x):
        kw = {'OBJECT': 'type', 'INTERFACE': 'interface', 'INPUT_OBJECT': 'input', 'ENUM': 'enum', 'UNION': 'union',
              'SCALAR': 'scalar'}[x['kind']]
        s = ('extend ' if x['ext'] else self.dtext(x['desc'], '')) + kw + ' ' + x['name']
        if x['ifs'] and x['kind'] == 'OBJECT':
            s += ' implements ' + ' & '.join(x['ifs'])
        s += self.dirs_text(x['dirs'])
        nl = '\n' if self.r.random() < 0.8 else ' '
        if x['kind'] in ('OBJECT', 'INTERFACE', 'INPUT_OBJECT') and x['fields']:
            s += ' {' + nl
            for f in x['fields']:
                s += '  %s%s%s: %s%s%s%s' % (self.dtext(f['desc'], '  '), f['name'],
                                             self.args_text(f['args']) if x['kind'] != 'INPUT_OBJECT' else '',
                                             self.type_text(f['type']),
                                             ' = ' + f['default'] if f['default'] is not None and x['kind'] == 'INPUT_OBJECT' else '',
                                             self.dirs_text(f['dirs']), nl)
            s += '}'
        elif x['kind'] == 'ENUM' and x['values']:
            s += ' {' + nl
            for v in x['values']:
                s += '  %s%s%s%s' % (self.dtext(v['desc'], '  '), v['name'], self.dirs_text(v['dirs']), nl)
            s += '}'
        elif x['kind'] == 'UNION' and x['types']:
            s += ' = ' + ' | '.join(x['types'])
        elif x['ext'] and not x['dirs'] and not x['ifs']:
            s += ' @ext'
        return s

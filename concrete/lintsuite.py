"""Suites for the lint properties: the rules (L01-L04) in process, and gql lint as a command (L05-L09)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))
sys.path.insert(0, HERE)
import gen
import run as R
import spec
import lint as LC
from collections import Counter

CON = spec.Con()


def shrink_mod():
    import search
    return search


class LintGen(gen.Gen):
    """documents in which the lint rules have something to say"""

    def pools(self):
        gen.Gen.pools(self)
        r = self.r
        self.relay = r.random() < 0.5
        if self.relay:
            self.tn = r.sample(['UserConnection', 'Connection', 'ConnectionX', 'PageInfo', 'xConnection', 'User', 'aConnection',
                                'connection', 'UserEdge', 'Pageinfo'], 5) + [r.choice(['A', 'Int', 'b', 'Z9'])]
            self.fn = r.sample(['edges', 'pageInfo', 'a', 'node', 'Edges', 'PageInfo', 'pageinfo', 'edges2'], 5)
            self.fn = list(dict.fromkeys(self.fn + ['edges', 'pageInfo']))
            self.an = r.sample(['first', 'last', 'after', 'before', 'x', 'First', 'firs'], 5)
            for l, base, n in ((self.tn, ['UserConnection', 'Connection', 'PageInfo'], 1), (self.fn, ['edges', 'pageInfo'], 1),
                               (self.an, ['first', 'last', 'after', 'before'], r.choice([0, 1, 3]))):
                for _ in range(n):
                    if r.random() < 0.4:
                        x = self.twist(r.choice(base))
                        if x not in l:
                            l.append(x)
            if self.dim == 'members':
                for l in r.choice([(self.fn,), (self.an,), (self.fn, self.an)]):
                    l += self.near(l, min(self.size, 60) + 2)
            self.kinds = r.choice([['OBJECT'], ['OBJECT', 'INTERFACE'], gen.KINDS])
            self.parg = r.choice([0.5, 0.9])
        else:
            self.tn = list(dict.fromkeys(self.tn + r.sample(['a', 'aB', 'z', 'zz', 'm', '_a', '__x', 'A', 'Z', 'b1', 'T_1'], 3)))
            self.fn = list(dict.fromkeys(self.fn + r.sample(['aA0', 'a_b', 'A', '_', 'a0', 'z', 'aé'.strip('é'), 'zZ9', 'a1_', 'B'], 4)))
            self.vn = list(dict.fromkeys(self.vn + r.sample(['A_B', 'a_B', 'Z', 'z', '_', 'A1', 'a1', '_a', 'A_b'], 3)))
            for l in (self.tn, self.fn, self.vn):
                if r.random() < 0.15:
                    x = self.twist(r.choice(l))
                    if x not in l:
                        l.append(x)
        self.pext = r.choice([0, 0.2, 0.7])

    def some(self, pool, lo=0, hi=4):
        if self.relay and pool in (self.an, self.fn) and self.r.random() < 0.5:
            hi = len(pool)
            lo = hi - 1
        return gen.Gen.some(self, pool, lo, hi)

    def type(self, depth=None):
        r = self.r
        if self.relay and r.random() < 0.8:
            if (depth or 0) < 2 and r.random() < 0.3:
                return {'el': self.type((depth or 0) + 1), 'nn': r.random() < 0.4}
            return {'n': r.choice(['Int', 'Int', 'PageInfo', 'PageInfo', 'UserConnection', 'Connection', 'String', 'Connections', 'int', 'pageInfo']), 'nn': r.random() < 0.5}
        return gen.Gen.type(self, depth)

    def one(self, name='s'):
        """text of one document"""
        self.pools()
        d = self.doc()
        if not self.dup:
            self.repair(d)
        fs = self.text(d)
        return '\n'.join(f['text'] for f in fs)


class Rules:
    """each rule function on random documents, against its contract"""
    CLI = False
    RULE = ('random schema documents parsed by the real parser and linted by the real rule functions; non-trivial: a rule '
            'of the property reports at least one error; distinct: by the text of the document')

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.rng, self.prop = rng, prop
        self.g = LintGen(rng, ctx.get('words', ()), ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))

    def case(self):
        return {'op': 'lint', 'text': self.g.one()}

    def judge(self, c):
        res = self.s.ask(c)
        return judge_rules(res, LC.OF.get(self.prop, ()), self.prop)

    def key(self, c):
        return c['text']

    def smaller(self, c):
        for t in shrink_mod().shrink_text(c['text']):
            yield dict(c, text=t)

    def close(self):
        self.s.close()


def judge_rules(res, rules, prop):
    if res.get('dead'):
        return ['the process died'], False, None
    if 'err' in res:
        return [], False, 'not accepted by the parser'
    out, nt = [], False
    have = {}
    for r in res['rules']:
        have.setdefault(r['name'], r)
    for n in rules:
        r = have.get(n)
        if r is None:
            out.append('there is no rule %s' % n)
            continue
        if r.get('panic'):
            out.append('%s panics: %s' % (n, r['panic']))
            continue
        exp = LC.RULES[n](CON, spec.Node(res['doc']))
        nt = nt or bool(exp)
        E, G = {}, {}
        for s in exp:
            E.setdefault((s.type, s.level, s.path), []).append(s)
        for e in r['errs']:
            G.setdefault((e['rule'], e['line'], e['col']), []).append(e)
        for k in sorted(set(E) | set(G), key=repr):
            if len(E.get(k, ())) != len(G.get(k, ())):
                out.append('%s at %s:%s: expected %d errors, got %d' % (k[0], k[1], k[2], len(E.get(k, ())), len(G.get(k, ()))))
                continue
            # the errors of one position must name the elements, one each
            if not named([s.names for s in E[k]], [e['msg'] for e in G[k]]):
                out.append('%s at %s:%s: messages %r do not name %r' % (k[0], k[1], k[2], [e['msg'] for e in G[k]], [s.names for s in E[k]]))
    return out, nt, [(r['name'], len(r['errs'])) for r in res['rules'] if r['name'] in rules]


def named(names, msgs):
    """is there a matching of name tuples to messages containing them"""
    names = sorted(names, key=lambda n: -len(''.join(n)))

    def go(i, left):
        if i == len(names):
            return True
        for j, m in enumerate(left):
            if all(x in m for x in names[i]) and go(i + 1, left[:j] + left[j + 1:]):
                return True
        return False
    if len(names) > 6:
        return all(any(all(x in m for x in n) for m in msgs) for n in names)
    return go(0, msgs)


# ------------------------------------------------------------------------------------------------- gql lint
RULENAMES = ['type-desc', 'args-desc', 'field-desc', 'enum-caps', 'enum-desc', 'field-camel', 'type-caps', 'relay-conn-type',
             'relay-conn-args']


def comments(text):
    """[(line, text of the comment)] of a document the parser accepts, by an independent reading of the grammar"""
    out, i, n, line = [], 0, len(text), 1
    while i < n:
        c = text[i]
        if c == '\n':
            line += 1
            i += 1
        elif c == '\r':
            line += 1
            i += 2 if text[i + 1:i + 2] == '\n' else 1
        elif c == '#':
            j = i
            while j < n and (text[j] == '\t' or ord(text[j]) > 0x1f):
                j += 1
            out.append((line, text[i:j]))
            i = j
        elif text.startswith('"""', i):
            i += 3
            while i < n and not text.startswith('"""', i):
                if text.startswith('\\"""', i):
                    i += 4
                elif text[i] == '\r':
                    line += 1
                    i += 2 if text[i + 1:i + 2] == '\n' else 1
                else:
                    line += text[i] == '\n'
                    i += 1
            i += 3
        elif c == '"':
            i += 1
            while i < n and text[i] != '"':
                i += 2 if text[i] == '\\' else 1
            i += 1
        else:
            i += 1
    return out


SP = '\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def trim(s):
    return s.strip(SP)


def config(text):
    """[(command, rules, line)]"""
    out = []
    for line, c in comments(text):
        if not c.startswith('#lint-'):
            continue
        m = re.match(r'#(lint-[^\t\n\f\r ]+)([\t\n\f\r ][^\n]*)?\Z', c)
        if m and m.group(1) in ('lint-disable', 'lint-enable', 'lint-disable-line'):
            out.append((m.group(1), [trim(x) for x in (m.group(2) or '').split(',')], line))
    return out


def fold(a, b):
    return a.lower() == b.lower() if a.isascii() and b.isascii() else a.casefold().replace('ſ', 's').replace('\u212a', 'k') == b.casefold()


def suppressed(rule, line, conf):
    last = None
    for cmd, rules, l in conf:
        if not any(fold(rule, r) for r in rules):
            continue
        if cmd == 'lint-disable-line':
            if l == line:
                return True
        elif l < line:
            last = cmd
    return last == 'lint-disable'


class Cli:
    """gql lint on files in a scratch directory"""
    CLI = True
    RULE = ('gql lint run on random files with random -r lists and inline #lint- comments; exit status and output compared '
            'with an independent reading; non-trivial: at least one error before suppression or an unknown rule; distinct: '
            'by files and flags')

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.gql = ctx['gql']
        self.rng, self.prop = rng, prop
        self.g = LintGen(rng, ctx.get('words', ()), ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))
        self.dir = tempfile.mkdtemp(prefix='lint', dir=ctx['scratch'])

    def close(self):
        self.s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- generation
    def rules(self):
        r = self.rng
        x = r.random()
        p = self.prop
        if x < (0.2 if p == 'L05' else 0.6):
            return None
        out = [r.choice(RULENAMES) for _ in range(r.choice([1, 1, 2, 3, 9]))]
        bad = 0.25 if p == 'L05' else 0.05
        for i in range(len(out)):
            y = r.random()
            if y < 0.2:
                out[i] = out[i].upper()
            elif y < 0.35:
                out[i] = r.choice([' ', '\t', '', '  ']) + out[i] + r.choice([' ', '', '\t ', ' '])
            elif y < 0.4:
                out[i] = out[i].title()
        if r.random() < bad:
            bad = self.nearly() if r.random() < 0.55 else None
            out.insert(r.randint(0, len(out)), bad if bad is not None else r.choice(['nope', 'type', 'type-desc2', '', ' ', 'type desc', 'type-des', '-desc', 'xtype-desc', 'typedesc', '*', 'all']))
        return out

    def nearly(self):
        """a text close to the name of a rule"""
        r = self.rng
        y, n = r.random(), r.choice(RULENAMES)
        i = r.randrange(1, len(n))
        return n[:i] if y < 0.2 else n[i:] if y < 0.3 else n[:i] + n[i + 1:] if y < 0.4 else n[:i] + r.choice('-_x ') + n[i:] if y < 0.5 else \
            n + r.choice(['-', 's', 'x', '1', 'ription', '-desc', '.', ';', ':', '*', '/']) if y < 0.75 else \
            r.choice(['x', '-', '.', '@', '#', 'no-', '!', 'not-', '*']) + n if y < 0.9 else n.replace('-', r.choice(['_', '', ' ', '--', '.']))

    def comment(self):
        """a comment about linting"""
        r = self.rng
        if r.random() < 0.1:
            return '#' + r.choice(['', ' ', 'x', ' lint-disable type-desc', 'lint-', 'lint', '# lint-disable type-desc', ' #lint-disable type-desc'])
        plain = self.prop != 'L07' or r.random() < 0.5
        cmd = r.choice(['disable', 'enable', 'disable-line', 'disable', 'disable-line'])
        if not plain or r.random() < 0.06:
            cmd = r.choice([cmd, 'disabled', 'Disable', 'disable-', 'DISABLE', '', 'disable-next-line', 'enable-line', 'd', '-', cmd + ',', cmd + ':', 'disable\u00a0'])
        n = r.choice([1, 1, 2, 3])
        rs = [r.choice(RULENAMES) if r.random() < 0.9 else r.choice(['', 'nope', 'type', '*', 'all', self.nearly(), self.nearly(), self.nearly()]) for _ in range(n)]
        for i in range(n):
            if r.random() < 0.15:
                rs[i] = rs[i].upper()
            elif r.random() < 0.05:
                rs[i] = rs[i].title()
        if plain:
            sep = r.choice([',', ', ', ',', ' , '])
            return '#lint-' + cmd + ' ' + sep.join(rs)
        sep = r.choice([',', ', ', ' ', ' ,\t', ';', ',,'])
        gap = r.choice([' ', '  ', '\t', '', ' \t ', ':', ',', '\u00a0'])
        return '#lint-' + cmd + gap + sep.join(rs) + r.choice(['', '', ' ', '\t', ',', ' #lint-enable type-desc', ' é', '"', '"""'])

    def doc(self):
        r = self.rng
        g = self.g
        t = g.one()
        if self.prop in ('L06', 'L07') or r.random() < 0.3:
            ls = t.split('\n')
            out = []
            p = r.choice([0.05, 0.2, 0.5])
            for l in ls:
                if r.random() < p:
                    out.append(r.choice(['', ' ', '\t']) + self.comment())
                if r.random() < p * 0.7 and '"""' not in l:
                    l += r.choice(['', ' ']) + self.comment()
                if self.prop == 'L07' and r.random() < 0.05:
                    out.append(r.choice(['"""\n#lint-disable type-desc\n"""', '"#lint-disable type-desc"', '""""#lint-disable field-desc"""',
                                         '"""\\""" #lint-disable type-desc\n"""', '"\\" #lint-disable type-desc "']) + ' type ' + r.choice(['Aa', 'Bb', 'Cc', 'dd']) +
                               str(r.randrange(9999)) + ' { a: Int }')
                out.append(l)
            t = '\n'.join(out)
        x = r.random()
        if x < 0.06:
            t = t.replace('\n', '\r\n')
        elif x < 0.09:
            t = t.replace('\n', '\r')
        if self.prop == 'L07' and r.random() < 0.1:
            t = r.choice(['#lint-disable type-desc', '#lint-disable type-desc\n', '#lint-', '\ufeff#lint-disable type-desc\n', '\ufeff']) + (t if r.random() < 0.8 else '')
        if r.random() < 0.1:
            t = t.rstrip('\n') + r.choice(['', '#lint-disable type-desc', ' #', ' #lint-disable-line type-desc,field-desc'])
        return t

    def case(self):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 3]) if self.prop in ('L09', 'C17', 'L08') else 1
        if self.prop == 'C17':
            n = r.choice([2, 3, 5])
        names = r.sample(['a.graphql', 'b.graphql', 'ab.graphql', 'B.graphql', 'z-1.graphql', 'c d.graphql', 'p%d.graphql', 'q%.graphql', 'é.graphql', '100%s.graphql'], n)
        # every kind of element on few lines makes ties of the sort order
        files = [{'name': x, 'text': self.doc()} for x in names]
        if self.prop in ('L08',) and r.random() < 0.5:
            for f in files:
                f['text'] = self.join(f['text'])
        if self.prop == 'L09' and r.random() < 0.3:
            files[0]['text'] = r.choice(['', '"d" type A { "d" a: Int }', 'scalar'])
        if self.prop == 'L09' and r.random() < 0.02:
            # many errors: an exit status has eight bits
            k = r.choice([256, 512, 255, 300])
            t = r.choice([' ', '\n']).join('type T%d' % i for i in range(k))
            return {'files': [{'name': 'a.graphql', 'text': t}], 'rules': ['type-desc'], 'stdin': r.random() < 0.2}
        c = {'files': files, 'rules': self.rules(), 'stdin': n == 1 and r.random() < 0.2}
        if self.prop == 'L09' and r.random() < 0.06:
            # what is to be linted cannot be read: a folder in its place
            c['unreadable'] = r.choice(['0.graphql', 'zz.graphql'])
            c['stdin'] = r.random() < 0.5
        return c

    def join(self, t):
        """several definitions on one line"""
        if '#' in t or '"""' in t:
            return t
        r = self.rng
        out = ''
        for l in t.split('\n'):
            out += l + (' ' if r.random() < 0.8 else '\n')
        return out

    # ---- the real program
    def flags(self, rules):
        if rules is None:
            return []
        # a StringSlice flag is read as CSV
        return ['-r', ','.join('"%s"' % x.replace('"', '""') if x != x.strip() or '"' in x or ',' in x or x == '' else x for x in rules)]

    def execute(self, c):
        d = os.path.join(self.dir, 'd')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        for f in c['files']:
            with open(os.path.join(d, f['name']), 'wb') as h:
                h.write(f['text'].encode())
        args = [self.gql, 'lint'] + self.flags(c['rules'])
        if c.get('unreadable'):
            os.mkdir(os.path.join(d, c['unreadable']))
        if c['stdin'] and c.get('unreadable'):
            fd = os.open(d, os.O_RDONLY)
            try:
                p = subprocess.run(args, cwd=d, stdin=fd, capture_output=True, timeout=30)
            finally:
                os.close(fd)
        elif c['stdin']:
            p = subprocess.run(args, cwd=d, input=c['files'][0]['text'].encode(), capture_output=True, timeout=30)
        else:
            p = subprocess.run(args + ['-f', '*.graphql'], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=30)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

    def judge(self, c):
        rc, out, errs = self.execute(c)
        return self.expect(c, rc, out, errs)

    def selected(self, rules):
        """(names in order, unknown?)"""
        if not rules:
            return list(RULENAMES), False
        out = []
        for x in rules:
            n = [y for y in RULENAMES if fold(trim(x), y)]
            if not n:
                return None, True
            out.append(n[0])
        return out, False

    def expect(self, c, rc, out, errs):
        p = []
        sel, unknown = self.selected(c['rules'])
        what = {'status': rc, 'out': out[:400]}
        if 'panic:' in errs or rc == 2 and 'goroutine' in errs:
            return ['panic: ' + errs[:300]], True, what
        if unknown:
            if rc == 0:
                p.append('an unknown rule in %r but the exit status is 0' % (c['rules'],))
            return p, True, what
        if c.get('unreadable'):
            if rc == 0:
                p.append('%s cannot be read but the exit status is 0' % ('stdin' if c['stdin'] else c['unreadable']))
            return p, True, what
        want, left, n, pre = [], 0, 0, []
        for f in sorted(c['files'], key=lambda f: f['name'].encode()):
            res = self.s.ask({'op': 'lint', 'text': f['text']})
            if res.get('dead') or 'err' in res:
                if rc == 0:
                    p.append('%s does not parse but the exit status is 0' % f['name'])
                return p, False, what
            by = {}
            for x in res['rules']:
                by.setdefault(x['name'], x['errs'])
            if any('panic' in x for x in res['rules']):
                return p, False, what
            conf = config(f['text'])
            all_ = [e for s in sel for e in by.get(s, ())]
            n += len(all_)
            keep = [e for e in all_ if not suppressed(e['rule'], e['line'], conf)]
            name = '/dev/stdin' if c['stdin'] else f['name']
            keep.sort(key=lambda e: (e['line'], e['col']))
            left += len(keep)
            if keep:
                want.append((name, keep))
        if rc != (1 if left else 0):
            p.append('%d errors remain but the exit status is %d' % (left, rc))
        # output: one block per file with errors, then the total
        exp = [['%s:%d:%d %s' % (name, e['line'], e['col'], e['msg']) for e in keep] for name, keep in want]
        blob = out
        body = [l for b in exp for l in b]
        lines = out.split('\n')
        if Counter(l for l in lines if l in set(body)) != Counter('\n'.join(body).split('\n')) and body and '\n' not in ''.join(body):
            miss = Counter(body) - Counter(lines)
            more = Counter(l for l in lines if l in set(body)) - Counter(body)
            p.append('not printed as often as they occur: missing %s, too often %s' % (dict(list(miss.items())[:3]), dict(list(more.items())[:3])))
        known = set(body)
        heads = tuple('%s:' % (('/dev/stdin') if c['stdin'] else f['name']) for f in c['files'])
        for l in lines:
            if l not in known and l.startswith(heads) and re.match(r'[^:]*:\d+:\d+ ', l):
                p.append('printed but not expected: %r' % l)
        # order within a file
        for (name, keep) in want:
            pos = [tuple(map(int, l[len(name) + 1:].split(' ')[0].split(':'))) for l in lines if l in known and l.startswith(name + ':')]
            if pos != sorted(pos):
                p.append('%s: errors are not sorted by line and column: %s' % (name, pos[:8]))
        m = re.search(r'found: (\d+)\s*$', out)
        if left and (not m or int(m.group(1)) != left):
            p.append('%d errors remain but the printed total is %s' % (left, m and m.group(1)))
        if not left and m:
            p.append('no errors remain but a total of %s is printed' % m.group(1))
        return p, n > 0, what

    def key(self, c):
        return json.dumps(c, sort_keys=True)

    def smaller(self, c):
        fs = c['files']
        if len(fs) > 1:
            for i in range(len(fs)):
                yield dict(c, files=fs[:i] + fs[i + 1:])
        if c['rules']:
            for i in range(len(c['rules'])):
                rs = c['rules'][:i] + c['rules'][i + 1:]
                yield dict(c, rules=rs or None)
        for i, f in enumerate(fs):
            for t in shrink_mod().shrink_text(f['text']):
                yield dict(c, files=fs[:i] + [dict(f, text=t)] + fs[i + 1:])

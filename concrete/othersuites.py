"""Suites for the lexer (L10), the loading of files (U01), gql compare as a command (C15), run-time safety (C13) and
run-to-run determinism (C17)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen
import run as R
import lintsuite
from lintsuite import LintGen, comments, shrink_mod


class Lexer:
    """the linter's lexer against the parser's own lexer, on every kind of text"""
    CLI = False
    RULE = ('random texts (documents, documents with edits of single characters, token soup) lexed by both lexers; '
            'non-trivial: at least five tokens; distinct: by the text')
    BITS = ['"', '"""', '\\', '\\"""', '\\u00e9', '\\u12', '\\uD83D', '\\n', '\\x', '#', '# c', '#lint-disable x', '\n', '\r\n', '\r', '\t',
            ' ', ',', '...', '..', '.', '1', '0', '00', '-', '-1', '1.', '1.5', '1e5', '1E+3', '1e', 'a', '_x', 'type', '{', '}', '(', ')',
            '[', ']', ':', '=', '@', '!', '$', '&', '|', 'é', '\u20ac', '\U0001f600', '\ufeff', '\x00', '\x07', "'", '%', '?', '\x7f', '\u2028',
            '"a', 'b"', '"a"', '""', '""""', '"""a', '\\""', '"\\', '  x', '\\\\', '\udcef', '\udcef\udcbb', '\udcc3', '\udcff', '\udce2\udc82', '\udc80',
            '"a\udcffb"', '# \udcef x']

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.rng = rng
        self.g = LintGen(rng, ctx.get('words', ()), ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))
        self.ints = [k for k in ctx.get('ints', ()) if 4 < k < 70000]

    def long(self):
        """something of a length next to a number in the code"""
        r = self.rng
        big = [k for k in self.ints if k > 130]
        n = max(0, r.choice(big if big and r.random() < 0.7 else self.ints) + r.choice([-3, -2, -1, 0, 1, 2]))
        how = r.choice(['a%s', '# %s', '"%s"', '"""%s"""', '1%s', '"""\n%s\n"""', '%s'])
        return how % (r.choice('a1 \n,#') * n) + r.choice(['', ' b', '\n', '"'])

    def char(self):
        r = self.rng
        x = r.random()
        return chr(r.randrange(32, 127)) if x < 0.6 else r.choice('\t\n\r "\\#') if x < 0.75 else chr(r.randrange(256)) if x < 0.85 else \
            chr(r.choice([0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]))

    def token(self):
        """a token, mostly well formed, and what follows it"""
        r = self.rng
        k = r.randrange(8)
        many = lambda hi=4: range(r.choice([0, 1, 1, 2, hi]))
        if k < 3:
            t = '"'
            for _ in many(5):
                j = r.randrange(5)
                if j == 0:
                    t += '\\' + (r.choice('"\\/bfnrt') if r.random() < 0.9 else self.char())
                elif j == 1:
                    t += '\\u' + ''.join(r.choice('0123456789abcdefABCDEF') if r.random() < 0.97 else self.char() for _ in range(4))
                elif j == 2:
                    t += self.char()
                else:
                    t += r.choice('ab é\t#,/')
            t += '"' if r.random() < 0.95 else ''
        elif k < 5:
            t = '"""'
            for _ in many(6):
                t += r.choice(['\n', '\r\n', '\r', ' ', '  ', '\t', 'a', '\\"""', '\\', '"', '""', '\\n', 'é', '#', self.char()])
            t += '"""' if r.random() < 0.95 else ''
        elif k == 5:
            t = '#' + ''.join(self.char() if r.random() < 0.3 else r.choice('a "#') for _ in many()) + r.choice(['\n', '\r\n', '\r', ''])
        elif k == 6:
            t = r.choice(['', '-']) + r.choice(['0', '1', '10', '00', '9', '']) + r.choice(['', '', '.0', '.5', '.', '.01']) + r.choice(['', '', 'e1', 'E+2', 'e-3', 'e', 'E05'])
        else:
            t = self.char() + r.choice(['', 'a', 'Z9', '_', '0', 'z'])
        return t + r.choice(['', ' ', '\n', '\r\n', '\r', ',', ' a', '\ufeff'])

    def case(self):
        r = self.rng
        x = r.random()
        if x < 0.06 and self.ints:
            t = ''.join([r.choice(self.BITS), self.long(), r.choice(self.BITS)][r.choice([0, 1]):])
        elif x < 0.3:
            t = ''.join(self.token() for _ in range(r.choice([1, 2, 3, 4, 6])))
        elif x < 0.55:
            n = r.choice([1, 2, 3, 5, 8, 20])
            t = ''.join(r.choice(self.BITS) for _ in range(n))
        else:
            t = self.g.one()
            if r.random() < 0.8:
                t = t[:r.choice([40, 200, 1000])]
            for _ in range(r.choice([0, 1, 2, 5])):
                i = r.randint(0, len(t))
                t = t[:i] + r.choice(self.BITS) + t[i + r.choice([0, 0, 1, 3]):]
        return self.pack(t)

    def pack(self, t):
        c = {'op': 'lex', 'text': t}
        if any('\udc80' <= x <= '\udcff' for x in t):     # bytes that are no UTF-8
            c['hex'] = t.encode('utf-8', 'surrogateescape').hex()
        return c

    def judge(self, c):
        res = self.s.ask(c)
        if res.get('dead'):
            return ['the process died or did not finish'], True, None
        p = []
        if 'panic' in res:
            p.append('panic: ' + res['panic'])
        if res.get('endless'):
            p.append('the end of the input is never reached')
        if 'uppanic' in res or 'mine' not in res:
            return p, False, None
        mine, theirs = res['mine'] or [], res['theirs'] or []
        nc = [t for t in mine if t['Kind'] != 'Comment']
        bad = lambda t: bool(t['Err'])
        if not p:
            a = [self.tok(t) for t in nc]
            b = [self.tok(t) for t in theirs]
            if a != b:
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                p.append('token %d: %s, the parser reads %s' % (i, a[i:i + 1], b[i:i + 1]))
        # comments: only where the whole text is read
        if not p and mine and not bad(mine[-1]):
            want = comments(c['text'])
            got = [(t['Line'], t['Value']) for t in mine if t['Kind'] == 'Comment']
            if c.get('hex'):
                want, got = [x[0] for x in want], [x[0] for x in got]
            if want != got:
                i = next((i for i in range(min(len(want), len(got))) if want[i] != got[i]), min(len(want), len(got)))
                p.append('comment %d: got %s, expected %s' % (i, got[i:i + 1], want[i:i + 1]))
        return p, len(mine) >= 5, [t['Kind'] for t in mine[:20]]

    def tok(self, t):
        return (t['Kind'], '' if t['Err'] else t['Value'], t['Start'], t['End'], t['Line'], t['Column'], bool(t['Err']))

    def key(self, c):
        return c['text']

    def smaller(self, c):
        for t in shrink_mod().shrink_text(c['text']):
            yield self.pack(t)

    def close(self):
        self.s.close()


class Files:
    """utils.ReadFiles and utils.ParseSchema on scratch directories"""
    CLI = False
    RULE = ('random sets of files (empty, broken, unreadable, dangling links, directories) and path patterns; non-trivial: '
            'the pattern matches a file; distinct: by files and pattern')
    NAMES = ['a.graphql', 'b.graphql', 'c.graphqls', 'sub/a.graphql', 'sub/b.graphql', 'x y.graphql', '[z].graphql', 'noext', '.hid.graphql',
             'A.graphql', 'é.graphql', 'sub/deep/q.graphql', 'd.graphql.bak']
    PATTERNS = ['*.graphql', '*', 'a.graphql', 'nothing', 'sub/*.graphql', '*/*.graphql', '?.graphql', '[ab].graphql', '[', 'a[', '[]a].graphql',
                'sub/*', '*/deep/*', '', '[!a].graphql', '[^a].graphql', '*.gr*', '\\[z\\].graphql', 'sub', 'b.graphql']

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.rng = rng
        self.g = gen.Gen(rng, ctx.get('words', ()), ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))
        self.words = [w for w in ctx.get('words', ()) if not set(w) & set('/\0\n') and len(w) < 30]
        self.sizes = [k for k in ctx.get('sizes', ()) if k > 2]
        self.fresh = ctx.get('fresh', {}).get('sizes', ())

    def case(self):
        r = self.rng
        fs = []
        y = r.random()
        if y < 0.04:        # many files
            ks = [k for k in self.sizes if k < 200] or [20]
            for i in range(max(1, r.choice(ks + [10, 40, 101]) + r.randint(-1, 2))):
                fs.append({'name': 'm%d.graphql' % i, 'text': 'type M%d { a: Int }\n' % i})
        elif y < 0.1:       # a file about as large as a number the code mentions
            big = [k for k in self.fresh if 300 < k < 20000000]
            k = max(0, r.choice(big if big and r.random() < 0.6 else [k for k in self.sizes if k < 300000] + [4096, 512, 65536, 1 << 20]) + r.randint(-2, 2))
            t = '# ' + 'p' * max(0, k - 30) + '\ntype L { a: Int }\n'
            fs.append({'name': 'l.graphql', 'text': t + ' ' * max(0, k - len(t))})
        elif y < 0.16 and self.words:       # names the code mentions
            w = r.choice(self.words)
            fs.append({'name': r.choice(['%s', '%s.graphql', 'a%s.graphql', 'a.%s', '.%s']) % w, 'text': 'type W { a: Int }\n'})
            if set(fs[0]['name']) == {'.'}:
                fs = []
        for n in r.sample(self.NAMES, r.choice([0, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.05:
                t = ''
            elif x < 0.1:
                t = '\0dangling'
            elif x < 0.14:
                t = r.choice(['type', 'type A {', '"', 'scalar \u00e9', '#', ' ', '\n'])
            else:
                t = 'type T%d { a: Int }\n' % r.randrange(1000) + ('scalar S%d' % r.randrange(1000) if r.random() < 0.5 else '')
                if r.random() < 0.02:
                    t += '# pad\n' * r.choice([100, 1000, 20000])
            if not t.startswith('\0') and r.random() < 0.35:
                t = self.twist(t)
            fs.append({'name': n, 'text': t})
        if len(fs) > 1 and r.random() < 0.15:      # equal contents
            i, j = r.sample(range(len(fs)), 2)
            if not fs[i]['text'].startswith('\0'):
                fs[j]['text'] = fs[i]['text']
        if r.random() < 0.05:
            fs.append({'name': 'dir.dir', 'text': ''})
        pat = r.choice(self.PATTERNS) if r.random() < 0.9 else r.choice(['dir*', '*.dir', '*'])
        return {'op': 'files', 'files': fs, 'pattern': pat}

    def twist(self, t):
        """the contents with something a reader might be tempted to normalise"""
        r = self.rng
        x = r.randrange(9)
        if x == 0:
            return t * r.choice([2, 3])
        if x == 1:
            return t.replace('\n', '\r\n', r.choice([1, 2, 3, -1]))
        if x == 2:
            return t.replace('\n', '\r', r.choice([1, 2, -1]))
        if x == 3:
            return r.choice(['\ufeff', '\ufeff\ufeff', '\ufffd', ' ', '\t', '\n', '\r\n']) + t
        if x == 4:
            return t + r.choice([' ', '  ', '\t', '\n', '\n\n', '\r\n', '\x1a', '\0', '\f', '\u2028', '\u00a0', '\ufeff', '#'])
        if x == 5:
            return t.rstrip('\n')
        if x == 6:
            q = '"' * 3
            return q + r.choice(['d', 'd\n  e\n', ' d ', '\td\r\n', '\u00e9']) + q + '\n' + t
        if x == 7:
            return '# ' + r.choice(self.words or ['x']) + '\n' + t
        i = r.randrange(len(t) + 1)
        return t[:i] + r.choice((self.words or ['x']) + ['\n', ' ', ',', '\t']) + t[i:]

    def judge(self, c):
        res = self.s.ask(c)
        if res.get('dead'):
            return ['the process died'], True, None
        if 'panic' in res:
            return ['panic: ' + res['panic']], True, None
        if 'err' in res:
            return [], False, res['err']
        p = []
        m = res.get('matches')
        got = res.get('got')
        fine = m is not None and m and all(x['ok'] for x in m)
        if fine:
            want = {x['name']: x['text'] for x in m}
            if got is None:
                p.append('every matching file can be read but an error is returned: ' + res.get('readerr', ''))
            elif got != want:
                p.append('got %s, expected %s' % (cut(got), cut(want)))
            else:
                if ('parseerr' in res) != ('wantparseerr' in res):
                    p.append('ParseSchema: error %r, the parser says %r' % (res.get('parseerr'), res.get('wantparseerr')))
                elif 'defs' in res and sorted(res['defs']) != sorted(res.get('wantdefs') or []):
                    p.append('parsed definitions %s, expected %s' % (res['defs'][:10], (res.get('wantdefs') or [])[:10]))
        elif got is not None:
            p.append('no file matches, or one cannot be read, or the pattern is malformed, but no error is returned')
        return p, bool(m), {k: v for k, v in res.items() if k in ('readerr', 'parseerr', 'defs')}

    def key(self, c):
        return json.dumps(c, sort_keys=True)

    def smaller(self, c):
        for f in shrink_mod().shrink_files(c['files']):
            yield dict(c, files=f)
        for i in range(len(c['files'])):
            yield dict(c, files=c['files'][:i] + c['files'][i + 1:])

    def close(self):
        self.s.close()


def cut(d):
    return {k: (v if len(v) < 60 else v[:60] + '...') for k, v in d.items()}


class CompareCli:
    """gql compare on files in a scratch directory"""
    CLI = True
    RULE = ('gql compare run on random pairs of schemas, flags and broken inputs; exit status and output judged against the '
            'comparison of the parsed documents; non-trivial: both schemas are read; distinct: by files and flags')

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.gql = ctx['gql']
        self.rng, self.prop = rng, prop
        self.g = gen.Gen(rng, ctx.get('words', ()), ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))
        self.dir = tempfile.mkdtemp(prefix='cmp', dir=ctx['scratch'])

    def close(self):
        self.s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self):
        r = self.rng
        a, b = self.g.pair()
        x = r.random()
        if x < 0.2:
            b = [dict(f) for f in a]
        if r.random() < 0.05:
            r.choice(a + b)['text'] = r.choice(['type', '', '"', 'type A {', 'x'])
        if r.random() < 0.02:
            # many changes of one kind: an exit status has eight bits
            k = r.choice([256, 256, 512, 1024, 255, 300])
            a = [{'name': '', 'text': 'scalar Keep ' + ' '.join('scalar S%d' % i for i in range(k if r.random() < 0.7 else 0))}]
            b = [{'name': '', 'text': 'scalar Keep enum Q { ' + ' '.join('V%d' % i for i in range(k if r.random() < 0.3 else 1)) + ' }'}]
        o, n = 'old/*.graphql', 'new/*.graphql'
        y = r.random()
        if self.prop == 'C15' and y < 0.15:
            k = r.randrange(8)
            if k == 0:
                o = ''
            elif k == 1:
                n = ''
            elif k == 2:
                n = o
            elif k == 3:
                o = r.choice(['missing', 'old/[', 'old', 'old/x*'])
            elif k == 4:
                n = r.choice(['missing', 'new/[', 'new', 'new/x*'])
            elif k == 5:
                o = None
            elif k == 6:
                n = None
            else:
                o = n = None
        for i, f in enumerate(a):
            f['name'] = 'old/%d.graphql' % i
        for i, f in enumerate(b):
            f['name'] = 'new/%d.graphql' % i
        return {'old': a, 'new': b, 'o': o, 'n': n, 'b': r.random() < 0.3, 'e': r.random() < 0.3, 'long': r.random() < 0.3}

    def execute(self, c):
        d = os.path.join(self.dir, 'd')
        if c is not getattr(self, 'last', None):
            shutil.rmtree(d, ignore_errors=True)
            for x in ('old', 'new'):
                os.makedirs(os.path.join(d, x))
            for f in c['old'] + c['new']:
                with open(os.path.join(d, f['name']), 'wb') as h:
                    h.write(f['text'].encode())
            self.last = c
        args = [self.gql, 'compare']
        lg = c.get('long')
        if c['o'] is not None:
            args += ['--oldversion' if lg else '-o', c['o']]
        if c['n'] is not None:
            args += ['--newversion' if lg else '-n', c['n']]
        if c['b']:
            args += ['--breaking-change-only' if lg else '-b']
        if c['e']:
            args += ['--exclude-print-filepath' if lg else '-e']
        p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=30)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

    def judge(self, c):
        rc, out, errs = self.execute(c)
        what = {'status': rc, 'out': out[:400]}
        p = []
        ok = bool(c['o']) and bool(c['n']) and c['o'] != c['n'] and c['o'] == 'old/*.graphql' and c['n'] == 'new/*.graphql'
        if not ok:
            if rc == 0:
                p.append('the paths are missing, equal or unreadable but the exit status is 0')
            return p, False, what
        res = self.s.ask({'op': 'cmp', 'old': c['old'], 'new': c['new']})
        if res.get('dead') or 'panic' in res:
            return [], False, what
        if 'err' in res:
            if rc == 0:
                p.append('a schema does not parse but the exit status is 0')
            return p, False, what
        ch = res['changes']
        breaking = sum(1 for x in ch if x['level'] == 2)
        if (rc != 0) != (breaking > 0):
            p.append('%d breaking changes but the exit status is %d' % (breaking, rc))
        for x in ch:
            if x['level'] == 2 or not c['b']:
                if x['message'] not in out:
                    p.append('not printed: %r' % x['message'])
        if ch and all('\n' not in x['message'] for x in ch):
            icon = {2: '❌  ', 1: '✋️  ', 0: '✅  '}
            for lv in (0, 1, 2):
                got = sum(1 for l in out.split('\n') if l.startswith(icon[lv]))
                want = sum(1 for x in ch if x['level'] == lv) if lv == 2 or not c['b'] else 0
                if got != want:
                    p.append('%d changes of severity %s are printed, expected %d' % (got, ['non-breaking', 'dangerous', 'breaking'][lv], want))
            with_pos = bool(re.search(r'(?m)^(?:❌|✋️|✅)  (?:old|new)/\d+\.graphql:\d+ ', out))
            if out and any(l.startswith(tuple(icon.values())) for l in out.split('\n')) and with_pos == c['e']:
                p.append('positions are printed: %s, excluded by flag: %s' % (with_pos, c['e']))
        return p, True, what

    def key(self, c):
        return json.dumps(c, sort_keys=True)

    def smaller(self, c):
        for f in shrink_mod().shrink_files(c['old']):
            yield dict(c, old=f)
        for f in shrink_mod().shrink_files(c['new']):
            yield dict(c, new=f)
        for k in ('b', 'e', 'long'):
            if c[k]:
                yield dict(c, **{k: False})


class Safe:
    """comparing, grouping, printing and linting any documents: no panic, no write"""
    CLI = False
    RULE = ('random schema documents, also with colliding names, compared, grouped, printed and linted by the real code; '
            'non-trivial: both documents are accepted by the parser and one is not empty; distinct: by the texts')
    TINY = ['type A', 'type A{a:Int}', 'enum E', 'enum E{A}', 'enum E{A A}', 'input I', 'union U', 'union U=A', 'extend type A{a:Int}', 'extend enum E{B}',
            'interface N', 'extend type A@x', 'schema{query:Q}', 'extend schema{query:R}', 'directive @x on FIELD', 'scalar S', 'scalar Connection',
            'type XConnection', 'type XConnection{edges:[A] pageInfo:PageInfo!}', 'type XConnection{pageInfo:[PageInfo!]!}', 'extend schema@x',
            'type A{a(first:Int,last:[Int],after:A):XConnection}', 'enum E@deprecated{A@deprecated}', 'type A@x@x(a:1){a:Int@deprecated(a:1)}', 'type A{a:Int@deprecated(reason:"x")}', 'input I{a:Int@deprecated}', 'enum E{A@deprecated(reason:1)}', 'enum E{A@deprecated(a:1)}', '',
            'extend union U=B', 'extend input I{a:Int=1}', 'extend scalar S@x', 'extend interface N{a:Int}', 'enum A{A}', 'input A{a:Int}']

    def __init__(self, ctx, rng, prop):
        self.s = R.Server(ctx['harness'])
        self.rng, self.prop = rng, prop
        self.g = gen.Gen(rng, ctx.get('words', ()), dup=rng.random() < 0.6, ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))
        self.l = LintGen(rng, ctx.get('words', ()), dup=rng.random() < 0.6, ints=ctx.get('sizes', ()), fresh=ctx.get('fresh'))

    def case(self):
        r = self.rng
        x = r.random()
        if x < 0.35:
            pick = lambda: [{'name': r.choice(['f', '']), 'text': r.choice(['\n', ' ']).join(r.choice(self.TINY) for _ in range(r.choice([0, 1, 1, 2, 3])))}]
            return {'old': pick(), 'new': pick()}
        if x < 0.6:
            return {'old': [{'name': 'f', 'text': self.l.one()}], 'new': [{'name': 'g', 'text': ''}]}
        a, b = self.g.pair()
        if r.random() < 0.1:
            b = a
        return {'old': a, 'new': b}

    def judge(self, c):
        res = self.s.ask({'op': 'cmp', 'old': c['old'], 'new': c['new'], 'full': True})
        p = []
        if res.get('dead'):
            return ['the process died or did not finish'], True, None
        if 'err' in res:
            return [], False, 'not accepted by the parser'
        if 'panic' in res:
            p.append('panic: ' + res['panic'])
        if res.get('mutated'):
            p.append('a parsed document was modified')
        for x in res.get('changes') or ():
            if x is None:
                p.append('nil change')
        for f in c['old']:
            l = self.s.ask({'op': 'lint', 'text': f['text']})
            if l.get('dead'):
                p.append('lint: the process died or did not finish')
                continue
            if l.get('mutated'):
                p.append('lint: the parsed document was modified')
            for x in l.get('rules') or ():
                if x.get('panic'):
                    p.append('lint %s panics: %s' % (x['name'], x['panic']))
        return p, bool((c['old'][0]['text'] + c['new'][0]['text']).strip()), {'changes': len(res.get('changes') or ())}

    def key(self, c):
        return json.dumps(c)

    def smaller(self, c):
        for f in shrink_mod().shrink_files(c['old']):
            yield dict(c, old=f)
        for f in shrink_mod().shrink_files(c['new']):
            yield dict(c, new=f)

    def close(self):
        self.s.close()


class Determinism:
    """the same command several times: the same output"""
    CLI = True
    RULE = ('gql compare and gql lint run several times on the same files; non-trivial: at least two lines of output; '
            'distinct: by files and flags')
    RUNS = 6

    def __init__(self, ctx, rng, prop):
        self.c = CompareCli(ctx, rng, prop)
        self.l = lintsuite.Cli(ctx, rng, prop)
        self.s = self.c.s
        self.rng = rng

    def case(self):
        if self.rng.random() < 0.6:
            self.c.g.pools()
            x = self.c.case()
            if self.rng.random() < 0.5:
                self.spread(x)
            return dict(x, kind='compare')
        x = self.l.case()
        x['stdin'] = False
        return dict(x, kind='lint')

    def spread(self, c):
        """several files, each with a type, so that an order of files or types can show"""
        r = self.rng
        n = r.choice([2, 3, 5])
        mk = lambda i, k: 'type T%d { a%d: Int }\nextend type T%d { b: Int }\nenum E%d { A%s }\n' % (i, k, i, i, ' B' if k else '')
        c['old'] = [{'name': 'old/%d.graphql' % i, 'text': mk(i, 0)} for i in range(n)]
        c['new'] = [{'name': 'new/%d.graphql' % i, 'text': mk(i, 1) if r.random() < 0.7 else ''} for i in range(n)]

    def judge(self, c):
        s = self.c if c['kind'] == 'compare' else self.l
        first = None
        p = []
        for i in range(self.RUNS):
            rc, out, errs = s.execute(c)
            if first is None:
                first = (rc, out)
            elif (rc, out) != first:
                p.append('run %d printed %r, the first %r' % (i + 1, out[:300], first[1][:300]))
                break
        if c['kind'] == 'compare':
            q = {'op': 'cmp', 'old': c['old'], 'new': c['new']}
            a = None
            for i in range(self.RUNS):
                res = self.s.ask(q)
                if 'changes' not in res:
                    break
                m = [(x or {}).get('message') for x in res['changes']]
                if a is not None and m != a:
                    p.append('the list of changes came in another order: %r, before %r' % (m[:5], a[:5]))
                    break
                a = m
        return p, first[1].count('\n') >= 2, {'out': first[1][:300]}

    def key(self, c):
        return json.dumps(c, sort_keys=True)

    def smaller(self, c):
        yield from (self.c if c['kind'] == 'compare' else self.l).smaller(c)

    def close(self):
        self.c.close()
        self.l.close()

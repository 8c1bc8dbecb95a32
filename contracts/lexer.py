"""Contracts of the linter's lexer (property L10).  CONTRACTS[name] = (requires, ensures): lists of (clause, formula) over
an environment E: E.o.f is the scanner's field f on entry, E.c.f on return; E.arg(k) and E.res(k) are the k-th argument
and result; E.n is the length of the input; E.K(p), E.H(p), E.L(p) count the control characters (tab excepted), the '#'
and the line ends before position p of the input (ghost functions).  A function without a contract is inlined."""

STATE = ('start', 'end', 'startRunes', 'endRunes', 'line', 'lineStartRunes')


def inside(E, s):
    return [('0 <= end', s.end >= 0), ('end <= len(Input)', s.end <= E.n), ('0 <= len(Input)', E.n >= 0)]


def counted(E, s):
    """the line number is that of the position"""
    return [('line = 1 + line ends before end', s.line == 1 + E.L(s.end))]


def same(E, *but):
    return [('%s unchanged' % f, getattr(E.c, f) == getattr(E.o, f)) for f in STATE if f not in but]


def plain(E, a, b):
    """no control character and no line end between"""
    return [('no control characters between', E.K(a) == E.K(b)), ('no line ends between', E.L(a) == E.L(b))]


def nohash(E, a, b):
    return [('no # between', E.H(a) == E.H(b))]


def when(E, c, clauses):
    return [(n, E.implies(c, f)) for n, f in clauses]


def ok(E):
    return E.isnil(E.res(1))


def eol(E, p):
    return E.or_(p == E.n, E.and_(E.byte(p) < 32, E.byte(p) != 9))


def new(E):
    r = E.res(0)
    return [('%s = %d' % (f, v), getattr(r, f) == v) for f, v in (('end', 0), ('line', 1))]


def read_pre(E):
    return inside(E, E.o) + counted(E, E.o)


def read_post(E):
    t, o, c = E.res(0), E.o, E.c
    v = t.Value
    kind = lambda k: t.Kind == E.kind(k)
    comment = E.and_(ok(E), kind('Comment'))
    return (when(E, ok(E), inside(E, c) + counted(E, c))
            + [('every token but the end consumes input', E.implies(E.and_(ok(E), E.not_(kind('EOF'))), c.end > o.end)),
               ('the end is reported at the end of the input only', E.implies(E.and_(ok(E), kind('EOF')), c.end == E.n)),
               ('a comment is a part of the input from a # on', E.implies(comment, E.and_(
                   v.inInput, v.off >= o.end, v.off < c.end, E.byte(v.off) == 35))),
               ('nothing between the last token and a comment is a #', E.implies(comment, E.H(v.off) == E.H(o.end))),
               ('a comment runs to the end of its line', E.implies(comment, E.and_(
                   v.off + v.len == c.end, E.K(c.end) == E.K(v.off), eol(E, c.end)))),
               ('a comment carries its line', E.implies(comment, t.Pos.Line == 1 + E.L(v.off))),
               ('no # is passed over outside comments and strings', E.implies(E.and_(
                   ok(E), E.not_(kind('Comment')), E.not_(kind('String')), E.not_(kind('BlockString'))), E.H(c.end) == E.H(o.end))),
               ('a # passed over is in the string', E.implies(E.and_(ok(E), E.or_(kind('String'), kind('BlockString'))), E.and_(
                   c.start > o.end, c.start <= c.end, E.byte(c.start - 1) == 34, E.byte(c.end - 1) == 34, E.H(c.start) == E.H(o.end))))])


def ws_post(E):
    return same(E, 'end', 'endRunes', 'line', 'lineStartRunes') + inside(E, E.c) + counted(E, E.c) + nohash(E, E.o.end, E.c.end) + [
        ('moves forward', E.c.end >= E.o.end)]


def token_at(E):
    return inside(E, E.o) + [('0 <= start <= end', E.and_(E.o.start >= 0, E.o.start <= E.o.end))]


def makeToken_post(E):
    t = E.res(0)
    return same(E) + [('no error', ok(E)), ('the kind asked for', t.Kind == E.arg(0)), ('the line', t.Pos.Line == E.o.line),
                      ('the text from start to end', E.and_(t.Value.inInput, t.Value.off == E.o.start, t.Value.len == E.o.end - E.o.start))]


def makeValueToken_post(E):
    t = E.res(0)
    return same(E) + [('no error', ok(E)), ('the kind asked for', t.Kind == E.arg(0)), ('the line', t.Pos.Line == E.o.line),
                      ('the value asked for', t.Value.same(E.arg(1)))]


def makeError_post(E):
    return same(E) + [('an error', E.not_(ok(E)))]


def readComment_post(E):
    t = E.res(0)
    return (same(E, 'end', 'endRunes') + inside(E, E.c) + plain(E, E.o.end, E.c.end) + [
        ('no error', ok(E)), ('moves forward', E.c.end >= E.o.end), ('a comment', t.Kind == E.kind('Comment')), ('the line', t.Pos.Line == E.o.line),
        ('the text from start to end', E.and_(t.Value.inInput, t.Value.off == E.o.start, t.Value.len == E.c.end - E.o.start)),
        ('stops at the end of the line', eol(E, E.c.end))])


def readName_post(E):
    t = E.res(0)
    return (same(E, 'end', 'endRunes') + inside(E, E.c) + plain(E, E.o.end, E.c.end) + nohash(E, E.o.end, E.c.end) + [
        ('no error', ok(E)), ('moves forward', E.c.end >= E.o.end), ('a name', t.Kind == E.kind('Name')),
        ('the text from start to end', E.and_(t.Value.inInput, t.Value.off == E.o.start, t.Value.len == E.c.end - E.o.start))])


def accept_pre(E):
    a = E.arg(0)
    return inside(E, E.o) + [('only printable bytes other than # are accepted', E.and_(a.len >= 0, a.off >= 0, a.noK, a.noH))]


def accept_post(E):
    r = E.res(0)
    return (same(E, 'end', 'endRunes') + inside(E, E.c) + plain(E, E.o.end, E.c.end) + nohash(E, E.o.end, E.c.end) + [
        ('one byte if accepted', E.implies(r, E.and_(E.c.end == E.o.end + 1, E.c.endRunes == E.o.endRunes + 1))),
        ('none if not', E.implies(E.not_(r), E.and_(E.c.end == E.o.end, E.c.endRunes == E.o.endRunes)))])


def digits_post(E):
    r = E.res(0)
    return (same(E, 'end', 'endRunes') + inside(E, E.c) + plain(E, E.o.end, E.c.end) + nohash(E, E.o.end, E.c.end) + [
        ('the number of bytes consumed', E.and_(r >= 0, E.c.end == E.o.end + r, E.c.endRunes == E.o.endRunes + r))])


def started(E, *bytes_):
    """the first character of the token has just been taken"""
    return inside(E, E.o) + [('one character taken', E.and_(E.o.start >= 0, E.o.end == E.o.start + 1))] + [
        ('which is %r' % chr(b), E.byte(E.o.start) == b) for b in bytes_]


def number_pre(E):
    return started(E) + [('which is no control character and no #', E.and_(E.byte(E.o.start) >= 32, E.byte(E.o.start) != 35))]


def number_post(E):
    t = E.res(0)
    return when(E, ok(E), same(E, 'end', 'endRunes') + inside(E, E.c) + plain(E, E.o.start, E.c.end) + nohash(E, E.o.start, E.c.end) + [
        ('moves forward', E.c.end > E.o.start), ('a number', E.or_(t.Kind == E.kind('Int'), t.Kind == E.kind('Float')))])


def string_pre(E):
    return started(E, 34) + counted(E, E.o)


def string_post(E):
    t = E.res(0)
    return when(E, ok(E), inside(E, E.c) + counted(E, E.c) + [
        ('a string', t.Kind == E.kind('String')), ('moves forward', E.and_(E.c.end > E.o.end, E.c.end >= E.c.start)), ('starts after the quote', E.c.start == E.o.start + 1),
        ('ends with a quote', E.byte(E.c.end - 1) == 34)])


def block_pre(E):
    return started(E, 34) + counted(E, E.o) + [('three quotes', E.and_(E.o.start + 3 <= E.n, E.byte(E.o.start + 1) == 34, E.byte(E.o.start + 2) == 34))]


def block_post(E):
    t = E.res(0)
    return when(E, ok(E), inside(E, E.c) + counted(E, E.c) + [
        ('a block string', t.Kind == E.kind('BlockString')), ('moves forward', E.and_(E.c.end > E.o.end, E.c.end >= E.c.start)), ('starts after the quotes', E.c.start == E.o.start + 3),
        ('ends with a quote', E.byte(E.c.end - 1) == 34)])


def unhex_post(E):
    a, r = E.arg(0), E.res(1)
    return [('hex digits hold no control character', E.implies(r, a.noK)), ('hex digits hold no line end', E.implies(r, a.noL))]


none = lambda E: []
CONTRACTS = {
    'New': (none, new),
    'ReadToken': (read_pre, read_post),
    'ws': (read_pre, ws_post),
    'makeToken': (token_at, makeToken_post),
    'makeValueToken': (none, makeValueToken_post),
    'makeError': (none, makeError_post),
    'readComment': (token_at, readComment_post),
    'readName': (token_at, readName_post),
    'acceptByte': (accept_pre, accept_post),
    'acceptDigits': (lambda E: inside(E, E.o), digits_post),
    'describeNext': (lambda E: inside(E, E.o), lambda E: same(E)),
    'readNumber': (number_pre, number_post),
    'readString': (string_pre, string_post),
    'readBlockString': (block_pre, block_post),
    'blockStringValue': (none, none),
    'leadingWhitespace': (none, lambda E: [('not negative', E.res(0) >= 0)]),
    'unhex': (lambda E: [('a string', E.and_(E.arg(0).len >= 0, E.arg(0).off >= 0))], unhex_post),
}

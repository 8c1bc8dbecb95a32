"""The properties: how each one is proved, what its proof trusts, what it assumes."""
import cliproof
import cmpproof
import lexproof
import lintproof
import safeproof

ENGINE = [
    'the verification condition generator in /verif/engine (symbolic executor over go/ssa, loop summaries)',
    'golang.org/x/tools/go/ssa as the reading of the Go source', 'z3',
    'the external contracts in engine/externs.py (strings, fmt, sort, regexp, os ...)',
]
WF = ('invariants of parsed documents (engine/facts.py): list elements and the listed pointer fields are not nil, names '
      'are not empty, names in one list are distinct, a type has either a name or an element type; the parser establishes them')
MATH = 'machine integers are treated as mathematical integers'
ALIAS = 'appends do not alias: two slices sharing spare capacity are not modelled'


class Prop:
    def __init__(self, prove, extra=()):
        self.prove, self.extra = prove, list(extra)

    def trusted(self):
        return list(ENGINE)

    def assumptions(self):
        return [WF, MATH, ALIAS] + self.extra


UNIQ = 'the two documents have unique names as GraphQL requires (types, fields, arguments, values, members, directives)'
STRV = 'ast.Value.String of the parser library is a function of the value (uninterpreted)'

PROPS = {p: Prop(cmpproof.run, [UNIQ, STRV]) for p in ['C%02d' % i for i in range(1, 13)] + ['C16']}

LUNIQ = 'names of types, fields, arguments, enum values are unique as GraphQL requires in the linted document'
PROPS.update({p: Prop(lintproof.run, [LUNIQ]) for p in ('L01', 'L02', 'L03', 'L04')})

ASCII_ = 'the rule names given on the command line and in lint comments are ASCII (lower case, upper case and EqualFold then agree)'
CONTRACTS = ('a caller is checked against its callees\' contracts; the parts joined this way are other properties of this list '
             '(the rules L01-L04, the lint comments L07, the reading of files U01, the comparison C01-C12, C16)')
COBRA = 'cobra/pflag: the documented flag names and defaults reach the bound variables; Run is called once; nothing else ends the process'
PROPS.update({p: Prop(cliproof.run, [CONTRACTS] + e) for p, e in {
    'L05': [LUNIQ, COBRA, ASCII_], 'L06': [ASCII_], 'L08': ['sort.Sort and sort.Slice yield a permutation ordered by the comparator'], 'L09': [COBRA],
    'U01': ['filepath.Glob, os.Open, io.ReadAll, the parser: functions of their arguments (the file system does not change during a run)'],
    'C14': [COBRA, 'positions of changes are not nil (C16)'], 'C15': [COBRA],
    'C17': [COBRA, 'the standard library functions called are deterministic, except map iteration',
            'a function whose body is out of reach is a function of its arguments when it has no source of non-determinism itself'],
}.items()})
PROPS['C13'] = Prop(safeproof.run, ['the kind of a value is one of the ten the parser library defines',
                                    'types and values are finite (no cycles), so recursion on a part of an argument ends',
                                    'the exported functions are called with documents the parser returned and changes the comparison returned'])
PROPS['L10'] = Prop(lexproof.run, ['the texts handed to both lexers are the same object (linter and parser read the same file: L07)',
                                   'the parser\'s own lexer is the gqlparser version pinned in go.mod, read from the module cache on every run',
                                   'utf8.DecodeRuneInString: width 1 to 4 within the text, ASCII exactly for bytes below 128; other library functions '
                                   'are functions of their arguments', 'the token Src pointer is the source given to New'])
PROPS['L07'] = Prop(cliproof.run, PROPS['L10'].extra + [
    'a text the parser accepts has no lexical error, so ReadToken reports none; after the end of the text it keeps returning the end',
    'regexp.FindStringSubmatch: its result is a function of the expression\'s language with groups and the text; nil when nothing matches'])

"""wfaudit.py [N]: the invariants of parsed documents that the proofs assume (engine/facts.py), evaluated on N random
documents parsed by the real parser.  Builds the harness in a scratch directory."""
import os
import random
import re
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('engine', 'contracts', 'concrete'):
    sys.path.insert(0, os.path.join(V, d))
import check
import facts
import gen
import lintsuite
import run as R

# struct -> {field: struct of the value or of the list's elements}
KIDS = {
    'SchemaDocument': {'Definitions': 'Definition', 'Extensions': 'Definition', 'Directives': 'DirectiveDefinition',
                       'Schema': 'SchemaDefinition', 'SchemaExtension': 'SchemaDefinition'},
    'Definition': {'Fields': 'FieldDefinition', 'EnumValues': 'EnumValueDefinition', 'Directives': 'Directive', 'Position': 'Position'},
    'FieldDefinition': {'Type': 'Type', 'Arguments': 'ArgumentDefinition', 'Directives': 'Directive', 'DefaultValue': 'Value',
                        'Position': 'Position'},
    'ArgumentDefinition': {'Type': 'Type', 'Directives': 'Directive', 'DefaultValue': 'Value', 'Position': 'Position'},
    'EnumValueDefinition': {'Directives': 'Directive', 'Position': 'Position'},
    'Directive': {'Arguments': 'Argument', 'Position': 'Position'},
    'Argument': {'Value': 'Value', 'Position': 'Position'},
    'DirectiveDefinition': {'Arguments': 'ArgumentDefinition', 'Position': 'Position'},
    'SchemaDefinition': {'OperationTypes': 'OperationTypeDefinition', 'Directives': 'Directive', 'Position': 'Position'},
    'OperationTypeDefinition': {'Position': 'Position'},
    'Type': {'Elem': 'Type', 'Position': 'Position'},
    'Value': {}, 'Position': {},
}
seen = {}


def bad(why, x):
    seen.setdefault('BAD ' + why, [0, x])[0] += 1


def count(f):
    seen.setdefault(f, [0, None])[0] += 1


def walk(st, x, unique):
    for f in facts.NONNULL_FIELDS:
        s, _, n = f.partition('.')
        if s == st and n in x:
            count(f)
            if x[n] is None:
                bad(f, x)
    for f in facts.NONEMPTY:
        s, _, n = f.partition('.')
        if s == st:
            count(f)
            if not x[n]:
                bad(f, x)
    for f in facts.NAMES:
        s, _, n = f.partition('.')
        if s == st:
            count(f + ' is a name')
            if not re.fullmatch('[_A-Za-z][_0-9A-Za-z]*', x[n]):
                bad(f + ' is a name', x)
    for f, kinds in facts.BYKIND.items():
        s, _, n = f.partition('.')
        if s == st and x[n]:
            count(f)
            if x['Kind'] not in kinds:
                bad(f, x)
    if unique:
        for f, key in facts.UNIQUE.items():
            s, _, n = f.partition('.')
            if s == st and n and x[n]:
                l = [y if key is None else y[key.split('.')[1]] for y in x[n]]
                count(f + ' distinct')
                if len(set(l)) != len(l):
                    bad(f + ' distinct', l)
    if st == 'Type':
        count('Type wf')
        if (x['NamedType'] == '') != (x['Elem'] is not None):
            bad('Type wf', x)
    if st == 'Value' and not 0 <= int(x['Kind']) <= 9:
        bad('Value.Kind', x)
    for f, t in KIDS[st].items():
        y = x.get(f)
        for z in y if isinstance(y, list) else [y]:
            if z is not None:
                walk(t, z, unique)
            elif isinstance(y, list):
                bad('%s.%s element' % (st, f), x)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
    with tempfile.TemporaryDirectory() as d:
        subprocess.run(['go', 'build', '-o', d + '/h', '.'], cwd=V + '/harness', env=check.goenv(), check=True)
        s = R.Server(d + '/h')
        for i in range(n):
            r = random.Random(i)
            dup = i % 2 == 1
            G = (lintsuite.LintGen if i % 3 == 0 else gen.Gen)(r, [], dup=dup, ints=[5, 17])
            a, b = G.pair()
            res = s.ask({'op': 'cmp', 'old': a, 'new': b, 'full': True})
            if 'err' in res or res.get('dead'):
                count('not accepted')
                continue
            for x in ('old', 'new'):
                walk('SchemaDocument', res[x], not dup)
        s.close()
    for k in sorted(seen):
        print(seen[k][0], k, '' if seen[k][1] is None else str(seen[k][1])[:300])
    return any(k.startswith('BAD') for k in seen)


sys.exit(main())

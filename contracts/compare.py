"""Contracts of pkg/compare.  Each function below is the postcondition "result == ..." of the Go function named in
FUNCS (as a multiset of changes), written from the property statements C01-C11 and C16.  Cxx tags say which
property fixes the line."""

NB, DG, BR = 0, 1, 2


def dep(S, l):
    return S.byname(l, 'deprecated')


def some(S, n):
    return S.not_(S.isnil(n))


# ---------------------------------------------------------------- C01: types
def type_removed(S, old, new):
    return S.each(old, lambda o: S.when(S.isnil(S.byname(new, o.Name)), lambda: S.change(
        'C01', 'TYPE_REMOVED', BR, o.Name, [o.Name], None, [o.Position])))


def type_added(S, old, new):
    return S.each(new, lambda n: S.when(S.isnil(S.byname(old, n.Name)), lambda: S.change(
        'C01', 'TYPE_ADDED', NB, n.Name, [n.Name], None, [n.Position])))


def kept(S, old, new, f):
    """f on every pair of elements of the same name"""
    def one(o):
        n = S.byname(new, o.Name)
        return S.when(some(S, n), lambda: f(o, n))
    return S.each(old, one)


def persisted(S, old, new):
    def one(o, n):
        kind = lambda k: S.and_(S.eq(o.Kind, k), S.eq(n.Kind, k))
        out = S.when(S.ne(o.Kind, n.Kind), lambda: S.change(
            'C01', 'TYPE_KIND_CHANGED', BR, o.Name, [o.Name], (o.Kind, n.Kind), [n.Position, o.Position]))
        out += S.when(S.ne(o.Description, n.Description), lambda: S.change(
            'C10', 'TYPE_DESCRIPTION_CHANGED', NB, o.Name, [o.Name], None, [n.Position, o.Position]))
        out += S.when(kind('OBJECT'), lambda: object_changes(S, o, n))
        out += S.when(kind('INTERFACE'), lambda: interface_changes(S, o, n))
        out += S.when(kind('INPUT_OBJECT'), lambda: input_changes(S, o, n))
        out += S.when(kind('ENUM'), lambda: enum_changes(S, o, n))
        out += S.when(kind('UNION'), lambda: union_changes(S, o, n))
        return out
    return kept(S, old, new, one)


# ---------------------------------------------------------------- C02: fields of objects and interfaces
def fields(S, o, n):
    def one(of):
        nf = S.byname(n.Fields, of.Name)
        return S.cases(
            (S.isnil(nf), lambda: S.change('C02', 'FIELD_REMOVED', BR, S.cat(o.Name, '.', of.Name), [o.Name, of.Name],
                                           None, [of.Position, o.Position, n.Position])),
            (S.true, lambda: field_kept(S, o, n, of, nf)))
    return S.each(o.Fields, one) + fields_added(S, o, n)


def fields_added(S, o, n):
    return S.each(n.Fields, lambda nf: S.when(S.isnil(S.byname(o.Fields, nf.Name)), lambda: S.change(
        'C02', 'FIELD_ADDED', NB, S.cat(o.Name, '.', nf.Name), [n.Name, nf.Name], None,
        [nf.Position, n.Position, o.Position])))


def owners(o, n):
    return [o.Position] + ([n.Position] if n is not None else [])


def field_type(S, o, of, nf, n=None):
    return S.when(S.ne(S.tstr(of.Type), S.tstr(nf.Type)), lambda: S.change(
        'C02', 'FIELD_TYPE_CHANGED', S.ite(S.safe_out(of.Type, nf.Type), NB, BR), S.cat(o.Name, '.', of.Name),
        [o.Name, of.Name], (S.tstr(of.Type), S.tstr(nf.Type)),
        [nf.Position, of.Position, nf.Type.Position, of.Type.Position] + owners(o, n)))


def field_kept(S, o, n, of, nf):
    out = field_type(S, o, of, nf, n)
    out += S.when(S.ne(of.Description, nf.Description), lambda: S.change(
        'C10', 'FIELD_DESCRIPTION_CHANGED', NB, S.cat(o.Name, '.', of.Name), [o.Name, of.Name], None,
        [nf.Position, of.Position, o.Position, n.Position]))
    out += deprecation(S, 'FIELD', o, of, nf, n)
    out += arguments(S, of, nf, o.Name)
    out += applied(S, of.Directives, nf.Directives, S.cat(o.Name, '.', of.Name), [nf.Position, of.Position])
    return out


def object_changes(S, o, n):
    return (interface_removed(S, o, n) + interface_added(S, o, n)
            + applied(S, o.Directives, n.Directives, o.Name, [n.Position, o.Position]) + fields(S, o, n))


def interface_changes(S, o, n):
    return applied(S, o.Directives, n.Directives, o.Name, [n.Position, o.Position]) + fields(S, o, n)


# ---------------------------------------------------------------- C03: field arguments
def arguments(S, of, nf, tn):
    path = lambda a: S.cat(tn, '.', of.Name, '.', a.Name)
    names = lambda a: [a.Name, tn, of.Name]

    def one(oa):
        na = S.byname(nf.Arguments, oa.Name)

        def both():
            out = argument_type(S, oa, na, tn, of.Name, [of.Position, nf.Position])
            out += S.when(S.ne(S.vstr(oa.DefaultValue), S.vstr(na.DefaultValue)), lambda: S.change(
                'C03', 'FIELD_ARGUMENT_DEFAULT_CHANGED', DG, path(oa), names(oa),
                (S.vstr(oa.DefaultValue), S.vstr(na.DefaultValue)), [na.Position, oa.Position, of.Position, nf.Position]))
            out += S.when(S.ne(oa.Description, na.Description), lambda: S.change(
                'C10', 'FIELD_ARGUMENT_DESCRIPTION_CHANGED', NB, path(oa), names(oa), None,
                [na.Position, oa.Position, of.Position, nf.Position]))
            return out
        return S.cases(
            (S.isnil(na), lambda: S.change('C03', 'FIELD_ARGUMENT_REMOVED', BR, path(oa), names(oa), None,
                                           [oa.Position, of.Position, nf.Position])),
            (S.true, both))
    return S.each(of.Arguments, one) + arguments_added(S, of, nf, tn)


def arguments_added(S, of, nf, tn):
    return S.each(nf.Arguments, lambda na: S.when(S.isnil(S.byname(of.Arguments, na.Name)), lambda: S.change(
        'C03', 'FIELD_ARGUMENT_ADDED', S.ite(na.Type.NonNull, BR, DG), S.cat(tn, '.', of.Name, '.', na.Name),
        [na.Name, tn, of.Name], None, [na.Position, of.Position, nf.Position])))


def argument_type(S, oa, na, tn, fn, pos=()):
    return S.when(S.ne(S.tstr(oa.Type), S.tstr(na.Type)), lambda: S.change(
        'C03', 'FIELD_ARGUMENT_TYPE_CHANGED', S.ite(S.safe_in(oa.Type, na.Type), NB, BR),
        S.cat(tn, '.', fn, '.', oa.Name), [oa.Name, tn, fn], (S.tstr(oa.Type), S.tstr(na.Type)),
        [na.Position, oa.Position, na.Type.Position, oa.Type.Position] + list(pos)))


# ---------------------------------------------------------------- C04: input fields
def input_changes(S, o, n):
    path = lambda f: S.cat(o.Name, '.', f.Name)

    def one(of):
        nf = S.byname(n.Fields, of.Name)

        def both():
            out = input_field_type(S, o, of, nf, n)
            out += S.when(S.ne(of.Description, nf.Description), lambda: S.change(
                'C10', 'INPUT_FIELD_DESCRIPTION_CHANGED', NB, path(of), [o.Name, of.Name], None,
                [nf.Position, of.Position, o.Position, n.Position]))
            out += deprecation(S, 'INPUT_FIELD', o, of, nf, n)
            out += applied(S, of.Directives, nf.Directives, path(of), [nf.Position, of.Position])
            return out
        return S.cases(
            (S.isnil(nf), lambda: S.change('C04', 'INPUT_FIELD_REMOVED', BR, path(of), [o.Name, of.Name], None,
                                           [of.Position, o.Position, n.Position])),
            (S.true, both))
    return S.each(o.Fields, one) + input_fields_added(S, o, n)


def input_fields_added(S, o, n):
    return S.each(n.Fields, lambda nf: S.when(S.isnil(S.byname(o.Fields, nf.Name)), lambda: S.change(
        'C04', 'INPUT_FIELD_ADDED', S.ite(nf.Type.NonNull, BR, DG), S.cat(o.Name, '.', nf.Name), [n.Name, nf.Name], None,
        [nf.Position, n.Position, o.Position])))


def input_field_type(S, o, of, nf, n=None):
    path, names = S.cat(o.Name, '.', of.Name), [o.Name, of.Name]
    pos = [nf.Position, of.Position, nf.Type.Position, of.Type.Position] + owners(o, n)
    out = S.when(S.ne(S.tstr(of.Type), S.tstr(nf.Type)), lambda: S.change(
        'C04', 'INPUT_FIELD_TYPE_CHANGED', S.ite(S.safe_in(of.Type, nf.Type), NB, BR), path, names,
        (S.tstr(of.Type), S.tstr(nf.Type)), pos))
    out += S.when(S.ne(S.vstr(of.DefaultValue), S.vstr(nf.DefaultValue)), lambda: S.change(
        'C04', 'INPUT_FIELD_DEFAULT_VALUE_CHANGED', DG, path, names,
        (S.vstr(of.DefaultValue), S.vstr(nf.DefaultValue)), pos))
    return out


# ---------------------------------------------------------------- C05: enum values
def enum_changes(S, o, n):
    path = lambda v: S.cat(o.Name, '.', v.Name)

    def one(ov):
        nv = S.byname(n.EnumValues, ov.Name)

        def both():
            return S.when(S.ne(ov.Description, nv.Description), lambda: S.change(
                'C10', 'ENUM_VALUE_DESCRIPTION_CHANGED', NB, path(ov), [o.Name, ov.Name], None,
                [nv.Position, ov.Position, o.Position, n.Position])) + deprecation(S, 'ENUM_VALUE', o, ov, nv, n)
        return S.cases(
            (S.isnil(nv), lambda: S.change('C05', 'ENUM_VALUE_REMOVED', BR, path(ov), [o.Name, ov.Name], None,
                                           [ov.Position, o.Position, n.Position])),
            (S.true, both))
    return S.each(o.EnumValues, one) + enum_added(S, o, n)


def enum_added(S, o, n):
    return S.each(n.EnumValues, lambda nv: S.when(S.isnil(S.byname(o.EnumValues, nv.Name)), lambda: S.change(
        'C05', 'ENUM_VALUE_ADDED', DG, S.cat(o.Name, '.', nv.Name), [n.Name, nv.Name], None,
        [nv.Position, n.Position, o.Position])))


# ---------------------------------------------------------------- C06: unions and interfaces
def member(S, a, b, tag, ty, level, o, n):
    return S.each(a, lambda m: S.when(S.not_(S.has(b, m)), lambda: S.change(
        tag, ty, level, o.Name, [o.Name, m], None, [n.Position, o.Position])))


def interface_removed(S, o, n):
    return member(S, o.Interfaces, n.Interfaces, 'C06', 'OBJECT_TYPE_INTERFACE_REMOVED', BR, o, n)


def interface_added(S, o, n):
    return member(S, n.Interfaces, o.Interfaces, 'C06', 'OBJECT_TYPE_INTERFACE_ADDED', DG, o, n)


def member_removed(S, o, n):
    return member(S, o.Types, n.Types, 'C06', 'UNION_MEMBER_REMOVED', BR, o, n)


def member_added(S, o, n):
    return member(S, n.Types, o.Types, 'C06', 'UNION_MEMBER_ADDED', DG, o, n)


def union_changes(S, o, n):
    return member_removed(S, o, n) + member_added(S, o, n)


# ---------------------------------------------------------------- C07: directive definitions
def directives(S, old, new):
    def one(od):
        nd = S.byname(new, od.Name)
        return S.cases(
            (S.isnil(nd), lambda: S.change('C07', 'DIRECTIVE_REMOVED', BR, S.cat('@', od.Name), [od.Name], None,
                                           [od.Position])),
            (S.true, lambda: directive_kept(S, od, nd)))
    return S.each(old, one) + directives_added(S, old, new)


def directives_added(S, old, new):
    return S.each(new, lambda nd: S.when(S.isnil(S.byname(old, nd.Name)), lambda: S.change(
        'C07', 'DIRECTIVE_ADDED', NB, S.cat('@', nd.Name), [nd.Name], None, [nd.Position])))


def directive_kept(S, od, nd):
    out = S.when(S.ne(od.Description, nd.Description), lambda: S.change(
        'C10', 'DIRECTIVE_DESCRIPTION_CHANGED', NB, S.cat('@', od.Name), [od.Name], None, [nd.Position, od.Position]))
    return (out + directive_locations(S, od, nd) + directive_repeatable(S, od, nd)
            + directive_arguments(S, od, nd) + directive_arguments_added(S, od, nd))


def directive_locations(S, od, nd):
    p, pos = S.cat('@', od.Name), [nd.Position, od.Position]
    return (S.each(od.Locations, lambda l: S.when(S.not_(S.has(nd.Locations, l)), lambda: S.change(
                'C07', 'DIRECTIVE_LOCATION_REMOVED', BR, p, [od.Name, l], None, pos)))
            + S.each(nd.Locations, lambda l: S.when(S.not_(S.has(od.Locations, l)), lambda: S.change(
                'C07', 'DIRECTIVE_LOCATION_ADDED', NB, p, [nd.Name, l], None, pos))))


def directive_repeatable(S, od, nd):
    p, pos = S.cat('@', od.Name), [nd.Position, od.Position]
    return (S.when(S.and_(od.IsRepeatable, S.not_(nd.IsRepeatable)), lambda: S.change(
                'C07', 'DIRECTIVE_REPEATABLE_REMOVED', BR, p, [od.Name], None, pos))
            + S.when(S.and_(S.not_(od.IsRepeatable), nd.IsRepeatable), lambda: S.change(
                'C07', 'DIRECTIVE_REPEATABLE_ADDED', NB, p, [od.Name], None, pos)))


def directive_arguments(S, od, nd):
    path = lambda a: S.cat('@', od.Name, '.', a.Name)

    def one(oa):
        na = S.byname(nd.Arguments, oa.Name)

        def both():
            return directive_argument_type(S, od, oa, na, nd) + S.when(
                S.ne(oa.Description, na.Description), lambda: S.change(
                    'C10', 'DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED', NB, path(oa), [oa.Name, od.Name], None,
                    [na.Position, oa.Position, nd.Position, od.Position]))
        return S.cases(
            (S.isnil(na), lambda: S.change('C07', 'DIRECTIVE_ARGUMENT_REMOVED', BR, path(oa), [oa.Name, od.Name], None,
                                           [oa.Position, nd.Position, od.Position])),
            (S.true, both))
    return S.each(od.Arguments, one)


def directive_arguments_added(S, od, nd):
    return S.each(nd.Arguments, lambda na: S.when(S.isnil(S.byname(od.Arguments, na.Name)), lambda: S.change(
        'C07', 'DIRECTIVE_ARGUMENT_ADDED', S.ite(na.Type.NonNull, BR, NB), S.cat('@', od.Name, '.', na.Name),
        [na.Name, od.Name], None, [na.Position, nd.Position, od.Position])))


def directive_argument_type(S, od, oa, na, nd=None):
    path, names = S.cat('@', od.Name, '.', oa.Name), [oa.Name, od.Name]
    pos = [na.Position, oa.Position] + owners(od, nd) + [na.Type.Position, oa.Type.Position]
    out = S.when(S.ne(S.tstr(oa.Type), S.tstr(na.Type)), lambda: S.change(
        'C07', 'DIRECTIVE_ARGUMENT_TYPE_CHANGED', S.ite(S.safe_in(oa.Type, na.Type), NB, BR), path, names,
        (S.tstr(oa.Type), S.tstr(na.Type)), pos))
    out += S.when(S.ne(S.vstr(oa.DefaultValue), S.vstr(na.DefaultValue)), lambda: S.change(
        'C07', 'DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED', DG, path, names,
        (S.vstr(oa.DefaultValue), S.vstr(na.DefaultValue)), pos))
    return out


# ---------------------------------------------------------------- C08: applied directives
def applied(S, olds, news, tn, pos):
    def one(od):
        same = lambda l: S.filter(l, lambda d: S.eq(d.Name, od.Name))
        os, ns = same(olds), same(news)
        nd = S.byname(news, od.Name)
        return S.when(S.ne(od.Name, 'deprecated'), lambda: S.cases(
            (S.isnil(nd), lambda: S.change('C08', 'DIRECTIVE_REMOVED', DG, tn, [od.Name, tn], None, pos + [od.Position])),
            (S.and_(S.eq(S.count(os), 1), S.eq(S.count(ns), 1)), lambda:
                applied_changed(S, od, nd, tn, pos) + applied_arg_added(S, od, nd, tn)),
            (S.not_(S.exists(news, lambda d: S.and_(S.eq(d.Name, od.Name), lambda: same_args(S, od, d)))), lambda: S.change(
                'C08', 'DIRECTIVE_CHANGED', DG, tn, [od.Name, tn], None, pos + [od.Position]))))
    return S.each(olds, one) + applied_added(S, olds, news, tn)


def same_args(S, a, b):
    def match(x):
        y = S.byname(b.Arguments, x.Name)
        return S.and_(some(S, y), lambda: S.eq(S.vstr(x.Value), S.vstr(y.Value)))
    return S.and_(S.eq(S.count(a.Arguments), S.count(b.Arguments)), lambda: S.all(a.Arguments, match))


def applied_changed(S, od, nd, tn, pos):
    path = lambda a: S.cat('@', od.Name, '.', a.Name)

    def one(oa):
        na = S.byname(nd.Arguments, oa.Name)
        return S.cases(
            (S.isnil(na), lambda: S.change('C08', 'DIRECTIVE_ARGUMENT_REMOVED', DG, path(oa), [od.Name, oa.Name, tn], None,
                                           pos + [oa.Position, od.Position, nd.Position])),
            (S.ne(S.vstr(oa.Value), S.vstr(na.Value)) if not S.concrete else (
                lambda: S.ne(S.vstr(oa.Value), S.vstr(na.Value))), lambda: S.change(
                'C08', 'DIRECTIVE_ARGUMENT_VALUE_CHANGED', DG, path(oa), [od.Name, oa.Name, tn],
                (S.vstr(oa.Value), S.vstr(na.Value)), pos + [na.Position, oa.Position, od.Position, nd.Position])))
    return S.each(od.Arguments, one)


def applied_arg_added(S, od, nd, tn):
    return S.each(nd.Arguments, lambda na: S.when(S.isnil(S.byname(od.Arguments, na.Name)), lambda: S.change(
        'C08', 'DIRECTIVE_ARGUMENT_ADDED', NB, S.cat(tn, '.@', od.Name), [od.Name, na.Name, tn], None,
        [na.Position, nd.Position, od.Position])))


def applied_added(S, olds, news, tn):
    return S.each(news, lambda nd: S.when(
        S.and_(S.ne(nd.Name, 'deprecated'), S.isnil(S.byname(olds, nd.Name))), lambda: S.change(
            'C08', 'DIRECTIVE_ADDED', NB, tn, [nd.Name, tn], None, [nd.Position])))


# ---------------------------------------------------------------- C09: deprecation
def deprecation(S, cat, o, of, nf, n=None):
    od, nd = dep(S, of.Directives), dep(S, nf.Directives)
    path, names = S.cat(o.Name, '.', of.Name), [o.Name, of.Name]
    pos = [nf.Position, of.Position] + owners(o, n)

    def reasons():
        a, b = S.byname(od.Arguments, 'reason'), S.byname(nd.Arguments, 'reason')
        return S.when(S.and_(some(S, a), some(S, b), lambda: S.ne(S.vstr(a.Value), S.vstr(b.Value))), lambda: S.change(
            'C09', cat + '_DEPRECATION_REASON_CHANGED', NB, path, names, None, pos))
    return S.cases(
        (S.and_(S.isnil(od), some(S, nd)), lambda: S.change('C09', cat + '_DEPRECATION_ADDED', DG, path, names, None, pos)),
        (S.and_(some(S, od), S.isnil(nd)), lambda: S.change('C09', cat + '_DEPRECATION_REMOVED', DG, path, names, None, pos)),
        (S.and_(some(S, od), some(S, nd)), reasons))


def field_deprecation(S, o, of, nf):
    """the category is decided by the kind of the owning type"""
    isin = S.eq(o.Kind, 'INPUT_OBJECT')
    return (S.when(isin, lambda: deprecation(S, 'INPUT_FIELD', o, of, nf))
            + S.when(S.not_(isin), lambda: deprecation(S, 'FIELD', o, of, nf)))


# ---------------------------------------------------------------- C11: root operations
OPS = (('query', 'SCHEMA_QUERY_TYPE_CHANGED'), ('mutation', 'SCHEMA_MUTATION_TYPE_CHANGED'),
       ('subscription', 'SCHEMA_SUBSCRIPTION_TYPE_CHANGED'))


def root_ops(S, old, new):
    """old, new: all blocks of the schema definition (or of its extensions)"""
    out = S.each((), lambda x: ()) if S.concrete else ()
    for op, ty in OPS:
        a, b = operation(S, old, op), operation(S, new, op)
        out += root_op(S, a, b, op, ty)
    return out


def operation(S, blocks, op):
    if S.concrete:
        for b in blocks or []:
            for o in b['OperationTypes'] or []:
                if o['Operation'] == op:
                    return S.wrap(o)
        return None
    blk = lambda b: S.find(b.OperationTypes, lambda o: S.eq(o.Operation, op))
    first = S.find(blocks, lambda b: some(S, blk(b)))
    return S.ite(S.isnil(first), S_null(S, blk(first)), blk(first))


def S_null(S, like):
    from spec import N
    from core import null
    return N(S, null, like.t)


def root_op(S, a, b, op, ty):
    return S.cases(
        (S.and_(S.isnil(a), some(S, b)), lambda: S.change('C11', ty, NB, '', [op, b.Type], None, [b.Position])),
        (S.and_(some(S, a), S.isnil(b)), lambda: S.change('C11', ty, BR, '', [op, a.Type], None, [a.Position])),
        (S.and_(some(S, a), some(S, b), lambda: S.ne(a.Type, b.Type)), lambda: S.change(
            'C11', ty, BR, '', [op], (a.Type, b.Type), [b.Position, a.Position])))


def root_op_by_name(S, a, b, op):
    out = ()
    for o, ty in OPS:
        out += S.when(S.eq(op, o), lambda: root_op(S, a, b, o, ty))
    return out


# ---------------------------------------------------------------- the whole comparison
def types(S, old, new):
    oe, ne = S.merged(old.Extensions), S.merged(new.Extensions)
    return (type_removed(S, old.Definitions, new.Definitions) + type_added(S, old.Definitions, new.Definitions)
            + type_removed(S, oe, ne) + type_added(S, oe, ne)
            + persisted(S, old.Definitions, new.Definitions) + persisted(S, oe, ne))


def all_changes(S, old, new):
    return (root_ops(S, old.Schema, new.Schema) + root_ops(S, old.SchemaExtension, new.SchemaExtension)
            + types(S, old, new) + directives(S, old.Directives, new.Directives))


TYPES = {
    'C01': ['TYPE_REMOVED', 'TYPE_ADDED', 'TYPE_KIND_CHANGED'],
    'C02': ['FIELD_REMOVED', 'FIELD_ADDED', 'FIELD_TYPE_CHANGED'],
    'C03': ['FIELD_ARGUMENT_REMOVED', 'FIELD_ARGUMENT_ADDED', 'FIELD_ARGUMENT_DEFAULT_CHANGED',
            'FIELD_ARGUMENT_TYPE_CHANGED'],
    'C04': ['INPUT_FIELD_REMOVED', 'INPUT_FIELD_ADDED', 'INPUT_FIELD_DEFAULT_VALUE_CHANGED', 'INPUT_FIELD_TYPE_CHANGED'],
    'C05': ['ENUM_VALUE_REMOVED', 'ENUM_VALUE_ADDED'],
    'C06': ['UNION_MEMBER_REMOVED', 'UNION_MEMBER_ADDED', 'OBJECT_TYPE_INTERFACE_REMOVED', 'OBJECT_TYPE_INTERFACE_ADDED'],
    'C07': ['DIRECTIVE_REMOVED', 'DIRECTIVE_ADDED', 'DIRECTIVE_LOCATION_REMOVED', 'DIRECTIVE_LOCATION_ADDED',
            'DIRECTIVE_REPEATABLE_REMOVED', 'DIRECTIVE_REPEATABLE_ADDED', 'DIRECTIVE_ARGUMENT_REMOVED',
            'DIRECTIVE_ARGUMENT_ADDED', 'DIRECTIVE_ARGUMENT_TYPE_CHANGED', 'DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED'],
    'C08': ['DIRECTIVE_REMOVED', 'DIRECTIVE_ADDED', 'DIRECTIVE_CHANGED', 'DIRECTIVE_ARGUMENT_REMOVED',
            'DIRECTIVE_ARGUMENT_VALUE_CHANGED', 'DIRECTIVE_ARGUMENT_ADDED'],
    'C09': [c + '_DEPRECATION_' + x for c in ('FIELD', 'INPUT_FIELD', 'ENUM_VALUE')
            for x in ('ADDED', 'REMOVED', 'REASON_CHANGED')],
    'C10': [c + '_DESCRIPTION_CHANGED' for c in ('TYPE', 'FIELD', 'FIELD_ARGUMENT', 'INPUT_FIELD', 'ENUM_VALUE',
                                                 'DIRECTIVE', 'DIRECTIVE_ARGUMENT')],
    'C11': [t for _, t in OPS],
}
ALL_TYPES = sorted(set(t for ts in TYPES.values() for t in ts))

D, FD, AD, EV = '*ast.Definition', '*ast.FieldDefinition', '*ast.ArgumentDefinition', '*ast.EnumValueDefinition'
DL, DIRL, DD, DDL = 'ast.DefinitionList', 'ast.DirectiveList', '*ast.DirectiveDefinition', 'ast.DirectiveDefinitionList'
DIR, POS, STR, SDL, OP = '*ast.Directive', '*ast.Position', 'string', 'ast.SchemaDefinitionList', '*ast.OperationTypeDefinition'
DOC = '*ast.SchemaDocument'

def same(S, a, b, *_):
    return S.eq(a.Name, b.Name)


def same2(S, d, a, b):
    return S.eq(a.Name, b.Name)


def output_type(S, o, n):
    return S.and_(S.eq(o.Name, n.Name), S.ne(o.Kind, 'INPUT_OBJECT'), S.eq(o.Kind, n.Kind))


def input_type(S, o, n):
    return S.and_(S.eq(o.Name, n.Name), S.eq(o.Kind, 'INPUT_OBJECT'), S.eq(o.Kind, n.Kind))


# Go function -> (parameter types, postcondition over the parameters, precondition)
FUNCS = {
    'checkTypeRemoved': ((DL, DL, 'bool'), lambda S, o, n, e: type_removed(S, o, n)),
    'checkTypeAdded': ((DL, DL, 'bool'), lambda S, o, n, e: type_added(S, o, n)),
    'checkEnumValueDeprecationChanged': ((D, EV, EV), lambda S, o, nv, ov: deprecation(S, 'ENUM_VALUE', o, ov, nv), same2),
    'checkEnumValuesAdded': ((D, D), enum_added, same),
    'changeInEnum': ((D, D), enum_changes, same),
    'checkFieldDeprecationChanged': ((D, FD, FD), lambda S, o, nf, of: field_deprecation(S, o, of, nf), same2),
    'checkInputFieldTypeValueChanged': ((D, FD, FD), input_field_type, same2),
    'checkInputFieldsAdded': ((D, D), input_fields_added, same),
    'checkTypeInterfaceRemoved': ((D, D), interface_removed, same),
    'checkTypeInterfacesAdded': ((D, D), interface_added, same),
    'checkUnionMemberRemoved': ((D, D), member_removed, same),
    'checkUnionMemberAdded': ((D, D), member_added, same),
    'changeInUnion': ((D, D), union_changes, same),
    'checkFieldTypeChanged': ((D, FD, FD), field_type, same2),
    'checkFieldsAdded': ((D, D), fields_added, same),
    'checkFieldArgumentTypeChanged': ((AD, AD, STR, STR), argument_type, same),
    'checkFieldArgumentAdded': ((FD, FD, STR), arguments_added, same),
    'changeInArgument': ((FD, FD, STR), arguments, same),
    'checkFieldDirectiveArgumentChanged': ((DIR, DIR, STR, POS), lambda S, a, b, t, p: applied_changed(S, a, b, t, [p]), same),
    'checkFieldDirectiveArgumentAdded': ((DIR, DIR, STR), applied_arg_added, same),
    'checkFieldDirectiveAdded': ((DIRL, DIRL, STR), applied_added),
    'changeInTypeFieldDirectives': ((DIRL, DIRL, STR, POS), lambda S, a, b, t, p: applied(S, a, b, t, [p])),
    'checkDirectiveLocationChanged': ((DD, DD), directive_locations, same),
    'checkDirectiveRepeatableChanged': ((DD, DD), directive_repeatable, same),
    'checkDirectiveArgumentTypeChanged': ((DD, AD, AD), directive_argument_type, same2),
    'checkDirectiveArgumentAdded': ((DD, DD), directive_arguments_added, same),
    'changeInDirectiveArguments': ((DD, DD), directive_arguments, same),
    'checkDirectiveAdded': ((DDL, DDL), directives_added),
    'changeInDirective': ((DDL, DDL), directives),
    'changesInSchemaOperation': ((OP, OP, 'ast.Operation'), root_op_by_name,
                                 lambda S, a, b, op: S.or_(*[S.eq(op, o) for o, _ in OPS])),
    'changeInSchema': ((SDL, SDL), root_ops),
    'changeInFields': ((D, D), fields, output_type),
    'changeInInputFields': ((D, D), input_changes, input_type),
    'changeInObject': ((D, D), object_changes, output_type),
    'changeInPersistedTypes': ((DL, DL), persisted),
    'changeInTypes': ((DOC, DOC), types),
    'FindChangesInSchemas': ((DOC, DOC), all_changes),
}

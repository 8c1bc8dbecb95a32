"""Contracts of the lint rules (properties L01-L04): RULES[name] is the postcondition "result == ..." of the function the
rule table lists under that name.  An expected error is S.change(property, rule, line, column, names)."""

OBJ, IFC, INP, ENUM = 'OBJECT', 'INTERFACE', 'INPUT_OBJECT', 'ENUM'


def err(S, tag, rule, pos, *names):
    return S.change(tag, rule, pos.Line, pos.Column, names)


def both(S, doc, f):
    return S.each(doc.Definitions, f) + S.each(doc.Extensions, f)


def undescribed(S, x):
    return S.eq(S.len(x.Description), 0)


# ---------------------------------------------------------------- L01
def type_desc(S, doc):
    return S.each(doc.Definitions, lambda d: S.when(undescribed(S, d), lambda: err(
        S, 'L01', 'type-desc', d.Position, d.Name)))


def field_desc(S, doc):
    return both(S, doc, lambda d: S.each(d.Fields, lambda f: S.when(undescribed(S, f), lambda: err(
        S, 'L01', 'field-desc', f.Type.Position, d.Name, f.Name))))


def args_desc(S, doc):
    return both(S, doc, lambda d: S.when(S.or_(S.eq(d.Kind, OBJ), S.eq(d.Kind, IFC)), lambda: S.each(
        d.Fields, lambda f: S.each(f.Arguments, lambda a: S.when(undescribed(S, a), lambda: err(
            S, 'L01', 'args-desc', a.Position, d.Name, f.Name, a.Name))))))


def enum_desc(S, doc):
    return both(S, doc, lambda d: S.when(S.eq(d.Kind, ENUM), lambda: S.each(
        d.EnumValues, lambda v: S.when(undescribed(S, v), lambda: err(
            S, 'L01', 'enum-desc', v.Position, d.Name, v.Name)))))


# ---------------------------------------------------------------- L02
def enum_caps(S, doc):
    return both(S, doc, lambda d: S.when(S.eq(d.Kind, ENUM), lambda: S.each(
        d.EnumValues, lambda v: S.when(S.ne(S.upper(v.Name), v.Name), lambda: err(
            S, 'L02', 'enum-caps', v.Position, d.Name, v.Name)))))


def field_camel(S, doc):
    return both(S, doc, lambda d: S.each(d.Fields, lambda f: S.when(
        S.not_(S.matches('^[a-z][a-zA-Z0-9]*$', f.Name)), lambda: err(
            S, 'L02', 'field-camel', f.Type.Position, d.Name, f.Name))))


def type_caps(S, doc):
    def lower(d):
        return S.and_(S.le(97, S.byte(d.Name, 0)), S.le(S.byte(d.Name, 0), 122))
    return both(S, doc, lambda d: S.when(lower(d), lambda: err(S, 'L02', 'type-caps', d.Position, d.Name)))


# ---------------------------------------------------------------- L03
def is_list(S, t):
    return S.eq(t.NamedType, '')


def relay_conn_type(S, doc):
    R = 'relay-conn-type'

    def page_info(t):
        return S.and_(S.not_(is_list(S, t)), lambda: S.eq(t.NamedType, 'PageInfo'), lambda: t.NonNull)

    def fields(d):
        out = S.when(S.not_(S.exists(d.Fields, lambda f: S.eq(f.Name, 'edges'))), lambda: err(S, 'L03', R, d.Position, d.Name))
        out += S.when(S.not_(S.exists(d.Fields, lambda f: S.eq(f.Name, 'pageInfo'))), lambda: err(
            S, 'L03', R, d.Position, d.Name))
        out += S.each(d.Fields, lambda f: S.cases(
            (S.and_(S.eq(f.Name, 'edges'), lambda: S.not_(is_list(S, f.Type))), lambda: err(
                S, 'L03', R, f.Type.Position, d.Name)),
            (S.and_(S.eq(f.Name, 'pageInfo'), lambda: S.not_(page_info(f.Type))), lambda: err(
                S, 'L03', R, f.Type.Position, d.Name))))
        return out
    return S.each(doc.Definitions, lambda d: S.when(S.has_suffix(d.Name, 'Connection'), lambda: S.cases(
        (S.ne(d.Kind, OBJ), lambda: err(S, 'L03', R, d.Position, d.Name)),
        (S.true, lambda: fields(d)))))


# ---------------------------------------------------------------- L04
def relay_conn_args(S, doc):
    R = 'relay-conn-args'

    def bad(a, opposite):
        return S.or_(is_list(S, a.Type), lambda: S.ne(a.Type.NamedType, 'Int'),
                     lambda: S.and_(a.Type.NonNull, opposite))

    def field(f):
        arg = lambda n: S.byname(f.Arguments, n)
        has = lambda n: S.not_(S.isnil(arg(n)))
        fwd = S.and_(has('first'), has('after'))
        bwd = S.and_(has('last'), has('before'))
        out = S.when(S.not_(S.or_(fwd, bwd)), lambda: err(S, 'L04', R, f.Type.Position, f.Name))
        for n, opp in (('first', bwd), ('last', fwd)):
            a = arg(n)
            out += S.when(has(n), lambda a=a, opp=opp: S.when(bad(a, opp), lambda: err(S, 'L04', R, a.Position, f.Name)))
        return out
    return S.each(doc.Definitions, lambda d: S.each(d.Fields, lambda f: S.when(
        S.has_suffix(S.tname(f.Type), 'Connection'), lambda: field(f))))


RULES = {
    'type-desc': type_desc, 'args-desc': args_desc, 'field-desc': field_desc, 'enum-caps': enum_caps,
    'enum-desc': enum_desc, 'field-camel': field_camel, 'type-caps': type_caps,
    'relay-conn-type': relay_conn_type, 'relay-conn-args': relay_conn_args,
}
OF = {'L01': ('type-desc', 'field-desc', 'args-desc', 'enum-desc'), 'L02': ('enum-caps', 'field-camel', 'type-caps'),
      'L03': ('relay-conn-type',), 'L04': ('relay-conn-args',)}

"""P25: data type identifiers, their value classes and native types."""
import ast
from datetime import datetime, timedelta

from xa.values import *
from xa.lib import *
from checks.functions import *

NATIVE = {'string': str, 'boolean': bool, 'integer': int, 'double': float, 'date': datetime, 'time': datetime,
          'dateTime': datetime, 'anyURI': str, 'hexBinary': int, 'base64Binary': None, 'dayTimeDuration': timedelta,
          'yearMonthDuration': timedelta, 'x500Name': str, 'rfc822Name': str, 'ipAddress': str, 'dnsName': str}
KINDS = (str, bool, int, float, datetime, timedelta, bytes, list, dict)


def run(ctx):
    I = ctx.interp('ndg.xacml.core.attributevalue', 'ndg.xacml.core.context.pdp')
    got = ctx.guard('identifiers', identifiers, ctx, I)
    if got:
        for t, c in sorted(got.items()):
            ctx.guard(t, natives, ctx, I, t, c)
            ctx.guard(t, compare, ctx, I, t, c, got)
    ctx.guard('unknown', unknown, ctx, I)
    ctx.minimum('own-class', 16)
    ctx.minimum('native-type', 100)
    ctx.minimum('same-type-comparison', 16)
    ctx.minimum('cross-type-comparison', 100)
    ctx.minimum('unknown-identifier', 1)


def identifiers(ctx, I):
    F = I.cls(AVF)
    fac = I.call(F, [], {})
    base = I.cls(AV)
    where = where_of(I, F)
    out, seen = {}, {}
    for t, uri in sorted(TYPES.items()):
        c = I.call(fac, [uri], {})
        ok = isinstance(c, Cls) and bool(I.issub(c, base))
        if not ctx.ob('own-class', t, ok, 'identifier %s maps to %r' % (uri, c), where):
            continue
        ctx.ob('own-class', t, c not in seen, 'shares its class with %s' % seen.get(c), where)
        seen[c] = t
        ctx.ob('own-identifier', t, I.getattr(c, 'IDENTIFIER') == uri, 'the class carries identifier %r' % (
            I.getattr(c, 'IDENTIFIER'),), where)
        o = I.call(c, [], {})
        ctx.ob('own-identifier', t, I.force(I.getattr(o, 'dataType')) == uri, 'a value has data type %r' % (
            I.getattr(o, 'dataType'),), where)
        out[t] = c
        # a second factory and a repeated look-up give the same class
        ctx.ob('own-class', t, I.call(fac, [uri], {}) is c and I.call(I.call(F, [], {}), [uri], {}) is c,
               'another look-up gives another class', where)
    return out


def unknown(ctx, I):
    F = I.cls(AVF)
    where = where_of(I, F)
    u = Sym(('p', 'identifier'), H_STR)

    def entry(I):
        return I.call(I.call(F, [], {}), [u], {})

    known = set(TYPES.values())

    def check(I, out):
        eq = [k for k in known if I.lookup_fact(('eq',) + tuple(sorted((u.name, I.nm(k)), key=repr))) is True]
        if out[0] == 'raise':
            ctx.ob('unknown-identifier', 'AttributeValueClassFactory', False, 'raises %s' % exc_text(out[1]), out[1].where, trace_text(I))
            return
        r = I.force(out[1])
        if eq:
            ok = isinstance(r, Cls) and I.getattr(r, 'IDENTIFIER') == eq[0]
            ctx.ob('unknown-identifier', 'AttributeValueClassFactory', ok, 'gives %r for %s' % (r, eq[0]), I.out_where, trace_text(I))
        else:
            ctx.ob('unknown-identifier', 'AttributeValueClassFactory', r is None, 'gives %r for an identifier that is none of the '
                   'data types' % (r,), I.out_where, trace_text(I))
    ctx.explore('any identifier', I, entry, check)
    fac = I.call(F, [], {})
    for x in sorted({f(v) for v in known for f in (str.upper, str.lower, lambda s: s + ' ', lambda s: s[:-1], lambda s: s.split('#')[-1],
                     lambda s: s.split(':')[-1], lambda s: s.replace('1.0', '2.0'))} - known) + ['']:
        r = I.call(fac, [x], {})
        ctx.ob('unknown-identifier', repr(x), r is None, 'gives %r' % (r,), where)


def natives(ctx, I, t, c):
    want = NATIVE[t]
    w = where_of(I, I.cls(AV), 'value')
    for k in KINDS:
        v = Sym(('p', 'given'), Hint('obj', cls=k, exact=True))
        ok = want is not None and issubclass(k, want)
        either = want is int and k is bool
        con = '%s given %s' % (t, k.__name__)
        for how in ('assign', 'construct'):
            def entry(I, how=how):
                if how == 'construct':
                    o = I.call(c, [v], {})
                else:
                    o = I.call(c, [], {})
                    I.setattr(o, 'value', v)
                return I.getattr(o, 'value')

            def check(I, out):
                if out[0] == 'raise':
                    ctx.ob('native-type', con, either or not ok, 'refused with %s' % exc_text(out[1]), out[1].where, trace_text(I))
                    return
                r = I.force(out[1])
                same = isinstance(r, Sym) and r.name == v.name
                ctx.ob('native-type', con, (either or ok) and same, 'accepted' if same else 'stored as something else',
                       w, trace_text(I))
            ctx.explore(con, I, entry, check)
    # raw None and objects
    for label, v in (('an object', Sym(('p', 'given'), H_OPAQUE)), ('a class', I.cls(AV))):
        def entry(I):
            o = I.call(c, [], {})
            I.setattr(o, 'value', v)
        ctx.explore('%s given %s' % (t, label), I, entry, lambda I, out: ctx.ob(
            'native-type', '%s given %s' % (t, label), out[0] == 'raise', 'accepted', w, trace_text(I)))
    if want is not None:
        # falsy natives are values too
        z = {str: '', bool: False, int: 0, float: 0.0}.get(want)
        if z is not None:
            o = I.call(c, [z], {})
            r = I.getattr(o, 'value')
            ctx.ob('native-type', '%s given %r' % (t, z), r == z and type(r) is type(z), 'holds %r' % (r,), w)




def compare(ctx, I, t, c, all):
    w = where_of(I, I.cls(AV), '__eq__')
    a, b = Sym(('p', 'one'), typed(I, c)), Sym(('p', 'two'), typed(I, c))

    def ask(I, x, y, op):
        return I.compare(ast.Eq() if op == '==' else ast.NotEq(), x, y)

    for op in ('==', '!='):
        def check(I, out, op=op):
            if out[0] == 'raise':
                ctx.ob('same-type-comparison', t, False, 'raises %s' % exc_text(out[1]), out[1].where, trace_text(I))
                return
            r = I.force(out[1])
            e = I.lookup_fact(('eq',) + tuple(sorted((('a', a.name, 'value'), ('a', b.name, 'value')), key=repr)))
            ctx.ob('same-type-comparison', t, e is not None and r is (e if op == '==' else not e),
                   '%s gives %r for values that are %s' % (op, r, {True: 'equal', False: 'different', None: 'not compared'}[e]),
                   w, trace_text(I))
        ctx.explore('%s %s %s' % (t, op, t), I, lambda I: ask(I, a, b, op), check)
        for u, d in sorted(all.items()):
            if u == t or I.issub(d, c) or I.issub(c, d):
                continue
            o = Sym(('p', 'other'), typed(I, d))
            ctx.explore('%s %s other' % (t, op), I, lambda I: ask(I, a, o, op), lambda I, out: ctx.ob(
                'cross-type-comparison', '%s with %s' % (t, u), out[0] == 'raise', '%s gives %r' % (op, out[1]), w, trace_text(I)))

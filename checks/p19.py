"""P19: the shared decision and effect constants keep their values; comparison is by value."""
import ast
import os
import warnings

from xa.values import *
from xa.lib import *
from checks.p18 import kinds, read, same, ENUM, MODULES, C, X

CONST = {
    X + 'result.Decision': {'PERMIT': 'Permit', 'DENY': 'Deny', 'INDETERMINATE': 'Indeterminate', 'NOT_APPLICABLE': 'NotApplicable'},
    C + 'rule.Effect': {'PERMIT': 'Permit', 'DENY': 'Deny'},
}


def run(ctx):
    I = ctx.interp(*MODULES)
    for q, table in sorted(CONST.items()):
        ctx.guard(q, constants, ctx, I, q, table)
        ctx.guard(q + ' assignments', assignments, ctx, I, q, table)
        ctx.guard(q + ' copies', copies, ctx, I, q, table)
        ctx.guard(q + ' comparison', comparison, ctx, I, q)
    ctx.guard('writes', writes, ctx, I)
    ctx.minimum('constant-value', 6)
    ctx.minimum('unassignable', 12)
    ctx.minimum('copy-independent', 6)
    ctx.minimum('compared-by-value', 2)
    ctx.minimum('no-internal-write', 1)


def value(I, o):
    """All the ways in which a decision or effect shows its value."""
    out = [read(I, o, 'value')]
    for f in ('__str__',):
        try:
            out.append(('value', I.call(I.getattr(o, f), [], {})))
        except AbsExc as e:
            out.append(('raise', exc_class(e)))
    return out


def shows(I, o, v):
    return all(same(I, x, ('value', v)) for x in value(I, o))


def constants(ctx, I, q, table):
    c = I.cls(q)
    seen = []
    for n, v in sorted(table.items()):
        o = I.getattr(c, n)
        con = '%s.%s' % (c.name, n)
        w = where_of(I, c)
        ctx.ob('constant-value', con, isinstance(o, Inst) and bool(I.issub(o.cls, c)) and shows(I, o, v),
               'shows %r instead of %s' % ([x[1] for x in value(I, o)] if isinstance(o, Inst) else o, v), w)
        ctx.ob('constant-value', con, not any(o is x for x in seen), 'is the same object as another constant', w)
        seen.append(o)
        if 'Effect' in q:
            t = I.truth(o)
            ctx.ob('constant-value', con, t is (v == 'Permit'), 'is %r as a truth value' % (t,), w)


def assignments(ctx, I, q, table):
    """No assignment to any attribute of a constant changes it or another one."""
    c = I.cls(q)
    K = kinds(I)
    alts = [('text ' + s, s) for s in ENUM[q]] + [(l, K[l]) for l in sorted(K)]
    given = Sym(('p', 'given'), h_alts(*alts))
    for n, v in sorted(table.items()):
        o = I.getattr(c, n)
        names = set()
        for k in I.mro(o.cls):
            if isinstance(k, Cls):
                names |= {a for a, raw in k.ns.items() if not a.startswith('_')}
        con = '%s.%s' % (c.name, n)
        for a in sorted(names | {'value', 'newattribute'}):
            w = where_of(I, o.cls, a)
            if w == '?':
                w = where_of(I, c)

            def entry(I, a=a):
                I.setattr(I.getattr(c, n), a, given)

            def check(I, out, a=a, w=w):
                bad = [m for m, x in sorted(table.items()) if not shows(I, I.getattr(c, m), x)]
                ctx.ob('unassignable', '%s.%s' % (con, a), not bad, 'assigning it changes %s' % ', '.join('%s to %r' % (
                    m, value(I, I.getattr(c, m))[0][1]) for m in bad), w, trace_text(I))
            ctx.explore('%s.%s' % (con, a), I, entry, check)


def copies(ctx, I, q, table):
    """An object made from a constant, or holding it, is a different matter."""
    c = I.cls(q)
    other = {v: [x for x in table.values() if x != v] for v in table.values()}
    R, Ru = I.cls(X + 'result.Result'), I.cls(C + 'rule.Rule')
    for n, v in sorted(table.items()):
        con = '%s.%s' % (c.name, n)
        w = where_of(I, c, '__init__')

        def made(I):
            return I.call(c, [I.getattr(c, n)], {})

        def assigned(I):
            o = I.call(c, [other[v][0]], {})
            I.setattr(o, 'value', I.getattr(c, n))
            return o

        def by_text(I):
            return I.call(c, [v], {})

        def default(I):
            return I.call(c, [], {})

        def result(I):
            r = I.call(I.getattr(R, 'createInitialised'), [], {'decision': I.getattr(c, n)})
            return I.getattr(r, 'decision')

        for how, f in (('made from it', made), ('assigned from it', assigned), ('made from its text', by_text), ('made by default', default)) + (
                (('of a new result', result),) if 'Decision' in q else ()):
            def entry(I, f=f):
                o = I.mon['o'] = f(I)
                if how != 'made by default':
                    I.mon['first'] = shows(I, o, v)
                try:
                    for x in other[v]:
                        I.setattr(o, 'value', x)
                except AbsExc as e:
                    I.mon['refused'] = e
                return o

            def check(I, out, how=how):
                if out[0] == 'raise':
                    ctx.ob('copy-independent', con, False, 'a %s %s: %s' % (c.name.lower(), how, exc_text(out[1])), out[1].where, trace_text(I))
                    return
                o = I.mon['o']
                ctx.ob('copy-independent', con, I.mon.get('first', True), 'a %s %s does not have its value' % (c.name.lower(), how), w, trace_text(I))
                bad = [m for m, x in sorted(table.items()) if not shows(I, I.getattr(c, m), x)]
                ctx.ob('copy-independent', con, not bad, 'changing a %s %s changes the shared %s' % (c.name.lower(), how, ', '.join(bad)), w, trace_text(I))
            ctx.explore('%s %s' % (con, how), I, entry, check)
    # holders keep the constant itself
    for hold, attr in ((R, 'decision'),) if 'Decision' in q else ((Ru, 'effect'),):
        for n, v in sorted(table.items()):
            def entry(I):
                o = I.call(hold, [], {})
                I.setattr(o, attr, I.getattr(c, n))
                x = I.getattr(o, attr)
                I.setattr(x, 'value', other[v][0])

            def check(I, out):
                bad = [m for m, x in sorted(table.items()) if not shows(I, I.getattr(c, m), x)]
                ctx.ob('unassignable', '%s.%s in a %s' % (c.name, n, hold.name), not bad, 'changing the %s of a %s changes the shared %s' % (
                    attr, hold.name, ', '.join(bad)), where_of(I, c, 'value'), trace_text(I))
            ctx.explore('%s held' % n, I, entry, check)


def comparison(ctx, I, q):
    c = I.cls(q)
    K = kinds(I)
    vals = ENUM[q]
    w = where_of(I, c, '__eq__')
    left = Sym(('p', 'left'), h_alts(*([(s, (lambda I, sym, s=s: obj_hint(I, c, value=s))) for s in vals] + [
        (s, I.getattr(c, n)) for n, s in sorted(CONST[q].items())])))
    lefts = vals + [s for n, s in sorted(CONST[q].items())]
    alts = [('object ' + s, (lambda I, sym, s=s: obj_hint(I, c, value=s))) for s in vals] + [('text ' + s, s) for s in vals] + \
        [('text %r' % s, s) for s in ('', 'permit', 'Permit ', 'PERMIT', 'DENY', 'None')] + [('any text', H_STR)] + \
        [('object ' + s, I.getattr(c, n)) for n, s in sorted(CONST[q].items())] + [(l, K[l]) for l in ('None', 'number', 'flag', 'foreign object', 'tuple', 'target')]
    right = Sym(('p', 'right'), h_alts(*alts))
    for op, node in (('==', ast.Eq()), ('!=', ast.NotEq())):
        def entry(I, node=node):
            return I.truth(I.compare(node, I.force(left), I.force(right)))

        def check(I, out, op=op):
            a, i = lefts[I.resolved[left.name]], I.resolved.get(right.name)
            label = alts[i][0] if i is not None else None
            bad = [m for m, x in sorted(CONST[q].items()) if not shows(I, I.getattr(c, m), x)]
            ctx.ob('constant-value', '%s compared' % c.name, not bad, 'comparing changes the shared %s' % ', '.join(bad), w, trace_text(I))
            b = None
            if label and label.split(' ', 1)[0] in ('object', 'text') and label.split(' ', 1)[1] in vals:
                b = label.split(' ', 1)[1]
            if label == 'any text':
                eq = [s for s in vals if I.lookup_fact(('eq',) + tuple(sorted((right.name, I.nm(s)), key=repr))) is True]
                b = eq[0] if eq else None
            con = '%s %s' % (c.name, op)
            if out[0] == 'raise':
                ctx.ob('compared-by-value', con, b is None, 'comparing %s with %s raises %s' % (a, label, exc_text(out[1])), out[1].where, trace_text(I))
                if b is None:
                    ok = exc_is(I, out[1], TypeError) or exc_is(I, out[1], AttributeError) or exc_is(I, out[1], ValueError)
                    ctx.ob('compared-by-value', con, ok and not exc_is(I, out[1], NameError), 'comparing with %s fails with %s' % (label, exc_text(out[1])), out[1].where, trace_text(I))
                return
            if b is None:
                ctx.ob('compared-by-value', con, False, 'comparing %s with %s gives %r instead of being rejected' % (a, label, out[1]), w, trace_text(I))
                return
            ctx.ob('compared-by-value', con, out[1] is ((a == b) == (op == '==')), '%s %s %s gives %r' % (a, op, label, out[1]), w, trace_text(I))
        ctx.explore('%s %s' % (c.name, op), I, entry, check)


def writes(ctx, I):
    """The slot behind 'value' is written only by the constants' own classes."""
    slots = {}
    for q in CONST:
        c = I.cls(q)
        s = slot_of(I, c, 'value')
        if s is None:
            raise AnchorMissing('no slot behind %s.value' % q)
        slots[s] = c
    n = 0
    for m, path, tree in sources(ctx):
        for node in ast.walk(tree):
            target = None
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, (ast.Store, ast.Del)):
                n += 1
                target = node.attr
            elif isinstance(node, ast.Call) and len(node.args) >= 2 and isinstance(node.args[1], ast.Constant) and \
                    (node.func.id if isinstance(node.func, ast.Name) else getattr(node.func, 'attr', '')) in ('setattr', '__setattr__', 'delattr', '__delattr__'):
                n += 1
                target = node.args[1].value
            if target in slots:
                ctx.ob('no-internal-write', '%s in %s' % (target, m), False, 'reaches into the private value of a constant', '%s:%d' % (I.relpath(path), node.lineno))
    ctx.ob('no-internal-write', 'attribute stores', n > 100, 'only %d attribute stores found' % n, '?')
    ctx.note('%d attribute stores of the library examined' % n)


def sources(ctx):
    """(module, path, tree) of every module of the library, its tests left out."""
    top = os.path.join(ctx.root, 'ndg')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('test', 'tests', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    yield os.path.relpath(p, ctx.root), p, ast.parse(open(p, encoding='utf-8').read(), p)

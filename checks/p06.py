"""P06: match elements over an unknown bag of request values."""
from xa.values import *
from xa.lib import *
from checks.p05 import View, fold, N, E, M, ALL, SHOW
from checks.p03 import outcome, known

MB = 'ndg.xacml.core.match.MatchBase'
DES = 'ndg.xacml.core.attributedesignator.AttributeDesignator'
SEL = 'ndg.xacml.core.attributeselector.AttributeSelector'
AV = 'ndg.xacml.core.attributevalue.AttributeValue'
FN = 'ndg.xacml.core.functions.AbstractFunction'
RNAME = ('p', 'request')
SUBS = ('SubjectMatch', 'ResourceMatch', 'ActionMatch', 'EnvironmentMatch')


def run(ctx):
    for s in SUBS:
        ctx.guard(s + '.evaluate', evaluate, ctx, s)
        ctx.guard(s + ' setters', setters, ctx, s)
    ctx.minimum('match', 4)
    ctx.minimum('exclusive', 8)


def bag_value(view, C):
    elems, done = view.elements(C)
    v = frozenset([N])
    for w, n in elems:
        i = w.resolved.get(('status', n))
        v = fold(max, v, ALL if i is None else frozenset([(M, N, E)[i]]))
    if not done:
        v = fold(max, v, ALL)
    return v


def evaluate(ctx, sub):
    I = ctx.interp('ndg.xacml.core.match', 'ndg.xacml.core.context.pdp')
    I.unordered = True
    Mc = I.cls('ndg.xacml.core.match.' + sub)
    AVc = I.cls(AV)
    TL = I.obj('ndg.xacml.utils.TypedList')
    construct = sub + '.evaluate'
    bags = {'designator': ('p', 'designator bag'), 'selector': ('p', 'selector bag')}

    def src(I):
        return outcome(I, ('p', 'source'), ('designator', 'selector', 'none'))

    def des(I, s):
        return Sym(('p', 'designator'), Hint('obj', cls=I.cls(DES), fields={}, exact=False)) \
            if src(I) == 'designator' else None

    def sel(I, s):
        return Sym(('p', 'selector'), h_obj(I.cls(SEL))) if src(I) == 'selector' else None

    def source(kind):
        def ev(I, self, args, kw):
            a = list(args) + list(kw.values())
            if len(a) != 1 or not (isinstance(a[0], Sym) and a[0].name == RNAME):
                I.mon['badctx'] = I.where()
            if outcome(I, ('p', kind + ' outcome'), ('bag', 'error')) == 'error':
                I.mon['error'] = kind
                raise I.opaque_exc('error in ' + kind)
            return Sym(bags[kind], Hint('coll', cls=TL, elem=Hint('obj', cls=AVc, fields={}, exact=False)))
        return ev

    def fn(I, self, args, kw):
        a = [I.force(x) for x in list(args) + list(kw.values())]
        if len(a) != 2 or not isinstance(a[0], Sym) or not isinstance(a[1], Sym) or a[0].name != ('p', 'policy value') \
                or not any(mentions(a[1].name, b) for b in bags.values()):
            I.mon['badargs'] = I.where()
            return False
        o = outcome(I, ('status', a[1].name), ('match', 'no match', 'error'))
        if o == 'error':
            I.mon['error'] = 'function'
            raise I.opaque_exc('error in match function')
        return o == 'match'

    I.method_intercepts[(DES, 'evaluate')] = source('designator')
    I.method_intercepts[(SEL, 'evaluate')] = source('selector')
    I.method_intercepts[(FN, 'evaluate')] = fn
    hint = obj_hint(I, Mc, attributeDesignator=des, attributeSelector=sel, matchId=H_STR,
                    attributeValue=lambda I, s: Sym(('p', 'policy value'), Hint('obj', cls=AVc, fields={}, exact=False)),
                    function=lambda I, s: Sym(('p', 'function'), Hint('obj', cls=I.cls(FN), fields={}, exact=False)))
    req = Sym(RNAME, h_obj(I.cls('ndg.xacml.core.context.request.Request')))

    def entry(I):
        return call_method(I, Sym(('p', 'match'), hint), 'evaluate', req)

    def check(I, out):
        tr = trace_text(I)
        s = known(I, ('p', 'source'), ('designator', 'selector', 'none'))
        ctx.ob('same-request', construct, 'badctx' not in I.mon, 'evaluated with something other than the request',
               I.mon.get('badctx'), tr)
        ctx.ob('argument-order', construct, 'badargs' not in I.mon,
               'match function not called as f(policy value, request value)', I.mon.get('badargs'), tr)
        if out[0] == 'raise':
            ctx.ob('no-own-error', construct, s == ('none',) or bool(I.mon.get('error')),
                   'raises %s although nothing it evaluates fails' % exc_text(out[1]), out[1].where, tr)
            return
        t = I.truth(I.force(out[1]))
        if 'badargs' in I.mon:
            return
        if s == ('none',) or len(s) > 1:
            ctx.ob('source-required', construct, False, 'gives %s with neither designator nor selector set' % t,
                   I.out_where, tr)
            return
        ctx.ob('source-required', construct, True)
        if 'error' in known(I, ('p', s[0] + ' outcome'), ('bag', 'error')):
            v = frozenset([E])
        else:
            v = bag_value(View.path(I), bags[s[0]])
        want = {M} if t else {N}
        ctx.ob('match', construct, v == want or (t and v and min(v) == M),
               'gives %s for a bag whose values give: %s' % (t, '/'.join(SHOW[x] for x in sorted(v))), I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def mentions(name, x):
    if name == x:
        return True
    return isinstance(name, tuple) and any(mentions(y, x) for y in name)


def setters(ctx, sub):
    I = ctx.interp('ndg.xacml.core.match', 'ndg.xacml.core.context.pdp')
    Mc = I.cls('ndg.xacml.core.match.' + sub)
    d = Sym(('p', 'd'), Hint('obj', cls=I.cls(DES), fields={}, exact=False))
    s = Sym(('p', 's'), Hint('obj', cls=I.cls(SEL), fields={}, exact=False))
    for first, last in (('attributeDesignator', 'attributeSelector'), ('attributeSelector', 'attributeDesignator')):
        vals = {'attributeDesignator': d, 'attributeSelector': s}
        construct = '%s.%s after %s' % (sub, last, first)

        def entry(I):
            m = I.call(Mc, [], {})
            I.setattr(m, first, vals[first])
            I.setattr(m, last, vals[last])
            return (I.getattr(m, last), I.getattr(m, first))

        def check(I, out):
            if out[0] == 'raise':
                ctx.ob('exclusive', construct, False, 'raises %s' % exc_text(out[1]), out[1].where)
                return
            a, b = out[1]
            ctx.ob('exclusive', construct, isinstance(a, Sym) and a.name == vals[last].name and b is None,
                   'setting %s leaves %s in place (or does not store the value)' % (last, first), where_of(I, Mc, last))
        ctx.explore(construct, I, entry, check)

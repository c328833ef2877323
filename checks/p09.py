"""P09: function applications over an unknown list of operand expressions."""
from xa.values import *
from xa.lib import *
from checks.p03 import known, outcome
from checks.p06 import mentions
from checks.p07 import AV, CX

AP = 'ndg.xacml.core.apply.Apply'
EX = 'ndg.xacml.core.expression.Expression'
FN = 'ndg.xacml.core.functions.AbstractFunction'
FM = 'ndg.xacml.core.functions.FunctionMap'
E = ('p', 'operands')


def run(ctx):
    ctx.guard('Apply.evaluate', evaluate, ctx, None)
    for n in (0, 1, 2, 3):
        ctx.guard('Apply.evaluate, %d operands' % n, evaluate, ctx, n)
    ctx.guard('literal', literal, ctx)
    ctx.guard('function of the identifier', named, ctx)
    ctx.minimum('operands', 5)
    ctx.minimum('result', 5)
    ctx.minimum('errors-propagate', 5)
    ctx.minimum('function-of-identifier', 1)


def evaluate(ctx, n):
    I = ctx.interp('ndg.xacml.core.apply', 'ndg.xacml.core.context.pdp')
    A = I.cls(AP)
    construct = 'Apply.evaluate' + ('' if n is None else ' (%d operands)' % n)
    TL = I.obj('ndg.xacml.utils.TypedList')
    hx = Hint('obj', cls=I.cls(EX), fields={}, exact=False)
    names = [('p', 'operand %d' % i) for i in range(n or 0)]
    if n is None:
        exprs = Sym(E, Hint('coll', cls=TL, elem=hx))
    else:
        exprs = I.call(TL, [I.cls(EX)], {})
        exprs.payload = [Sym(x, hx) for x in names]
    req = Sym(('p', 'request'), h_obj(I.cls(CX + 'request.Request')))

    def operand(I, self, args, kw):
        if isinstance(self, Sym) and self.name == ('p', 'apply'):
            return MISSING
        x = self.name
        a = list(args) + list(kw.values())
        if len(a) != 1 or I.nm(a[0]) != req.name:
            I.mon['badctx'] = I.where()
        if I.lookup_fact(('evaluated', x)):
            I.mon['twice'] = I.where()
        elif I.find_r(x) is None:
            I.facts[('evaluated', x)] = True
        if outcome(I, ('outcome', x), ('value', 'error')) == 'error':
            I.mon['error'] = 'operand'
            raise I.opaque_exc('error in operand')
        return Sym(('value of', x), H_ANY)

    def function(I, self, args, kw):
        a = [I.force(x) for x in args]
        I.mon['calls'] = I.mon.get('calls', 0) + 1
        I.mon['call'] = I.where()
        I.mon['args'] = args_ok(I, a, n, names) or ('keyword operands' if kw else '')
        if outcome(I, ('p', 'function outcome'), ('value', 'error')) == 'error':
            I.mon['error'] = 'function'
            raise I.opaque_exc('error in function')
        return Sym(('p', 'function result'), H_ANY)
    I.method_intercepts[(EX, 'evaluate')] = operand
    I.method_intercepts[(FN, 'evaluate')] = function
    hint = obj_hint(I, A, expressions=lambda I, s: exprs, functionId=H_STR,
                    function=lambda I, s: Sym(('p', 'function'), Hint('obj', cls=I.cls(FN), fields={}, exact=False)))

    def entry(I):
        return call_method(I, Sym(('p', 'apply'), hint), 'evaluate', req)

    def check(I, out):
        tr = trace_text(I)
        m = I.mon
        ctx.ob('same-request', construct, 'badctx' not in m, 'operand evaluated with something other than the request', m.get('badctx'), tr)
        ctx.ob('once', construct, 'twice' not in m, 'operand evaluated more than once', m.get('twice'), tr)
        if 'calls' in m:
            ctx.ob('operands', construct, not m['args'] and m['calls'] == 1,
                   'function called %d times, with %s' % (m['calls'], m['args']), m['call'], tr)
        if out[0] == 'raise':
            ctx.ob('errors-propagate', construct, bool(m.get('error')),
                   'raises %s although no operand and no function fails' % exc_text(out[1]), out[1].where, tr)
            return
        ctx.ob('errors-propagate', construct, not m.get('error'), 'returns a value after an error in %s' % m.get('error'),
               I.out_where, tr)
        if m.get('error'):
            return
        r = I.force(out[1])
        ctx.ob('result', construct, 'calls' in m and isinstance(r, Sym) and r.name == ('p', 'function result'),
               'does not return what the function returns', I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def args_ok(I, a, n, names):
    """'' when the arguments are the operand values in order."""
    if n is not None:
        got = [x.name if isinstance(x, Sym) else None for x in a]
        want = [('value of', x) for x in names]
        return '' if got == want else 'operands other than the values of all operand expressions in order'
    if not a:
        return '' if I.lens.get(E, (0, None)) == (0, 0) else 'no operands'
    if len(a) != 1:
        return 'operands other than the values of all operand expressions in order'
    s = a[0]
    val = lambda v: isinstance(v, Sym) and v.name[0] == 'value of' and v.name[1][0] == 'r' and v.name[1][1] == E
    if isinstance(s, Each) and s.coll == E:
        good = all(len(items) == 1 and val(items[0]) and items[0].name[1][2] == ck for ck, items in s.groups.values())
        rec = I.recs.get(E)
        good = good and rec is not None and rec.completed is not None and rec.completed <= set(g[0] for g in s.groups.values())
        return '' if good else 'something else than one value per operand'
    if isinstance(s, (Fill, Each, Star)) and I.lens.get(E, (0, None)) == (0, 0):
        return ''
    if isinstance(s, Fill) and s.coll == E:
        good = s.done and s.cur is None and all(val(v) for v in s.each.values())
        return '' if good else 'places left without the value of their operand'
    return 'operands other than the values of all operand expressions in order'


def literal(ctx):
    I = ctx.interp('ndg.xacml.core.attributevalue')
    A = I.cls(AV)
    v = Sym(('p', 'literal'), Hint('obj', cls=A, fields={}, exact=True))

    def entry(I):
        return call_method(I, v, 'evaluate', Sym(('p', 'request'), H_OPAQUE))

    def check(I, out):
        r = out[1] if out[0] == 'return' else None
        ctx.ob('literal', 'AttributeValue.evaluate', isinstance(r, Sym) and r.name == v.name,
               'a literal does not evaluate to itself', where_of(I, A, 'evaluate'), trace_text(I))
    ctx.explore('AttributeValue.evaluate', I, entry, check)


def named(ctx):
    I = ctx.interp('ndg.xacml.core.apply', 'ndg.xacml.core.match')
    for q in (AP, 'ndg.xacml.core.match.SubjectMatch', 'ndg.xacml.core.match.ResourceMatch',
              'ndg.xacml.core.match.ActionMatch', 'ndg.xacml.core.match.EnvironmentMatch'):
        A = I.cls(q)
        prop = 'functionId' if q == AP else 'matchId'
        construct = '%s.%s' % (A.name, prop)
        F = I.cls(FN)
        kinds = ('class', 'NotImplemented', 'none')

        def get(I, self, args, kw):
            k = I.force(args[0])
            if not isinstance(k, str):
                return MISSING
            o = outcome(I, ('p', 'lookup of ' + k), kinds)
            if o != 'class':
                return NotImplemented if o == 'NotImplemented' else None
            return Native('class of ' + k, lambda I, a, kw: Sym(('p', 'function of ' + k), Hint('obj', cls=F, fields={}, exact=False)))
        I.method_intercepts[(FM, 'get')] = get
        I.method_intercepts[(FM, '__getitem__')] = get

        def entry(I):
            a = I.call(A, [], {})
            I.setattr(a, prop, 'one')
            first = I.getattr(a, 'function')
            I.setattr(a, prop, 'two')
            return (first, I.getattr(a, 'function'), I.getattr(a, prop))

        def check(I, out):
            o = [known(I, ('p', 'lookup of ' + k), kinds) for k in ('one', 'two')]
            bad = [x for x in o if len(x) == 1 and x[0] != 'class']
            if out[0] == 'raise':
                U = I.cls('ndg.xacml.core.functions.UnsupportedFunctionError')
                ctx.ob('unsupported-identifier', construct, bool(bad) and exc_is(I, out[1], U),
                       'raises %s for identifiers whose functions are %s' % (exc_text(out[1]), o), out[1].where, trace_text(I))
                return
            ctx.ob('unsupported-identifier', construct, not bad, 'accepts an identifier without a function', I.out_where, trace_text(I))
            if bad:
                return
            a, b, i = out[1]
            ctx.ob('function-of-identifier', construct, isinstance(a, Sym) and a.name == ('p', 'function of one') and
                   isinstance(b, Sym) and b.name == ('p', 'function of two') and i == 'two',
                   'the function is not the one the identifier names', where_of(I, A, prop), trace_text(I))
        ctx.explore(construct, I, entry, check)

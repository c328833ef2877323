"""P03: Rule.evaluate (with Condition.evaluate) over target x condition x effect."""
import itertools

from xa.values import *
from xa.lib import *

T = 'ndg.xacml.core.target.Target'
EXPR = 'ndg.xacml.core.expression.Expression'
COND = 'ndg.xacml.core.condition.Condition'
RULE = 'ndg.xacml.core.rule.Rule'

TARGET = ('absent', 'match', 'no match', 'error')
CONDITION = ('absent', 'True', 'False', 'error', 'boolean value true', 'boolean value false',
             'string value', 'bag', 'None')


def expected(t, c, eff):
    """Allowed decisions."""
    if t == 'no match':
        return {'NotApplicable'}
    if t == 'error':
        return {'Indeterminate'}
    if c in ('absent', 'True', 'boolean value true'):
        return {eff}
    if c == 'False':
        return {'NotApplicable'}
    if c == 'error':
        return {'Indeterminate'}
    return {'NotApplicable', 'Indeterminate'}


def outcome(I, name, labels):
    """Resolve an enumerated unknown to its label."""
    return I.force(Sym(name, h_alts(*[(l, l) for l in labels])))


def known(I, name, labels):
    i = I.resolved.get(name)
    return labels if i is None else (labels[i],)


def run(ctx):
    ctx.guard('Rule.evaluate', rule_evaluate, ctx)
    ctx.minimum('rule-decision', 1)


def rule_evaluate(ctx):
    I = ctx.interp('ndg.xacml.core.rule', 'ndg.xacml.core.apply', 'ndg.xacml.core.attributevalue',
                   'ndg.xacml.core.context.pdp')
    R = I.cls(RULE)
    Tc, Cc, Ec = I.cls(T), I.cls(COND), I.cls(EXPR)
    Eff = I.cls('ndg.xacml.core.rule.Effect')
    AVF = I.cls('ndg.xacml.core.attributevalue.AttributeValueClassFactory')
    fac = I.call(AVF, [], {})
    BAV = I.call(fac, ['http://www.w3.org/2001/XMLSchema#boolean'], {})
    SAV = I.call(fac, ['http://www.w3.org/2001/XMLSchema#string'], {})
    if not isinstance(BAV, Cls) or not isinstance(SAV, Cls):
        raise AnchorMissing('boolean / string attribute value classes')
    Bag = I.cls('ndg.xacml.core.functions.FunctionBase') if False else None
    tname, mname = ('p', 'target'), ('p', 'target-outcome')
    cname, ename = ('p', 'condition'), ('p', 'condition-outcome')
    rname = ('p', 'request')

    def target(I, s):
        if I.force(Sym(tname, h_alts(('absent', 'absent'), ('present', 'present')))) == 'absent':
            return None
        return Sym(('p', 'Target'), h_obj(Tc))

    def condition(I, s):
        if I.force(Sym(cname, h_alts(('absent', 'absent'), ('present', 'present')))) == 'absent':
            return None
        return Sym(('p', 'Condition'), obj_hint(I, Cc, expression=Hint('obj', cls=Ec, fields={}, exact=False)))

    effects = [('Permit', lambda I, s: I.getattr(Eff, 'PERMIT')), ('Deny', lambda I, s: I.getattr(Eff, 'DENY')),
               ('Permit', lambda I, s: I.call(Eff, [], {'effect': 'Permit'})),
               ('Deny', lambda I, s: I.call(Eff, [], {'effect': 'Deny'}))]
    fname = ('p', 'effect')

    def effect(I, s):
        return I.force(Sym(fname, h_alts(*effects)))

    def args_ok(I, args, kw, what):
        a = list(args) + list(kw.values())
        if len(a) != 1 or not (isinstance(a[0], Sym) and a[0].name == rname):
            I.mon['badctx'] = (what, I.where())

    def match(I, self, args, kw):
        args_ok(I, args, kw, 'target')
        o = outcome(I, mname, ('match', 'no match', 'error'))
        if o == 'error':
            raise I.opaque_exc('error in target')
        return o == 'match'

    vals = CONDITION[1:]

    def evaluate(I, self, args, kw):
        args_ok(I, args, kw, 'condition')
        o = outcome(I, ename, vals)
        if o == 'error':
            raise I.opaque_exc('error in condition')
        if o in ('True', 'False'):
            return o == 'True'
        if o.startswith('boolean value'):
            return I.call(BAV, [], {'value': o.endswith('true')})
        if o == 'string value':
            return I.call(SAV, [], {'value': 'text'})
        if o == 'bag':
            TL = I.obj('ndg.xacml.utils.TypedList')
            return Sym(('p', 'bag'), Hint('coll', cls=TL))
        return None

    I.method_intercepts[(T, 'match')] = match
    I.method_intercepts[(EXPR, 'evaluate')] = evaluate
    hint = obj_hint(I, R, target=target, condition=condition, effect=effect, id=H_STR)
    req = Sym(rname, h_obj(I.cls('ndg.xacml.core.context.request.Request')))
    seen = set()

    def entry(I):
        rule = Sym(('p', 'rule'), hint)
        return call_method(I, rule, 'evaluate', req)

    def check(I, out):
        construct = 'Rule.evaluate'
        tr = trace_text(I)
        ts = known(I, tname, ('absent', 'present'))
        tv = []
        if 'absent' in ts:
            tv.append('absent')
        if 'present' in ts:
            tv += known(I, mname, ('match', 'no match', 'error'))
        cs = known(I, cname, ('absent', 'present'))
        cv = []
        if 'absent' in cs:
            cv.append('absent')
        if 'present' in cs:
            cv += known(I, ename, vals)
        ev = [l[0] for l in effects] if I.resolved.get(fname) is None else [effects[I.resolved[fname]][0]]
        case = 'target %s, condition %s, effect %s' % ('/'.join(tv), '/'.join(cv), '/'.join(sorted(set(ev))))
        if out[0] == 'raise':
            ctx.ob('error-contained', construct, False, '%s: raises %s' % (case, exc_text(out[1])), out[1].where, tr)
            return
        ctx.ob('error-contained', construct, True)
        ctx.ob('same-request', construct, 'badctx' not in I.mon,
               '%s evaluated with something other than the request' % (I.mon.get('badctx', ('', ''))[0],),
               I.mon.get('badctx', ('', None))[1], tr)
        v = decision_value(I, out[1])
        bad = []
        for t, c, e in itertools.product(tv, cv, ev):
            exp = expected(t, c, e)
            if v not in exp:
                bad.append('%s for target %s, condition %s, effect %s (should be %s)' % (
                    v, t, c, e, ' or '.join(sorted(exp))))
        rule = 'rule-decision'
        if bad and all(c not in ('absent', 'True', 'False', 'error') for c in cv):
            rule = 'non-boolean-condition'
        ctx.ob(rule, construct, not bad, 'decides ' + '; '.join(bad[:3]), I.out_where, tr)
        for t in tv:
            seen.add(t)

    ctx.explore('Rule.evaluate', I, entry, check)
    ctx.ob('table-covered', 'Rule.evaluate', seen == set(TARGET),
           'only target outcomes %s reached' % sorted(seen), where_of(I, R, 'evaluate'))

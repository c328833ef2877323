"""P04: Policy / PolicySet evaluation and the decision point."""
from xa.values import *
from xa.lib import *
from checks.p03 import outcome, known

PB = 'ndg.xacml.core.policybase.PolicyBase'
T = 'ndg.xacml.core.target.Target'
RNAME = ('p', 'request')

KINDS = [
    ('Policy', 'ndg.xacml.core.policy.Policy', 'rules', 'ruleCombiningAlg',
     'ndg.xacml.core.rule_combining_alg.RuleCombiningAlgInterface'),
    ('PolicySet', 'ndg.xacml.core.policyset.PolicySet', 'policies', 'policyCombiningAlg',
     'ndg.xacml.core.policy_combining_alg.PolicyCombiningAlgInterface'),
]
ALG = DECISIONS + ('error',)


def is_request(v):
    return isinstance(v, Sym) and v.name == RNAME


def same_list(I, v, C):
    """The collection itself or a plain copy of it."""
    v = I.force(v)
    if isinstance(v, Sym):
        return v.name == C
    try:
        segs = list(I.segs_of(v))
    except Exception:
        return False
    if len(segs) == 1 and isinstance(segs[0], Star):
        return segs[0].coll.name == C
    if len(segs) == 1 and isinstance(segs[0], Each) and segs[0].coll == C:
        return all(len(items) == 1 and isinstance(items[0], Sym) and items[0].name == ('r', C, ck)
                   for ck, items in segs[0].groups.values())
    return not segs and I.lens.get(C) == (0, 0)


def run(ctx):
    for k in KINDS:
        ctx.guard(k[0] + '.evaluate', evaluate, ctx, *k)
    ctx.guard('PDP.evaluate', pdp, ctx)
    ctx.minimum('policy-decision', 2)
    ctx.minimum('one-result', 2)


def setup(ctx, name, qual, children, algprop, algqual):
    I = ctx.interp('ndg.xacml.core.context.pdp', 'ndg.xacml.core.policyset', 'ndg.xacml.core.policy')
    P, Tc, A = I.cls(qual), I.cls(T), I.cls(algqual)
    C = ('p', children)
    TL = I.obj('ndg.xacml.utils.TypedList')

    def target(I, s):
        if outcome(I, ('p', 'target'), ('absent', 'present')) == 'absent':
            return None
        return Sym(('p', 'Target'), h_obj(Tc))

    def match(I, self, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 1 or not is_request(a[0]):
            I.mon['badctx'] = I.where()
        o = outcome(I, ('p', 'match'), ('match', 'no match', 'error'))
        if o == 'error':
            raise I.opaque_exc('error in target')
        return o == 'match'

    def alg(I, s):
        if outcome(I, ('p', 'alg'), ('set', 'unset')) == 'unset':
            return None
        return Sym(('p', 'algorithm'), Hint('obj', cls=A, fields={}, exact=False))

    def alg_eval(I, self, args, kw):
        a = list(args) + list(kw.values())
        I.mon['called'] = I.mon.get('called', 0) + 1
        if len(a) != 2:
            raise I.exc(TypeError, 'evaluate() takes 2 arguments')
        if not is_request(a[1]):
            I.mon['badctx'] = I.where()
        if not same_list(I, a[0], C):
            I.mon['badlist'] = I.where()
        o = outcome(I, ('p', 'combined'), ALG)
        if o == 'error':
            raise I.opaque_exc('error in combining algorithm')
        return fresh_decision(I, o) if outcome(I, ('p', 'flavour'), ('new', 'shared')) == 'new' \
            else singleton_decision(I, o)

    I.method_intercepts[(T, 'match')] = match
    I.method_intercepts[(algqual, 'evaluate')] = alg_eval
    if name == 'Policy':
        kid = h_obj(I.cls('ndg.xacml.core.rule.Rule'))
    else:
        kid = h_alts(*[(k[0], h_obj(I.cls(k[1]))) for k in KINDS])
    kids = Hint('coll', cls=TL, elem=kid)
    hint = obj_hint(I, P, target=target, **{children: lambda I, s: Sym(C, kids), algprop: alg})
    return I, P, hint


def case(I):
    tv = []
    ts = known(I, ('p', 'target'), ('absent', 'present'))
    if 'absent' in ts:
        tv.append('absent')
    if 'present' in ts:
        tv += known(I, ('p', 'match'), ('match', 'no match', 'error'))
    av = []
    for a in known(I, ('p', 'alg'), ('set', 'unset')):
        if a == 'unset':
            av.append('error')
        else:
            av += known(I, ('p', 'combined'), ALG)
    return tv, av


def expected(t, a):
    if t == 'no match':
        return 'NotApplicable'
    if t == 'error' or a == 'error':
        return 'Indeterminate'
    return a


def judge(ctx, I, construct, v, where, tr):
    tv, av = case(I)
    bad = ['%s for target %s, combining algorithm %s (should be %s)' % (v, t, a, expected(t, a))
           for t in tv for a in av if expected(t, a) != v]
    ctx.ob('policy-decision', construct, not bad, 'decides ' + '; '.join(bad[:3]), where, tr)
    ctx.ob('children-gated', construct, not ('no match' in tv and I.mon.get('called')),
           'children are evaluated although the target does not match', where, tr)
    ctx.ob('combined-once', construct, I.mon.get('called', 0) <= 1, 'children evaluated %s times' % I.mon.get('called'),
           where, tr)
    ctx.ob('same-request', construct, 'badctx' not in I.mon, 'something other than the request is evaluated',
           I.mon.get('badctx'), tr)
    ctx.ob('all-children', construct, 'badlist' not in I.mon,
           'the combining algorithm is given something other than the complete list of children', I.mon.get('badlist'), tr)


def evaluate(ctx, name, qual, children, algprop, algqual):
    I, P, hint = setup(ctx, name, qual, children, algprop, algqual)
    construct = name + '.evaluate'
    req = Sym(RNAME, h_obj(I.cls('ndg.xacml.core.context.request.Request')))

    def entry(I):
        return call_method(I, Sym(('p', 'policy'), hint), 'evaluate', req)

    def check(I, out):
        tr = trace_text(I)
        if out[0] == 'raise':
            ctx.ob('error-contained', construct, False, 'raises %s' % exc_text(out[1]), out[1].where, tr)
            return
        ctx.ob('error-contained', construct, True)
        judge(ctx, I, construct, decision_value(I, out[1]), I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def pdp(ctx):
    for k in KINDS:
        for how in ('PDP.evaluate', 'evaluateResponse'):
            pdp1(ctx, how, *k)


def pdp1(ctx, how, name, qual, children, algprop, algqual):
    I, P, hint = setup(ctx, name, qual, children, algprop, algqual)
    construct = '%s of a %s' % (how, name)
    req = Sym(RNAME, h_obj(I.cls('ndg.xacml.core.context.request.Request')))
    D = I.cls('ndg.xacml.core.context.pdp.PDP')
    Resp = I.cls('ndg.xacml.core.context.response.Response')
    Res = I.cls('ndg.xacml.core.context.result.Result')

    def entry(I):
        pol = Sym(('p', 'policy'), hint)
        if how == 'PDP.evaluate':
            p = I.call(D, [], {'policy': pol})
            return call_method(I, p, 'evaluate', req)
        return call_method(I, pol, 'evaluateResponse', req)

    def check(I, out):
        tr = trace_text(I)
        if out[0] == 'raise':
            ctx.ob('error-contained', construct, False, 'raises %s' % exc_text(out[1]), out[1].where, tr)
            return
        ctx.ob('error-contained', construct, True)
        where = I.out_where
        r = I.force(out[1])
        ok = I.isinstance(r, Resp)
        segs = None
        if ok:
            segs = list(I.segs_of(I.getattr(r, 'results')))
            ok = len(segs) == 1 and not isinstance(segs[0], (Star, Each, Fill)) and I.isinstance(segs[0], Res)
        ctx.ob('one-result', construct, ok, 'returns %s instead of a response holding exactly one result' % (
            'a response with %d results' % len(segs) if segs is not None else 'something else'), where, tr)
        if ok:
            judge(ctx, I, construct, decision_value(I, I.getattr(segs[0], 'decision')), where, tr)

    ctx.explore(construct, I, entry, check)

"""P12: what every standard (and malformed) identifier resolves to."""
from xa.values import *
from xa.lib import *
from checks import combining as comb
from checks import p11
from checks.functions import *

PART = {'equal': p11.equality, 'match': p11.equality, 'regexp-match': p11.regexp, 'one-and-only': p11.one_and_only,
        'bag': p11.bag, 'at-least-one-member-of': p11.share, 'concatenate': p11.concatenate, 'and': p11.conj,
        'not': p11.negate, 'round': p11.rounds}


def run(ctx):
    I = ctx.interp(FNS, 'ndg.xacml.core.context.pdp', 'ndg.xacml.core.policyset', 'ndg.xacml.core.apply',
                   'ndg.xacml.core.match')
    p11.models(I)
    ctx.guard('functions', functions, ctx, I)
    ctx.guard('combining', combining, ctx)
    ctx.minimum('own-implementation', 60)
    ctx.minimum('own-data-type', 60)
    ctx.minimum('lookup-order', 200)
    ctx.minimum('rejected', 240)
    ctx.minimum('combining-identifier', 6)
    ctx.minimum('decision', 6)


def lookup(I, fm, n, how='get'):
    """('class', c) or ('rejected', how)."""
    try:
        c = I.call(I.getattr(fm, how), [n], {})
    except AbsExc as e:
        return 'rejected', exc_text(e).split(' at ')[0]
    if isinstance(c, Cls):
        return 'class', c
    return 'rejected', repr(c)


def implementation(I, c):
    """(class defining evaluate, data type class or None)."""
    hit = I.src_lookup(c, 'evaluate')
    T = I.class_lookup(c, 'TYPE')
    T = T[1] if T else None
    if T is None and hit is not None:
        h = I.class_lookup(c, 'ATTRIBUTE_TYPE')
        T = h[1] if h else None
    return (hit[0] if hit else None), T


def functions(ctx, I):
    FM = I.cls(FNS + '.FunctionMap')
    fac = I.call(I.cls(AVF), [], {})
    std = names(I)
    where = where_of(I, FM, 'loadFunction')
    ctx.ob('standard-identifiers', 'XacmlFunctionNames.FUNCTION_NAMES', len(std) == len(set(std)) and len(std) > 200,
           'the list of standard identifiers is shorter than expected or repeats itself', where)
    a, b, shared = [I.call(FM, [], {}) for _ in range(2)] + [I.obj(FNS + '.functionMap')]
    fwd = {n: lookup(I, a, n) for n in std}
    rev = {n: lookup(I, b, n) for n in reversed(std)}
    owners = {}
    for n in std:
        fam, uri = family(n)
        k, c = fwd[n]
        runs = [lookup(I, I.call(FM, [], {}), n), rev[n], lookup(I, a, n), lookup(I, a, n, '__getitem__'),
                lookup(I, shared, n)]
        sig = [(x[0],) + (implementation(I, x[1]) if x[0] == 'class' else ()) for x in [fwd[n]] + runs]
        ctx.ob('lookup-order', short(n), all(s == sig[0] for s in sig),
               'what the identifier resolves to depends on what was looked up before: %s' % sorted(set(map(str, sig))), where)
        if k != 'class':
            continue
        own, T = implementation(I, c)
        w = where_of(I, own, 'evaluate') if own else where
        if fam is not None:
            owners.setdefault(own, set()).add(fam)
            if uri is not None:
                want = I.call(fac, [uri], {})
                ctx.ob('own-data-type', short(n), T is want, 'implemented for %s, not for %s' % (
                    getattr(T, 'name', T), getattr(want, 'name', want)), where)
            f = I.call(c, [], {})
            nv = ctx.nviol
            ctx.guard(short(n), PART[fam], ctx, I, fac, n, I.call(fac, [uri], {}) if uri else None, f)
            ctx.ob('own-implementation', short(n), ctx.nviol == nv,
                   'resolves to %s, which does not compute this function' % own.name, w)
    for n in std:
        k, c = fwd[n]
        if k == 'class' and family(n)[0] is None:
            own, T = implementation(I, c)
            ctx.ob('own-implementation', short(n), own is not None and own not in owners,
                   'resolves to %s, the implementation of %s' % (own and own.name, '/'.join(sorted(owners.get(own, ())))), where)
    # identifiers that name no function of the table
    good = malformed = 0
    for n in sorted(others(std)):
        k, c = lookup(I, I.call(FM, [], {}), n)
        if k == 'class':
            own, T = implementation(I, c)
            fam, uri = family(n) if n.startswith((V1, V2)) else (None, None)
            ok = fam is not None and fam in owners.get(own, ()) and (uri is None or T is I.call(fac, [uri], {})) and n not in NAMED
            ctx.ob('unknown-identifier', n, ok, 'resolves to %s for %s' % (own and own.name, getattr(T, 'name', T)), where)
            good += 1
        else:
            malformed += 1
    ctx.ob('unknown-identifier', 'identifiers outside the table', True)
    ctx.note('%d identifiers outside the standard table: %d rejected, %d name a known family and data type' % (
        good + malformed, malformed, good))
    # identifiers without an implementation are refused where policies name them
    std_err = I.cls(FNS + '.UnsupportedStdFunctionError')
    un_err = I.cls(FNS + '.UnsupportedFunctionError')
    bad = [n for n in std if fwd[n][0] != 'class']
    odd = ['', 'foo', V1 + 'foo', V1 + 'foo-equal', V1 + 'string-equals', V1.replace('1.0', '3.0') + 'string-equal',
           V1 + 'string-equal ', 'string-equal', V1 + 'foo-and', V1 + 'string-and', V1 + 'equal', V2 + 'and']
    for q, prop in (('ndg.xacml.core.apply.Apply', 'functionId'), ('ndg.xacml.core.match.SubjectMatch', 'matchId'),
                    ('ndg.xacml.core.match.ResourceMatch', 'matchId'), ('ndg.xacml.core.match.ActionMatch', 'matchId'),
                    ('ndg.xacml.core.match.EnvironmentMatch', 'matchId')):
        A = I.cls(q)
        deep = q.endswith(('Apply', 'SubjectMatch')) or ctx.thorough
        for n in (bad if deep else bad[:10]) + odd:
            o = I.call(A, [], {})
            c = '%s.%s = %s' % (A.name, prop, short(n) if n in bad else repr(n))
            try:
                I.setattr(o, prop, n)
            except AbsExc as e:
                ctx.ob('rejected', c, n not in bad or exc_is(I, e, un_err), 'fails with %s' % exc_text(e), e.where)
            else:
                ctx.ob('rejected', c, False, 'accepted', where_of(I, A, prop))
    # implemented ones are accepted, and the object gets that function
    for n in std:
        if fwd[n][0] != 'class':
            continue
        for q, prop in (('ndg.xacml.core.apply.Apply', 'functionId'), ('ndg.xacml.core.match.ResourceMatch', 'matchId')):
            A = I.cls(q)
            o = I.call(A, [], {})
            c = '%s.%s = %s' % (A.name, prop, short(n))
            try:
                I.setattr(o, prop, n)
                f = I.getattr(o, 'function')
                ok = isinstance(f, Inst) and implementation(I, f.cls) == implementation(I, fwd[n][1])
                ctx.ob('implementation-used', c, ok, 'the object gets another function', where_of(I, A, prop))
            except AbsExc as e:
                ctx.ob('implementation-used', c, False, 'fails with %s' % exc_text(e), e.where)


def others(std):
    out = {'', 'foo', V1, V2, V1 + '-', V1 + 'equal', V1 + '-equal', V1 + 'or-and', V1 + '__init__', V1 + 'string', V1 + 'bag'}
    for n in std:
        s = short(n)
        out |= {n + 'x', n.replace(':1.0:', ':3.0:'), n.replace(':1.0:', ':2.0:'), n.replace(':2.0:', ':1.0:'), n.upper(),
                n.lower(), ' ' + n, n + ' ', 'foo-' + s, V1 + 'foo-' + s, n + ':', 'x' + n, s, n + '-' + s, n[:-1]}
    for t in TYPES:
        for f in FAMILIES:
            out |= {V1 + t + f, V2 + t + f}
        for f in ('and', 'not', 'round'):
            out |= {V1 + t + '-' + f, V2 + t + '-' + f}
    return out - set(std)


ALGS = ('deny-overrides', 'permit-overrides', 'first-applicable', 'only-one-applicable')


def combining(ctx):
    I = ctx.interp('ndg.xacml.core.context.pdp', 'ndg.xacml.core.policyset', 'ndg.xacml.core.policy')
    for kind, fq, oq, prop, ids in (
            ('rule', 'ndg.xacml.core.rule_combining_alg.RuleCombiningAlgClassFactory', 'ndg.xacml.core.policy.Policy',
             'ruleCombiningAlg', comb.RULE_IDS),
            ('policy', 'ndg.xacml.core.policy_combining_alg.PolicyCombiningAlgClassFactory', 'ndg.xacml.core.policyset.PolicySet',
             'policyCombiningAlg', comb.POLICY_IDS)):
        F, O = I.cls(fq), I.cls(oq)
        fac = I.call(F, [], {})
        where = where_of(I, F, '__call__')
        classes = {}
        other = [i for k in ALGS for i in (
            'urn:oasis:names:tc:xacml:1.0:%s-combining-algorithm:%s' % (kind, k),
            'urn:oasis:names:tc:xacml:1.1:%s-combining-algorithm:ordered-%s' % (kind, k),
            'urn:oasis:names:tc:xacml:1.1:%s-combining-algorithm:%s' % (kind, k),
            'urn:oasis:names:tc:xacml:1.0:%s-combining-algorithm:ordered-%s' % (kind, k),
            'urn:oasis:names:tc:xacml:1.0:%s-combining-algorithm:%s' % ('policy' if kind == 'rule' else 'rule', k),
            k, k.upper())]
        other += ['', 'foo'] + [x + ' ' for x in ids.values()]
        for i in sorted(set(ids.values())) + sorted(set(other) - set(ids.values())):
            c = '%s combining algorithm %s' % (kind, i)
            try:
                A = I.call(fac, [i], {})
            except AbsExc as e:
                A = None
            if i in ids.values():
                ctx.ob('combining-identifier', c, isinstance(A, Cls) and A not in classes.values(),
                       'maps to %r' % (A,), where)
                classes[i] = A
            elif isinstance(A, Cls):
                ctx.ob('combining-identifier', c, A not in classes.values(), 'maps to %s, the algorithm of another identifier' % A.name, where)
            o = I.call(O, [], {})
            try:
                I.setattr(o, prop + 'Id', i)
                got = I.getattr(o, prop)
                ctx.ob('combining-accepted', c, isinstance(A, Cls) and isinstance(got, Inst) and got.cls is A,
                       'accepted, and %s gets %r' % (O.name, got), where_of(I, O, prop + 'Id'))
            except AbsExc as e:
                ctx.ob('combining-accepted', c, not isinstance(A, Cls), 'refused with %s' % exc_text(e), e.where)
        alts = [(x, 'single') for x in ('Permit', 'Deny', 'NotApplicable', 'Indeterminate')]
        for name in ('deny-overrides', 'permit-overrides', 'first-applicable'):
            spec = {'deny-overrides': comb.rule_deny if kind == 'rule' else comb.policy_deny,
                    'permit-overrides': comb.rule_permit if kind == 'rule' else comb.policy_permit}.get(name)
            ctx.guard(name, comb.run_alg, ctx, '%s %s' % (kind, name), ids[name], fq,
                      'ndg.xacml.core.rule.Rule' if kind == 'rule' else 'ndg.xacml.core.policybase.PolicyBase', spec,
                      name == 'first-applicable', alts)

"""P18: what every public attribute of the policy and context model accepts and stores."""
from xa.values import *
from xa.lib import *
from checks.functions import TYPES, V1, native, typed, short
from checks.p07 import AVF

C = 'ndg.xacml.core.'
X = C + 'context.'

# defining class -> attribute -> accepted kinds of value ('*': anything at all)
TABLE = {
    C + 'XacmlCoreBase': {'xmlns': 'string', 'elem': '*'},
    C + 'expression.Expression': {'dataType': 'string'},
    C + 'apply.Apply': {'loadFunctionFromId': 'flag', 'functionMap': 'functionMap'},
    C + 'match.MatchBase': {'attributeValue': 'attributeValue', 'attributeDesignator': 'designator',
                            'attributeSelector': 'selector', 'loadFunctionFromId': 'flag', 'functionMap': 'functionMap'},
    C + 'attribute.Attribute': {'attributeValues': 'typedList', 'dataType': 'string', 'attributeId': 'string', 'issuer': 'string'},
    C + 'attributedesignator.AttributeDesignator': {'attributeId': 'string', 'issuer': 'string', 'mustBePresent': 'flag'},
    C + 'attributeselector.AttributeSelector': {'requestContextPath': 'string', 'mustBePresent': 'flag'},
    C + 'condition.Condition': {'expression': 'attributeValue designator selector apply'},
    C + 'rule.Rule': {'target': 'target', 'condition': 'condition', 'id': 'string', 'effect': 'effect', 'description': 'string'},
    C + 'policy.Policy': {'policyId': 'string', 'version': 'string', 'target': 'target', 'description': 'string',
                          'policyDefaults': 'policyDefaults', 'ruleCombiningAlgFactory': 'ruleAlgFactory'},
    C + 'policyset.PolicySet': {'policySetId': 'string', 'version': 'string', 'target': 'target', 'description': 'string',
                                'policySetDefaults': 'policyDefaults', 'policyCombiningAlgFactory': 'policyAlgFactory'},
    C + 'policydefaults.PolicyDefaults': {'xpathVersion': 'string'},
    C + 'obligation.Obligation': {'obligationId': 'string', 'fulfillOn': 'string'},
    X + 'request.Request': {'action': 'reqAction', 'environment': 'reqEnvironment', 'ctxHandler': 'ctxHandler',
                            'attributeSelector': 'xpath'},
    X + 'subject.Subject': {'subjectCategory': 'string'},
    X + 'resource.Resource': {'resourceContent': '*'},
    X + 'result.Status': {'statusCode': 'statusCode', 'statusMessage': 'string', 'statusDetail': '*'},
    X + 'result.Result': {'resourceId': 'string', 'decision': 'decision', 'status': 'status', 'obligations': 'obligation'},
    X + 'pdp.PDP': {'policy': 'policy policySet'},
    X + 'exceptions.XacmlContextError': {'response': 'response'},
    X + 'handler.CtxHandlerBase': {'pip': 'pip', 'pdp': 'pdp'},
}
# attributes that cannot be assigned (a value of their own type may be taken, others not)
READONLY = {
    C + 'TargetChildBase': {'matches': 'typedList'},
    C + 'apply.Apply': {'function': '', 'expressions': 'typedList'},
    C + 'match.MatchBase': {'function': ''},
    C + 'attributedesignator.AttributeDesignator': {'attributeValueFactory': ''},
    C + 'attributeselector.AttributeSelector': {'attributeValueFactory': ''},
    C + 'policy.Policy': {'rules': 'typedList', 'obligations': 'typedList', 'ident': 'string', 'ruleCombiningAlg': ''},
    C + 'policyset.PolicySet': {'policies': 'typedList', 'obligations': 'typedList', 'ident': 'string', 'policyCombiningAlg': ''},
    C + 'target.Target': {n: 'typedList' for n in ('subjects', 'resources', 'actions', 'environments')},
    C + 'obligation.Obligation': {'attributeAssignments': 'typedList'},
    X + 'RequestChildBase': {'attributes': 'typedList'},
    X + 'request.Request': {'subjects': 'typedList', 'resources': 'typedList'},
    X + 'response.Response': {'results': 'typedList'},
}
EITHER = {(C + 'obligation.Obligation', 'fulfillOn'): 'obligationEffect effect'}
# documented: a match holds either a designator or a selector
CLEARS = {'attributeDesignator': 'attributeSelector', 'attributeSelector': 'attributeDesignator'}
ENUM = {
    X + 'result.StatusCode': ['urn:oasis:names:tc:xacml:1.0:status:' + s for s in ('ok', 'missing-attribute', 'processing-error', 'syntax-error')],
    X + 'result.Decision': ['Permit', 'Deny', 'Indeterminate', 'NotApplicable'],
    C + 'rule.Effect': ['Permit', 'Deny'],
    C + 'obligation.Effect': ['Permit', 'Deny'],
}
MODULES = ['ndg.xacml.core.context.pdp', 'ndg.xacml.core.context.handler', 'ndg.xacml.core.functions', 'ndg.xacml.core.policyset',
           'ndg.xacml.core.obligation', 'ndg.xacml.core.context.exceptions', 'ndg.xacml.utils.xpath_selector', 'ndg.xacml.core.apply']


def run(ctx):
    I = ctx.interp(*MODULES)
    ctx.guard('plain', plain, ctx, I)
    ctx.guard('enumerated', enumerated, ctx, I)
    ctx.guard('values', values, ctx, I)
    ctx.guard('identifiers', identifiers, ctx, I)
    ctx.minimum('typed-attribute', 100)
    ctx.minimum('enumerated-attribute', 4)
    ctx.minimum('native-value', 15)
    ctx.minimum('identifier-attribute', 5)


def kinds(I):
    """label -> given value (hint or constant)."""
    k = {'string': H_STR, 'flag': H_BOOL, 'number': H_INT, 'None': None, 'foreign object': H_OPAQUE,
         'tuple': (), 'empty string': '',
         'typedList': h_obj(I.cls('ndg.xacml.utils.TypedList'), exact=False)}
    for label, q in (('functionMap', C + 'functions.FunctionMap'), ('attributeValue', C + 'attributevalue.AttributeValue'),
                     ('designator', C + 'attributedesignator.AttributeDesignator'), ('selector', C + 'attributeselector.AttributeSelector'),
                     ('apply', C + 'apply.Apply'), ('target', C + 'target.Target'), ('condition', C + 'condition.Condition'),
                     ('effect', C + 'rule.Effect'), ('obligationEffect', C + 'obligation.Effect'), ('rule', C + 'rule.Rule'),
                     ('policy', C + 'policy.Policy'), ('policySet', C + 'policyset.PolicySet'), ('policyDefaults', C + 'policydefaults.PolicyDefaults'),
                     ('ruleAlgFactory', C + 'rule_combining_alg.RuleCombiningAlgClassFactory'),
                     ('policyAlgFactory', C + 'policy_combining_alg.PolicyCombiningAlgClassFactory'),
                     ('obligation', C + 'obligation.Obligation'),
                     ('reqSubject', X + 'subject.Subject'), ('reqResource', X + 'resource.Resource'), ('reqAction', X + 'action.Action'),
                     ('reqEnvironment', X + 'environment.Environment'), ('targetAction', C + 'action.Action'),
                     ('targetEnvironment', C + 'environment.Environment'), ('ctxHandler', X + 'handlerinterface.CtxHandlerInterface'),
                     ('xpath', 'ndg.xacml.utils.xpath_selector.XPathSelectorInterface'), ('request', X + 'request.Request'),
                     ('response', X + 'response.Response'), ('result', X + 'result.Result'), ('status', X + 'result.Status'),
                     ('statusCode', X + 'result.StatusCode'), ('decision', X + 'result.Decision'),
                     ('pip', X + 'pipinterface.PIPInterface'), ('pdp', X + 'pdpinterface.PDPInterface')):
        k[label] = Hint('obj', cls=I.cls(q), exact=False)
        if label in ('target', 'status', 'attributeValue', 'decision', 'effect'):
            k['class ' + label] = I.cls(q)
    return k


def concrete(I):
    """Every class of the model that can be created without arguments."""
    out = []
    for m in sorted(I.modules):
        if not (m.startswith('ndg.xacml.core') and '.functions' not in m):
            continue
        mod = I.modules[m]
        for n, c in sorted(mod.ns.items()):
            if isinstance(c, Cls) and c.mod is mod and c not in out:
                out.append(c)
    return out


def make(I, cls):
    """An object of cls; abstract hooks are taken as given by a derived class."""
    if cls.name == 'CtxHandlerBase':
        o = Inst(cls, {})
        I.call(I.getattr(o, '__init__'), [], {})
        return o
    return I.call(cls, [], {})


def accessors(I, cls):
    out = {}
    for k in I.mro(cls):
        if not isinstance(k, Cls):
            continue
        for n, raw in k.ns.items():
            if isinstance(raw, Prop) and not n.startswith('_') and n not in out:
                out[n] = (k, raw)
    # what is merely computed from another attribute is no state of its own
    return {n: (k, p) for n, (k, p) in out.items() if p.fset is not None or (n != 'ident' and declared(I, cls, n, READONLY)[1])}


def read(I, o, n):
    try:
        return ('value', I.getattr(o, n))
    except AbsExc as e:
        return ('raise', exc_class(e))


def snapshot(I, o, names):
    return {n: read(I, o, n) for n in names}


def same(I, a, b):
    if a[0] == 'value' and isinstance(a[1], Sym):
        a = ('value', I.force(a[1]))
    if b[0] == 'value' and isinstance(b[1], Sym):
        b = ('value', I.force(b[1]))
    if a[0] != b[0]:
        return False
    if a[0] == 'raise':
        return a[1] is b[1]
    x, y = a[1], b[1]
    if isinstance(x, Sym) or isinstance(y, Sym):
        return isinstance(x, Sym) and isinstance(y, Sym) and x.name == y.name
    return x is y or (is_const(x) and is_const(y) and type(x) is type(y) and x == y)


def declared(I, cls, n, table):
    for k in I.mro(cls):
        if isinstance(k, Cls) and n in table.get(k.qual, ()):
            return table[k.qual][n], k
    return None, None


def plain(ctx, I):
    K = kinds(I)
    seen = {(q, n): 0 for t in (TABLE, READONLY) for q in t for n in t[q]}
    for cls in concrete(I):
        if not any(isinstance(k, Cls) and (k.qual in TABLE or k.qual in READONLY) for k in I.mro(cls)):
            continue
        try:
            make(I, cls)
        except AbsExc:
            continue            # abstract, or needs arguments
        if I.src_lookup(cls, '__init__') is None:
            continue
        acc = accessors(I, cls)
        fresh_reads(ctx, I, cls, acc)
        for table in (TABLE, READONLY):
            names = sorted({n for k in I.mro(cls) if isinstance(k, Cls) for n in table.get(k.qual, ())})
            for n in names:
                kind, owner = declared(I, cls, n, table)
                seen[(owner.qual, n)] += 1
                attribute(ctx, I, K, cls, n, kind, EITHER.get((owner.qual, n), ''), table is READONLY, acc)
    for (q, n), k in sorted(seen.items()):
        ctx.ob('typed-attribute', '%s.%s exists' % (q.replace(C, ''), n), k > 0, 'no class of the model offers this attribute', q)


def fresh_reads(ctx, I, cls, acc):
    """A new object answers for every attribute that can be assigned."""
    def entry(I):
        o = make(I, cls)
        a, b = snapshot(I, o, acc), snapshot(I, make(I, cls), acc)
        I.mon['shared'] = sorted(n for n in acc if a[n][0] == b[n][0] == 'value' and a[n][1] is b[n][1] and isinstance(a[n][1], Inst)
                                 and a[n][1].payload is not None and isinstance(a[n][1].payload, (list, dict, set))
                                 and I.issub(a[n][1].cls, list))
        return {n: r for n, r in a.items() if acc[n][1].fset is not None}

    def check(I, out):
        bad = {} if out[0] == 'raise' else {n: r for n, r in out[1].items() if r[0] == 'raise'}
        ctx.ob('readable-when-new', cls.name, out[0] != 'raise' and not bad, 'a new object cannot be read: %s' % (
            ', '.join('%s (%s)' % (n, getattr(r[1], 'name', r[1])) for n, r in sorted(bad.items()))
            or (exc_text(out[1]) if out[0] == 'raise' else '')), where_of(I, cls, sorted(bad)[0] if bad else '__init__'), trace_text(I))
        for n in I.mon.get('shared', ()):
            ctx.ob('objects-independent', '%s.%s' % (cls.name, n), False, 'two objects share their %s' % n, where_of(I, cls, n), trace_text(I))
    ctx.explore('new ' + cls.name, I, entry, check)


def attribute(ctx, I, K, cls, n, kind, either, readonly, acc):
    good = set(K) if kind == '*' else set(kind.split())
    if 'string' in good:
        good.add('empty string')
    either = set(either.split())
    if readonly:
        either, good = good | either, set()
    labels = sorted(K)
    given = Sym(('p', 'given'), h_alts(*[(l, K[l]) for l in labels]))
    gl = sorted(good - {'empty string'}) or sorted(either - {'empty string'})
    con = '%s.%s' % (cls.qual.replace(C, ''), n)
    w = where_of(I, cls, n)
    for before in ('new', 'assigned'):
        if before == 'assigned' and (readonly or not gl):
            continue

        def entry(I):
            o = I.mon['o'] = make(I, cls)
            if before == 'assigned':
                for m in sorted(acc, key=lambda m: (m == n, m)):
                    k, q = declared(I, cls, m, TABLE)
                    if k is not None and acc[m][1].fset is not None:
                        g = ['foreign object'] if k == '*' else k.split()
                        I.setattr(o, m, Sym(('p', 'old', m), K[(gl if m == n else g)[0]]))
            twin = I.mon['twin'] = make(I, cls)
            I.mon['snap'] = snapshot(I, o, acc)
            I.mon['twins'] = snapshot(I, twin, acc)
            I.setattr(o, n, given)

        def check(I, out):
            if 'snap' not in I.mon:
                ctx.ob('typed-attribute', con, False, 'refuses a %s: %s' % (gl[0], exc_text(out[1])), w, trace_text(I))
                return
            o, snap = I.mon['o'], I.mon['snap']
            i = I.resolved.get(given.name)
            ls = set(labels) if i is None else {labels[i]}
            now = snapshot(I, o, acc)
            changed = sorted(x for x in acc if not same(I, snap[x], now[x]) and not (out[0] != 'raise' and x in (n, CLEARS.get(n))))
            ctx.ob('others-untouched', con, not changed, 'assigning %s (%s) also changed %s' % (n, out[0], ', '.join(changed)), w, trace_text(I))
            now2 = snapshot(I, I.mon['twin'], acc)
            both = sorted(x for x in acc if not same(I, I.mon['twins'][x], now2[x]))
            ctx.ob('objects-independent', con, not both, 'assigning %s of one object changed %s of another' % (n, ', '.join(both)), w, trace_text(I))
            if out[0] == 'raise':
                ctx.ob('typed-attribute', con, not (ls & good), 'refuses a %s: %s' % ('/'.join(sorted(ls & good)[:3]), exc_text(out[1])),
                       out[1].where, trace_text(I))
                return
            bad = ls - good - either
            ctx.ob('typed-attribute', con, not bad, 'accepts %s' % ', '.join(sorted(bad)[:4]), w, trace_text(I))
            if n in CLEARS and CLEARS[n] in now:
                ctx.ob('others-untouched', con, now[CLEARS[n]] == ('value', None), 'keeps %s beside it' % CLEARS[n], w, trace_text(I))
            got = now[n]
            ok = got[0] == 'value' and same(I, got, ('value', given)) or (i is not None and got[0] == 'value' and is_given(I, got[1], given, K[labels[i]]))
            ctx.ob('stored-as-given', con, ok, 'reading gives something other than what was assigned', w, trace_text(I))
        ctx.explore(con, I, entry, check)


def is_given(I, x, given, raw):
    if isinstance(x, Sym):
        return x.name == given.name
    return x is raw or (is_const(raw) and is_const(x) and type(x) is type(raw) and x == raw)


# ---------------------------------------------------------------------------

def enumerated(ctx, I):
    K = kinds(I)
    for q, allowed in sorted(ENUM.items()):
        c = I.cls(q)
        con = '%s.value' % q.replace(C, '')
        w = where_of(I, c, 'value')
        alts = [('text ' + s, s) for s in allowed]
        miss = sorted({f(s) for s in allowed for f in (str.lower, str.upper, lambda s: s + ' ', lambda s: s[:-1], lambda s: s.split(':')[-1])} - set(allowed)) + ['']
        alts += [('text %r' % s, s) for s in miss]
        alts += [('any text', H_STR)]
        alts += [(l, K[l]) for l in sorted(K) if l not in ('string', 'empty string', 'class decision', 'class effect')]
        own = {'result.Decision': 'decision', 'rule.Effect': 'effect', 'obligation.Effect': 'obligationEffect'}.get('.'.join(q.split('.')[-2:]))
        objs = []
        if own:
            alts = [a for a in alts if a[0] != own]
            for s in allowed:
                alts.append(('%s object' % s, lambda I, sym, s=s: obj_hint(I, c, value=s)))
                objs.append(('%s object' % s, s))
        given = Sym(('p', 'given'), h_alts(*alts))
        want = dict([('text ' + s, s) for s in allowed] + objs)

        for how in ('assign', 'construct') if q != X + 'result.StatusCode' else ('assign',):
            def entry(I, how=how):
                if how == 'construct':
                    o = I.mon['o'] = None
                    return I.call(c, [given], {})
                o = I.mon['o'] = I.call(c, [], {}) if q in (X + 'result.StatusCode',) else I.call(c, [allowed[1]], {})
                if q == X + 'result.StatusCode':
                    I.setattr(o, 'value', allowed[1])
                I.mon['ready'] = True
                I.setattr(o, 'value', given)
                return o

            def check(I, out, how=how):
                i = I.resolved.get(given.name)
                label = alts[i][0] if i is not None else None
                expect = want.get(label)
                if label == 'any text':
                    eq = [s for s in allowed if I.lookup_fact(('eq',) + tuple(sorted((given.name, I.nm(s)), key=repr))) is True]
                    expect = eq[0] if eq else None
                if out[0] == 'raise':
                    ctx.ob('enumerated-attribute', con, expect is None and (how == 'construct' or 'ready' in I.mon),
                           'refuses %s: %s' % (expect, exc_text(out[1])), out[1].where, trace_text(I))
                    if how == 'assign' and 'ready' in I.mon:
                        r = read(I, I.mon['o'], 'value')
                        ctx.ob('enumerated-attribute', con, same(I, r, ('value', allowed[1])), 'a refused value replaced the old one', w, trace_text(I))
                    return
                r = read(I, out[1], 'value')
                if r[0] == 'value' and i is not None:
                    r = ('value', I.force(r[1]))
                ok = expect is not None and r[0] == 'value' and (r[1] == expect if is_const(r[1]) else
                                                                 isinstance(r[1], Sym) and r[1].name == given.name and label == 'any text')
                ctx.ob('enumerated-attribute', con, ok, '%s gives %s' % (label, r[1]) if expect is not None else 'accepts %s' % label, w, trace_text(I))
            ctx.explore(con + ' ' + how, I, entry, check)


# ---------------------------------------------------------------------------

def values(ctx, I):
    """A refused native value leaves the old one in place."""
    fac = I.call(I.cls(AVF), [], {})
    for t, uri in sorted(TYPES.items()):
        c = I.call(fac, [uri], {})
        if not isinstance(c, Cls):
            continue
        nt = I.getattr(c, 'TYPE')
        if not isinstance(nt, type):
            continue
        w = where_of(I, c, 'value')
        old = Sym(('p', 'old'), native(I, c))
        given = Sym(('p', 'given'), h_alts(('foreign object', H_OPAQUE), ('list', h_coll(H_ANY)), ('None', None), ('bytes', b'x')))

        def entry(I):
            o = I.mon['o'] = I.call(c, [], {})
            I.setattr(o, 'value', old)
            I.mon['ready'] = True
            I.setattr(o, 'value', given)

        def check(I, out):
            ok = 'ready' in I.mon and out[0] == 'raise'
            ctx.ob('native-value', t, ok, 'accepts %s' % (out,) if 'ready' in I.mon else 'refuses its native type', w, trace_text(I))
            if ok:
                ctx.ob('native-value', t, same(I, read(I, I.mon['o'], 'value'), ('value', old)), 'a refused value replaced the old one', w, trace_text(I))
        ctx.explore(t, I, entry, check)


# ---------------------------------------------------------------------------

def identifiers(ctx, I):
    fm = I.obj(C + 'functions.functionMap')
    ids = [V1 + 'string-equal', V1 + 'string-one-and-only', V1 + 'all-of', 'urn:x:unknown', '', V1 + 'no-such']
    for q, n, reads in ((C + 'apply.Apply', 'functionId', 'function'),) + tuple(
            (C + 'match.' + k, 'matchId', 'function') for k in ('SubjectMatch', 'ResourceMatch', 'ActionMatch', 'EnvironmentMatch')):
        c = I.cls(q)

        def target(I, s):
            try:
                k = call_method(I, fm, 'get', s)
            except AbsExc:
                return None
            return k if isinstance(k, Cls) else None
        ident(ctx, I, c, n, reads, ids, target, loadable=True)
    R = 'urn:oasis:names:tc:xacml:1.%d:%s-combining-algorithm:'
    for q, n, reads, kind, fac in ((C + 'policy.Policy', 'ruleCombiningAlgId', 'ruleCombiningAlg', 'rule', 'ruleCombiningAlgFactory'),
                                   (C + 'policyset.PolicySet', 'policyCombiningAlgId', 'policyCombiningAlg', 'policy', 'policyCombiningAlgFactory')):
        c = I.cls(q)
        ids = [R % (0, kind) + a for a in ('permit-overrides', 'deny-overrides')] + [R % (1, kind) + 'ordered-deny-overrides', 'urn:x', '']
        if kind == 'policy':
            ids.append(R % (0, kind) + 'only-one-applicable')

        def target(I, s, c=c, fac=fac):
            k = None
            try:
                k = I.call(I.getattr(I.call(c, [], {}), fac), [s], {})
            except AbsExc:
                pass
            return k if isinstance(k, Cls) else None
        ident(ctx, I, c, n, reads, ids, target, loadable=False)


def ident(ctx, I, c, n, reads, ids, target, loadable):
    con = '%s.%s' % (c.name, n)
    w = where_of(I, c, n)
    K = kinds(I)
    acc = accessors(I, c)
    alts = [('text ' + s, s) for s in ids] + [(l, K[l]) for l in sorted(K) if l not in ('string', 'empty string')]
    given = Sym(('p', 'given'), h_alts(*alts))
    want = {'text ' + s: target(I, s) for s in ids}
    for load in (True, False) if loadable else (True,):
        for before in ('new', 'assigned'):
            def entry(I):
                o = I.mon['o'] = I.call(c, [], {})
                if not load:
                    I.setattr(o, 'loadFunctionFromId', False)
                if before == 'assigned':
                    I.setattr(o, n, ids[0])
                I.mon['snap'] = snapshot(I, o, acc)
                I.setattr(o, n, given)

            def check(I, out):
                if 'snap' not in I.mon:
                    ctx.ob('identifier-attribute', con, False, 'refuses %s: %s' % (ids[0], exc_text(out[1])), out[1].where, trace_text(I))
                    return
                o, snap = I.mon['o'], I.mon['snap']
                i = I.resolved.get(given.name)
                label = alts[i][0] if i is not None else None
                text = alts[i][1] if label in want else None
                now = snapshot(I, o, acc)
                changed = sorted(x for x in acc if not same(I, snap[x], now[x]) and not (out[0] != 'raise' and x in (n, reads)))
                if out[0] == 'raise':
                    ctx.ob('identifier-attribute', con, text is None or (load and want[label] is None), 'refuses %s: %s' % (text, exc_text(out[1])),
                           out[1].where, trace_text(I))
                    ctx.ob('refused-leaves-old', con, not changed, 'assigning %s raises %s but changed %s' % (
                        label, exc_text(out[1]), ', '.join(changed)), w, trace_text(I))
                    return
                ctx.ob('others-untouched', con, not changed, 'assigning also changed %s' % ', '.join(changed), w, trace_text(I))
                got = now[n]
                ctx.ob('identifier-attribute', con, text is not None and same(I, got, ('value', text)), 'accepts %s' % label if text is None else
                       'stores %r for %r' % (got[1], text), w, trace_text(I))
                if text is not None and load:
                    f = now[reads][1] if now[reads][0] == 'value' else None
                    ctx.ob('identifier-attribute', con, want[label] is not None and isinstance(f, Inst) and f.cls is want[label],
                           'after assigning %r, %s is %r' % (text, reads, f), w, trace_text(I))
            ctx.explore(con, I, entry, check)

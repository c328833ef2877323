"""P07: attribute designators.

Every collection of the request is 'anything, one distinguished element, anything':
what holds for the distinguished attribute and value holds for all of them."""
from xa.values import *
from xa.lib import *
from checks.p03 import outcome, known
from checks.p06 import mentions

CX = 'ndg.xacml.core.context.'
AV = 'ndg.xacml.core.attributevalue.AttributeValue'
AVF = 'ndg.xacml.core.attributevalue.AttributeValueClassFactory'
SECTIONS = {'Subject': ('subjects', CX + 'subject.Subject'), 'Resource': ('resources', CX + 'resource.Resource'),
            'Action': ('action', CX + 'action.Action'), 'Environment': ('environment', CX + 'environment.Environment')}
ISS = (('none', None), ('some', H_STR))


def run(ctx):
    for s in SECTIONS:
        ctx.guard(s + ' designator', designator, ctx, s, True)
        ctx.guard(s + ' designator, nothing there', designator, ctx, s, False)
        if s == 'Subject':
            for n in (1, 2):
                ctx.guard('information point, %d subjects' % n, designator, ctx, s, False, n)
        ctx.guard(s + ' designator, not a request', rejects, ctx, s)
    ctx.minimum('included', 4)
    ctx.minimum('presence', 4)
    ctx.minimum('request-only', 4)


def bag(I, payload):
    b = I.call(I.obj('ndg.xacml.utils.TypedList'), [I.cls(AV)], {})
    b.payload = list(payload)
    return b


def setup(ctx, sec, star, pips=0):
    I = ctx.interp('ndg.xacml.core.attributedesignator', 'ndg.xacml.core.context.pdp', 'ndg.xacml.core.context.handler')
    Dc = I.cls('ndg.xacml.core.attributedesignator.%sAttributeDesignator' % sec)
    AVc, At = I.cls(AV), I.cls('ndg.xacml.core.attribute.Attribute')
    TL = I.obj('ndg.xacml.utils.TypedList')
    I.class_map = lambda I, e, items: ()
    I.forget = True
    hval = Hint('obj', cls=AVc, exact=False, fields={
        ('prop', 'dataType'): lambda I, s: Sym(('a', s.name, 'dataType'), H_STR),
        ('prop', 'value'): lambda I, s: Sym(('a', s.name, 'value'), H_ANY)})

    def values(I, s):
        if s.name == ('p', 'a*'):
            return VSTAR
        return Sym(('a', s.name, 'values'), Hint('coll', cls=TL, elem=hval))
    hattr = obj_hint(I, At, attributeId=H_STR, dataType=H_STR, issuer=h_alts(*ISS), attributeValues=values)
    vs = Sym(('p', 'v*'), hval)
    VSTAR = bag(I, between('values of a*', hval, TL, vs))
    astar = Sym(('p', 'a*'), hattr)
    lists = {}

    def attributes(I, s):
        n = s.name
        if n in lists:
            return lists[n]
        return Sym(('a', n, 'attributes'), Hint('coll', cls=TL, elem=hattr))

    def section(name, cls, attrs):
        n = ('p', name)
        lists[n] = bag(I, attrs)
        return Sym(n, obj_hint(I, cls, attributes=attributes, **extra.get(cls.qual, {})))
    extra = {}
    fields = {}
    for k, (prop, q) in SECTIONS.items():
        c = I.cls(q)
        attrs = between(k + ' attributes', hattr, TL, astar if star and k == sec else None)
        if prop in ('action', 'environment'):
            fields[prop] = section('the ' + k.lower(), c, attrs)
        else:
            one = section('the ' + k.lower(), c, attrs)
            h = obj_hint(I, c, attributes=attributes)
            if pips and k == sec:
                fields[prop] = bag(I, [one] + [section('other subject', c, [])] * (pips - 1))
            else:
                fields[prop] = bag(I, between(prop, h, TL, one))
    H = I.cls(CX + 'handler.CtxHandlerInterface')
    pstar = Sym(('p', 'pip*'), hval)
    PIP = bag(I, between('pip values', hval, TL, pstar if pips else None))

    def pip(I, self, args, kw):
        a = list(args) + list(kw.values())
        o = outcome(I, ('p', 'pip outcome'), ('none', 'values', 'error'))
        if len(a) != 2 or I.nm(a[0]) != ('p', 'request') or I.nm(a[1]) != ('p', 'designator'):
            I.mon['pipargs'] = I.where()
        I.mon['pip'] = o
        if o == 'error':
            raise I.opaque_exc('error in information point')
        return PIP if o == 'values' else None
    I.method_intercepts[(H.qual, 'pipQuery')] = pip
    hreq = obj_hint(I, I.cls(CX + 'request.Request'), ctxHandler=(lambda I, s: Sym(('a', s.name, 'handler'), h_opt(Hint('obj', cls=H, fields={}, exact=False)))
                                                             if pips else None),
                    **{k: (lambda I, s, v=v: v) for k, v in fields.items()})

    def factory(I, self, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 1 or I.nm(I.force(a[0])) != ('a', ('p', 'designator'), 'type'):
            I.mon['bagtype'] = I.where()
        return AVc
    I.method_intercepts[(AVF, '__call__')] = factory

    def same(I, self, args, kw):
        a, b = I.nm(self), I.nm(args[0])
        if a == b and I.find_r(a) is None:
            return True
        r = I.choose(2, ('same', a, b)) == 0
        if r and ('p', 'pip*') in (a, b):
            I.mon['pip-equal'] = True
        return r
    I.method_intercepts[(AV, '__eq__')] = same

    def named(x):
        return lambda I, s: Sym(('a', s.name, x), H_STR)
    hd = obj_hint(I, Dc, attributeId=named('id'), dataType=named('type'), mustBePresent=H_BOOL,
                  issuer=lambda I, s: Sym(('a', s.name, 'issuer'), h_alts(*ISS)),
                  attributeValueFactory=lambda I, s: Sym(('p', 'factory'), h_obj(I.cls(AVF))))
    return I, Dc, Sym(('p', 'designator'), hd), Sym(('p', 'request'), hreq)


def between(name, helem, TL, star):
    c = lambda i: Star(Sym(('p', name, i), Hint('coll', cls=TL, elem=helem)))
    return [c(1)] + ([star, c(2)] if star is not None else [])


def facts_of(I, sec):
    """Conjuncts of 'the distinguished value is selected': name -> True/False/None."""
    d, a, v = ('p', 'designator'), ('p', 'a*'), ('p', 'v*')

    def eq(x, y):
        if x == y:
            return True
        return I.lookup_fact(('eq',) + tuple(sorted((x, y), key=repr)))
    At = I.cls('ndg.xacml.core.attribute.Attribute')
    slot = {p: ('a', a, slot_of(I, At, p)) for p in ('attributeId', 'dataType', 'issuer')}
    out = {'attribute id': eq(slot['attributeId'], ('a', d, 'id')),
           'attribute data type': eq(slot['dataType'], ('a', d, 'type')),
           'value data type': eq(('a', v, 'dataType'), ('a', d, 'type'))}
    # equality is transitive: two of the three data types equal decide the third
    tt = eq(('a', v, 'dataType'), slot['dataType'])
    t = [out['attribute data type'], out['value data type'], tt]
    if t.count(True) == 2:
        i = [j for j in range(3) if t[j] is not True][0]
        t[i] = t[i] if t[i] is not None else True
    elif t.count(True) == 1 and t.count(False) == 1:
        i = [j for j in range(3) if t[j] is None][0]
        t[i] = False
    out['attribute data type'], out['value data type'] = t[0], t[1]
    iss = known(I, ('a', d, 'issuer'), ('none', 'some'))
    if iss == ('none',):
        out['issuer'] = True
    else:
        mine = known(I, slot['issuer'], ('none', 'some'))
        if iss == ('some',) and mine == ('none',):
            out['issuer'] = False
        else:
            r = eq(slot['issuer'], ('a', d, 'issuer'))
            out['issuer'] = True if r else False if r is False and iss == ('some',) else None
    return out


def walk(segs):
    """(plain items, [(coll, items)] of repeated parts)."""
    plain, rep = [], []
    for s in segs:
        if isinstance(s, Star):
            rep.append((s.coll.name, [s.coll]))
        elif isinstance(s, Each):
            rep.append((s.coll, s.items()))
        elif isinstance(s, Fill):
            rep.append((s.coll, list(s.each.values()) + [s.default]))
        else:
            plain.append(s)
    return plain, rep


def designator(ctx, sec, star, pips=0):
    I, Dc, d, req = setup(ctx, sec, star, pips)
    def kind(x):
        if isinstance(x, Sym):
            if x.name in (V, P):
                return x.name
            k = junk_root(x.name)
            if k is not None:
                return k
            for k, names in (('own', own), ('pip', pipn)):
                if any(mentions(x.name, o) for o in names):
                    return k
        return ('other', I.nm(x))
    I.junk = kind
    construct = '%sAttributeDesignator.evaluate' % sec + ('' if star else ' (%d subjects, information point)' % pips if pips else ' (no attribute)')
    own = [('p', sec + ' attributes', i) for i in (1, 2)] + [('p', 'values of a*', i) for i in (1, 2)]
    if sec in ('Subject', 'Resource'):
        own += [('p', SECTIONS[sec][0], i) for i in (1, 2)]
    pipn = [('p', 'pip values', i) for i in (1, 2)]
    V, P = ('p', 'v*'), ('p', 'pip*')

    def entry(I):
        return call_method(I, d, 'evaluate', req)

    def check(I, out):
        tr = trace_text(I)
        mbp = I.lookup_fact(('truth', ('a', d.name, slot_of(I, Dc, 'mustBePresent'))))
        pip = I.mon.get('pip')
        sel = facts_of(I, sec) if star else {'presence': False}
        yes = all(x is True for x in sel.values())
        no = any(x is False for x in sel.values())
        desc = ', '.join('%s %s' % (k, {True: 'equal', False: 'differs', None: 'not examined'}[x]) for k, x in sel.items())
        ctx.ob('bag-type', construct, 'bagtype' not in I.mon, 'bag made for something else than the designator\'s data type',
               I.mon.get('bagtype'), tr)
        ctx.ob('information-point', construct, 'pipargs' not in I.mon,
               'information point not asked with the request and the designator', I.mon.get('pipargs'), tr)
        if out[0] == 'raise':
            e = out[1]
            if pip == 'error':
                return
            miss = exc_is(I, e, I.cls(CX + 'exceptions.MissingAttributeError'))
            ctx.ob('presence', construct, miss and mbp is True and no and not (pips and pip == 'values'),
                   'raises %s with presence %s and a value with %s%s' % (
                       exc_text(e), {True: 'mandatory', False: 'not mandatory', None: 'not examined'}[mbp], desc,
                       ', and values from the information point' if pip == 'values' else ''), e.where, tr)
            return
        r = I.force(out[1])
        segs = r.payload if isinstance(r, Inst) and isinstance(r.payload, list) else None
        if segs is None:
            ctx.ob('bag', construct, False, 'does not return a list', I.out_where, tr)
            return
        ctx.ob('bag', construct, bool(I.issub(I.class_of(r), I.obj('ndg.xacml.utils.TypedList'))),
               'does not return a typed list', I.out_where, tr)
        plain, rep = walk(segs)
        n = sum(1 for x in plain if isinstance(x, Sym) and x.name == V)
        okk = ('own', V) + (('pip', P) if sec == 'Subject' else ())
        bad = [x for x in plain if kind(x) not in okk]
        for c, items in rep:
            bad += [x for x in items if kind(x) not in okk]
            if any(isinstance(x, Sym) and x.name == V for x in items):
                n = 99
        ctx.ob('nothing-else', construct, not bad, 'returns something that is no value of this section: %r' % (bad,),
               I.out_where, tr)
        if star:
            ctx.ob('included', construct, (n == 1 and yes) or (n == 0 and no) or (n == 0 and not no and not yes and False),
                   '%s a value with %s' % ('returns' if n == 1 else 'leaves out' if n == 0 else 'repeats', desc),
                   I.out_where, tr)
        if pips:
            np = sum(1 for x in plain if isinstance(x, Sym) and x.name == P)
            for c, items in rep:
                np += sum(1 for x in items if isinstance(x, Sym) and x.name == P)
            if pip == 'values':
                ctx.ob('information-point', construct, np >= 1 or 'pip-equal' in I.mon,
                       'leaves out a value the information point supplies', I.out_where, tr)
            else:
                none = known(I, ('a', ('p', 'request'), 'handler'),
                             ('none', 'some'))
                ctx.ob('information-point', construct, np == 0 and (none == ('none',) or pip is not None),
                       'does not ask the configured information point', I.out_where, tr)
        full = bool(plain) or any(any(i for i in x.groups.values() if i[1]) for x in segs if isinstance(x, Each)) \
            or any(isinstance(x, Star) and I.lens.get(x.coll.name, (0, None))[0] > 0 for x in segs)
        ctx.ob('presence', construct, full or mbp is False,
               'returns a bag that may be empty with presence %s' % {True: 'mandatory', None: 'not examined', False: ''}[mbp],
               I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def junk_root(n):
    if isinstance(n, tuple):
        if len(n) == 2 and n[0] == 'junk':
            return n[1]
        for x in n:
            k = junk_root(x)
            if k is not None:
                return k
    return None


def rejects(ctx, sec):
    I, Dc, d, req = setup(ctx, sec, False)
    construct = '%sAttributeDesignator.evaluate (context is no request)' % sec
    other = h_alts(('none', None), ('string', H_STR), ('object', H_OPAQUE),
                   ('subject', h_obj(I.cls(CX + 'subject.Subject'))))

    def entry(I):
        c = I.force(Sym(('p', 'context'), other))
        return call_method(I, d, 'evaluate', c)

    def check(I, out):
        k = known(I, ('p', 'context'), ('None', 'a string', 'some other object', 'a subject'))
        ctx.ob('request-only', construct, out[0] == 'raise', 'accepts %s as request' % '/'.join(k), I.out_where, trace_text(I))
    ctx.explore(construct, I, entry, check)

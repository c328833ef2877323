"""P08: attribute selectors over unknown selections of text."""
from xa.values import *
from xa.lib import *
from checks.p03 import known, outcome
from checks.p07 import AV, AVF, CX

SEL = 'ndg.xacml.core.attributeselector.AttributeSelector'
XP = 'ndg.xacml.utils.xpath_selector.XPathSelectorInterface'
T = [('p', 'texts', 1), ('p', 'text*'), ('p', 'texts', 2)]


def run(ctx):
    I = ctx.interp('ndg.xacml.core.attributevalue')
    A = I.cls(AV)
    uris = [x for x in I.seq_items(I.getattr(A, 'TYPE_URIS')) if isinstance(x, str)]
    for u in uris + ['urn:no:such:type']:
        short = u.split('#')[-1].split(':')[-1]
        for star in (True, False):
            ctx.guard('selector for ' + short, selector, ctx, u, short, star)
    ctx.guard('selector, no request', rejects, ctx)
    ctx.minimum('values', 10)
    ctx.minimum('unknown-type', 1)
    ctx.minimum('presence', 10)


def setup(ctx, uri, star):
    I = ctx.interp('ndg.xacml.core.attributeselector', 'ndg.xacml.core.context.pdp')
    c = lambda n: Star(Sym(n, Hint('coll', cls=list, elem=H_STR)))
    texts = Inst(list, payload=[c(T[0]), Sym(T[1], H_STR), c(T[2])] if star else [c(T[0])])

    def select(I, self, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 1 or I.nm(I.force(a[0])) != ('a', ('p', 'selector'), 'path'):
            I.mon['path'] = I.where()
        I.mon['asked'] = I.mon.get('asked', 0) + 1
        if outcome(I, ('p', 'selection'), ('texts', 'error')) == 'error':
            raise I.opaque_exc('error in selection facility')
        return texts
    X = I.cls(XP)
    I.method_intercepts[(XP, 'selectText')] = select
    hs = obj_hint(I, I.cls(SEL), dataType=lambda I, s: uri, mustBePresent=h_alts(('yes', True), ('no', False), ('unset', None)),
                  requestContextPath=lambda I, s: Sym(('a', s.name, 'path'), H_STR))
    fac = I.call(I.cls(AVF), [], {})
    sl = slot_of(I, I.cls(SEL), 'attributeValueFactory')
    if sl is None:
        hs.fields[('prop', 'attributeValueFactory')] = lambda I, s: fac
    else:
        hs.fields[sl] = lambda I, s: fac
    hr = obj_hint(I, I.cls(CX + 'request.Request'),
                  attributeSelector=lambda I, s: Sym(('a', s.name, 'facility'), h_opt(Hint('obj', cls=X, fields={}, exact=False))))
    return I, Sym(('p', 'selector'), hs), Sym(('p', 'request'), hr)


def selector(ctx, uri, short, star):
    I, s, req = setup(ctx, uri, star)
    construct = 'AttributeSelector.evaluate for %s%s' % (short, '' if star else ' (no distinguished text)')
    cls = I.call(I.call(I.cls(AVF), [], {}), [uri], {})
    TY = I.getattr(cls, 'TYPE') if cls is not None else None
    fits = TY is str
    mb = slot_of(I, I.cls(SEL), 'mustBePresent')

    def entry(I):
        return call_method(I, s, 'evaluate', req)

    def check(I, out):
        tr = trace_text(I)
        fac = known(I, ('a', ('p', 'request'), 'facility'), ('none', 'some'))
        sel = known(I, ('p', 'selection'), ('texts', 'error'))
        must = known(I, ('a', ('p', 'selector'), mb), ('yes', 'no', 'unset'))
        ctx.ob('path', construct, 'path' not in I.mon, 'selects something else than the request-context path', I.mon.get('path'), tr)
        if out[0] == 'raise':
            e = out[1]
            some = star or I.lens.get(T[0], (0, None))[0] > 0 or bool(I.recs.get(T[0]) and I.recs[T[0]].exists)
            some = some or any(I.contains(k, ('e', T[0])) for k in I.cur_names) or any(k[1] == T[0] for k in I.cur_names)
            why = cls is None or fac == ('none',) or sel == ('error',) and 'asked' in I.mon or (not fits and some and 'asked' in I.mon)
            if not why and exc_is(I, e, I.cls(CX + 'exceptions.MissingAttributeError')):
                ctx.ob('presence', construct, must == ('yes',) and 'asked' in I.mon and not some,
                       'raises %s although %s' % (exc_text(e), 'something is selected' if some else 'presence is not mandatory'),
                       e.where, tr)
                return
            ctx.ob('no-own-error', construct, why, 'raises %s for a %s selection of texts' % (exc_text(e), short), e.where, tr)
            return
        if not ctx.ob('unknown-type', construct, cls is not None, 'accepts an unknown data type', I.out_where, tr):
            return
        ctx.ob('facility', construct, fac == ('some',) and I.mon.get('asked') == 1 and sel == ('texts',),
               'returns without having selected once', I.out_where, tr)
        r = I.force(out[1])
        segs = r.payload if isinstance(r, Inst) and isinstance(r.payload, list) else None
        if segs is None or sel != ('texts',):
            ctx.ob('values', construct, segs is not None, 'does not return a list', I.out_where, tr)
            return
        got, bad = [], None
        for x in segs:
            if isinstance(x, Each):
                v = set()
                for ck, items in x.groups.values():
                    if len(items) != 1:
                        bad = '%d values for one text' % len(items)
                    for y in items:
                        v.add(self_value(I, y, cls, uri, x.coll))
                got.append(x.coll if v == {'ok'} else sorted(v)[0])
            elif isinstance(x, (Star, Fill)):
                bad = 'something that is no %s value' % short
            else:
                v = self_value(I, x, cls, uri, None)
                got.append(T[1] if v == 'ok' else v)
        empty = [t for t in T if t not in got]
        for t in empty:
            if t[1] == 'texts' and I.lens.get(t, (0, None))[1] != 0 and (t == T[0] or star):
                bad = bad or 'no value for some selected texts'
            if t == T[1] and star:
                bad = bad or 'no value for some selected text'
        if [t for t in T if t in got] != got:
            bad = bad or 'values %s where the selected texts in order are expected' % (got,)
        ctx.ob('values', construct, bad is None, 'returns %s' % bad, I.out_where, tr)
        ctx.ob('bag-type', construct, bool(I.issub(I.class_of(r), I.obj('ndg.xacml.utils.TypedList'))) and
               same_cls(I, I.getattr(r, 'elementType'), cls), 'returns no bag of the declared data type', I.out_where, tr)
        full = bool([t for t in got if t == T[1]]) or any(isinstance(x, Each) and any(g[1] for g in x.groups.values()) for x in segs)
        ctx.ob('presence', construct, full or 'yes' not in must, 'returns a bag that may be empty with presence mandatory',
               I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def same_cls(I, t, cls):
    if isinstance(t, tuple):
        return all(x is cls for x in t)
    return t is cls


def self_value(I, y, cls, uri, coll):
    if not isinstance(y, Inst) or y.cls is not cls:
        return 'a value of another class'
    v = I.force(I.getattr(y, 'value'))
    if I.getattr(y, 'dataType') != uri:
        return 'a value whose data type is not the declared one'
    n = v.name if isinstance(v, Sym) else None
    if coll is None:
        return 'ok' if n == T[1] else 'a value that does not hold the selected text'
    return 'ok' if n is not None and len(n) == 3 and n[0] == 'r' and n[1] == coll else 'a value that does not hold the selected text'


def rejects(ctx):
    I, s, req = setup(ctx, 'http://www.w3.org/2001/XMLSchema#string', False)
    construct = 'AttributeSelector.evaluate (context is no request)'
    other = h_alts(('none', None), ('string', H_STR), ('object', H_OPAQUE), ('subject', h_obj(I.cls(CX + 'subject.Subject'))))

    def entry(I):
        return call_method(I, s, 'evaluate', I.force(Sym(('p', 'context'), other)))

    def check(I, out):
        k = known(I, ('p', 'context'), ('None', 'a string', 'some other object', 'a subject'))
        ctx.ob('request-only', construct, out[0] == 'raise', 'accepts %s as request' % '/'.join(k), I.out_where, trace_text(I))
    ctx.explore(construct, I, entry, check)

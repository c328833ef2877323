"""P05: Target.match over four sections of unknown entries with unknown matches.

Three-valued spec, N < I < M (no match, error, match): an entry is the minimum of
its match elements, a section the maximum of its entries (M when empty), the target
the minimum of its sections."""
from xa.values import *
from xa.lib import *
from checks.combining import find_live

T = 'ndg.xacml.core.target.Target'
SECTIONS = (('subjects', 'ndg.xacml.core.subject.Subject'), ('resources', 'ndg.xacml.core.resource.Resource'),
            ('actions', 'ndg.xacml.core.action.Action'), ('environments', 'ndg.xacml.core.environment.Environment'))
RNAME = ('p', 'request')
N, E, M = 0, 1, 2
ALL = frozenset((N, E, M))
SHOW = {N: 'no match', E: 'error', M: 'match'}


def fold(f, a, b):
    return frozenset(f(x, y) for x in a for y in b)


class View(object):
    """Facts of a path, possibly those packed into an element class."""

    def __init__(self, resolved, lens, recs, raw):
        self.resolved, self.lens, self.recs, self.raw = resolved, lens, recs, raw
        self.facts = {}

    @classmethod
    def path(cls, I):
        recs = {}
        for k, r in I.recs.items():
            recs[k] = (r.completed, frozenset(r.exists), tuple(e for e, b in r.live))
        v = cls(I.resolved, I.lens, recs, list(I.resolved) + list(I.facts) + list(I.lens) + list(I.recs))
        v.facts = I.facts
        return v

    @classmethod
    def packed(cls, c):
        res, lens, recs = {}, {}, {}
        for kind, k, val in c:
            if kind == 'r':
                res[k] = val
            elif kind == 'l':
                lens[k] = val
            elif kind == 'c':
                recs[k] = (val[0], val[1], ())
        v = cls(res, lens, recs, [k for _, k, _ in c])
        v.facts = {k: val for kind, k, val in c if kind == 'f'}
        return v

    def elements(self, C):
        """([(view, name)], complete)"""
        out = []
        r = self.recs.get(C)
        done = self.lens.get(C) == (0, 0)
        relive = ()
        if r is not None:
            done = done or r[0] is not None
            for c in set(r[0] or ()) | r[1]:
                out.append((View.packed(c), ('@',)))
            relive = r[2]
        live = set(relive)
        items = set()
        for k in self.raw:
            e = find_live(k, C)
            if e is not None:
                live.add(e)
            i = find_item(k, C)
            if i is not None:
                items.add(i)
        for e in live:
            out.append((self, e))
        for e in items:
            out.append((self, e))
        lo, hi = self.lens.get(C, (0, None))
        if items and hi is not None and lo == hi == len(items):
            done = True
        return out, done


def find_item(k, C):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'item' and k[1] == C:
            return k
        for x in k:
            if isinstance(x, tuple):
                r = find_item(x, C)
                if r is not None:
                    return r
    return None


def entry_value(view, name):
    C = ('matches', name)
    elems, done = view.elements(C)
    v = frozenset([M])
    for w, n in elems:
        i = w.resolved.get(('status', n))
        v = fold(min, v, ALL if i is None else frozenset([(M, N, E)[i]]))
    if not done:
        v = fold(min, v, ALL)
    k = view.facts.get(('summary', name))
    return v if k is None or not (v & k) else v & k


def section_value(I, view, C):
    elems, done = view.elements(C)
    if not elems:
        return frozenset([M]) if done else ALL
    v = frozenset([N])
    for w, n in elems:
        v = fold(max, v, entry_value(w, n))
    if not done:
        v = fold(max, v, ALL)
    return v


def run(ctx):
    ctx.guard('Target.match', target_match, ctx)
    ctx.minimum('target-match', 1)


def target_match(ctx):
    I = ctx.interp('ndg.xacml.core.target', 'ndg.xacml.core.context.pdp')
    Tc = I.cls(T)
    TL = I.obj('ndg.xacml.utils.TypedList')
    MB = I.cls('ndg.xacml.core.match.MatchBase')

    def status(I, self, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 1 or not (isinstance(a[0], Sym) and a[0].name == RNAME):
            I.mon['badctx'] = I.where()
        self = I.force(self)
        o = I.force(Sym(('status', I.nm(self)), h_alts(('match', 'match'), ('no match', 'no match'), ('error', 'error'))))
        if o == 'error':
            I.mon['error'] = True
            e = I.opaque_exc('error in match element')
            I.mon['exc'] = e.value
            raise e
        return o == 'match'

    I.method_intercepts[('ndg.xacml.core.match.MatchBase', 'evaluate')] = status
    props = {}
    for sec, q in SECTIONS:
        ec = I.cls(q)

        def matches(I, s):
            return Sym(('matches', s.name), Hint('coll', cls=TL, elem=Hint('obj', cls=MB, fields={}, exact=False)))
        eh = obj_hint(I, ec, matches=matches)
        props[sec] = lambda I, s, sec=sec, eh=eh: Sym(('p', sec), Hint('coll', cls=TL, elem=eh))
    sections = set(('p', sec) for sec, _ in SECTIONS)

    def summarise(I, e, items):
        # a finished entry is remembered by its value only
        if e[1] not in sections:
            return items
        return [('f', ('summary', ('@',)), entry_value(View.packed(items), ('@',)))]
    I.class_map = summarise
    hint = obj_hint(I, Tc, **props)
    req = Sym(RNAME, h_obj(I.cls('ndg.xacml.core.context.request.Request')))
    construct = 'Target.match'

    def entry(I):
        return call_method(I, Sym(('p', 'target'), hint), 'match', req)

    seen = set()

    def check(I, out):
        tr = trace_text(I)
        view = View.path(I)
        secs = [(sec, section_value(I, view, ('p', sec))) for sec, _ in SECTIONS]
        tot = frozenset([M])
        for _, v in secs:
            tot = fold(min, tot, v)
        txt = '; '.join('%s: %s' % (s, '/'.join(SHOW[x] for x in sorted(v))) for s, v in secs)
        ctx.ob('same-request', construct, 'badctx' not in I.mon, 'match evaluated with something other than the request',
               I.mon.get('badctx'), tr)
        if out[0] == 'raise':
            ctx.ob('no-own-error', construct, bool(I.mon.get('error')), 'raises %s although no match element fails' %
                   exc_text(out[1]), out[1].where, tr)
            seen.add('raise')
            return
        v = I.force(out[1])
        t = I.truth(v)
        seen.add(t)
        where = I.out_where
        if t:
            ctx.ob('target-match', construct, tot == {M},
                   'matches although the sections are only known to be: %s' % txt, where, tr)
        else:
            ctx.ob('target-no-match', construct, tot == {N},
                   'does not match although the sections may be: %s (a failing match element counts as an error)' % txt,
                   where, tr)

    ctx.explore(construct, I, entry, check)
    ctx.ob('outcomes-covered', construct, {True, False} <= seen, 'only outcomes %s reached' % seen,
           where_of(I, Tc, 'match'))

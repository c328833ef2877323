"""P17: container invariants under every operation that adds or replaces items."""
import ast

from xa.values import *
from xa.lib import *
from checks.p03 import known
from checks.p05 import View

U = 'ndg.xacml.utils'
ATT = 'ndg.xacml.core.attribute.Attribute'


def run(ctx):
    ctx.guard('TypedList', typed_list, ctx)
    ctx.guard('UniqList', uniq_list, ctx)
    ctx.guard('RestrictedKeyNamesDict', restricted, ctx)
    ctx.guard('VettedDict', vetted, ctx)
    ctx.minimum('typed-list', 20)
    ctx.minimum('unique-list', 10)
    ctx.minimum('restricted-dictionary', 6)
    ctx.minimum('vetted-dictionary', 6)


def gen(I, items):
    """A one-pass iterator over items."""
    return I.iter(Inst(list, payload=list(items)))


FORMS = (('list', lambda I, items: Inst(list, payload=list(items))), ('tuple', lambda I, items: tuple(items)), ('iterator', gen))


def idx(n):
    return n if isinstance(n, int) else n


def setitem(I, o, i, v):
    return I.call(I.getattr(o, '__setitem__'), [i, v], {})


def meth(I, o, name, *a, **kw):
    return I.call(I.getattr(o, name), list(a), kw)


# ---------------------------------------------------------------------------

def typed_list(ctx):
    I = ctx.interp(U, 'ndg.xacml.core.attribute', 'ndg.xacml.core.context.subject', 'ndg.xacml.core.attributevalue')
    TL, A, B = I.obj(U + '.TypedList'), I.cls(ATT), I.cls('ndg.xacml.core.context.subject.Subject')
    S = I.call(I.call(I.cls('ndg.xacml.core.attributevalue.AttributeValueClassFactory'), [], {}),
               ['http://www.w3.org/2001/XMLSchema#string'], {})
    for tname, T, good, bad in (
            ('one class', A, [Hint('obj', cls=A, exact=False)], [h_obj(B), H_OPAQUE, H_STR, None, A]),
            ('two classes', (A, B), [h_obj(A), Hint('obj', cls=B, exact=False)], [h_obj(S), H_OPAQUE, None]),
            ('built-in type', str, [H_STR], [h_obj(A), H_INT, H_OPAQUE, None]),
            ('value class', S, [h_obj(S)], [h_obj(I.cls('ndg.xacml.core.attributevalue.AttributeValue')), H_STR, None])):
        kinds = ['good'] * len(good) + ['bad'] * len(bad)
        alts = h_alts(*[('%s %d' % (k, i), h) for i, (k, h) in enumerate(zip(kinds, good + bad))])

        def item(n):
            return Sym(('p', 'item', n), alts)

        def kind(I, v):
            """'good', 'bad' or None (never examined) of a stored or given item."""
            n = v.name if isinstance(v, Sym) else None
            if n is not None and n[0] == 'p' and n[1] == 'member':
                return 'good'
            got = {kinds[x] for x in known(I, n, tuple(range(len(kinds))))} if n in I.resolved or isinstance(v, Sym) else {'bad'}
            return got.pop() if len(got) == 1 else None

        def resolve(I, n):
            i = I.resolved.get(n)
            return None if i is None else kinds[i]

        members = [Sym(('p', 'member', i), good[0]) for i in range(2)]
        C = ('p', 'members')

        def base(I, unknown):
            o = I.call(TL, [T], {})
            I.set_payload(o, [Star(Sym(C, Hint('coll', elem=good[0])))] if unknown else list(members))
            return o

        runs = []
        for unknown in (True, False):
            pre = 'any list' if unknown else 'list of two'
            runs.append((pre, unknown, 'append', [0], lambda I, o, f: meth(I, o, 'append', item(0)), lambda b, g: b + g))
            for fn, form in FORMS:
                for k in (1, 2):
                    ns = list(range(k))
                    runs.append((pre, unknown, 'extend(%s of %d)' % (fn, k), ns,
                                 lambda I, o, f, form=form, ns=ns: meth(I, o, 'extend', form(I, [item(n) for n in ns])), lambda b, g: b + g))
                    runs.append((pre, unknown, '+= (%s of %d)' % (fn, k), ns,
                                 lambda I, o, f, form=form, ns=ns: iadd(I, o, form(I, [item(n) for n in ns])), lambda b, g: b + g))
        for where in (0, 1, -1):
            runs.append(('list of two', False, 'insert(%d)' % where, [0], lambda I, o, f, where=where: meth(I, o, 'insert', where, item(0)),
                         lambda b, g, where=where: ins(b, where, g[0])))
            if where != 1:
                runs.append(('list of two', False, '[%d] =' % where, [0], lambda I, o, f, where=where: setitem(I, o, where, item(0)),
                             lambda b, g, where=where: put(b, where, g[0])))
        for fn, form in FORMS:
            runs.append(('list of two', False, '[1:] = (%s)' % fn, [0, 1],
                         lambda I, o, f, form=form: setitem(I, o, slice(1, None, None), form(I, [item(0), item(1)])), lambda b, g: b[:1] + g))
        for pre, unknown, opn, ns, op, want in runs:
            construct = 'TypedList (%s), %s: %s' % (tname, pre, opn)

            def entry(I, op=op, unknown=unknown):
                o = I.mon['list'] = base(I, unknown)
                I.mon['before'] = list(o.payload)
                op(I, o, None)
                return o

            def check(I, out, ns=ns, want=want, construct=construct):
                o, before = I.mon['list'], I.mon['before']
                ks = [resolve(I, ('p', 'item', n)) for n in ns]
                w = I.out_where or where_of(I, TL)
                if out[0] == 'raise':
                    ctx.ob('typed-list', construct, 'bad' in ks, 'acceptable items refused with %s' % exc_text(out[1]), out[1].where, trace_text(I))
                    ctx.ob('typed-list', construct, same(o.payload, before), 'a refused operation changed the list', out[1].where, trace_text(I))
                    return
                if 'bad' in ks or None in ks:
                    left = [x for x in o.payload if isinstance(x, Sym) and x.name[1] == 'item' and resolve(I, x.name) != 'good'] \
                        or [x for x in o.payload if not isinstance(x, (Sym, Star))]
                    ctx.ob('typed-list', construct, not left and kept(o.payload, before, want, ns, I, resolve),
                           'accepts items of another type', w, trace_text(I))
                    return
                g = [item(n) for n in ns]
                ctx.ob('typed-list', construct, same(o.payload, want(before, g)), 'acceptable items are lost, moved or altered', w, trace_text(I))
            ctx.explore(construct, I, entry, check)

        # construction with initial items
        for fn, form in FORMS:
            construct = 'TypedList (%s): construction from %s' % (tname, fn)

            def entry(I, form=form):
                return I.call(TL, [T, form(I, [item(0), item(1)])], {})

            def check(I, out, construct=construct):
                ks = [resolve(I, ('p', 'item', n)) for n in (0, 1)]
                if out[0] == 'raise':
                    ctx.ob('typed-list', construct, 'bad' in ks, 'acceptable items refused with %s' % exc_text(out[1]), out[1].where, trace_text(I))
                    return
                ctx.ob('typed-list', construct, ks == ['good', 'good'] and same(out[1].payload, [item(0), item(1)]),
                       'accepts items of another type or loses some', where_of(I, TL, '__init__'), trace_text(I))
            ctx.explore(construct, I, entry, check)

        # an unknown number of items of every kind
        X = ('p', 'items')
        for opn in ('extend', '__iadd__'):
            construct = 'TypedList (%s): %s (any number of items)' % (tname, opn)

            def entry(I, opn=opn):
                o = I.mon['list'] = base(I, True)
                I.mon['before'] = list(o.payload)
                meth(I, o, opn, Sym(X, Hint('coll', elem=alts)))
                return o

            def check(I, out, construct=construct):
                o, before = I.mon['list'], I.mon['before']
                if out[0] == 'raise':
                    ctx.ob('typed-list', construct, same(o.payload, before), 'a refused operation changed the list', out[1].where, trace_text(I))
                    return
                if I.lens.get(X, (0, None)) == (0, 0):
                    ctx.ob('typed-list', construct, same(o.payload[:1], before), 'the list changed', I.out_where, trace_text(I))
                    return
                rec = I.recs.get(X)
                done = rec is not None and rec.completed is not None
                seen = [(w.resolved.get(e)) for w, e in View.path(I).elements(X)[0]]
                bad = not done or any(i is None or kinds[i] != 'good' for i in seen)
                ctx.ob('typed-list', construct, not bad, 'accepts items of another type', I.out_where, trace_text(I))
                if bad:
                    return
                new = [s for s in o.payload if not (isinstance(s, Star) and s.coll.name == C)]
                ok = len(new) == 1 and (isinstance(new[0], Star) and new[0].coll.name == X or isinstance(new[0], Each) and new[0].coll == X and
                                        all(len(v[1]) == 1 for v in new[0].groups.values()))
                ctx.ob('typed-list', construct, ok and same(o.payload[:1], before), 'acceptable items are lost', I.out_where, trace_text(I))
            ctx.explore(construct, I, entry, check)


def iadd(I, o, v):
    r = meth(I, o, '__iadd__', v)
    if r is not o:
        raise AnchorMissing('+= yields another object')
    return r


def ins(b, i, x):
    b = list(b)
    b.insert(i, x)
    return b


def put(b, i, x):
    b = list(b)
    b[i] = x
    return b


def same(p, q):
    if p is None or len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if isinstance(a, Star) and isinstance(b, Star):
            if a.coll.name != b.coll.name:
                return False
        elif isinstance(a, Sym) and isinstance(b, Sym):
            if a.name != b.name:
                return False
        elif a is not b:
            return False
    return True


def kept(p, before, want, ns, I, resolve):
    """Bad items were ignored: the good ones must be there."""
    nm = lambda s: s.coll.name if isinstance(s, Star) else s.name if isinstance(s, Sym) else id(s)
    there = [nm(s) for s in p]
    good = [('p', 'item', n) for n in ns if resolve(I, ('p', 'item', n)) == 'good']
    fixed = [nm(s) for s in before] if len(want(before, [None] * max(1, len(ns)))) > len(before) else []
    return all(g in there for g in good) and all(b in there for b in fixed)


# ---------------------------------------------------------------------------

def uniq_list(ctx):
    I = ctx.interp(U)
    UL = I.obj(U + '.UniqList')
    m = [Sym(('p', 'member', i), H_STR) for i in range(2)]
    x = [Sym(('p', 'item', i), H_STR) for i in range(3)]

    def eqf(I, a, b):
        if a.name == b.name:
            return True
        return I.lookup_fact(('eq',) + tuple(sorted((a.name, b.name), key=repr)))

    def classes(I, syms):
        par = {s.name: s.name for s in syms}

        def find(n):
            while par[n] != n:
                n = par[n]
            return n
        ne = []
        for i, a in enumerate(syms):
            for b in syms[:i]:
                e = eqf(I, a, b)
                if e:
                    par[find(a.name)] = find(b.name)
                elif e is False:
                    ne.append((a.name, b.name))
        diff = {frozenset((find(a), find(b))) for a, b in ne}
        if any(len(d) == 1 for d in diff):
            return None
        return find, diff

    runs = [('append', [0], lambda I, o: meth(I, o, 'append', x[0])),
            ('append twice', [0, 1], lambda I, o: (meth(I, o, 'append', x[0]), meth(I, o, 'append', x[1])))]
    for fn, form in FORMS:
        for k in (1, 2, 3):
            runs.append(('extend(%s of %d)' % (fn, k), list(range(k)), lambda I, o, form=form, k=k: meth(I, o, 'extend', form(I, x[:k]))))
            runs.append(('+= (%s of %d)' % (fn, k), list(range(k)), lambda I, o, form=form, k=k: iadd(I, o, form(I, x[:k]))))
    for i in (0, 1):
        runs.append(('insert(%d)' % i, [0], lambda I, o, i=i: meth(I, o, 'insert', i, x[0])))
    runs.append(('[0] =', None, lambda I, o: setitem(I, o, 0, x[0])))
    for size in (0, 1, 2):
        for opn, ns, op in runs:
            if ns is None and not size:
                continue
            construct = 'UniqList of %d: %s' % (size, opn)

            def entry(I, op=op, size=size):
                o = I.mon['list'] = I.call(UL, [], {})
                I.set_payload(o, list(m[:size]))
                if size == 2:
                    # its members differ
                    I.facts[('eq',) + tuple(sorted((m[0].name, m[1].name), key=repr))] = False
                op(I, o)
                return o

            def check(I, out, ns=ns, size=size, construct=construct):
                o = I.mon['list']
                p = o.payload
                given = [x[n] for n in (ns if ns is not None else [0])]
                cl = classes(I, m[:size] + given)
                if cl is None:
                    return
                find, diff = cl
                w = I.out_where if out[0] == 'return' else out[1].where
                w = w or where_of(I, UL)
                dif = lambda a, b: frozenset((find(a.name), find(b.name))) in diff
                ok = all(isinstance(s, Sym) for s in p) and all(dif(a, b) for i, a in enumerate(p) for b in p[:i])
                ctx.ob('unique-list', construct, ok, 'two equal items may end up in the list', w, trace_text(I))
                if out[0] == 'raise':
                    ctx.ob('unique-list', construct, ns is None and same(p, m[:size]), 'raises %s' % exc_text(out[1]), w, trace_text(I))
                    return
                there = {find(s.name) for s in p if isinstance(s, Sym)}
                want = {find(s.name) for s in (m[:size] if ns is not None else m[1:size]) + (given if ns is not None else [])}
                ctx.ob('unique-list', construct, want <= there, 'an item is lost', w, trace_text(I))
            ctx.explore(construct, I, entry, check)
    construct = 'UniqList: construction'

    def entry(I):
        return I.call(UL, [Inst(list, payload=list(x[:2]))], {})

    def check(I, out):
        if out[0] == 'raise':
            ctx.ob('unique-list', construct, False, 'raises %s' % exc_text(out[1]), out[1].where, trace_text(I))
            return
        p = out[1].payload
        e = eqf(I, x[0], x[1])
        ctx.ob('unique-list', construct, e is not None and len(p) == (1 if e else 2), 'two equal items may end up in the list',
               where_of(I, UL), trace_text(I))
    ctx.explore(construct, I, entry, check)


# ---------------------------------------------------------------------------

def mapping(I, *pairs):
    d = Inst(dict, payload={})
    for k, v in pairs:
        I.call(I.getattr(d, '__setitem__'), [k, v], {})
    return d


def restricted(ctx):
    I = ctx.interp(U)
    D = I.obj(U + '.RestrictedKeyNamesDict')
    v = [Sym(('p', 'value', i), H_OPAQUE) for i in range(4)]
    keys = (('known', 'a'), ('other known', 'b'), ('unknown', 'z'), ('number', 7), ('none', None))
    key = [Sym(('p', 'key', i), h_alts(*keys)) for i in range(2)]
    old = {'a': v[0], 'b': v[1]}
    ops = [('[key] =', 1, lambda I, o, k: setitem(I, o, I.force(k[0]), v[2])),
           ('update(mapping)', 1, lambda I, o, k: meth(I, o, 'update', mapping(I, (I.force(k[0]), v[2])))),
           ('update(mapping of two)', 2, lambda I, o, k: meth(I, o, 'update', mapping(I, (I.force(k[0]), v[2]), (I.force(k[1]), v[3])))),
           ('update(mapping, keyword)', 1, lambda I, o, k: meth(I, o, 'update', mapping(I, (I.force(k[0]), v[2])), b=v[3])),
           ('update(keyword)', 0, lambda I, o, k: meth(I, o, 'update', mapping(I), z=v[2])),
           ('setdefault', 1, lambda I, o, k: meth(I, o, 'setdefault', I.force(k[0]), v[2])),
           ('|=', 1, lambda I, o, k: meth(I, o, '__ior__', mapping(I, (I.force(k[0]), v[2]))))]
    for opn, nk, op in ops:
        construct = 'RestrictedKeyNamesDict: %s' % opn

        def entry(I, op=op):
            o = I.mon['d'] = I.call(D, [mapping(I, ('a', v[0]), ('b', v[1]))], {})
            op(I, o, key)
            return o

        def check(I, out, opn=opn, nk=nk, construct=construct):
            o = I.mon['d']
            got = {kv[0]: kv[1] for kv in o.payload.values()}
            w = (I.out_where if out[0] == 'return' else out[1].where) or where_of(I, D)
            ks = [known(I, ('p', 'key', i), tuple(k for k in keys)) for i in range(nk)]
            vals = [k[0][1] for k in ks if len(k) == 1]
            if opn == 'update(keyword)':
                vals = ['z']
            bad = [x for x in vals if x not in ('a', 'b')]
            ctx.ob('restricted-dictionary', construct, set(got) == {'a', 'b'}, 'the keys become %s' % sorted(map(repr, got)), w, trace_text(I))
            if out[0] == 'raise':
                ctx.ob('restricted-dictionary', construct, bool(bad), 'raises %s for known keys' % exc_text(out[1]), w, trace_text(I))
                ctx.ob('restricted-dictionary', construct, got == old, 'a refused operation changed the dictionary', w, trace_text(I))
                return
            if not bad and opn not in ('setdefault',):
                want = dict(old)
                for i, k in enumerate(vals):
                    want[k] = v[2 + i]
                if 'keyword' in opn:
                    want['b'] = v[3]
                ctx.ob('restricted-dictionary', construct, got == want, 'a value for a known key is lost', w, trace_text(I))
        ctx.explore(construct, I, entry, check)


def vetted(ctx):
    I = ctx.interp(U)
    D = I.obj(U + '.VettedDict')
    v = [Sym(('p', 'value', i), H_OPAQUE) for i in range(3)]
    verdicts = (('yes', True), ('no', False), ('error', None))

    def vet(I, what):
        s = Sym(what, h_alts(*verdicts))
        r = I.force(s)
        if r is None:
            raise I.exc(TypeError, 'unacceptable')
        return r
    kf = Native('key filter', lambda I, a, kw: vet(I, ('p', 'verdict on key', I.force(a[0]))))
    vf = Native('value filter', lambda I, a, kw: vet(I, ('p', 'verdict on value', I.nm(I.force(a[0])))))

    def good(I, k, val):
        r = []
        for n in (('p', 'verdict on key', k), ('p', 'verdict on value', I.nm(val))):
            i = I.resolved.get(n)
            r.append(None if i is None else verdicts[i][0])
        return r == ['yes', 'yes']

    def refused(I, k, val):
        return any(I.resolved.get(n) in (1, 2) for n in (('p', 'verdict on key', k), ('p', 'verdict on value', I.nm(val))))

    ops = [('[key] =', [('k', 0)], lambda I, o: setitem(I, o, 'k', v[0])),
           ('[key] = (replacing)', [('k', 0), ('k', 1)], lambda I, o: (setitem(I, o, 'k', v[0]), setitem(I, o, 'k', v[1]))),
           ('update(mapping)', [('k', 0), ('l', 1)], lambda I, o: meth(I, o, 'update', mapping(I, ('k', v[0]), ('l', v[1])))),
           ('update(keyword)', [('k', 0)], lambda I, o: meth(I, o, 'update', k=v[0])),
           ('setdefault', [('k', 0)], lambda I, o: meth(I, o, 'setdefault', 'k', v[0])),
           ('setdefault (present)', [('k', 0), ('k', 1)], lambda I, o: (setitem(I, o, 'k', v[0]), meth(I, o, 'setdefault', 'k', v[1])))]
    for opn, gives, op in ops:
        construct = 'VettedDict: %s' % opn

        def entry(I, op=op):
            o = I.mon['d'] = I.call(D, [kf, vf], {})
            op(I, o)
            return o

        def check(I, out, opn=opn, gives=gives, construct=construct):
            o = I.mon['d']
            w = (I.out_where if out[0] == 'return' else out[1].where) or where_of(I, D)
            keys = [I.force(x) for x in concrete(I, meth(I, o, 'keys'))]
            got = {k: meth(I, o, '__getitem__', k) for k in keys}
            bad = [k for k, x in got.items() if not good(I, k, x)]
            ctx.ob('vetted-dictionary', construct, not bad, 'holds an entry its filters did not accept', w, trace_text(I))
            ctx.ob('vetted-dictionary', construct, I.force(meth(I, o, '__len__')) == len(got), 'the length is wrong', w, trace_text(I))
            if out[0] == 'raise':
                ctx.ob('vetted-dictionary', construct, any(refused(I, k, v[n]) for k, n in gives),
                       'raises %s for an acceptable entry' % exc_text(out[1]), w, trace_text(I))
                return
            want = {}
            for k, n in gives:
                if good(I, k, v[n]) and not ('setdefault' in opn and k in want):
                    want[k] = v[n]
            ctx.ob('vetted-dictionary', construct, {k: I.nm(x) for k, x in got.items()} == {k: I.nm(x) for k, x in want.items()},
                   'an accepted entry is lost or altered', w, trace_text(I))
        ctx.explore(construct, I, entry, check)


def concrete(I, v):
    v = I.force(v)
    return list(v.payload) if isinstance(v, Inst) else list(v)

"""P11: implemented functions on well-typed operands against their definition."""
from xa.values import *
from xa.lib import *
from checks.functions import *
from checks.p03 import known
from checks.p05 import View, fold

BAGS = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)]


def run(ctx):
    got = ctx.guard('function table', load, ctx)
    if not got:
        return
    I, fac, fns = got
    models(I)
    part = {'equal': equality, 'match': equality, 'regexp-match': regexp, 'one-and-only': one_and_only, 'bag': bag,
            'at-least-one-member-of': share, 'concatenate': concatenate, 'and': conj, 'not': negate, 'round': rounds}
    for n, fam, T, f in fns:
        ctx.guard(short(n), part[fam], ctx, I, fac, n, T, f)
    for r, m in (('equality', 14), ('regexp', 5), ('one-and-only', 14), ('bag', 14), ('common-member', 14),
                 ('concatenate', 1), ('conjunction', 1), ('negation', 1), ('rounding', 1)):
        ctx.minimum(r, m)


def models(I):
    """re: a compiled expression is a symbol naming its pattern and flags."""
    def comp(I, a, kw):
        a = [I.force(x) for x in list(a) + list(kw.values())]
        fl = tuple(I.nm(x) for x in a[1:] if not (isinstance(x, int) and x == 0))
        p = I.nm(a[0])
        if isinstance(a[0], Sym) and p[0] == 'regex':
            return a[0]
        return Sym(('regex', p) + fl, Hint('regex'))

    def run(how):
        def f(I, a, kw):
            a = [I.force(x) for x in list(a) + list(kw.values())]
            r = comp(I, [a[0]] + a[2:], {})
            return found(I, how, r, a[1])
        return f

    def found(I, how, r, s):
        if I.ask(('re-' + how, r.name, I.nm(s))):
            return Sym(('m', how, r.name, I.nm(s)), Hint('obj', cls=object))
        return None
    I.ext_models['re.compile'] = comp
    for h in ('match', 'search', 'fullmatch'):
        I.ext_models['re.' + h] = run(h)

    def symcall(I, a, kw):
        f = a[0]
        n = f.name
        if isinstance(n, tuple) and len(n) == 3 and n[0] == 'a' and isinstance(n[1], tuple) and n[1] and n[1][0] == 'regex' \
                and n[2] in ('match', 'search', 'fullmatch'):
            b = [I.force(x) for x in a[1:]]
            if len(b) != 1:
                return MISSING
            return found(I, n[2], Sym(n[1], Hint('regex')), b[0])
        return MISSING
    I.ext_models['sym-call'] = symcall


def op(i, I, T):
    return Sym(('p', 'operand %d' % i), typed(I, T))


def call(I, f, args):
    return I.call(I.getattr(f, 'evaluate'), list(args), {})


def val(s):
    return ('a', s.name, 'value')


def eqfact(I, a, b):
    if a == b:
        return True
    return I.lookup_fact(('eq',) + tuple(sorted((a, b), key=repr)))


def no_raise(ctx, c, I, out, rule):
    if out[0] == 'raise':
        ctx.ob(rule, c, False, 'raises %s for well-typed operands' % exc_text(out[1]), out[1].where, trace_text(I))
        return False
    return True


def truthval(I, v):
    v = I.force(v)
    return v if isinstance(v, bool) else None


def equality(ctx, I, fac, n, T, f):
    c = short(n)
    a, b = op(1, I, T), op(2, I, T)

    def check(I, out):
        if not no_raise(ctx, c, I, out, 'equality'):
            return
        r, e = truthval(I, out[1]), eqfact(I, val(a), val(b))
        ctx.ob('equality', c, r is not None and r is e,
               'gives %s for values that are %s' % (r, {True: 'equal', False: 'different', None: 'not compared'}[e]),
               I.out_where, trace_text(I))
    ctx.explore(c, I, lambda I: call(I, f, [a, b]), check)
    # an operand compared with itself
    ctx.explore(c + ' (same operand)', I, lambda I: call(I, f, [a, a]),
                lambda I, out: no_raise(ctx, c, I, out, 'equality') and ctx.ob(
                    'equality', c, truthval(I, out[1]) is True, 'a value differs from itself', I.out_where, trace_text(I)))


def negate(ctx, I, fac, n, T, f):
    c = short(n)
    for v in (True, False):
        ctx.explore(c, I, lambda I: call(I, f, [v]), lambda I, out: no_raise(ctx, c, I, out, 'negation') and ctx.ob(
            'negation', c, truthval(I, out[1]) is (not v), 'gives %r for %r' % (out[1], v), I.out_where, trace_text(I)))


def conj(ctx, I, fac, n, T, f):
    c = short(n)
    C = ('p', 'operands')
    h = h_alts(('true', True), ('false', False))

    def check(I, out):
        if not no_raise(ctx, c, I, out, 'conjunction'):
            return
        elems, done = View.path(I).elements(C)
        v = frozenset([1])
        for w, e in elems:
            i = w.resolved.get(e)
            v = fold(min, v, (0, 1) if i is None else (1 - i,))
        if not done:
            v = fold(min, v, (0, 1))
        r = truthval(I, out[1])
        ctx.ob('conjunction', c, r is not None and v == {int(r)}, 'gives %s for operands known to be: %s' % (
            r, '/'.join({0: 'not all true', 1: 'all true'}[x] for x in sorted(v))), I.out_where, trace_text(I))
    ctx.explore(c, I, lambda I: call(I, f, [Star(Sym(C, Hint('coll', elem=h)))]), check)
    for k in range(4):
        names = [('p', 'operand %d' % i) for i in range(k)]

        def check2(I, out, k=k, names=names):
            if not no_raise(ctx, c, I, out, 'conjunction'):
                return
            vs = [known(I, x, (True, False)) for x in names]
            poss = {all(t) for t in itertools_product(vs)}
            r = truthval(I, out[1])
            ctx.ob('conjunction', c, poss == {r}, 'gives %s for operands %s' % (r, vs), I.out_where, trace_text(I))
        ctx.explore('%s (%d)' % (c, k), I, lambda I: call(I, f, [Sym(x, h) for x in names]), check2)


def itertools_product(vs):
    import itertools
    return itertools.product(*vs)


def rounds(ctx, I, fac, n, T, f):
    c = short(n)
    for t in (int, float):
        a = Sym(('p', 'number'), Hint('obj', cls=t))

        def check(I, out):
            if not no_raise(ctx, c, I, out, 'rounding'):
                return
            r = I.force(out[1])
            good = isinstance(r, Sym) and r.name in (('round', a.name), ('int', ('round', a.name)), ('float', ('round', a.name)))
            ctx.ob('rounding', c, good, 'does not give the rounded operand', I.out_where, trace_text(I))
        ctx.explore(c, I, lambda I: call(I, f, [a]), check)


def regexp(ctx, I, fac, n, T, f):
    c = short(n)
    p, s, q, t = [op(i, I, T) for i in (1, 2, 3, 4)]

    def outcome(I, out, pat, sub):
        """Whether the result is that of matching pat against sub."""
        r = truthval(I, out)
        for k, v in list(I.facts.items()):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 're-match' and k[2] == val(sub) and len(k[1]) == 2:
                if eqfact(I, k[1][1], val(pat)) is True and v is r:
                    return True
        return False

    def one(I, out):
        if no_raise(ctx, c, I, out, 'regexp'):
            ctx.ob('regexp', c, outcome(I, out[1], p, s), 'does not give whether the first operand as pattern matches the second',
                   I.out_where, trace_text(I))
    ctx.explore(c, I, lambda I: call(I, f, [p, s]), one)

    # the answer may not depend on what was matched before
    def two(I, out):
        if no_raise(ctx, c, I, out, 'regexp'):
            ctx.ob('regexp', c + ' (after another match)', outcome(I, out[1], p, s),
                   'does not give whether the first operand as pattern matches the second', I.out_where, trace_text(I))

    def entry(I):
        call(I, f, [q, t])
        return call(I, f, [p, s])
    ctx.explore(c + ' (after another match)', I, entry, two)


def one_and_only(ctx, I, fac, n, T, f):
    c = short(n)
    TL = I.obj('ndg.xacml.utils.TypedList')
    C = ('p', 'members')
    b = I.call(TL, [T], {})
    b.payload = [Star(Sym(C, Hint('coll', elem=typed(I, T))))]

    def size(I):
        lo, hi = I.lens.get(C, (0, None))
        return lo, hi

    def check(I, out):
        lo, hi = size(I)
        if out[0] == 'raise':
            ctx.ob('one-and-only', c, not (lo <= 1 and (hi is None or hi >= 1)),
                   'fails for a bag that may hold one value', out[1].where, trace_text(I))
            return
        r = I.force(out[1])
        ctx.ob('one-and-only', c, (lo, hi) == (1, 1) and isinstance(r, Sym) and is_member(r.name, C),
               'gives %s for a bag of %s values' % ('a member' if isinstance(r, Sym) and is_member(r.name, C) else 'something else',
                                                    lo if lo == hi else '%s to %s' % (lo, 'any number of' if hi is None else hi)),
               I.out_where, trace_text(I))
    ctx.explore(c, I, lambda I: call(I, f, [b]), check)
    for k in range(4):
        b2 = I.call(TL, [T], {})
        names = [('p', 'member %d' % i) for i in range(k)]
        b2.payload = [Sym(x, typed(I, T)) for x in names]

        def check2(I, out, k=k, names=names):
            if out[0] == 'raise':
                ctx.ob('one-and-only', c, k != 1, 'fails for a bag of one value', out[1].where, trace_text(I))
                return
            r = I.force(out[1])
            ctx.ob('one-and-only', c, k == 1 and isinstance(r, Sym) and r.name == names[0],
                   'gives a result for a bag of %d values' % k, I.out_where, trace_text(I))
        ctx.explore('%s (%d)' % (c, k), I, lambda I: call(I, f, [b2]), check2)


def is_member(n, C):
    return isinstance(n, tuple) and len(n) >= 2 and n[0] in ('e', 'r', 'item') and n[1] == C


def bag(ctx, I, fac, n, T, f):
    c = short(n)
    TL = I.obj('ndg.xacml.utils.TypedList')
    A, B = ('p', 'operands', 1), ('p', 'operands', 2)
    h = typed(I, T)
    x = Sym(('p', 'operand'), h)
    args = [Star(Sym(A, Hint('coll', elem=h))), x, Star(Sym(B, Hint('coll', elem=h)))]

    def check(I, out, args=args, k=None):
        if not no_raise(ctx, c, I, out, 'bag'):
            return
        r = I.force(out[1])
        ok = isinstance(r, Inst) and isinstance(r.payload, list) and bool(I.issub(I.class_of(r), TL))
        if not ctx.ob('bag', c, ok, 'gives no bag', I.out_where, trace_text(I)):
            return
        et = I.getattr(r, 'elementType')
        ctx.ob('bag', c, et is T or isinstance(et, tuple) and all(y is T for y in et), 'the bag is of another type',
               I.out_where, trace_text(I))
        got, bad = [], None
        for s in r.payload:
            if isinstance(s, Star):
                got.append(s.coll.name)
            elif isinstance(s, Each):
                for ck, items in s.groups.values():
                    if len(items) != 1 or not (isinstance(items[0], Sym) and is_member(items[0].name, s.coll)):
                        bad = 'does not keep every operand once'
                got.append(s.coll)
            elif isinstance(s, Sym):
                got.append(s.name)
            else:
                bad = 'holds something that is no operand'
        want = [a.coll.name if isinstance(a, Star) else a.name for a in args]
        lens = lambda w: I.lens.get(w, (0, None))[1] == 0
        if [w for w in want if w in got or not lens(w)] != got:
            bad = bad or 'does not hold exactly the operands in order'
        ctx.ob('bag', c, bad is None, bad or '', I.out_where, trace_text(I))
    ctx.explore(c, I, lambda I: call(I, f, args), check)
    for k in range(4):
        fixed = [Sym(('p', 'operand %d' % i), h) for i in range(k)]
        ctx.explore('%s (%d)' % (c, k), I, lambda I: call(I, f, fixed), lambda I, out: check(I, out, fixed))


def share(ctx, I, fac, n, T, f):
    c = short(n)
    TL = I.obj('ndg.xacml.utils.TypedList')
    h = typed(I, T)
    for k, m in BAGS + ([(3, 2), (2, 3)] if ctx.thorough else []):
        X = [Sym(('p', 'x%d' % i), h) for i in range(k)]
        Y = [Sym(('p', 'y%d' % i), h) for i in range(m)]
        bx, by = I.call(TL, [T], {}), I.call(TL, [T], {})
        bx.payload, by.payload = list(X), list(Y)

        def check(I, out):
            if not no_raise(ctx, c, I, out, 'common-member'):
                return
            cls = closure(I, X + Y)
            if cls is None:
                return      # contradictory equalities
            same, diff = cls
            r = truthval(I, out[1])
            some = any(same(val(x), val(y)) for x in X for y in Y)
            none = all(diff(val(x), val(y)) for x in X for y in Y)
            ctx.ob('common-member', c, r is not None and (some if r else none),
                   'gives %s for bags of %d and %d values %s' % (
                       r, k, m, 'that share one' if some else 'that share none' if none else 'not all compared'),
                   I.out_where, trace_text(I))
        ctx.explore('%s (%d, %d)' % (c, k, m), I, lambda I: call(I, f, [bx, by]), check)


def closure(I, syms):
    """Equality between the values of syms implied by the facts of the path."""
    names = [val(s) for s in syms]
    parent = {x: x for x in names}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    ne = []
    for k, v in I.facts.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'eq' and k[1] in parent and k[2] in parent:
            if v:
                parent[find(k[1])] = find(k[2])
            else:
                ne.append((k[1], k[2]))
    diff = set()
    for a, b in ne:
        if find(a) == find(b):
            return None
        diff.add((find(a), find(b)))
        diff.add((find(b), find(a)))
    return (lambda x, y: find(x) == find(y)), (lambda x, y: (find(x), find(y)) in diff)


def concatenate(ctx, I, fac, n, T, f):
    c = short(n)
    S = I.call(fac, [TYPES['string']], {})
    for k in (2, 3, 4, 5):
        args = [op(1, I, T)] + [op(i, I, S) for i in range(2, k + 1)]

        def check(I, out):
            if not no_raise(ctx, c, I, out, 'concatenate'):
                return
            r = I.force(out[1])
            if not ctx.ob('concatenate', c, isinstance(r, Inst) and r.cls is T, 'gives no value of the first operand\'s type',
                          I.out_where, trace_text(I)):
                return
            v = I.force(I.getattr(r, 'value'))
            ctx.ob('concatenate', c, isinstance(v, Sym) and v.name == ('cat',) + tuple(val(a) for a in args),
                   'does not hold the %d operand values joined in order' % k, I.out_where, trace_text(I))
        ctx.explore('%s (%d)' % (c, k), I, lambda I: call(I, f, args), check)
    ctx.note('concatenate: results compared for 2 to 5 operands')

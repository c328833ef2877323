"""P10: every implemented function, applied to operands of every kind."""
from xa.values import *
from xa.lib import *
from checks.functions import *
from checks.p03 import known

FIXED = {'equal': 2, 'match': 2, 'regexp-match': 2, 'one-and-only': 1, 'at-least-one-member-of': 2, 'not': 1, 'round': 1}


def run(ctx):
    got = ctx.guard('function table', load, ctx)
    if not got:
        return
    I, fac, fns = got
    for n, fam, T, f in fns:
        k = FIXED.get(fam)
        ks = kinds(I, fac, fam, T)
        for cnt in (range(4) if k is not None else (0, 1, 2, 3)):
            ctx.guard('%s with %s operands' % (short(n), cnt), operands, ctx, I, fac, n, fam, T, f, cnt, ks)
        if k is None:
            # any number of operands: acceptable ones mixed with one other kind
            good = [x for x in ks if x[1] is not False]
            for x in ks:
                if x[1] is False:
                    ctx.guard('%s with operands' % short(n), operands, ctx, I, fac, n, fam, T, f, None, good + [x])
    ctx.minimum('operand-types', 40)
    ctx.minimum('operand-count', 30)


def kinds(I, fac, fam, T):
    """[(label, acceptable, value)]: operands of every kind; acceptable is True,
    False or None (either way)."""
    TL = I.obj('ndg.xacml.utils.TypedList')
    out = []
    want_bag = fam in ('one-and-only', 'at-least-one-member-of')
    want_raw = fam in ('and', 'not', 'round')
    B = I.call(fac, [TYPES['boolean']], {})
    D = I.call(fac, [TYPES['double']], {})
    for t, uri in sorted(TYPES.items()):
        c = I.call(fac, [uri], {})
        if c is None:
            continue
        ok = not want_bag and not want_raw and c is T
        if want_raw and (fam == 'round' and uri == TYPES['double'] or fam != 'round' and uri == TYPES['boolean']):
            ok = None
        out.append(('%s value' % t, ok, typed(I, c)))
        b = I.call(TL, [c], {})
        b.payload = [Star(Sym(('p', 'bag of ' + t), Hint('coll', elem=typed(I, c))))]
        if want_bag or t == 'string' or c is T:
            out.append(('bag of %s' % t, want_bag and c is T, b))
    raw = want_raw and fam != 'round'
    out += [('True', raw or (None if fam == 'round' else False), True), ('False', raw or (None if fam == 'round' else False), False),
            ('text', False, H_STR),
            ('integer', fam == 'round', Hint('obj', cls=int)), ('float', fam == 'round', Hint('obj', cls=float)),
            ('one', fam == 'round', 1), ('zero', fam == 'round', 0), ('empty text', False, ''), ('None', False, None),
            ('empty tuple', False, ()),
            ('object', False, H_OPAQUE)]
    lst = Inst(list, payload=[Star(Sym(('p', 'list'), Hint('coll', elem=typed(I, T or B))))])
    out.append(('plain list of values', False, lst))
    return out


def operands(ctx, I, fac, n, fam, T, f, cnt, ks):
    construct = '%s%s' % (short(n), '' if cnt is None else ' (%d operands)' % cnt)
    ok = {l: a for l, a, _ in ks}
    labels = [l for l, _, _ in ks]
    h = h_alts(*[(l, v) for l, a, v in ks])
    if fam == 'concatenate':
        S = I.call(fac, [TYPES['string']], {})
        rest = [(l, (l == 'string value'), v) for l, a, v in ks]
        ok_rest = {l: a for l, a, _ in rest}
    else:
        ok_rest = ok
    C = ('p', 'operands')
    if cnt is None:
        args = [Star(Sym(C, Hint('coll', elem=h)))]
        if fam == 'concatenate':
            args = [Sym(('p', 'operand 1'), h), Star(Sym(C, Hint('coll', elem=h)))]
    else:
        args = [Sym(('p', 'operand %d' % (i + 1)), h) for i in range(cnt)]

    def entry(I):
        return I.call(I.getattr(f, 'evaluate'), list(args), {})

    def check(I, out):
        tr = trace_text(I)
        if out[0] == 'raise':
            return
        k = FIXED.get(fam)
        if not ctx.ob('operand-count', construct, (k is None or cnt == k) and not (fam == 'concatenate' and cnt in (0, 1)),
                      'accepts %s operands' % cnt, I.out_where, tr):
            return
        if cnt is not None or fam == 'concatenate':
            for i, a in enumerate(args):
                if isinstance(a, Star):
                    continue
                j = I.resolved.get(a.name)
                okk = ok if i == 0 else ok_rest
                if j is None:
                    ctx.ob('operand-types', construct, False, 'gives a result without having checked operand %d' % (i + 1),
                           I.out_where, tr)
                else:
                    ctx.ob('operand-types', construct, okk[labels[j]] is not False,
                           'gives a result for %s as operand %d' % (labels[j], i + 1), I.out_where, tr)
        if cnt is not None:
            return
        from checks.p05 import View
        v = View.path(I)
        elems, done = v.elements(C)
        bad = [] if done else ['an operand it did not examine']
        for w, e in elems:
            j = w.resolved.get(e)
            if j is None:
                bad.append('an operand it did not examine')
            elif ok_rest[labels[j]] is False:
                bad.append(labels[j])
        ctx.ob('operand-types', construct, not bad, 'gives a result for %s' % ', '.join(sorted(set(bad))), I.out_where, tr)

    ctx.explore(construct, I, entry, check)

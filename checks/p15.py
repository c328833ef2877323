"""P15: identifiers are unique, references resolve to what they name.

The readers are analysed as for P13/P14; here are the finders, and the way a finder travels with a parse."""
import os

from xa.values import *
from xa.lib import *
from xa.engine import AnchorMissing
from checks import readers
from checks.p03 import outcome

RULES = ('rule-ids-unique', 'referable', 'finder-passed-on', 'reference-resolved', 'reference-object')
E = 'ndg.xacml.parsers.etree.'
C = 'ndg.xacml.core.'
BASE = 'ndg.xacml.finder.policyfinderbase.PolicyFinderBase'
KINDS = {'Policy': ('policy.Policy', 'policyId', 'addPolicyReference', 'findPolicy'),
         'PolicySet': ('policyset.PolicySet', 'policySetId', 'addPolicySetReference', 'findPolicySet')}


def run(ctx):
    readers.run(ctx, RULES, leave=('unknown',), names=('Policy', 'PolicySet'),
                skip=lambda name, part, tag: part == 'pairs' and tag not in ('Rule', 'PolicyIdReference', 'PolicySetIdReference') or tag == '#comment',
                more=[('finder ' + n, finder, n) for n in finders(ctx)] + [('parsing', parsing)])
    ctx.minimum('rule-ids-unique', 1)
    ctx.minimum('referable', 2)
    ctx.minimum('reference-object', 4)
    ctx.minimum('unique', 4)
    ctx.minimum('resolves', 4)
    ctx.minimum('nested-parse', 2)
    ctx.minimum('parse-with-finder', 2)


def finders(ctx):
    """The finders of the library: concrete classes of the finder package."""
    I, mods = load(ctx)
    base = I.cls(BASE)
    out = []
    for m in mods:
        for v in I.modules[m].ns.values():
            if isinstance(v, Cls) and v is not base and base in v.mro and all(I.src_lookup(v, k[3])[0] is not base for k in KINDS.values()) and v.qual not in out:
                out.append(v.qual)
    if not out:
        raise AnchorMissing('no concrete policy finder')
    return sorted(out)


def load(ctx):
    mods = ['ndg.xacml.finder.' + f[:-3] for f in sorted(os.listdir(os.path.join(ctx.root, 'ndg/xacml/finder'))) if f.endswith('.py') and f != '__init__.py']
    return ctx.interp(E + 'factory', E + 'policybasereader', 'ndg.xacml.parsers.common', C + 'context.pdp', *mods, etree=True), mods


def policies(I):
    out = {}
    for k, (q, idn, add, find) in KINDS.items():
        c = I.cls(C + q)
        out[k] = (c, obj_hint(I, c, **{idn: H_STR}), slot_of(I, c, idn))
    return out


def ident(P, x):
    return ('a', x.name, P[2])


def equal(I, a, b):
    if a == b:
        return True
    return I.lookup_fact(('eq',) + tuple(sorted((a, b), key=repr)))


def make(I, cls):
    """A finder with any base directory."""
    args = [Sym(('p', 'base'), H_STR)] if I.src_lookup(cls, '__init__')[0] is not I.cls(BASE) else []
    return I.call(cls, args, {})


def finder(ctx, qual):
    for kind in KINDS:
        ctx.guard('%s %s registration' % (qual, kind), registration, ctx, qual, kind)
        for history in ('nothing', 'one', 'two', 'other kind'):
            ctx.guard('%s %s lookup' % (qual, kind), lookup, ctx, qual, kind, history)


def registration(ctx, qual, kind):
    """Two registrations, another kind between."""
    I, _ = load(ctx)
    F = I.cls(qual)
    P = policies(I)
    other = [k for k in KINDS if k != kind][0]
    con = '%s: %s registration' % (qual.rsplit('.', 1)[-1], kind)
    where = where_of(I, F, KINDS[kind][2])

    def entry(I):
        f = make(I, F)
        a, b, c, o = [Sym(('p', n), P[kind][1]) for n in 'abc'] + [Sym(('p', 'o'), P[other][1])]
        res = []
        for k, x in ((kind, a), (other, o), (kind, b), (kind, c)):
            try:
                call_method(I, f, KINDS[k][2], x)
                res.append(None)
            except AbsExc as e:
                res.append(e)
        return (a, b, c), (res[0], res[2], res[3]), f

    def check(I, out):
        if out[0] == 'raise':
            ctx.ob('unique', con, False, 'fails: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        xs, rs, f = out[1]
        ids = [ident(P[kind], x) for x in xs]
        for i, r in enumerate(rs):
            # the same id as one that was accepted before
            dup = [equal(I, ids[i], ids[j]) for j in range(i) if rs[j] is None]
            if r is None:
                ctx.ob('unique', con, all(d is False for d in dup), 'a second %s of the same id is accepted' % kind, where, trace_text(I))
            else:
                ctx.ob('accepted', con, True in dup, 'a new %s is refused: %s' % (kind, exc_text(r)), r.where, trace_text(I))
                ctx.ob('documented-error', con, exc_is(I, r, I.cls('ndg.xacml.parsers.XMLParseError')), 'fails with ' + exc_text(r), r.where, trace_text(I))
    ctx.explore(con, I, entry, check)


def lookup(ctx, qual, kind, history):
    """A reference after any registrations; reading the document it points to may register more, nothing, or fail."""
    I, _ = load(ctx)
    F = I.cls(qual)
    P = policies(I)
    other = [k for k in KINDS if k != kind][0]
    name = qual.rsplit('.', 1)[-1]
    con = '%s: %s reference' % (name, kind)
    where = where_of(I, F, KINDS[kind][3])
    R = I.cls(E + 'policybasereader.PolicyBaseReader')
    given = {'nothing': (), 'one': ((kind, 'a'),), 'two': ((kind, 'a'), (kind, 'b')), 'other kind': ((other, 'o'), (kind, 'a'))}[history]

    def fetch(I, args, kw):
        I.mon['fetched'] = I.mon.get('fetched', 0) + 1
        if outcome(I, ('p', 'fetch'), ('works', 'fails')) == 'fails':
            raise I.opaque_exc('cannot be fetched')
        return Sym(('p', 'stream'), H_ANY)

    def read(I, self_, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 2 or a[1] is not I.mon['common']:
            I.mon['common lost'] = I.where()
        f = I.mon['finder']
        o = outcome(I, ('p', 'document', I.mon.get('reads', 0)), ('fails', kind, other, 'both', 'unregistered'))
        I.mon['reads'] = I.mon.get('reads', 0) + 1
        if o == 'fails':
            raise I.opaque_exc('cannot be read')
        x = Sym(('p', 'x', I.mon['reads']), P[kind][1])
        y = Sym(('p', 'y', I.mon['reads']), P[other][1])
        if o in (kind, 'both'):
            call_method(I, f, KINDS[kind][2], x)
        if o in (other, 'both'):
            call_method(I, f, KINDS[other][2], y)
        return y if o in (other, 'both') else x
    I.intercepts['ndg.xacml.utils.urlfetcher.open_url'] = fetch
    for q in ('policybasereader.PolicyBaseReader', 'policyreader.PolicyReader', 'policysetreader.PolicySetReader'):
        I.method_intercepts[(E + q, '__call__')] = read

    def entry(I):
        f = I.mon['finder'] = make(I, F)
        common = I.mon['common'] = I.call(I.cls('ndg.xacml.parsers.common.Common'), [f], {})
        call_method(I, f, 'setReader', R)
        for k, n in given:
            try:
                call_method(I, f, KINDS[k][2], Sym(('p', n), P[k][1]))
            except AbsExc:
                pass
        ref = Sym(('p', 'reference'), H_STR)
        res = []
        for i in range(2):
            try:
                res.append(I.force(call_method(I, f, KINDS[kind][3], ref, common)))
            except AbsExc as e:
                res.append(e)
        return res

    def check(I, out):
        if out[0] == 'raise':
            ctx.ob('resolves', con, False, 'fails: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        for v in out[1]:
            if isinstance(v, AbsExc):
                continue
            ok = isinstance(v, Sym) and v.name[0] == 'p' and v.name[1] in 'abx'
            ok = ok and equal(I, ident(P[kind], v), ('p', 'reference')) is True
            ctx.ob('resolves', con, ok, 'gives %s, which need not carry the id' % V_show(I.nm(v)), where, trace_text(I))
        known = [n for k, n in given if k == kind and equal(I, ident(P[kind], Sym(('p', n), P[kind][1])), ('p', 'reference')) is True]
        if known:
            v = out[1][0]
            ctx.ob('known-found', con, not isinstance(v, AbsExc), 'a known %s is not found' % kind + (': ' + exc_text(v) if isinstance(v, AbsExc) else ''),
                   v.where if isinstance(v, AbsExc) else where, trace_text(I))
        if isinstance(out[1][0], Sym):
            ctx.ob('resolves', con, isinstance(out[1][1], Sym) and out[1][1].name == out[1][0].name, 'the second time gives something else', where, trace_text(I))
        if 'reads' in I.mon:
            ctx.ob('finder-passed-on', con, 'common lost' not in I.mon, 'the referenced document is not read with the same finder', I.mon.get('common lost'), trace_text(I))
    ctx.explore(con, I, entry, check)


def parsing(ctx):
    """A parse with a finder uses that finder, and what it finds is read with the same."""
    I, _ = load(ctx)
    RF = I.cls(E + 'factory.ReaderFactory')
    F = I.cls('ndg.xacml.finder.localpolicyfinder.LocalPolicyFinder')
    P = policies(I)

    def read(I, self_, args, kw):
        a = list(args) + list(kw.values())
        I.mon['reads'] = I.mon.get('reads', ()) + ((a[0], a[1] if len(a) > 1 else None, self_),)
        x = Sym(('p', 'x', len(I.mon['reads'])), P['Policy'][1])
        return x
    readers_ = {}
    for q in ('policybasereader.PolicyBaseReader', 'policyreader.PolicyReader', 'policysetreader.PolicySetReader'):
        I.method_intercepts[(E + q, '__call__')] = read
    entries = {
        'PolicyBase.fromSource': lambda I, s, f: I.call(I.getattr(I.cls(C + 'policybase.PolicyBase'), 'fromSource'), [s, RF, f], {}),
        'PDP.fromPolicySource': lambda I, s, f: I.getattr(I.call(I.getattr(I.cls(C + 'context.pdp.PDP'), 'fromPolicySource'), [s, RF, f], {}), 'policy'),
    }
    for label, go in entries.items():
        where = where_of(I, I.cls(C + ('policybase.PolicyBase' if label[:6] == 'Policy' else 'context.pdp.PDP')), label.split('.')[1])

        def entry(I):
            f = make(I, F)
            s = Sym(('p', 'source'), H_STR)
            r = go(I, s, f)
            first = I.mon.get('reads', ())
            nested = None
            if len(first) == 1:
                d = Sym(('p', 'nested'), H_ANY)
                nested = I.call(I.getattr(I.cls(C + 'policybase.PolicyBase'), 'fromNestedSource'), [d, first[0][1]], {})
            return f, r, first, nested

        def check(I, out):
            if out[0] == 'raise':
                ctx.ob('parse-with-finder', label, False, 'fails: ' + exc_text(out[1]), out[1].where, trace_text(I))
                return
            f, r, first, nested = out[1]
            msg = None
            if len(first) != 1:
                msg = 'reads %d times' % len(first)
            else:
                src, common, rd = first[0]
                if not (isinstance(src, Sym) and src.name == ('p', 'source')):
                    msg = 'does not read the source'
                elif not isinstance(common, Inst) or common.attrs.get('policyFinder') is not f:
                    msg = 'does not parse with the given finder'
                elif not (isinstance(r, Sym) and r.name == ('p', 'x', 1)):
                    msg = 'does not give what was read'
            ctx.ob('parse-with-finder', label, msg is None, msg or '', where, trace_text(I))
            if msg is None:
                all_ = I.mon['reads']
                bad = None
                if len(all_) != 2 or not (isinstance(all_[1][0], Sym) and all_[1][0].name == ('p', 'nested')):
                    bad = 'the referenced document is not read'
                elif all_[1][1] is not first[0][1]:
                    bad = 'the referenced document is not read with the same finder'
                elif I.class_of(all_[1][2]).qual != E + 'policybasereader.PolicyBaseReader':
                    bad = 'a referenced document is read by %s only' % I.class_of(all_[1][2]).name
                elif not (isinstance(nested, Sym) and nested.name == ('p', 'x', 2)):
                    bad = 'the referenced document is not what is given'
                ctx.ob('nested-parse', label, bad is None, bad or '', where, trace_text(I))
        ctx.explore(label, I, entry, check)

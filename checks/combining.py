"""P01/P02: combining algorithms against the XACML 2.0 Appendix C definitions.

The list is an unknown collection.  Every element's decision (and, for rules, its
declared effect) is a lazily enumerated unknown; loops run to a fixpoint.  At every
exit of the algorithm the analysis knows which kinds of element occur and whether
the list was seen to its end; the decision returned must be the one the definition
gives for *every* list agreeing with that knowledge."""
import itertools

from xa.values import *
from xa.lib import *
from xa import engine

RULE_IDS = {
    'deny-overrides': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:deny-overrides',
    'permit-overrides': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:permit-overrides',
    'first-applicable': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:first-applicable',
}
POLICY_IDS = {k: v.replace('rule-combining', 'policy-combining') for k, v in RULE_IDS.items()}

# kinds of rule: Permit, Deny, NotApplicable, Indeterminate with effect Permit / Deny
KINDS = ('P', 'D', 'N', 'IP', 'ID')


def rule_deny(S):
    if 'D' in S:
        return 'Deny'
    if 'ID' in S:
        return 'Indeterminate'
    if 'P' in S:
        return 'Permit'
    if 'IP' in S:
        return 'Indeterminate'
    return 'NotApplicable'


def rule_permit(S):
    if 'P' in S:
        return 'Permit'
    if 'IP' in S:
        return 'Indeterminate'
    if 'D' in S:
        return 'Deny'
    if 'ID' in S:
        return 'Indeterminate'
    return 'NotApplicable'


def policy_deny(S):
    if 'D' in S or 'ID' in S or 'IP' in S:
        return 'Deny'
    return 'Permit' if 'P' in S else 'NotApplicable'


def policy_permit(S):
    if 'P' in S:
        return 'Permit'
    if 'D' in S:
        return 'Deny'
    return 'Indeterminate' if ('ID' in S or 'IP' in S) else 'NotApplicable'


FIRST = {'P': 'Permit', 'D': 'Deny', 'N': 'NotApplicable', 'IP': 'Indeterminate', 'ID': 'Indeterminate'}


def kinds_of(dec, eff):
    """Possible kinds of an element whose decision / effect label may be unknown."""
    out = []
    for k in KINDS:
        if dec is not None and FIRST[k] != dec:
            continue
        if k in ('IP', 'ID') and eff is not None and {'IP': 'Permit', 'ID': 'Deny'}[k] != eff:
            continue
        out.append(k)
    return frozenset(out)


class Model(object):
    """Elements of the list with enumerated decision and effect."""

    def __init__(self, I, ecls, effects, dec_alts):
        self.I = I
        self.effects = effects
        self.dec_alts = dec_alts      # list of (label, flavour)
        self.ecls = ecls

    def dec_label(self, I, owner):
        i = self.resolved(I, ('dec', owner))
        return None if i is None else self.dec_alts[i][0]

    def eff_label(self, I, owner):
        i = self.resolved(I, ('eff', owner))
        return None if i is None else self.effects[i][0]

    @staticmethod
    def resolved(I, n):
        i = I.resolved.get(n)
        if i is None:
            r = I.find_r(n)
            if r is not None:
                k2 = I.ren(n, r, ('@',))
                for kind, k, val in r[2]:
                    if kind == 'r' and k == k2:
                        return val
        return i

    def dec_sym(self, owner):
        alts = []
        for label, flavour in self.dec_alts:
            def val(I, s, label=label, flavour=flavour):
                return fresh_decision(I, label) if flavour == 'fresh' else singleton_decision(I, label)

            def ok(I, s, label=label):
                e = self.eff_label(I, owner)
                return e is None or label not in ('Permit', 'Deny') or e == label
            alts.append((label, val, ok))
        return Sym(('dec', owner), Hint('alts', alts=alts))

    def eff_sym(self, owner, I):
        alts = []
        for label, flavour in self.effects:
            def val(I, s, label=label, flavour=flavour):
                E = I.cls('ndg.xacml.core.rule.Effect')
                if flavour == 'fresh':
                    return I.call(E, [], {'effect': label})
                return I.getattr(E, label.upper())

            def ok(I, s, label=label):
                d = self.dec_label(I, owner)
                return d not in ('Permit', 'Deny') or d == label
            alts.append((label, val, ok))
        return Sym(('eff', owner), Hint('alts', alts=alts))


def knowledge(I, model, C, ordered):
    """(known elements as kind sets in order of first occurrence, complete?)"""
    known = []
    complete = False

    def kinds(owner):
        return kinds_of(model.dec_label(I, owner), model.eff_label(I, owner))

    names = [C] if ordered else [n for n in set(list(I.recs) + list(I.lens) + [C])
                                 if n == C or (isinstance(n, tuple) and len(n) == 2 and
                                               n[0] in ('rev', 'sorted') and n[1] == C)]
    for n in names:
        r = I.recs.get(n)
        done = r is not None and r.completed is not None
        if I.lens.get(n) == (0, 0):
            complete = True
        if done:
            complete = True
        relive = dict((e, b) for e, b in r.live) if r is not None else {}
        if r is not None and ordered:
            # a later pass refines classes in order: take the first refinement
            for c in r.order:
                owner = ('r', n, c)
                while c in r.refined and r.refined[c][0] != c:
                    c = r.refined[c][0]
                    owner = ('r', n, c)
                if c not in r.refined:
                    for e, b in relive.items():
                        if b == c:
                            owner = e
                known.append(kinds(owner))
        elif r is not None:
            for c in set(r.completed or ()) | r.exists:
                known.append(kinds(('r', n, c)))
        # elements still current when the algorithm returned
        live = set(relive) if not ordered else set()
        for d in (I.resolved, I.facts):
            for k in d:
                e = find_live(k, n)
                if e is not None and e not in relive:
                    live.add(e)
        for e in sorted(live, key=repr):
            known.append(kinds(e))
        # indexed access rules[k]
        items = set()
        for d in (I.resolved, I.facts):
            for k in d:
                for it in find_items(k, n):
                    items.add(it)
        lo, hi = I.lens.get(n, (0, None))
        if items and not done:
            idx = sorted(i[2] for i in items if isinstance(i[2], int) and i[2] >= 0)
            seq = []
            j = 0
            while j in idx:
                seq.append(('item', n, j))
                j += 1
            if hi is not None and lo == hi == j:
                complete = True
            for e in seq if ordered else sorted(items, key=repr):
                known.append(kinds(e))
    return known, complete


def find_live(k, C):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'e' and k[1] == C:
            return k
        for x in k:
            if isinstance(x, tuple):
                r = find_live(x, C)
                if r is not None:
                    return r
    return None


def find_items(k, C):
    out = []
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'item' and k[1] == C:
            return [k]
        for x in k:
            if isinstance(x, tuple):
                out.extend(find_items(x, C))
    return out


def possible(spec, known, complete, ordered):
    res = set()
    if ordered:
        def walk(i):
            if i == len(known):
                res.update(['NotApplicable'] if complete else list(FIRST.values()))
                return
            for k in known[i]:
                if k != 'N':
                    res.add(FIRST[k])
            if 'N' in known[i]:
                walk(i + 1)
        walk(0)
        return res
    sets = {frozenset()}
    for ks in known:
        sets = {s | {k} for s in sets for k in ks}
    if not complete:
        extra = [frozenset(c) for n in range(len(KINDS) + 1) for c in itertools.combinations(KINDS, n)]
        sets = {s | x for s in sets for x in extra}
    return {spec(s) for s in sets}


def run_alg(ctx, which, alg_id, factory_qual, elem_qual, spec, ordered, dec_alts, eff_flavour='single'):
    I = ctx.interp('ndg.xacml.core.context.pdp', 'ndg.xacml.core.policyset', 'ndg.xacml.core.policy')
    F = I.cls(factory_qual)
    fac = I.call(F, [], {})
    A = I.call(fac, [alg_id], {})
    if not isinstance(A, Cls):
        ctx.ob('combining-algorithm', which, False, 'identifier %s does not map to an algorithm class (%r)' % (alg_id, A),
               where_of(I, F))
        return
    ecls = I.cls(elem_qual)
    is_rule = elem_qual.endswith('.Rule')
    effects = [('Permit', eff_flavour), ('Deny', eff_flavour)]
    model = Model(I, ecls, effects, dec_alts)
    eff_slot = slot_of(I, ecls, 'effect') if is_rule else None

    def elem(I, coll, e):
        f = {}
        if is_rule:
            f[eff_slot or ('prop', 'effect')] = lambda I, s: I.force(model.eff_sym(s.name, I))
        return Sym(e, Hint('obj', cls=ecls, fields=f, exact=False))

    def evaluate(I, self, args, kw):
        s = I.force(self) if isinstance(self, Sym) else self
        n = I.nm(s)
        a = list(args) + list(kw.values())
        if len(a) != 1 or not (isinstance(a[0], Sym) and a[0].name == ('p', 'request')):
            I.mon['badctx'] = I.where()
        return I.force(model.dec_sym(n))

    I.method_intercepts[(elem_qual, 'evaluate')] = evaluate
    I.ordered = ordered
    TL = I.obj('ndg.xacml.utils.TypedList')
    rules = Sym(('p', 'list'), Hint('coll', cls=TL, elem=elem))
    for fld, val in (('elementType', ecls),):
        sl = slot_of(I, TL, fld)
        if sl:
            rules.hint.fields[sl] = val
    req = Sym(('p', 'request'), h_obj(I.cls('ndg.xacml.core.context.request.Request')))
    C = rules.name
    construct = '%s (%s.evaluate)' % (which, A.name)

    def entry(I):
        alg = I.call(A, [], {})
        return I.call(I.getattr(alg, 'evaluate'), [rules, req], {})

    def check(I, out):
        tr = trace_text(I)
        if out[0] == 'raise':
            ctx.ob('no-exception', construct, False, 'raises %s' % exc_text(out[1]), out[1].where, tr)
            return
        ctx.ob('no-exception', construct, True)
        if I.mon.get('badctx'):
            ctx.ob('same-request', construct, False, 'element evaluated with something other than the request passed in',
                   I.mon['badctx'], tr)
        v = decision_value(I, out[1])
        known, complete = knowledge(I, model, C, ordered)
        exp = possible(spec, known, complete, ordered)
        txt = ', '.join('/'.join(sorted(k)) for k in known) + ('' if complete else ', ...')
        ctx.ob('decision', construct, exp == {v},
               'returns %s for a list [%s] (P=Permit D=Deny N=NotApplicable IP/ID=Indeterminate with effect Permit/Deny; '
               '"..." = elements never looked at); XACML 2.0 gives %s' % (v, txt, ' or '.join(sorted(exp))),
               I.out_where, tr)

    ctx.explore(construct, I, entry, check)


def rule_return_flavours(ctx):
    """Which decisions Rule.evaluate / PolicyBase.evaluate hand out as shared
    constants and which as new objects, by analysing them."""
    from checks import gates
    return gates.flavours(ctx)

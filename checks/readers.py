"""The readers of policy documents (P13, P14, part of P15).

The document under analysis is one element with any attributes and children; readers of its
children are stood in for by their own contract: they return an object naming the element read,
refuse an element of another name, or fail."""
import ast
import re

from xa.values import *
from xa.lib import *
from checks.functions import TYPES
from checks.p03 import outcome
from checks.p19 import sources

E = 'ndg.xacml.parsers.etree.'
C = 'ndg.xacml.core.'
NS = '{urn:oasis:names:tc:xacml:2.0:policy:schema:os}'
ET = {False: 'xml.etree.ElementTree', True: 'lxml.etree'}
SEC = ('Subject', 'Resource', 'Action', 'Environment')
RULE_ALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
POLICY_ALG = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
FN = 'urn:oasis:names:tc:xacml:1.0:function:'
# names of the policy schema
XACML = '''PolicySet Policy PolicySetIdReference PolicyIdReference Description PolicyDefaults PolicySetDefaults XPathVersion Target
 CombinerParameters CombinerParameter RuleCombinerParameters PolicyCombinerParameters PolicySetCombinerParameters Obligations Obligation
 AttributeAssignment VariableDefinition VariableReference Expression Rule Condition Apply Function AttributeValue AttributeSelector
 SubjectAttributeDesignator ResourceAttributeDesignator ActionAttributeDesignator EnvironmentAttributeDesignator Subjects Subject SubjectMatch
 Resources Resource ResourceMatch Actions Action ActionMatch Environments Environment EnvironmentMatch'''.split()


class Spec(object):
    """What a reader reads.
    attribs: (XML name, field, values, default or REQUIRED); values: 'text' or {label: (value, meaning)}, a meaning of REFUSE must be refused
    children: local name -> (kind, field, type); kind one | list | text | group | ref"""

    def __init__(self, name, cls, attribs=(), children={}, clash=(), needs=(), count=None, rootnames=None, mode='element'):
        self.name, self.cls, self.attribs, self.children = name, C + cls, attribs, children
        self.reader = E + '%sreader.%sReader' % (name.lower(), name)
        self.clash, self.needs, self.count = clash, needs, count
        self.names = rootnames or (name,)
        self.mode = mode


REQUIRED, REFUSE = '<required>', '<refuse>'
FLAG = {'true': ('true', True), 'false': ('false', False), '1': ('1', True), '0': ('0', False), 'absent-like': ('', None), 'other': ('maybe', None)}
DESIGNATOR = (('DataType', 'dataType', 'text', REQUIRED), ('AttributeId', 'attributeId', 'text', REQUIRED),
              ('Issuer', 'issuer', 'text', None), ('MustBePresent', 'mustBePresent', FLAG, False))


def alg(prefix, names):
    d = {n: (prefix + n, prefix + n) for n in names}
    d['unknown'] = ('urn:x:unknown', REFUSE)
    d['empty'] = ('', REFUSE)
    return d


FUNCTION = {'known': (FN + 'string-equal', FN + 'string-equal'), 'other known': (FN + 'and', FN + 'and'), 'not implemented': (FN + 'all-of', REFUSE),
            'unknown': ('urn:x:unknown', REFUSE)}


def specs():
    out = [
        Spec('Policy', 'policy.Policy',
             (('PolicyId', 'policyId', 'text', REQUIRED),
              ('RuleCombiningAlgId', 'ruleCombiningAlgId', alg(RULE_ALG, ('permit-overrides', 'deny-overrides')), REQUIRED),
              ('Version', 'version', 'text', '2.0')),
             {'Description': ('text', 'description', None), 'PolicyDefaults': ('one', 'policyDefaults', 'PolicyDefaults'),
              'Target': ('one', 'target', 'Target'), 'Rule': ('list', 'rules', 'Rule')}),
        Spec('PolicySet', 'policyset.PolicySet',
             (('PolicySetId', 'policySetId', 'text', REQUIRED),
              ('PolicyCombiningAlgId', 'policyCombiningAlgId', alg(POLICY_ALG, ('permit-overrides', 'deny-overrides')), REQUIRED),
              ('Version', 'version', 'text', '2.0')),
             {'Description': ('text', 'description', None), 'PolicySetDefaults': ('one', 'policySetDefaults', 'PolicyDefaults'),
              'Target': ('one', 'target', 'Target'), 'Policy': ('list', 'policies', 'Policy'), 'PolicySet': ('list', 'policies', 'PolicySet'),
              'PolicyIdReference': ('ref', 'policies', 'Policy'), 'PolicySetIdReference': ('ref', 'policies', 'PolicySet')}),
        Spec('PolicyDefaults', 'policydefaults.PolicyDefaults', (), {'XPathVersion': ('text', 'xpathVersion', None)}, needs=('XPathVersion',),
             count=1, rootnames=('PolicyDefaults', 'PolicySetDefaults')),
        Spec('Rule', 'rule.Rule',
             (('RuleId', 'id', 'text', REQUIRED),
              ('Effect', 'effect', {'Permit': ('Permit', 'Permit'), 'Deny': ('Deny', 'Deny'), 'other': ('Other', REFUSE), 'empty': ('', REFUSE)}, REQUIRED)),
             {'Description': ('text', 'description', None), 'Target': ('one', 'target', 'Target'), 'Condition': ('one', 'condition', 'Condition')}),
        Spec('Target', 'target.Target', (), {s + 's': ('group', s.lower() + 's', s) for s in SEC}),
        Spec('Condition', 'condition.Condition', (), {'Apply': ('one', 'expression', 'Apply')}, needs=('Apply',), count=1),
        Spec('Apply', 'apply.Apply', (('FunctionId', 'functionId', FUNCTION, REQUIRED),),
             dict([(s + 'AttributeDesignator', ('list', 'expressions', s + 'AttributeDesignator')) for s in SEC] +
                  [(s, ('list', 'expressions', s)) for s in ('Apply', 'AttributeValue', 'AttributeSelector')])),
        Spec('AttributeSelector', 'attributeselector.AttributeSelector',
             (('DataType', 'dataType', 'text', REQUIRED), ('RequestContextPath', 'requestContextPath', 'text', REQUIRED),
              ('MustBePresent', 'mustBePresent', FLAG, False)), mode='leaf'),
    ]
    for s in SEC:
        out.append(Spec(s, '%s.%s' % (s.lower(), s), (), {s + 'Match': ('list', 'matches', s + 'Match')}))
        out.append(Spec(s + 'Match', 'match.%sMatch' % s, (('MatchId', 'matchId', FUNCTION, REQUIRED),),
                        {'AttributeValue': ('one', 'attributeValue', 'AttributeValue'), s + 'AttributeDesignator': ('one', 'attributeDesignator', s + 'AttributeDesignator'),
                         'AttributeSelector': ('one', 'attributeSelector', 'AttributeSelector')},
                        clash=((s + 'AttributeDesignator', 'AttributeSelector'),), needs=('AttributeValue', s + 'AttributeDesignator')))
        out.append(Spec(s + 'AttributeDesignator', 'attributedesignator.%sAttributeDesignator' % s, DESIGNATOR, mode='leaf'))
    return out


VALUE = Spec('AttributeValue', 'attributevalue.AttributeValue', (), mode='leaf')


def vocabulary(ctx):
    """Every identifier-like string of the library: what element names can be compared with."""
    out = set(XACML)
    for rel, path, tree in sources(ctx):
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'^[A-Za-z_][A-Za-z0-9_.-]*$', n.value) and len(n.value) < 60:
                out.add(n.value)
    return out


class Lab(object):
    """One interpreter with the stand-ins in place."""

    def __init__(self, ctx, spec, lxml):
        self.ctx, self.spec, self.lxml = ctx, spec, lxml
        allspecs = {s.name: s for s in specs()}
        allspecs['AttributeValue'] = VALUE
        self.specs = allspecs
        self.sfx = ''
        I = self.I = ctx.interp(spec.reader.rsplit('.', 1)[0], 'ndg.xacml.parsers.common', 'ndg.xacml.finder.policyfinderbase',
                                *sorted({s.reader.rsplit('.', 1)[0] for s in allspecs.values()}), lxml=lxml, etree=True)
        self.et = I.modules[ET[lxml]]
        self.elem = self.et.ns['_Element']
        self.reader = I.cls(spec.reader)
        self.cls = I.cls(spec.cls)
        self.error = I.cls('ndg.xacml.parsers.XMLParseError')
        I.forget = True
        I.class_map = lambda I, e, items: ()
        self.where = where_of(I, self.reader, 'processElement' if I.src_lookup(self.reader, 'processElement') else '__call__')
        for s in allspecs.values():
            q = I.cls(s.reader)
            for m in ('__call__', 'processElement'):
                I.method_intercepts[(q.qual, m)] = self.stand_in(s)
        self.hints = {s.name: self.parsed_hint(s) for s in allspecs.values()}
        F = I.cls('ndg.xacml.finder.policyfinderbase.PolicyFinderBase')
        self.finder = Sym(('p', 'finder'), Hint('obj', cls=F, exact=False))
        for m in ('addPolicyReference', 'addPolicySetReference', 'findPolicy', 'findPolicySet'):
            I.method_intercepts[(F.qual, m)] = getattr(self, m)
        I.ext_models['etree.parse'] = lambda I, a, k: I.mon['root']

    def parsed_hint(self, s):
        I = self.I
        c = I.cls(s.cls)
        ids = {'Policy': 'policyId', 'PolicySet': 'policySetId', 'Rule': 'id'}
        f = {ids[s.name]: H_STR} if s.name in ids else {}
        h = obj_hint(I, c, **f)
        h.exact = s.name != 'AttributeValue'
        if s.name == 'AttributeValue':
            h = Hint('obj', cls=c, exact=False)
        return h

    def refuse(self, msg):
        I = self.I
        return AbsExc(I.call(self.error, [msg], {}), I.where())

    # -- stand-ins ---------------------------------------------------------

    def stand_in(self, s):
        def f(I, self_, args, kw):
            a = list(args) + list(kw.values())
            if not a or a[0] is I.mon.get('root') or (isinstance(a[0], str) and a[0] == 'source'):
                return MISSING
            el = a[0]
            if len(a) != 2 or a[1] is not I.mon.get('common'):
                I.mon['common lost'] = I.where()
            t = I.force(I.getattr(el, 'tag'))
            if not isinstance(t, str) or t.rsplit('}', 1)[-1] not in s.names:
                raise self.refuse('another element')
            n = I.nm(el)
            if n in (('p', 'x'), ('p', 'y'), ('p', 'u')) and outcome(I, ('outcome', n), ('read', 'fails')) == 'fails':
                I.mon['failed'] = True
                raise I.opaque_exc('child cannot be read')
            return Sym(('parsed', s.name, n), self.hints[s.name])
        return f

    def addPolicyReference(self, I, self_, args, kw):
        return self.add(I, 'Policy', args, kw)

    def addPolicySetReference(self, I, self_, args, kw):
        return self.add(I, 'PolicySet', args, kw)

    def add(self, I, kind, args, kw):
        a = list(args) + list(kw.values())
        I.mon['added'] = I.mon.get('added', ()) + ((kind, a[0] if len(a) == 1 else None),)
        if outcome(I, ('p', 'registration'), ('done', 'refused')) == 'refused':
            I.mon['failed'] = I.mon['refused'] = True
            raise I.opaque_exc('registration refused')

    def findPolicy(self, I, self_, args, kw):
        return self.find(I, 'Policy', args, kw)

    def findPolicySet(self, I, self_, args, kw):
        return self.find(I, 'PolicySet', args, kw)

    def find(self, I, kind, args, kw):
        a = list(args) + list(kw.values())
        n = I.nm(a[0])
        if len(a) != 2 or a[1] is not I.mon.get('common'):
            I.mon['common lost'] = I.where()
        r = outcome(I, ('resolution', n), ('found', 'nothing', 'fails') if self.mentions_star(n) else ('found',))
        if r == 'fails':
            I.mon['failed'] = True
            raise I.opaque_exc('reference cannot be resolved')
        if r == 'nothing':
            I.mon['unresolved'] = True
            return None
        return Sym(('found', kind, n), self.hints[kind])

    def mentions_star(self, n):
        return n in (('p', 'x'), ('p', 'z')) or isinstance(n, tuple) and any(self.mentions_star(x) for x in n if isinstance(x, tuple))

    # -- documents ---------------------------------------------------------

    def hint(self, tag, children=None, text=None):
        """An element: tag is a local name, a list of local names, or a Hint."""
        I = self.I
        if isinstance(tag, (list, tuple)):
            tag = h_alts(*[(t, NS + t) for t in tag])
        elif isinstance(tag, str):
            tag = (lambda v: lambda I, s: v)(NS + tag)
        f = {'tag': tag, 'text': text if text is not None else h_opt(H_STR), 'tail': None, '_children': children if children is not None else h_coll(H_ANY),
             'attrib': Hint('any')}
        return Hint('obj', cls=self.elem, exact=True, fields=f)

    def star(self, name, helem):
        return Star(Sym(('p', name), Hint('coll', elem=helem)))

    def background(self, tags):
        def kids(I, s):
            t = I.force(I.getattr(s, 'tag')).rsplit('}', 1)[-1]
            k = self.spec.children.get(t)
            return Sym(('a', s.name, '_children'), h_coll(self.hint(k[2]) if k and k[0] == 'group' else H_ANY))
        return self.hint(list(tags), children=kids, text=H_STR)

    def root(self, I, name, attribs, children):
        e = I.call(self.et.ns['Element'], [NS + name], {})
        for k, v in attribs.items():
            I.call(I.getattr(e, 'set'), [k, v], {})
        I.setattr(e, 'text', Sym(('p', 'text'), h_opt(H_STR)))
        I.setattr(e, '_children', Inst(list, payload=list(children)))
        I.mon['root'] = e
        return e

    def good_attribs(self):
        out = {}
        for xml, field, values, default in self.spec.attribs:
            out[xml] = Sym(('p', xml), H_STR) if values == 'text' else sorted(v for v, m in values.values() if m is not REFUSE and m is not None)[-1]
        return out

    def good_children(self):
        return [Sym(('p', 'needed', t), self.hint(t, children=self.group_kids(t), text=H_STR)) for t in self.spec.needs]

    def group_kids(self, t):
        k = self.spec.children.get(t)
        if k and k[0] == 'group':
            return lambda I, s: Sym(('a', s.name, '_children'), h_coll(self.hint(k[2])))
        return None

    def parse(self, I, source=False):
        common = I.mon['common'] = I.call(I.cls('ndg.xacml.parsers.common.Common'), [self.finder], {})
        return I.call(I.getattr(self.reader, 'parse'), ['source' if source else I.mon['root'], common], {})

    # -- results -----------------------------------------------------------

    def documented(self, e):
        """The failure is a parse error or 'not implemented'."""
        return exc_is(self.I, e, self.error) or exc_is(self.I, e, NotImplementedError)

    def read(self, o, field):
        try:
            return self.I.force(self.I.getattr(o, field))
        except AbsExc as e:
            return e

    def items(self, o, field):
        v = self.read(o, field)
        return v.payload if isinstance(v, Inst) and isinstance(v.payload, list) else None


def payload_names(I, items):
    return [x.name for x in items if isinstance(x, Sym)]


# ---------------------------------------------------------------------------

def wrong_name(L):
    """An element of another name is not read."""
    ctx, I, s = L.ctx, L.I, L.spec
    tags = sorted((vocabulary(ctx) | near(s.names)) - set(s.names))
    given = Sym(('p', 'root tag'), h_alts(*[(t, NS + t) for t in tags]))
    con = s.name + ': root element of another name' + L.sfx

    def entry(I):
        L.root(I, s.names[0], L.good_attribs(), L.good_children())
        I.setattr(I.mon['root'], 'tag', given)
        return L.parse(I)

    def check(I, out):
        i = I.resolved.get(given.name)
        ctx.ob('wrong-name', con, out[0] == 'raise', 'a %s element is read as %s' % (tags[i] if i is not None else 'any', s.name), L.where, trace_text(I))
        if out[0] == 'raise':
            ctx.ob('documented-error', con, L.documented(out[1]), 'fails with ' + exc_text(out[1]), out[1].where, trace_text(I))
    ctx.explore(con, I, entry, check)


def near(names):
    out = {'Bogus', 'bogus'}
    for t in names:
        out |= {t.lower(), t.upper(), t + 's', t[:-1], 'X' + t, t + 'X', t.swapcase()}
        out.add(t[:-1] if t.endswith('s') else t + '_')
    return {t for t in out if t}


# ---------------------------------------------------------------------------

def attributes(L):
    """Every subset of attributes, every kind of value."""
    ctx, I, s = L.ctx, L.I, L.spec
    syms = {}
    labels = {}
    for xml, field, values, default in s.attribs:
        alts = [('absent', None)]
        if values == 'text':
            alts.append(('any text', H_STR))
        else:
            alts += [(k, v) for k, (v, m) in sorted(values.items())]
        syms[xml] = Sym(('p', 'attribute', xml), h_alts(*alts))
        labels[xml] = [a[0] for a in alts]
    con = s.name + L.sfx

    def entry(I):
        a = {}
        for xml, sym in syms.items():
            v = I.force(sym)
            if v is not None:
                a[xml] = v
        L.root(I, s.names[0], a, L.good_children())
        I.mon['attribs'] = {x: labels[x][I.resolved[syms[x].name]] for x in syms}
        I.mon['source'] = outcome(I, ('p', 'source'), ('element', 'file'))
        return L.parse(I, I.mon['source'] == 'file')

    def check(I, out):
        ls = I.mon['attribs']
        missing = [x for x, f, v, d in s.attribs if ls[x] == 'absent' and d is REQUIRED]
        refuse, either = [], []
        for x, f, v, d in s.attribs:
            if v != 'text' and ls[x] != 'absent':
                if v[ls[x]][1] is REFUSE:
                    refuse.append(x)
                elif v[ls[x]][1] is None:
                    either.append(x)
        if out[0] == 'raise':
            ok = missing or refuse or either or 'failed' in I.mon
            ctx.ob('accepted', '%s: attributes' % con, bool(ok), 'refuses %s: %s' % (show_attribs(ls), exc_text(out[1])), out[1].where, trace_text(I))
            if missing and not refuse and not either and 'failed' not in I.mon:
                ctx.ob('documented-error', '%s: missing attribute' % con, L.documented(out[1]), 'without %s fails with %s' % (missing, exc_text(out[1])),
                       out[1].where, trace_text(I))
            return
        o = out[1]
        for x, f, v, d in s.attribs:
            c = '%s/@%s%s' % (s.name, x, L.sfx)
            if d is REQUIRED:
                ctx.ob('mandatory-attribute', c, x not in missing, 'is accepted without it', L.where, trace_text(I))
            if v != 'text':
                ctx.ob('attribute-value', c, x not in refuse, 'accepts %r' % (v.get(ls[x], ('?',))[0],), L.where, trace_text(I))
            if x in missing or x in refuse or x in either:
                continue
            got = L.read(o, f)
            if f == 'effect' and isinstance(got, Inst):
                got = L.read(got, 'value')
            if ls[x] == 'absent':
                ok = got is d or is_const(got) and got == d and type(got) is type(d) or (d is False and got is None)
                ctx.ob('attribute-default', c, ok, 'absent gives %r instead of %r' % (got, d), L.where, trace_text(I))
            elif v == 'text':
                ok = isinstance(got, Sym) and got.name == syms[x].name
                if not ok and d is not REQUIRED and I.lookup_fact(('truth', syms[x].name)) is False:
                    ok = got == d or got == '' or isinstance(got, Sym) and got.name == syms[x].name    # empty text
                ctx.ob('attribute-kept', c, ok, '.%s is %s' % (f, V_show(I.nm(got)) if not isinstance(got, AbsExc) else exc_text(got)), L.where, trace_text(I))
            else:
                want = v[ls[x]][1]
                ctx.ob('attribute-kept', c, is_const(got) and got == want and type(got) is type(want), '%r gives .%s %r' % (v[ls[x]][0], f, got), L.where, trace_text(I))
        if s.mode == 'leaf' or True:
            ctx.ob('result-type', con, isinstance(o, Inst) and o.cls is L.cls, 'gives %r' % (o,), L.where, trace_text(I))
        registered(L, o)
    ctx.explore('attributes of ' + con, I, entry, check)


def show_attribs(ls):
    return ', '.join('%s: %s' % i for i in sorted(ls.items())) or 'no attributes'


def registered(L, o):
    """A policy or policy set read becomes referable, exactly once."""
    I, s = L.I, L.spec
    if s.name not in ('Policy', 'PolicySet'):
        return
    a = I.mon.get('added', ())
    L.ctx.ob('referable', s.name + L.sfx, len(a) == 1 and a[0][0] == s.name and a[0][1] is o, 'is made referable %d times%s' % (
        len(a), '' if not a else ' as ' + a[0][0]), L.where, trace_text(I))
    L.ctx.ob('referable', s.name + L.sfx, 'refused' not in I.mon, 'is read although its registration is refused', L.where, trace_text(I))
    L.ctx.ob('finder-passed-on', s.name + L.sfx, 'common lost' not in I.mon, 'children are not read with the same finder', I.mon.get('common lost'), trace_text(I))


# ---------------------------------------------------------------------------

def kept(L, o, x, tag):
    """Complaint, or None when the child element x of the given name stands where it belongs, exactly once."""
    I = L.I
    kind, field, typ = L.spec.children[tag]
    if kind == 'one':
        v = L.read(o, field)
        return None if isinstance(v, Sym) and v.name == ('parsed', typ, x) else '.%s is %s' % (field, V_show(I.nm(v)) if not isinstance(v, AbsExc) else exc_text(v))
    if kind == 'text':
        tn = ('a', x, 'text')
        none = I.resolved.get(tn)
        if none == 0:
            return None
        v = L.read(o, field)
        t = Sym(tn, H_STR)
        ok = isinstance(v, Sym) and (v.name == tn or v.name == I.nm(call_method(I, t, 'strip')))
        if not ok and I.lookup_fact(('truth', tn)) is False and v in (None, ''):
            ok = True
        return None if ok else '.%s is %s' % (field, V_show(I.nm(v)) if not isinstance(v, AbsExc) else exc_text(v))
    items = L.items(o, field)
    if items is None:
        return '.%s is no list' % field
    if kind == 'list':
        want = ('parsed', typ, x)
    elif kind == 'ref':
        want = ('found', typ, ('a', x, 'text'))
        n = [v.name for v in items if isinstance(v, Sym) and v.name[0] == 'found' and L.mentions(v.name, (x,))]
        strip = ('found', typ, I.nm(call_method(I, Sym(('a', x, 'text'), H_STR), 'strip')))
        return None if n and set(n) <= {want, strip} and len(n) == 1 else '.%s holds the referenced object %d times' % (field, len(n))
    n = [v for v in items if isinstance(v, Sym) and v.name == want]
    return None if len(n) == 1 else '.%s holds it %d times' % (field, len(n))


def extra(L, o, allowed):
    """Items of list fields that belong to no child element."""
    out = []
    for f in {k[1] for k in L.spec.children.values() if k[0] in ('list', 'ref', 'group')}:
        items = L.items(o, f)
        if items is None:
            out.append('.%s is no list' % f)
            continue
        for v in items:
            if isinstance(v, (Each, Star)):
                continue
            if not (isinstance(v, Sym) and v.name[0] in ('parsed', 'found') and L.mentions(v.name, allowed)):
                out.append('.%s holds %s' % (f, V_show(I_nm(L, v))))
    return out


def I_nm(L, v):
    return L.I.nm(v)


def mentions(self, n, names):
    return n in names or isinstance(n, tuple) and any(self.mentions(x, names) for x in n if isinstance(x, tuple))


Lab.mentions = mentions


def tag_alts(L, tags):
    comment = L.et.ns['Comment']
    return h_alts(*[(t, comment if t == '#comment' else NS + t if t[0] != '-' else t[1:]) for t in tags])


def one_child(L, tags, background, label):
    """One distinguished child among any others."""
    ctx, I, s = L.ctx, L.I, L.spec
    tag = tag_alts(L, tags)

    def kids(I, e):
        t = I.force(I.getattr(e, 'tag'))
        k = s.children.get(t.rsplit('}', 1)[-1]) if isinstance(t, str) else None
        if k and k[0] == 'group':
            yt = Sym(('p', 'y'), L.hint([k[2], 'Bogus'] + [x for x in SEC if x != k[2]]))
            return Inst(list, payload=[L.star('in x 1', L.hint(k[2])), yt, L.star('in x 2', L.hint(k[2]))])
        return Sym(('a', e.name, '_children'), h_coll(H_ANY))
    h = L.hint('?', children=kids)
    h.fields['tag'] = tag
    x = Sym(('p', 'x'), h)

    def entry(I):
        if s.count is None:
            ch = [L.star('before', L.background(background)), x, L.star('after', L.background(background))]
        else:
            n = outcome(I, ('p', 'others'), ('0', '1 before', '1 after', '2')) if background else '0'
            bg = lambda i: Sym(('p', 'other', i), L.background(background))
            ch = {'0': [x], '1 before': [bg(0), x], '1 after': [x, bg(0)], '2': [bg(0), x, bg(1)]}[n]
            I.mon['n'] = len(ch)
        L.root(I, s.names[0], L.good_attribs(), ch)
        return L.parse(I)

    def check(I, out):
        i = I.resolved.get(('a', ('p', 'x'), 'tag'))
        t = tags[i].lstrip('-') if i is not None else None
        con = '%s/%s%s' % (s.name, t or 'child', L.sfx)
        if t in s.children:
            con = '%s/%s%s' % (s.name, t, L.sfx)
        if out[0] == 'raise':
            if 'failed' in I.mon:
                return
            y = ('p', 'y')
            ctx.ob('documented-error', con, L.documented(out[1]) or 'unresolved' in I.mon or (t in s.children and s.children[t][0] == 'ref' and
                   I.resolved.get(('a', ('p', 'x'), 'text')) == 0),
                   'fails with ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        o = out[1]
        ctx.ob('failure-reported', con, 'failed' not in I.mon, 'is read although a child cannot be', L.where, trace_text(I))
        ctx.ob('reference-resolved', con, 'unresolved' not in I.mon, 'is read although a reference is unresolved', L.where, trace_text(I))
        if t is None:
            ctx.ob('child-read', con, False, 'a child element is never looked at', L.where, trace_text(I))
            return
        if t == '#comment':
            ex = extra(L, o, ())
            ctx.ob('comment-ignored', con, not ex, '; '.join(ex), L.where, trace_text(I))
            return
        if t not in s.children:
            ctx.ob('unknown-rejected', con, False, 'the unknown or unsupported element is ignored', L.where, trace_text(I))
            return
        if s.count is not None:
            ctx.ob('count', con, I.mon['n'] == s.count, 'accepts %d children' % I.mon['n'], L.where, trace_text(I))
        if s.children[t][0] == 'group':
            i = I.resolved.get(('a', ('p', 'y'), 'tag'))
            k = s.children[t]
            ys = [k[2], 'Bogus'] + [z for z in SEC if z != k[2]]
            yt = ys[i] if i is not None else None
            ctx.ob('unknown-rejected', con + '/*', yt == k[2], 'the element %s is ignored or accepted' % yt, L.where, trace_text(I))
            if yt == k[2]:
                items = L.items(o, k[1])
                n = [v for v in items or () if isinstance(v, Sym) and v.name == ('parsed', k[2], ('p', 'y'))]
                ctx.ob('child-kept', con + '/' + k[2], len(n) == 1, '.%s holds it %d times' % (k[1], len(n)), L.where, trace_text(I))
        else:
            msg = kept(L, o, ('p', 'x'), t)
            ctx.ob('child-kept', con, msg is None, msg or '', L.where, trace_text(I))
            if s.children[t][0] == 'ref':
                ctx.ob('reference-object', con, msg is None, msg or '', L.where, trace_text(I))
        ex = extra(L, o, (('p', 'x'), ('p', 'y')))
        ctx.ob('nothing-invented', con, not ex, '; '.join(ex), L.where, trace_text(I))
        registered(L, o)
    ctx.explore('%s: %s%s' % (s.name, label, L.sfx), I, entry, check)


def comments(L):
    """Comments among the children the element needs."""
    ctx, I, s = L.ctx, L.I, L.spec

    def entry(I):
        c = [Sym(('p', 'comment', i), L.hint('?', text=H_STR)) for i in range(2)]
        for x in c:
            x.hint.fields['tag'] = L.et.ns['Comment']
        L.root(I, s.names[0], L.good_attribs(), [c[0]] + L.good_children() + [c[1]])
        return L.parse(I)

    def check(I, out):
        ok = out[0] != 'raise' or 'failed' in I.mon or 'unresolved' in I.mon or I.resolved.get(('a', ('p', 'needed', 'XPathVersion'), 'text')) == 0
        ctx.ob('comment-ignored', s.name + '/#comment', ok, 'is refused with a comment in it' + (': ' + exc_text(out[1]) if out[0] == 'raise' else ''),
               out[1].where if out[0] == 'raise' else L.where, trace_text(I))
    ctx.explore('%s: comments' % s.name, I, entry, check)


def two_children(L, t1, t2, background):
    """Two distinguished children among others."""
    ctx, I, s = L.ctx, L.I, L.spec
    ts = (t1, t2)

    def kids(name):
        def f(I, e):
            t = I.force(I.getattr(e, 'tag')).rsplit('}', 1)[-1]
            k = s.children.get(t)
            if k and k[0] == 'group':
                return Inst(list, payload=[Sym(('p', name), L.hint(k[2]))])
            return Sym(('a', e.name, '_children'), h_coll(H_ANY))
        return f
    x = Sym(('p', 'x'), L.hint(t1, children=kids('u'), text=H_STR))
    z = Sym(('p', 'z'), L.hint(t2, children=kids('v'), text=H_STR))

    def entry(I):
        bg = [L.star('among %d' % i, L.background(background)) for i in range(3)] if background else [None] * 3
        ch = [c for c in (bg[0], x, bg[1], z, bg[2]) if c is not None]
        L.root(I, s.names[0], L.good_attribs(), ch)
        return L.parse(I)

    def check(I, out):
        con = '%s/%s then %s%s' % (s.name, t1, t2, L.sfx)
        single = ts[0] == ts[1] and s.children[ts[0]][0] in ('one', 'text') or s.count == 1
        clash = ts in s.clash or ts[::-1] in s.clash
        if out[0] == 'raise':
            if 'failed' in I.mon or 'unresolved' in I.mon:
                return
            twice = ts[0] == ts[1] and s.children[ts[0]][0] == 'group'    # the schema has one of each
            ok = single or clash or twice or same_ids(L) or set(background) - set(reps(s))
            ctx.ob('accepted', con, ok, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            if 'ref' in [s.children[t][0] for t in ts]:
                ctx.ob('reference-object', con, ok, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            ctx.ob('documented-error', con, L.documented(out[1]), 'fails with ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        o = out[1]
        if single or clash:
            ctx.ob('clash-rejected', con, False, 'both are accepted, one is lost', L.where, trace_text(I))
            return
        where = []
        for n, t in zip(('x', 'z'), ts):
            k = s.children[t]
            if k[0] == 'group':
                items = L.items(o, k[1]) or []
                w = [i for i, v in enumerate(items) if isinstance(v, Sym) and v.name == ('parsed', k[2], ('p', {'x': 'u', 'z': 'v'}[n]))]
                msg = None if len(w) == 1 else '.%s holds it %d times' % (k[1], len(w))
                where.append(w[0] if w else None)
            else:
                msg = kept(L, o, ('p', n), t)
                if k[0] in ('list', 'ref') and msg is None:
                    items = L.items(o, k[1])
                    where.append([i for i, v in enumerate(items) if isinstance(v, Sym) and L.mentions(v.name, (('p', n),))][0])
                else:
                    where.append(None)
            ctx.ob('child-kept', con, msg is None, '%s: %s' % (t, msg), L.where, trace_text(I))
            if k[0] == 'ref':
                ctx.ob('reference-object', con, msg is None, msg or '', L.where, trace_text(I))
        if None not in where and s.children[ts[0]][1] == s.children[ts[1]][1]:
            ctx.ob('document-order', con, where[0] < where[1], 'their order is reversed', L.where, trace_text(I))
        if s.name == 'Policy' and ts == ('Rule', 'Rule'):
            f = eq_fact(L, *[('parsed', 'Rule', ('p', n)) for n in ('x', 'z')])
            ctx.ob('rule-ids-unique', con, f is False, 'two rules of the same id are accepted', L.where, trace_text(I))
    ctx.explore('%s: two children' % s.name, I, entry, check)


def id_name(L, n):
    return ('a', n, slot_of(L.I, L.I.cls(C + 'rule.Rule'), 'id'))


def eq_fact(L, a, b):
    a, b = id_name(L, a), id_name(L, b)
    return L.I.lookup_fact(('eq',) + tuple(sorted((a, b), key=repr)))


def same_ids(L):
    """Some two rules read so far are known to have the same id."""
    I = L.I
    if L.spec.name != 'Policy':
        return False
    return any(v is True and k[0] == 'eq' for k, v in I.facts.items()) if hasattr(I, 'facts') else False


# ---------------------------------------------------------------------------

def attribute_value(L):
    """Attribute values: the class by data type, the text as it is."""
    ctx, I = L.ctx, L.I
    fac = I.call(I.cls(C + 'attributevalue.AttributeValueClassFactory'), [], {})
    types = dict(TYPES)
    known = {t: I.force(I.call(fac, [u], {})) for t, u in sorted(types.items())}
    alts = [('absent', None)] + [(t, u) for t, u in sorted(types.items())] + [('unknown', 'urn:x:unknown'), ('empty', '')]
    dt = Sym(('p', 'DataType'), h_alts(*alts))
    tx = ('p', 'text')

    def entry(I):
        a = {}
        v = I.force(dt)
        if v is not None:
            a['DataType'] = v
        L.root(I, 'AttributeValue', a, [])
        return L.parse(I)

    def check(I, out):
        l = alts[I.resolved[dt.name]][0]
        con = 'AttributeValue/@DataType %s%s' % (l, L.sfx)
        empty = I.resolved.get(tx) == 0
        if out[0] == 'raise':
            if l in types and not empty and l in ('string', 'anyURI'):
                ctx.ob('accepted', con, I.lookup_fact(('truth', tx)) is False, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            if l == 'absent' or l == 'unknown':
                ctx.ob('documented-error', con, L.documented(out[1]), 'fails with ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        o = out[1]
        if l not in types:
            ctx.ob('mandatory-attribute' if l == 'absent' else 'attribute-value', con, False, 'is accepted', L.where, trace_text(I))
            return
        ctx.ob('attribute-kept', con, isinstance(o, Inst) and o.cls is known[l], 'gives %r' % (o,), L.where, trace_text(I))
        ctx.ob('attribute-kept', con, L.read(o, 'dataType') == types[l], 'has data type %r' % (L.read(o, 'dataType'),), L.where, trace_text(I))
        got = L.read(o, 'value')
        if empty:
            ctx.ob('text-kept', con, got == '', 'without text gives %r' % (got,), L.where, trace_text(I))
            return
        t = Sym(tx, H_STR)
        twin = I.call(o.cls, [], {})
        try:
            I.setattr(twin, 'dataType', types[l])
            I.setattr(twin, 'value', t)
            want = L.read(twin, 'value')
        except AbsExc:
            want = None
        n = I.nm(got) if not isinstance(got, AbsExc) else None
        ok = n == tx or (want is not None and not isinstance(want, AbsExc) and n == I.nm(want)) or L.mentions(n, (tx,))
        if l in ('string', 'anyURI'):
            ok = n == tx
        ctx.ob('text-kept', con, ok, '.value is %s' % V_show(n), L.where, trace_text(I))
    ctx.explore('AttributeValue' + L.sfx, I, entry, check)


# ---------------------------------------------------------------------------

def policy_base(ctx, lxml):
    """Whatever the root is, it is read as what it is."""
    sp = Spec('PolicyBase', 'policybase.PolicyBase', rootnames=('Policy', 'PolicySet'))
    L = Lab(ctx, sp, lxml)
    I = L.I
    tags = ['Policy', 'PolicySet'] + sorted(set(XACML) | near(('Policy', 'PolicySet')))
    tags = sorted(set(tags), key=tags.index)
    for s in L.specs.values():
        q = I.cls(s.reader)
        for m in ('__call__', 'processElement'):
            I.method_intercepts[(q.qual, m)] = stand_in_root(L, s)
    given = Sym(('p', 'tag'), h_alts(*[(t, NS + t) for t in tags]))
    con = 'PolicyBase' + L.sfx

    def entry(I):
        L.root(I, 'Policy', {}, [])
        I.setattr(I.mon['root'], 'tag', given)
        return L.parse(I, outcome(I, ('p', 'source'), ('element', 'file')) == 'file')

    def check(I, out):
        i = I.resolved.get(given.name)
        t = tags[i] if i is not None else None
        if out[0] == 'raise':
            if 'failed' not in I.mon:
                ctx.ob('accepted', con, t not in ('Policy', 'PolicySet'), 'refuses a %s' % t, out[1].where, trace_text(I))
                ctx.ob('documented-error', con, L.documented(out[1]), 'fails with ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        v = out[1]
        if t not in ('Policy', 'PolicySet'):
            ctx.ob('wrong-name', con, False, 'accepts a %s' % t, L.where, trace_text(I))
            return
        ctx.ob('failure-reported', con, 'failed' not in I.mon, 'succeeds although the root cannot be read', L.where, trace_text(I))
        ctx.ob('child-kept', con, isinstance(v, Sym) and v.name == ('parsed', t, 'root'), 'gives %s for a %s' % (V_show(I.nm(v)), t), L.where, trace_text(I))
        ctx.ob('finder-passed-on', con, 'common lost' not in I.mon, 'the finder is not passed on', I.mon.get('common lost'), trace_text(I))
    ctx.explore(con, I, entry, check)


def stand_in_root(L, s):
    def f(I, self_, args, kw):
        a = list(args) + list(kw.values())
        if len(a) != 2 or a[1] is not I.mon.get('common'):
            I.mon['common lost'] = I.where()
        t = I.force(I.getattr(I.mon['root'], 'tag'))
        if t.rsplit('}', 1)[-1] not in s.names:
            raise L.refuse('another element')
        if outcome(I, ('p', 'root read'), ('read', 'fails')) == 'fails':
            I.mon['failed'] = True
            raise I.opaque_exc('cannot be read')
        return Sym(('parsed', s.name, 'root'), L.hints[s.name])
    return f


def run(ctx, rules, leave=(), names=None, more=(), skip=lambda name, part, tag: False):
    """The readers, with either library, the rules of one property."""
    tasks = []
    for lxml in (False, True):
        for s in specs() + [VALUE]:
            if only(ctx, s.name) or names and s.name not in names:
                continue
            heavy = s.name in ('Policy', 'PolicySet', 'Target')
            parts = [p for p in ('root', 'children', 'pairs', 'unknown') if p not in leave]
            for part in parts if heavy else ['+'.join(parts)]:
                if heavy and part in ('children', 'pairs'):
                    for t in sorted(s.children) + (['#comment'] if part == 'children' else []):
                        if skip(s.name, part, t):
                            continue
                        tasks.append(('%s %s %s' % (s.name, part, t), reader, rules, s.name, lxml, part, t))
                else:
                    tasks.append(('%s %s' % (s.name, part), reader, rules, s.name, lxml, part, None))
        if not only(ctx, 'PolicyBase'):
            tasks.append(('PolicyBase', base, rules, lxml))
    big = {'PolicySet': 0, 'Policy': 1, 'Target': 2}
    tasks.sort(key=lambda t: big.get(t[0].split()[0], 3))
    ctx.parallel([t for t in more if not only(ctx, 'finder')] + tasks)


def base(ctx, rules, lxml):
    policy_base(Part(ctx, rules), lxml)


def reader(ctx, rules, name, lxml, part, tag):
    c = Part(ctx, rules)
    s = VALUE if name == 'AttributeValue' else [s for s in specs() if s.name == name][0]
    L = Lab(c, s, lxml)
    if 'root' in part:
        c.guard(s.name + ' root', wrong_name, L)
        c.guard(s.name + ' attributes', attribute_value if s is VALUE else attributes, L)
    if s.mode == 'leaf':
        return
    if 'root' in part:
        c.guard(s.name + ' comments', comments, L)
    good = sorted(s.children)
    bad = sorted(set(XACML) - set(good)) + ['Bogus', '-Bogus']
    if 'children' in part:
        for t in [tag] if tag else good + ['#comment']:
            for bg in backgrounds(s, t):
                c.guard('%s/%s' % (s.name, t), one_child, L, [t], bg, 'one child')
    if 'unknown' in part:
        for bg in backgrounds(s, None):
            c.guard(s.name + ' unknown children', one_child, L, bad, bg, 'unknown child')
        rest = sorted((vocabulary(c) | near(good)) - set(good) - set(bad))
        c.guard(s.name + ' unknown children', one_child, L, rest, reps(s)[:1], 'unknown child, any word')
    if 'pairs' in part:
        for t1 in [tag] if tag else good:
            for t2 in good:
                c.guard('%s/%s, %s' % (s.name, t1, t2), two_children, L, t1, t2,
                        pair_background(s, t1, t2))


def reps(s):
    """Names that may be repeated."""
    return [t for t in sorted(s.children) if s.children[t][0] in ('list', 'ref', 'group')]


def singles(s, *but):
    return [t for t in sorted(s.children) if s.children[t][0] in ('one', 'text') and t not in but]


def backgrounds(s, t):
    """What else the element holds: everything that may be there once, with the repeatable names a few at a time."""
    one = singles(s, t)
    rep = [x for x in reps(s) if x != t] + ([t] if t in reps(s) else [])
    out = [one + rep[:1]]
    rest = rep[1:]
    while rest:
        out.append(rest[:2])
        rest = rest[2:]
    return out


def pair_background(s, t1, t2):
    one = s.children[t1][0] in ('one', 'text')
    return reps(s)[:1] + (singles(s, t1) if t1 == t2 and one else [])


def only(ctx, name):
    import os
    o = os.environ.get('XA_ONLY')
    return o and name not in o.split(',')


class Part(object):
    """The context of a check restricted to the rules of one property."""

    def __init__(self, ctx, rules):
        self.__dict__.update(_ctx=ctx, _rules=rules)

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def ob(self, rule, *a, **k):
        if rule in self._rules:
            return self._ctx.ob(rule, *a, **k)
        return a[1]

    def guard(self, what, fn, *a, **k):
        return self._ctx.guard(what, fn, *a, **k)

"""P20: requests and responses to XML and back.

Each converter is analysed with the converters of its parts stood in for by the same contract; a converter that does its parts' work
itself is analysed through."""
from xa.values import *
from xa.lib import *
from checks.functions import TYPES
from checks.p03 import outcome
from checks.readers import ET, near, vocabulary

M = 'ndg.xacml.parsers.etree.context'
C = 'ndg.xacml.core.'
NS = '{urn:oasis:names:tc:xacml:2.0:context:schema:os}'
ACCESS = 'urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'
STRINGS = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName')
DECIDED = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')
CONTEXT = ('Request Response Subject Resource Action Environment Attribute AttributeValue ResourceContent Result Decision Status StatusCode '
           'StatusMessage StatusDetail MissingAttributeDetail Obligations Obligation').split()


def mentions(n, names):
    return n in names or isinstance(n, tuple) and any(mentions(x, names) for x in n if isinstance(x, tuple))


class Kind(object):
    """attribs: (XML name, field, required, default when read); parts: (element, field, kind, 'list' | 'one')."""

    def __init__(self, name, cls, attribs=(), parts=()):
        self.name, self.cls, self.attribs, self.parts = name, C + cls, attribs, parts
        self.conv = '%s.%sElementTree' % (M, name)


ATTRS = ('Attribute', 'attributes', 'Attribute', 'list')
KINDS = {k.name: k for k in (
    Kind('Request', 'context.request.Request', (),
         (('Subject', 'subjects', 'Subject', 'list'), ('Resource', 'resources', 'Resource', 'list'), ('Action', 'action', 'Action', 'one'),
          ('Environment', 'environment', 'Environment', 'one'))),
    Kind('Subject', 'context.subject.Subject', (('SubjectCategory', 'subjectCategory', False, ACCESS),), (ATTRS,)),
    Kind('Resource', 'context.resource.Resource', (), (('ResourceContent', 'resourceContent', 'content', 'one'), ATTRS)),
    Kind('Action', 'context.action.Action', (), (ATTRS,)),
    Kind('Environment', 'context.environment.Environment', (), (ATTRS,)),
    Kind('Attribute', 'attribute.Attribute', (('AttributeId', 'attributeId', True, None), ('DataType', 'dataType', True, None), ('Issuer', 'issuer', False, None)),
         (('AttributeValue', 'attributeValues', 'value', 'list'),)),
    Kind('Response', 'context.response.Response', (), (('Result', 'results', 'Result', 'list'),)),
    Kind('Result', 'context.result.Result', (('ResourceId', 'resourceId', False, None),), (('Decision', 'decision', 'Decision', 'one'),)),
    Kind('Decision', 'context.result.Decision', (), ()),
)}


def run(ctx):
    tasks = []
    for lxml in (False, True):
        for n in KINDS:
            tasks.append(('writing %s' % n, writing, n, lxml))
            tasks.append(('reading %s' % n, reading, n, lxml))
    ctx.parallel(tasks)
    for r, n in (('tag', 18), ('attribute-written', 18), ('part-written', 20), ('attribute-read', 10), ('part-read', 20), ('unknown-rejected', 16), ('wrong-name', 18),
                 ('wrong-type', 18), ('text-written', 10), ('text-read', 10), ('mandatory', 8), ('repeated', 8), ('comment-ignored', 16)):
        ctx.minimum(r, n)


class Lab(object):
    def __init__(self, ctx, kind, lxml):
        self.ctx, self.k, self.lxml = ctx, kind, lxml
        I = self.I = ctx.interp(M, C + 'attributevalue', C + 'context.request', C + 'context.response', lxml=lxml, etree=True)
        self.et = I.modules[ET[lxml]]
        self.elem = self.et.ns['_Element']
        self.sfx = ' (lxml)' if lxml else ''
        I.forget = True
        I.named_copies = True
        I.class_map = lambda I, e, items: ()
        self.conv = I.cls(kind.conv)
        self.cls = I.cls(kind.cls)
        self.error = I.cls('ndg.xacml.parsers.XMLParseError')
        self.fac = I.call(I.cls(C + 'attributevalue.AttributeValueClassFactory'), [], {})
        self.hints = {n: h_obj(I.cls(k.cls), exact=True) for n, k in KINDS.items()}
        self.written = Hint('obj', cls=self.elem, exact=True)
        for n, k in KINDS.items():
            I.method_intercepts[(k.conv, 'toXML')] = self.write_part(k)
            I.method_intercepts[(k.conv, 'fromXML')] = self.read_part(k)

    def where(self, m):
        return where_of(self.I, self.conv, m)

    # -- stand-ins -----------------------------------------------------------

    def write_part(self, k):
        def f(I, self_, args, kw):
            a = list(args) + list(kw.values())
            if len(a) != 1 or a[0] is I.mon.get('root') or a[0] is I.mon.get('other'):
                return MISSING
            o = a[0]
            if isinstance(o, Inst) and k.name != 'Decision':
                return MISSING
            c = I.class_of(o)
            if not (isinstance(c, Cls) and I.issub(c, I.cls(k.cls))):
                raise I.exc(TypeError, 'of another kind')
            return Sym(('written', k.name, I.nm(o)), self.written)
        return f

    def read_part(self, k):
        def f(I, self_, args, kw):
            a = list(args) + list(kw.values())
            if len(a) != 1 or a[0] is I.mon.get('root') or a[0] is I.mon.get('other'):
                return MISSING
            el = a[0]
            t = I.force(I.getattr(el, 'tag'))
            if not isinstance(t, str) or t.rsplit('}', 1)[-1] != k.name:
                raise AbsExc(I.call(self.error, ['another element'], {}), I.where())
            n = I.nm(el)
            if n == ('p', 'x') and outcome(I, ('outcome', n), ('read', 'fails')) == 'fails':
                I.mon['failed'] = True
                raise I.opaque_exc('part cannot be read')
            return Sym(('read', k.name, n), self.hints[k.name])
        return f

    # -- objects ---------------------------------------------------------------

    def content(self, name):
        h = Hint('obj', cls=self.elem, exact=True, fields={'tag': (lambda v: lambda I, s: v)(NS + 'ResourceContent'), 'text': h_opt(H_STR), 'tail': None,
                                                          '_children': h_coll(H_ANY), 'attrib': Hint('any')})
        return Sym(name, h)

    def part(self, kind, name, value_cls=None):
        """An unknown part of an object."""
        if kind == 'content':
            return self.content(name)
        if kind == 'value':
            return Sym(name, self.value_hint(value_cls))
        return Sym(name, self.hints[kind])

    def value_hint(self, c):
        return obj_hint(self.I, c, value=H_STR)

    def value_class(self, t):
        return self.I.force(self.I.call(self.fac, [TYPES[t]], {}))

    def put(self, o, field, v):
        """Set a field, past the checks of its setter."""
        I = self.I
        s = slot_of(I, self.cls, field)
        if s is None:
            I.setattr(o, field, v)
        else:
            I.raw_setattr(o, s, v)


def same_content(I, v, name):
    """v is the element `name` or a copy of it."""
    if isinstance(v, Inst) and v.attrs.get('_xa_copy_of') == name:
        return True
    n = I.nm(v)
    return n == name or n == ('copy', name)


# ---------------------------------------------------------------------------
# writing

def writing(ctx, name, lxml):
    L = Lab(ctx, KINDS[name], lxml)
    ctx.guard('writing %s: types' % name, wrong_type, L)
    k = L.k
    if name == 'Decision':
        for d in DECIDED:
            ctx.guard('writing %s' % name, write_decision, L, d)
    elif name == 'Attribute':
        for t in STRINGS:
            ctx.guard('writing %s' % name, write, L, k.parts[0], t)
    elif not k.parts:
        ctx.guard('writing %s' % name, write, L, None, None)
    else:
        for p in k.parts:
            ctx.guard('writing %s' % name, write, L, p, None)


def wrong_type(L):
    """Something of another class is not converted."""
    ctx, I, k = L.ctx, L.I, L.k
    others = [(n, L.hints[n]) for n in KINDS if n != k.name] + [('None', None), ('text', H_STR), ('dict', Inst(dict, payload={})), ('object', H_OPAQUE)]
    g = Sym(('p', 'given'), h_alts(*others))

    def entry(I):
        I.mon['root'] = g
        return I.call(I.getattr(L.conv, 'toXML'), [g], {})

    def check(I, out):
        i = I.resolved.get(g.name)
        ctx.ob('wrong-type', k.name + L.sfx, out[0] == 'raise', 'writes a %s as %s' % (others[i][0] if i is not None else 'n unexamined object', k.name), L.where('toXML'), trace_text(I))
    ctx.explore('writing %s: another class%s' % (k.name, L.sfx), I, entry, check)


def write_decision(L, d):
    ctx, I = L.ctx, L.I
    con = 'Decision %s%s' % (d, L.sfx)

    def entry(I):
        o = I.mon['root'] = singleton_decision(I, d) if outcome(I, ('p', 'which'), ('fresh', 'constant')) == 'constant' else fresh_decision(I, d)
        return I.call(I.getattr(L.conv, 'toXML'), [o], {})

    def check(I, out):
        if out[0] == 'raise':
            ctx.ob('accepted', con, False, 'cannot be written: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        shape(L, con, out[1], 'Decision', {}, {})
        t = I.force(I.getattr(out[1], 'text'))
        ctx.ob('text-written', con, t == d, 'is written as %r' % (t,), L.where('toXML'), trace_text(I))
        kids = children(L, out[1])
        ctx.ob('part-written', con, kids == [], 'is written with children', L.where('toXML'), trace_text(I))
    ctx.explore('writing ' + con, I, entry, check)


def children(L, e):
    v = L.I.force(L.I.getattr(e, '_children'))
    return v.payload if isinstance(v, Inst) and isinstance(v.payload, list) else None


def shape(L, con, e, name, want, optional):
    """Name and attributes of an element written."""
    ctx, I = L.ctx, L.I
    wh = L.where('toXML')
    ok = isinstance(e, Inst) and bool(I.issub(I.class_of(e), L.elem))
    if not ctx.ob('tag', con, ok, 'is no element but %r' % (e,), wh, trace_text(I)):
        return False
    t = I.force(I.getattr(e, 'tag'))
    ctx.ob('tag', con, t == NS + name, 'is written as %r instead of %r' % (t, NS + name), wh, trace_text(I))
    a = I.force(I.getattr(e, 'attrib'))
    if not ctx.ob('attribute-written', con, isinstance(a, Inst) and isinstance(a.payload, dict), 'has no definite attributes', wh, trace_text(I)):
        return False
    got = {k[-1]: v[1] for k, v in a.payload.items()}
    for x, v in want.items():
        g = got.pop(x, MISSING)
        ok = g is not MISSING and (I.nm(g) == I.nm(v))
        if not ok and isinstance(v, Sym) and g == optional_default(L, x) and g is not None:
            ok = I.lookup_fact(('truth', v.name)) is False
        ctx.ob('attribute-written', '%s @%s' % (con, x), ok, 'is %s' % ('missing' if g is MISSING else V_show(I.nm(g))), wh, trace_text(I))
    for x, vs in optional.items():
        if x in got:
            g = got.pop(x)
            ctx.ob('attribute-written', '%s @%s' % (con, x), g in vs, 'is %s although the object has none' % V_show(I.nm(g)), wh, trace_text(I))
    ctx.ob('attribute-written', con, not got, 'has XML attributes of no meaning: %s' % ', '.join(map(str, got)), wh, trace_text(I))
    return True


def optional_default(L, x):
    return ([d for n, f, r, d in L.k.attribs if n == x] or [None])[0]


def write(L, focus, vtype):
    """One object, looking at one part among any others."""
    ctx, I, k = L.ctx, L.I, L.k
    vcls = L.value_class(vtype) if vtype else None
    con = k.name + (' of %s' % vtype if vtype else '') + L.sfx

    def fill(I, tag, main):
        """An object with any attributes and parts."""
        o = I.call(L.cls, [], {})
        want, optional = {}, {}
        for x, field, required, default in k.attribs:
            if vtype and x == 'DataType':
                v = TYPES[vtype]
                L.put(o, field, v)
                want[x] = v
            elif not required and outcome(I, ('p', tag, field), ('set', 'none') if main else ('set',)) == 'none':
                L.put(o, field, None)
                optional[x] = () if default is None else (default,)
            else:
                v = Sym(('p', tag, x), H_STR)
                L.put(o, field, v)
                want[x] = v
        for el, field, kind, mult in k.parts:
            if mult == 'list':
                l = I.force(I.getattr(o, field))
                h = L.part(kind, ('p', 'h'), vcls).hint
                if not main:
                    items = []
                elif (el, field) == focus[:2]:
                    items = [Star(Sym(('p', el, 'before'), h_coll(h))), Sym(('p', 'x'), h), Star(Sym(('p', el, 'after'), h_coll(h)))]
                else:
                    items = [Star(Sym(('p', el, 'any'), h_coll(h)))]
                I.set_payload(l, items)
            elif el == 'ResourceContent' and (not main or (focus[0] != el and outcome(I, ('p', tag, field), ('none', 'set')) == 'none')):
                L.put(o, field, None)
            else:
                L.put(o, field, L.part(kind, ('p', 'x') if main and focus[0] == el else ('p', tag, el)))
        return o, want, optional

    def entry(I):
        I.mon['other'] = fill(I, 'first', False)[0]
        try:
            I.call(I.getattr(L.conv, 'toXML'), [I.mon['other']], {})
        except AbsExc:
            pass
        I.mon['root'], I.mon['want'], I.mon['optional'] = fill(I, 'o', True)
        return I.call(I.getattr(L.conv, 'toXML'), [I.mon['root']], {})

    def check(I, out):
        wh = L.where('toXML')
        if out[0] == 'raise':
            ctx.ob('accepted', con, False, 'cannot be written: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        e = out[1]
        if not shape(L, con, e, k.name, I.mon['want'], I.mon['optional']):
            return
        kids = children(L, e)
        if not ctx.ob('part-written', con, kids is not None, 'has no definite children', wh, trace_text(I)):
            return
        el, field, kind, mult = focus
        c2 = '%s/%s' % (con, el)
        at = [i for i, c in enumerate(kids) if is_part(L, c, kind, ('p', 'x'))]
        ctx.ob('part-written', c2, len(at) == 1, 'is written %d times' % len(at), wh, trace_text(I))
        if kind == 'content' and L.lxml:
            ctx.ob('source-kept', c2, not any(isinstance(c, Sym) and c.name == ('p', 'x') for c in kids), 'is taken out of the document it belongs to', wh, trace_text(I))
        for i in at:
            c = kids[i]
            if isinstance(c, Inst) and kind == 'value':
                shape(L, c2, c, el, {}, {'DataType': (TYPES[vtype],)})
                t = I.force(I.getattr(c, 'text'))
                ctx.ob('text-written', c2, isinstance(t, Sym) and t.name == value_name(L, vcls) or empty_text(L, vcls, t), 'has the text %s' % V_show(I.nm(t)), wh, trace_text(I))
        # nothing but the parts, in the order of the schema
        names = [p[0] for p in k.parts]
        pos = []
        for c in kids:
            if isinstance(c, (Each, Star)):
                r = {whose(L, v) for v in each_values(c)}
                r.discard(None)
                pos.append(min((names.index(x) for x in r if x in names), default=None))
                continue
            w = whose(L, c)
            ctx.ob('part-written', con, w in names, 'holds %s, which is no part of it' % V_show(I.nm(c)), wh, trace_text(I))
            pos.append(names.index(w) if w in names else None)
        pos = [p for p in pos if p is not None]
        ctx.ob('part-order', con, pos == sorted(pos), 'has its parts out of order: %s' % ', '.join(names[p] for p in pos), wh, trace_text(I))
        nones = [p for p in k.parts if p[3] == 'one' and I.mon['root'].attrs.get(slot_of(I, L.cls, p[1])) is None]
        for p in k.parts:
            if p[3] == 'one' and p not in nones and p[0] != el:
                n = [c for c in kids if is_part(L, c, p[2], ('p', 'o', p[0]))]
                ctx.ob('part-written', '%s/%s' % (con, p[0]), len(n) == 1, 'is written %d times' % len(n), wh, trace_text(I))
    ctx.explore('writing %s, %s' % (con, focus[0]), I, entry, check)


def value_name(L, vcls):
    return ('a', ('p', 'x'), slot_of(L.I, vcls, 'value'))


def empty_text(L, vcls, t):
    return t in (None, '') and L.I.lookup_fact(('truth', value_name(L, vcls))) is False


def is_part(L, c, kind, name):
    """The child element c stands for the part of that name."""
    if isinstance(c, (Each, Star)):
        return False
    I = L.I
    if kind == 'content':
        return same_content(I, c, name)
    if isinstance(c, Sym):
        return c.name == ('written', kind, name)
    if kind == 'value' and isinstance(c, Inst):
        t = c.attrs.get('text')
        n = I.nm(t) if t is not None else None
        return mentions(n, (name,)) or t in (None, '') and L.I.lookup_fact(('truth', ('a', name, slot_of(I, L.value_class('string'), 'value')))) is False
    return isinstance(c, Inst) and any(mentions(I.nm(v), (name,)) for v in c.attrs.values() if isinstance(v, Sym))


def whose(L, c):
    """The part a written child belongs to, by its element name."""
    I = L.I
    if isinstance(c, Sym) and isinstance(c.name, tuple) and c.name and c.name[0] == 'written':
        return c.name[1]
    try:
        t = I.force(I.getattr(c, 'tag'))
    except AbsExc:
        return None
    return t[len(NS):] if isinstance(t, str) and t.startswith(NS) else None


def each_values(c):
    return c.items() if isinstance(c, Each) else ()


# ---------------------------------------------------------------------------
# reading

def reading(ctx, name, lxml):
    L = Lab(ctx, KINDS[name], lxml)
    k = L.k
    ctx.guard('reading %s: name' % name, wrong_name, L)
    if name == 'Decision':
        ctx.guard('reading %s' % name, read_decision, L)
        return
    if name == 'Attribute':
        for t in STRINGS:
            ctx.guard('reading %s: text' % name, read_text, L, t)
    ctx.guard('reading %s: attributes' % name, read_attributes, L)
    good = [p[0] for p in k.parts]
    for p in k.parts:
        ctx.guard('reading %s/%s' % (name, p[0]), read_part, L, [p[0]])
        if p[3] == 'one':
            ctx.guard('reading two %s/%s' % (name, p[0]), repeated, L, p)
        else:
            ctx.guard('reading two %s/%s' % (name, p[0]), two, L, p)
    bad = sorted((vocabulary(ctx) | near(good) | set(CONTEXT)) - set(good))
    ctx.guard('reading %s: comments' % name, read_part, L, ['#comment'])
    ctx.guard('reading %s: unknown children' % name, read_part, L, [t for t in bad if t in CONTEXT or t in ('Bogus', good[0].lower())])
    ctx.guard('reading %s: unknown children' % name, read_part, L, bad, False)
    if name in ('Attribute', 'Result'):
        ctx.guard('reading %s without its part' % name, missing_part, L)


def element(L, tag, attribs, kids, text=None):
    I = L.I
    e = I.call(L.et.ns['Element'], [tag if isinstance(tag, str) else NS + 'X'], {})
    if not isinstance(tag, str):
        I.setattr(e, 'tag', tag)
    for x, v in attribs.items():
        I.call(I.getattr(e, 'set'), [x, v], {})
    I.setattr(e, 'text', text)
    I.setattr(e, '_children', Inst(list, payload=list(kids)))
    return e


def child_hint(L, tags, text=None):
    alts = h_alts(*[(t, L.et.ns['Comment'] if t == '#comment' else NS + t) for t in tags])
    return Hint('obj', cls=L.elem, exact=True, fields={'tag': alts, 'text': text or h_opt(H_STR), 'tail': None, '_children': h_coll(H_ANY), 'attrib': Hint('any')})


def good_attribs(L, t='string'):
    return {x: TYPES[t] if x == 'DataType' else Sym(('p', x), H_STR) for x, f, required, d in L.k.attribs if required}


def good_parts(L, *but):
    """The parts an element must have."""
    need = {'Attribute': ['AttributeValue'], 'Result': ['Decision']}.get(L.k.name, [])
    return [Sym(('p', 'needed', t), child_hint(L, [t], H_STR)) for t in need if t not in but]


def background(L, text=H_STR):
    """Any number of the parts that may be repeated."""
    t = [p[0] for p in L.k.parts if p[3] == 'list']
    return (lambda name: [Star(Sym(('p', name), h_coll(child_hint(L, t, text))))]) if t else (lambda name: [])


def read(L, attribs, kids, tag=None):
    """Read one such element, after another one."""
    I = L.I
    o = {x: TYPES['string'] if x == 'DataType' else Sym(('p', 'other', x), H_STR) for x, f, r, d in L.k.attribs}
    need = [Sym(('p', 'other', p[0]), child_hint(L, [p[0]], H_STR)) for p in L.k.parts]
    I.mon['other'] = element(L, NS + L.k.name, o, need)
    try:
        I.call(I.getattr(L.conv, 'fromXML'), [I.mon['other']], {})
    except AbsExc:
        pass
    e = I.mon['root'] = element(L, tag or NS + L.k.name, attribs, kids)
    return I.call(I.getattr(L.conv, 'fromXML'), [e], {})


def get(L, o, field):
    try:
        return L.I.force(L.I.getattr(o, field))
    except AbsExc as e:
        return e


def say(L, v):
    return exc_text(v) if isinstance(v, AbsExc) else V_show(L.I.nm(v))


def is_kind(L, con, o):
    ok = isinstance(o, Inst) and bool(L.I.issub(o.cls, L.cls))
    return L.ctx.ob('result-type', con, ok, 'gives %r' % (o,), L.where('fromXML'), trace_text(L.I))


def wrong_name(L):
    ctx, I, k = L.ctx, L.I, L.k
    tags = sorted((vocabulary(ctx) | near([k.name]) | set(CONTEXT)) - {k.name})
    given = Sym(('p', 'root tag'), h_alts(*[(t, NS + t) for t in tags]))

    def entry(I):
        return read(L, good_attribs(L), good_parts(L), given)

    def check(I, out):
        i = I.resolved.get(given.name)
        ctx.ob('wrong-name', k.name + L.sfx, out[0] == 'raise', 'a %s element is read as %s' % (tags[i] if i is not None else 'any', k.name), L.where('fromXML'), trace_text(I))
    ctx.explore('reading %s: another element%s' % (k.name, L.sfx), I, entry, check)


def read_decision(L):
    ctx, I = L.ctx, L.I
    texts = [(d, d) for d in DECIDED] + [('none', None), ('empty', '')] + [(d.lower(), d.lower()) for d in DECIDED] + [('another', 'urn:x:other'), ('prefix', 'Perm'), ('longer', 'PermitX')]
    given = Sym(('p', 'text'), h_alts(*texts))

    def entry(I):
        e = I.mon['root'] = element(L, NS + 'Decision', {}, [], given)
        return I.call(I.getattr(L.conv, 'fromXML'), [e], {})

    def check(I, out):
        i = I.resolved.get(given.name)
        l, t = texts[i] if i is not None else (None, None)
        con = 'Decision %s%s' % (l, L.sfx)
        if out[0] == 'raise':
            ctx.ob('accepted', con, t not in DECIDED, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        if t not in DECIDED:
            ctx.ob('mandatory', con, False, 'is accepted as a decision', L.where('fromXML'), trace_text(I))
            return
        v = decision_value(I, out[1])
        ctx.ob('text-read', con, v == t, 'is read as %r' % (v,), L.where('fromXML'), trace_text(I))
    ctx.explore('reading Decision' + L.sfx, I, entry, check)


def read_attributes(L):
    """Every subset of XML attributes."""
    ctx, I, k = L.ctx, L.I, L.k
    syms = {x: Sym(('p', 'attribute', x), h_alts(('absent', None), ('present', TYPES['string'] if x == 'DataType' else H_STR))) for x, f, r, d in k.attribs}

    def entry(I):
        a = {}
        for x, s in syms.items():
            v = I.force(s)
            if v is not None:
                a[x] = v
        I.mon['a'] = a
        return read(L, a, good_parts(L))

    def check(I, out):
        wh = L.where('fromXML')
        a = I.mon['a']
        missing = [x for x, f, r, d in k.attribs if r and x not in a]
        if out[0] == 'raise':
            ctx.ob('accepted', k.name + L.sfx, bool(missing), 'is refused with %s: %s' % (', '.join(sorted(a)) or 'no attributes', exc_text(out[1])), out[1].where, trace_text(I))
            return
        ctx.ob('mandatory', k.name + L.sfx, not missing, 'is read without %s' % ', '.join(missing), wh, trace_text(I))
        o = out[1]
        if not is_kind(L, k.name + L.sfx, o):
            return
        for x, f, r, d in k.attribs:
            con = '%s/@%s%s' % (k.name, x, L.sfx)
            got = get(L, o, f)
            if x in a:
                n = I.nm(a[x]) if isinstance(a[x], Sym) else a[x]
                ok = not isinstance(got, AbsExc) and I.nm(got) == I.nm(a[x])
                if not ok and I.lookup_fact(('truth', syms[x].name)) is False:
                    ok = got == '' or (got == d and not r)
                ctx.ob('attribute-read', con, ok, '.%s is %s' % (f, say(L, got)), wh, trace_text(I))
            elif not r:
                ctx.ob('attribute-read', con, got is None if d is None else is_const(got) and got == d, 'absent gives %s' % say(L, got), wh, trace_text(I))
        if k.name == 'Request':
            e = get(L, o, 'elem')
            ctx.ob('document-kept', k.name + L.sfx, e is I.mon['root'], '.elem, which selectors look in, is %s' % say(L, e), wh, trace_text(I))
        for el, f, kind, mult in k.parts:
            need = [p for p in good_parts(L) if p.name[2] == el]
            v = get(L, o, f)
            if mult == 'one' and not need:
                ctx.ob('nothing-invented', '%s/%s%s' % (k.name, el, L.sfx), v is None, 'without the element .%s is %s' % (f, say(L, v)), wh, trace_text(I))
            elif mult == 'list':
                n = len(v.payload) if isinstance(v, Inst) and isinstance(v.payload, list) else None
                ctx.ob('nothing-invented', '%s/%s%s' % (k.name, el, L.sfx), n == len(need), 'from %d elements .%s has %s items' % (len(need), f, n), wh, trace_text(I))
    ctx.explore('reading %s: attributes%s' % (k.name, L.sfx), I, entry, check)


def holds(L, o, part, name):
    """Times the field holds what the element `name` stands for."""
    I = L.I
    el, field, kind, mult = part
    v = get(L, o, field)
    if isinstance(v, AbsExc):
        return 0, exc_text(v)
    if mult == 'one':
        vs = [v]
    elif isinstance(v, Inst) and isinstance(v.payload, list):
        vs = [x for x in v.payload if not isinstance(x, (Star, Each))]
    else:
        return 0, 'no list'
    at = [i for i, x in enumerate(vs) if stands_for(L, x, kind, name)]
    return len(at), at


def stands_for(L, v, kind, name):
    I = L.I
    if kind == 'content':
        return same_content(I, v, name)
    if isinstance(v, Sym):
        return v.name == ('read', kind, name)
    if kind == 'value' and isinstance(v, Inst):
        x = get(L, v, 'value')
        if isinstance(x, AbsExc):
            return False
        return mentions(I.nm(x), (name,)) or x == '' and (I.resolved.get(('a', name, 'text')) == 0 or I.lookup_fact(('truth', ('a', name, 'text'))) is False)
    return isinstance(v, Inst) and bool(I.issub(v.cls, I.cls(KINDS[kind].cls))) and any(mentions(I.nm(a), (name,)) for a in v.attrs.values() if isinstance(a, Sym)) \
        if kind in KINDS else False


def read_part(L, tags, among=True):
    """One child among any others."""
    ctx, I, k = L.ctx, L.I, L.k
    x = Sym(('p', 'x'), child_hint(L, tags))
    parts = {p[0]: p for p in k.parts}
    part = parts.get(tags[0])
    bg = background(L, H_STR if part else lambda I, s: 'text')

    def entry(I):
        kids = ([] if part else good_parts(L)) + [x]
        if among:
            kids = bg('before') + kids + bg('after')
        return read(L, good_attribs(L), kids)

    def check(I, out):
        wh = L.where('fromXML')
        i = I.resolved.get(('a', ('p', 'x'), 'tag'), 0 if len(tags) == 1 else None)
        t = tags[i] if i is not None else None
        con = '%s/%s%s' % (k.name, t or 'child', L.sfx)
        if out[0] == 'raise':
            if t == '#comment':
                ctx.ob('comment-ignored', con, 'failed' in I.mon, 'is refused with a comment in it: ' + exc_text(out[1]), out[1].where, trace_text(I))
            elif t in parts:
                ctx.ob('accepted', con, 'failed' in I.mon, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            elif 'failed' not in I.mon:
                ctx.ob('unknown-rejected', k.name + L.sfx, True)
            return
        o = out[1]
        ctx.ob('failure-reported', con, 'failed' not in I.mon, 'is read although a part cannot be', wh, trace_text(I))
        if not is_kind(L, con, o):
            return
        if t == '#comment':
            n = sum(holds(L, o, p, ('p', 'x'))[0] for p in k.parts if p[2] != 'value')
            ctx.ob('comment-ignored', con, n == 0, 'a comment is read as a part', wh, trace_text(I))
        elif t not in parts:
            ctx.ob('unknown-rejected', con, False, 'the unknown or unsupported element is ignored' if t else 'a child element is never looked at', wh, trace_text(I))
        else:
            n, msg = holds(L, o, parts[t], ('p', 'x'))
            ctx.ob('part-read', con, n == 1, '.%s holds it %d times' % (parts[t][1], n), wh, trace_text(I))
            for p in k.parts:
                if p[0] != t:
                    n, msg = holds(L, o, p, ('p', 'x'))
                    ctx.ob('part-read', con, n == 0, '.%s holds it' % p[1], wh, trace_text(I))
    ctx.explore('reading %s/%s%s' % (k.name, tags[0], L.sfx), I, entry, check)


def repeated(L, part):
    """Two of what there is one of."""
    ctx, I, k = L.ctx, L.I, L.k
    con = 'two %s/%s%s' % (k.name, part[0], L.sfx)
    xs = [Sym(('p', n), child_hint(L, [part[0]])) for n in ('x', 'y')]
    bg = background(L)

    def entry(I):
        return read(L, good_attribs(L), bg('before') + [xs[0]] + bg('between') + [xs[1]] + bg('after'))

    def check(I, out):
        ctx.ob('repeated', con, out[0] == 'raise', 'are accepted, one is lost', L.where('fromXML'), trace_text(I))
    ctx.explore('reading ' + con, I, entry, check)


def two(L, part):
    """Two parts of one kind keep their order."""
    ctx, I, k = L.ctx, L.I, L.k
    con = 'two %s/%s%s' % (k.name, part[0], L.sfx)
    xs = [Sym(('p', n), child_hint(L, [part[0]], H_STR)) for n in ('x', 'y')]
    bg = background(L, lambda I, s: 'text')

    def entry(I):
        return read(L, good_attribs(L), bg('before') + good_parts(L, part[0]) + [xs[0]] + bg('between') + [xs[1]] + bg('after'))

    def check(I, out):
        if out[0] == 'raise':
            ctx.ob('accepted', con, 'failed' in I.mon, 'are refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        r = [holds(L, out[1], part, x.name) for x in xs]
        known = [x.name for x in xs if I.resolved.get(('a', x.name, 'text')) == 0 or I.lookup_fact(('truth', ('a', x.name, 'text'))) is False]
        if known:
            return      # values without text cannot be told apart
        ok = all(n == 1 for n, at in r) and r[0][1][0] < r[1][1][0]
        ctx.ob('part-read', con, ok, 'are not both kept in order', L.where('fromXML'), trace_text(I))
    ctx.explore('reading ' + con, I, entry, check)


def missing_part(L):
    ctx, I, k = L.ctx, L.I, L.k
    part = [p for p in k.parts if p[0] in ('AttributeValue', 'Decision')][0]
    con = '%s without %s%s' % (k.name, part[0], L.sfx)
    c = Sym(('p', 'comment'), child_hint(L, ['#comment']))

    def entry(I):
        return read(L, good_attribs(L), [c] if outcome(I, ('p', 'holds'), ('nothing', 'a comment')) == 'a comment' else [])

    def check(I, out):
        ctx.ob('mandatory', con, out[0] == 'raise', 'is accepted', L.where('fromXML'), trace_text(I))
    ctx.explore('reading ' + con, I, entry, check)


def read_text(L, t):
    """The text of a value of a string type, as it is."""
    ctx, I, k = L.ctx, L.I, L.k
    con = 'AttributeValue of %s%s' % (t, L.sfx)
    x = Sym(('p', 'x'), child_hint(L, ['AttributeValue']))
    V = L.value_class(t)

    def entry(I):
        return read(L, good_attribs(L, t), [x])

    def check(I, out):
        wh = L.where('fromXML')
        if out[0] == 'raise':
            ctx.ob('accepted', con, False, 'is refused: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        l = get(L, out[1], 'attributeValues')
        items = l.payload if isinstance(l, Inst) and isinstance(l.payload, list) else []
        if not ctx.ob('part-read', con, len(items) == 1, 'gives %d values' % len(items), wh, trace_text(I)):
            return
        v = items[0]
        ctx.ob('text-read', con, bool(I.issub(I.class_of(v), V)), 'gives a %s' % I.class_of(v), wh, trace_text(I))
        ctx.ob('text-read', con, get(L, v, 'dataType') == TYPES[t], 'has data type %s' % say(L, get(L, v, 'dataType')), wh, trace_text(I))
        got = get(L, v, 'value')
        tn = ('a', ('p', 'x'), 'text')
        none = I.resolved.get(tn) == 0 or I.lookup_fact(('truth', tn)) is False
        ok = got == '' if none and not isinstance(got, Sym) else isinstance(got, Sym) and got.name == tn
        ctx.ob('text-read', con, ok, 'has the value %s' % say(L, got), wh, trace_text(I))
    ctx.explore('reading ' + con, I, entry, check)

"""P21: pickling and restoring request, response, attribute and value objects keeps every field."""
from xa.values import *
from xa.lib import *
from checks.functions import TYPES, native
from checks.p07 import AVF
from checks.p18 import MODULES, TABLE, ENUM, C, X, accessors, kinds, declared, read, same

OBJECTS = [X + 'request.Request', X + 'subject.Subject', X + 'resource.Resource', X + 'action.Action', X + 'environment.Environment',
           X + 'response.Response', X + 'result.Result', X + 'result.Status', X + 'result.StatusCode', X + 'result.Decision',
           C + 'attribute.Attribute', C + 'rule.Effect']
CONST = {X + 'result.Decision': ('PERMIT', 'DENY', 'INDETERMINATE', 'NOT_APPLICABLE'), C + 'rule.Effect': ('PERMIT', 'DENY')}


def run(ctx):
    for lxml in (False, True):
        I = ctx.interp(*MODULES, lxml=lxml)
        for m in ('lxml.etree', 'xml.etree.ElementTree', 'xml.etree'):
            I.ext_models[m + '.iselement'] = iselement
        tag = ' (lxml)' if lxml else ''
        for q in OBJECTS:
            ctx.guard(q + tag, model_object, ctx, I, I.cls(q), tag)
        if lxml:
            continue
        for q, names in sorted(CONST.items()):
            for n in names:
                ctx.guard(n, constant, ctx, I, I.cls(q), n)
        ctx.guard('values', values, ctx, I)
        ctx.guard('lists', lists, ctx, I)
    ctx.minimum('round-trip', 28)
    ctx.minimum('typed-list-round-trip', 3)


class Lost(Exception):
    pass


def importable(I, c):
    """Pickling refers to a class by module and qualified name."""
    m = c.ns.get('__module__') if isinstance(c.ns.get('__module__'), str) else (c.mod.name if c.mod else '?')
    q = c.qual[len(c.mod.name) + 1:] if c.mod and c.qual.startswith(c.mod.name + '.') else c.name
    if m not in I.modules:
        return False, '%s.%s' % (m, q)
    x = I.modules[m]
    for part in q.split('.'):
        x = x.ns.get(part) if isinstance(x, (Mod, Cls)) else None
    return x is c, '%s.%s' % (m, q)


def hook(I, o, name):
    h = I.src_lookup(o.cls, name)
    return I.getattr(o, name) if h is not None else None


def round_trip(I, o):
    """The object the pickle protocol (2 and later) makes of o; fields by reference."""
    ok, name = importable(I, o.cls)
    red = hook(I, o, '__reduce_ex__')
    if red is not None:
        r = I.call(red, [4], {})
    else:
        red = hook(I, o, '__reduce__')
        r = I.call(red, [], {}) if red is not None else None
    state = items = None
    if r is not None:
        r = I.force(r)
        if not isinstance(r, tuple) or len(r) < 2:
            raise Lost('__reduce__ gives %r' % (r,))
        f = I.force(r[0])
        if isinstance(f, Cls):
            k, name = importable(I, f)
            if not k:
                raise Lost('class %s cannot be found by that name' % name)
        new = I.force(I.call(f, list(I.force(r[1])), {}))
        state = I.force(r[2]) if len(r) > 2 else None
        items = I.force(r[3]) if len(r) > 3 else None
        if items is not None:
            items = I.seq_items(items)
    else:
        if not ok:
            raise Lost('class %s cannot be found by that name' % name)
        args = []
        for h in ('__getnewargs_ex__', '__getnewargs__'):
            g = hook(I, o, h)
            if g is not None:
                raise Unsupported('pickling with ' + h)
        if I.src_lookup(o.cls, '__new__') is not None:
            raise Unsupported('pickling a class with __new__')
        new = Inst(o.cls, {})
        if o.payload is not None:
            items = list(o.payload) if isinstance(o.payload, list) else None
            new.payload = [] if isinstance(o.payload, list) else o.payload
        g = hook(I, o, '__getstate__')
        if g is not None:
            state = I.force(I.call(g, [], {}))
        else:
            slots = {s for k in I.mro(o.cls) if isinstance(k, Cls) for s in k.slots}
            state = (Inst(dict, payload={I.nm(a): (a, v) for a, v in o.attrs.items() if a not in slots}),
                     Inst(dict, payload={I.nm(a): (a, v) for a, v in o.attrs.items() if a in slots}))
    if items is not None:
        I.call(I.getattr(new, 'extend'), [Inst(list, payload=list(items))], {})
    if state is not None:
        s = hook(I, new, '__setstate__')
        if s is not None:
            I.call(s, [state], {})
        else:
            slots = {x for k in I.mro(new.cls) if isinstance(k, Cls) for x in k.slots}
            d, sd = state if isinstance(state, tuple) and len(state) == 2 else (state, None)
            if isinstance(d, Inst) and d.payload and isinstance(d.payload, dict):
                if not new.cls.has_dict:
                    raise Lost('%s has no __dict__ and no __setstate__ to restore its fields' % new.cls.name)
                for k, v in d.payload.values():
                    if k not in slots:      # a slot hides the dictionary entry of that name
                        new.attrs[k] = v
            if isinstance(sd, Inst) and sd.payload:
                for k, v in sd.payload.values():
                    I.setattr(new, k, v)
    return new


def fields(I, cls):
    return sorted({s for k in I.mro(cls) if isinstance(k, Cls) for s in k.slots} | {a for a in I.instance_attrs(cls) if I.class_lookup(cls, a) is None})


def iselement(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Sym) and (v.hint or H_ANY).kind not in ('str', 'int', 'float', 'bool'):
        return Sym(('iselement', v.name), H_BOOL)
    return False


def reparsed(name):
    """Name of the element whose text was read back, when that is what the name says."""
    if not (isinstance(name, tuple) and len(name) == 3 and name[0] == 'call' and name[1].rpartition('.')[2] in ('XML', 'fromstring')):
        return None
    n = name[2]
    while isinstance(n, tuple) and n[:1] == ('N',):     # a kind of string
        n = n[3][1] if isinstance(n[3], tuple) and n[3][:1] == ('s',) else None
    if isinstance(n, tuple) and n[0] == 'call' and n[1].rpartition('.')[2] == 'tostring' and len(n) in (3, 4) and \
            (len(n) == 3 or n[3][:1] == ('encoding',)):
        return n[2]
    return None


def eq(I, a, b):
    a, b = I.force(a), I.force(b)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.name == b.name or reparsed(b.name) == a.name and I.lookup_fact(('truth', ('iselement', a.name))) is True
    if isinstance(a, Inst) and isinstance(b, Inst) and a is not b and a.cls is b.cls:
        if (a.payload is None) != (b.payload is None) or set(a.attrs) != set(b.attrs):
            return False
        if a.payload is not None and (len(a.payload) != len(b.payload) or not all(eq(I, x, y) for x, y in zip(a.payload, b.payload))):
            return False
        return all(eq(I, a.attrs[k], b.attrs[k]) for k in a.attrs)
    return a is b or (is_const(a) and is_const(b) and type(a) is type(b) and a == b) or \
        (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(eq(I, x, y) for x, y in zip(a, b)))


def judge(ctx, rule, con, I, cls, out):
    w = where_of(I, cls, '__getstate__') if I.src_lookup(cls, '__getstate__') else where_of(I, cls)
    if 'o' not in I.mon:
        ctx.ob(rule, con, False, 'cannot be set up: %s' % (exc_text(out[1]) if out[0] == 'raise' else out[1],), w, trace_text(I))
        return
    o = I.mon['o']
    if out[0] == 'raise':
        ctx.ob(rule, con, False, 'pickling or restoring raises %s' % exc_text(out[1]), out[1].where, trace_text(I))
        return
    if isinstance(out[1], str):
        ctx.ob(rule, con, False, out[1], w, trace_text(I))
        return
    n = out[1]
    if not isinstance(n, Inst) or n.cls is not cls:
        ctx.ob(rule, con, False, 'comes back as %r' % (n,), w, trace_text(I))
        return
    lost = sorted(k for k in set(o.attrs) | set(n.attrs) if not (k in o.attrs and k in n.attrs and eq(I, o.attrs[k], n.attrs[k])))
    ctx.ob(rule, con, not lost, 'restored without %s' % ', '.join(k.split('__')[-1] for k in lost), w, trace_text(I))
    bad = sorted(a for a in accessors(I, cls) if not (lambda x, y: x[0] == y[0] and (x[0] == 'raise' or eq(I, x[1], y[1])))(read(I, o, a), read(I, n, a)))
    ctx.ob(rule, con, not bad, '%s of the restored object differs' % ', '.join(bad), w, trace_text(I))
    if o.payload is not None:
        ctx.ob(rule, con, eq(I, Inst(list, payload=o.payload), Inst(list, payload=n.payload)), 'items are lost or changed', w, trace_text(I))


def trip(I, o):
    I.mon['o'] = o
    try:
        return round_trip(I, o)
    except Lost as e:
        return str(e)


def fill(I, o, K):
    """Give every field an own unknown value of the kind it may hold."""
    acc = accessors(I, o.cls)
    for n in sorted(acc):
        kind, owner = declared(I, o.cls, n, TABLE)
        s = slot_of(I, o.cls, n)
        if kind is None or s is None or s not in o.attrs:
            continue
        v = o.attrs[s]
        if isinstance(v, Inst) and isinstance(v.payload, list):
            continue
        I.raw_setattr(o, s, Sym(('p', 'field', n), K['foreign object' if kind == '*' else kind.split()[0]]))
    for s in fields(I, o.cls):
        v = o.attrs.get(s)
        if isinstance(v, Inst) and isinstance(v.payload, list):
            t = None
            try:
                t = I.getattr(v, 'elementType')
            except AbsExc:
                pass
            h = Hint('obj', cls=t, exact=False) if isinstance(t, Cls) else H_OPAQUE
            I.set_payload(v, [Sym(('p', 'item', s, i), h) for i in range(2)])
        elif v is None and not any(slot_of(I, o.cls, n) == s for n in acc):
            # fields without a public attribute
            I.raw_setattr(o, s, Sym(('p', 'field', s), H_OPAQUE))


def model_object(ctx, I, cls, tag=''):
    K = kinds(I)
    con = cls.qual.replace(C, '') + tag
    enum = ENUM.get(cls.qual)
    for how in ('new', 'filled'):
        for v in (enum or [None]):
            def entry(I):
                o = I.call(cls, [], {})
                if how == 'filled':
                    fill(I, o, K)
                if v is not None:
                    I.setattr(o, 'value', v)
                return trip(I, o)
            ctx.explore(con, I, entry, lambda I, out: judge(ctx, 'round-trip', con, I, cls, out))
    if cls.name == 'Resource':
        # document content
        for label, h in (('text', H_STR), ('nothing', None)):
            def entry(I):
                o = I.call(cls, [], {})
                I.setattr(o, 'resourceContent', h if h is None else Sym(('p', 'content'), h))
                return trip(I, o)
            ctx.explore(con, I, entry, lambda I, out: judge(ctx, 'round-trip', con, I, cls, out))


def constant(ctx, I, c, n):
    con = '%s.%s' % (c.name, n)
    o = I.getattr(c, n)
    ctx.explore(con, I, lambda I: trip(I, I.getattr(c, n)), lambda I, out: judge(ctx, 'round-trip', con, I, o.cls, out))


def values(ctx, I):
    fac = I.call(I.cls(AVF), [], {})
    for t, uri in sorted(TYPES.items()):
        c = I.call(fac, [uri], {})
        if not isinstance(c, Cls):
            raise AnchorMissing('no class for ' + uri)
        for how in ('new', 'filled', 'other data type'):
            def entry(I, how=how):
                o = I.call(c, [], {})
                if how != 'new':
                    if isinstance(I.getattr(c, 'TYPE'), type):
                        I.setattr(o, 'value', Sym(('p', 'value'), native(I, c)))
                    I.setattr(o, 'xmlns', Sym(('p', 'xmlns'), H_STR))
                    I.setattr(o, 'elem', Sym(('p', 'elem'), H_OPAQUE))
                if how == 'other data type':
                    I.setattr(o, 'dataType', Sym(('p', 'dataType'), H_STR))
                return trip(I, o)
            ctx.explore(t, I, entry, lambda I, out: judge(ctx, 'round-trip', 'value of type ' + t, I, c, out))


def lists(ctx, I):
    TL = I.cls('ndg.xacml.utils.TypedList')
    A, S = I.cls(C + 'attribute.Attribute'), I.cls(X + 'subject.Subject')
    V = I.call(I.call(I.cls(AVF), [], {}), [TYPES['string']], {})
    for label, T, good in (('attributes', A, h_obj(A)), ('strings', str, H_STR), ('two types', (A, S), h_obj(S)), ('values', V, h_obj(V))):
        for k in (0, 1, 2):
            def entry(I):
                o = I.call(TL, [T], {})
                I.set_payload(o, [Sym(('p', 'item', i), good) for i in range(k)])
                return trip(I, o)

            def check(I, out):
                judge(ctx, 'typed-list-round-trip', label, I, TL, out)
                if out[0] != 'raise' and isinstance(out[1], Inst):
                    t = read(I, out[1], 'elementType')
                    ctx.ob('typed-list-round-trip', label, t[0] == 'value' and eq(I, t[1], T), 'comes back with element type %r' % (t[1],), where_of(I, TL), trace_text(I))
            ctx.explore(label, I, entry, check)

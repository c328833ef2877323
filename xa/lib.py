"""Helpers shared by the checks."""
from .values import *
from .values import MISSING
from .engine import AbsExc, Unsupported, AnchorMissing, Cut, is_const
from . import models


def slot_of(I, cls, prop):
    """Instance attribute behind a simple property getter, or None."""
    hit = I.class_lookup(cls, prop)
    if hit is None:
        return prop if prop in I.instance_attrs(cls) else None
    if not isinstance(hit[1], Prop):
        return None
    s = Sym(('p', 'slotprobe'), h_obj(cls))
    was = I.init_mode
    try:
        v = I.getattr(s, prop)
    except AbsExc:
        return None
    if isinstance(v, Sym) and isinstance(v.name, tuple) and len(v.name) == 3 and v.name[0] == 'a' \
            and v.name[1] == s.name:
        return v.name[2]
    return None


def obj_hint(I, cls, exact=True, **props):
    """Hint of an object of `cls` whose public properties have the given hints.
    The slots behind the getters are located by resolving them."""
    fields = {}
    for p, h in props.items():
        s = slot_of(I, cls, p)
        if s is not None:
            fields[s] = h
            if s != p:
                hit = I.class_lookup(cls, p)
                if hit is None:
                    fields[p] = h
        else:
            hit = I.class_lookup(cls, p)
            if hit is None:
                raise AnchorMissing('%s has no attribute %r' % (cls.qual, p))
            fields[('prop', p)] = h
    return Hint('obj', cls=cls, fields=fields, exact=exact)


def method_owner(I, cls, name):
    """(class, raw) defining a method."""
    hit = I.src_lookup(cls, name)
    if hit is None:
        raise AnchorMissing('%s.%s not found' % (cls.qual, name))
    return hit


def where_of(I, cls, name=None):
    """file:line of a class or method."""
    try:
        if name is not None:
            k, raw = method_owner(I, cls, name)
            f = raw.func if isinstance(raw, (SM, CM)) else raw
            if isinstance(f, Prop):
                f = f.fset or f.fget
            if isinstance(f, Func):
                return '%s:%d' % (I.relpath(f.mod.path), f.node.lineno)
        return '%s:%d' % (I.relpath(cls.mod.path), cls.node.lineno)
    except Exception:
        return '?'


def call_method(I, obj, name, *args, **kw):
    return I.call(I.getattr(obj, name), list(args), kw)


def trace_text(I, n=12):
    return ['%s %s -> %s' % (w, V_show(l), c) for w, l, c in I.trace[-n:]]


def V_show(l):
    try:
        from .values import show
        return show(l) if isinstance(l, tuple) else str(l)
    except Exception:
        return str(l)


def exc_text(e):
    v = e.value
    c = v.cls if isinstance(v, Inst) else v
    n = c.name if isinstance(c, (Cls, Ext)) else getattr(c, '__name__', str(c))
    a = v.attrs.get('args', ()) if isinstance(v, Inst) else ()
    return '%s%r at %s' % (n, tuple(x if is_const(x) else '...' for x in a), e.where)


def exc_class(e):
    v = e.value
    return v.cls if isinstance(v, Inst) else None


def exc_is(I, e, cls):
    v = e.value
    if not isinstance(v, Inst):
        return False
    if v.opaque:
        return False
    return bool(I.issub(v.cls, cls))


DECISIONS = ('Permit', 'Deny', 'NotApplicable', 'Indeterminate')
RESULT = 'ndg.xacml.core.context.result'


def decision_value(I, v):
    """'.value' of a decision object, or None when it is not a Decision."""
    D = I.cls(RESULT + '.Decision')
    v = I.force(v)
    try:
        if not I.isinstance(v, D):
            return None
        x = I.force(I.getattr(v, 'value'))
    except AbsExc:
        return None
    if isinstance(x, Inst) and isinstance(x.payload, str):
        x = x.payload
    return x


def fresh_decision(I, value):
    D = I.cls(RESULT + '.Decision')
    return I.call(D, [], {'decision': value})


DEC_ATTR = {'Permit': 'PERMIT', 'Deny': 'DENY', 'NotApplicable': 'NOT_APPLICABLE', 'Indeterminate': 'INDETERMINATE'}


def singleton_decision(I, value):
    return I.getattr(I.cls(RESULT + '.Decision'), DEC_ATTR[value])

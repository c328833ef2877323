"""Abstract values.

Immutable Python constants (None, bool, int, float, str, bytes, Ellipsis,
NotImplemented), Python tuples of abstract values, and real builtin *types* stand
for themselves.  Everything else is one of the classes below.
"""
import itertools

_serial = itertools.count(1)


class Sym(object):
    """An unknown value named by its provenance (a hashable tree)."""
    __slots__ = ('name', 'hint')

    def __init__(self, name, hint=None):
        self.name = name
        self.hint = hint

    def __repr__(self):
        return 'Sym(%s)' % (show(self.name),)


def show(n):
    if isinstance(n, tuple):
        if len(n) == 3 and n[0] == 'a':
            return '%s.%s' % (show(n[1]), n[2])
        if len(n) >= 2 and n[0] == 'e':
            return 'elem(%s)' % show(n[1])
        if len(n) >= 2 and n[0] == 'r':
            return 'earlier-elem(%s)' % show(n[1])
        if len(n) == 2 and n[0] == 'p':
            return str(n[1])
        return '%s(%s)' % (n[0], ', '.join(show(x) for x in n[1:])) if n else '()'
    return repr(n) if isinstance(n, str) else str(n)


class Hint(object):
    __slots__ = ('kind', 'cls', 'elem', 'alts', 'fields', 'exact', 'extra')

    def __init__(self, kind, cls=None, elem=None, alts=None, fields=None,
                 exact=True, extra=None):
        self.kind = kind
        self.cls = cls
        self.elem = elem
        self.alts = alts
        self.fields = fields or {}
        self.exact = exact
        self.extra = extra


def h_obj(cls, exact=True, **fields):
    return Hint('obj', cls=cls, fields=fields, exact=exact)


def h_coll(elem=None, cls=list, **fields):
    return Hint('coll', cls=cls, elem=elem, fields=fields)


def h_alts(*alts):
    """alts: (label, value) pairs; value is a constant, an abstract value, a Hint
    or a callable(interp, sym) returning one of these.  Chosen on first use."""
    return Hint('alts', alts=list(alts))


def h_opt(h):
    return h_alts(('none', None), ('some', h))


H_STR = Hint('str', cls=str)
H_INT = Hint('int', cls=int)
H_BOOL = Hint('bool', cls=bool)
H_ANY = Hint('any')
H_OPAQUE = Hint('opaque')      # an object of a class unknown to the repository


class Inst(object):
    """An object created by analysed code.  payload: list/dict/set/str content for
    classes deriving from a builtin container."""
    __slots__ = ('cls', 'attrs', 'payload', 'serial', 'site', 'opaque', '__weakref__')

    def __init__(self, cls, attrs=None, payload=None, site=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.payload = payload
        self.serial = next(_serial)
        self.site = site
        self.opaque = False

    def __repr__(self):
        n = self.cls.name if isinstance(self.cls, Cls) else self.cls.__name__
        return '<%s #%d>' % (n, self.serial)


class Cls(object):
    __slots__ = ('name', 'qual', 'mod', 'bases', 'mro', 'ns', 'node', 'abc',
                 'registry', 'has_dict', 'slots', 'serial')

    def __init__(self, name, qual, mod, bases, ns, node=None):
        self.name = name
        self.qual = qual
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.node = node
        self.abc = False
        self.registry = []
        self.has_dict = True
        self.slots = ()
        self.serial = next(_serial)
        self.mro = None

    def __repr__(self):
        return '<class %s>' % self.qual


class Func(object):
    __slots__ = ('node', 'mod', 'owner', 'closure', 'defaults', 'kwdefaults',
                 'name', 'qual', 'abstract', 'is_gen', 'serial', 'attrs')

    def __init__(self, node, mod, owner, closure, defaults, kwdefaults, name, qual):
        self.node = node
        self.mod = mod
        self.owner = owner          # Cls name string for mangling
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.qual = qual
        self.abstract = False
        self.is_gen = False
        self.serial = next(_serial)
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class BMeth(object):
    """Builtin method `name` of type `typ` bound to `self` (payload based)."""
    __slots__ = ('typ', 'name', 'self')

    def __init__(self, typ, name, self_):
        self.typ = typ
        self.name = name
        self.self = self_

    def __repr__(self):
        return '<builtin %s.%s of %r>' % (self.typ, self.name, self.self)


class Prop(object):
    __slots__ = ('fget', 'fset', 'fdel', 'abstract')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel
        self.abstract = False


class SM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class CM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class Mod(object):
    __slots__ = ('name', 'ns', 'path', 'tree')

    def __init__(self, name, ns, path=None, tree=None):
        self.name = name
        self.ns = ns
        self.path = path
        self.tree = tree

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(object):
    """Something outside the repository, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class SuperV(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Native(object):
    """Modelled builtin function: fn(interp, args, kwargs)."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Partial(object):
    __slots__ = ('func', 'args', 'kw')

    def __init__(self, func, args, kw):
        self.func = func
        self.args = args
        self.kw = kw


# -- sequence segments -------------------------------------------------------

class Star(object):
    """All elements of the unknown collection `coll` (a Sym), in order."""
    __slots__ = ('coll',)

    def __init__(self, coll):
        self.coll = coll

    def __repr__(self):
        return 'Star(%r)' % (self.coll,)


class Each(object):
    """What a loop over `coll` contributed: one group of items per element, in
    order; `groups` is the exact set of (class key, items) that occur."""
    __slots__ = ('coll', 'site', 'groups', 'complete')

    def __init__(self, coll, site, groups):
        self.coll = coll            # name of the collection
        self.site = site
        self.groups = groups        # dict (clskey, canon) -> (clskey, items)
        self.complete = None

    def items(self):
        out = []
        for k in sorted(self.groups, key=repr):
            out.extend(self.groups[k][1])
        return out

    def __repr__(self):
        return 'Each(%s)' % ([g[1] for g in self.groups.values()],)


class Fill(object):
    """[default]*len(coll) with per-index assignments so far."""
    __slots__ = ('coll', 'default', 'each', 'cur', 'site', 'done')

    def __init__(self, coll, default, each=None, cur=None, site=None, done=False):
        self.coll = coll
        self.default = default
        self.each = each or {}      # canon(value) -> value
        self.cur = cur              # (elem name, value) or None
        self.site = site
        self.done = done

    def __repr__(self):
        return 'Fill(%r,%r)' % (self.default, list(self.each.values()))


MISSING = object()

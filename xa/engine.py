"""Disjunctive abstract interpreter (path-sensitive dataflow to a fixpoint).

Abstract executions are enumerated by re-interpretation under a choice prefix;
at every loop head over an unknown collection (and every `while` head) the
complete abstract state is looked up in the visited set and the execution is cut
if the state was seen before - i.e. a worklist fixpoint over (program point,
abstract state) pairs.  Analysed code is never executed by Python.
"""
import ast
import os
import sys
import datetime
import collections
import collections.abc
import abc

from .values import *
from .values import MISSING, _serial
from . import values as V
from . import live

sys.setrecursionlimit(12000)


class AbsExc(Exception):
    def __init__(self, value, where=None):
        Exception.__init__(self)
        self.value = value
        self.where = where


class ReturnSig(Exception):
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class StopIter(Exception):
    pass


class Cut(Exception):
    """This abstract execution is covered by one already explored."""


class Unsupported(Exception):
    """The analyser does not model a construct: analysis broken, never a verdict."""


class AnchorMissing(Exception):
    """An anchor of a property is gone from the source."""


BUILTIN_TYPES = {n: getattr(__builtins__, n, None) if not isinstance(__builtins__, dict)
                 else __builtins__.get(n) for n in (
    'str int bool float list tuple dict set frozenset object type bytes bytearray '
    'complex property staticmethod classmethod enumerate zip map filter range '
    'reversed super slice memoryview').split()}

import builtins as _b
EXC_TYPES = {n: getattr(_b, n) for n in dir(_b)
             if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}

EXT_REAL = {
    'datetime.datetime': datetime.datetime, 'datetime.timedelta': datetime.timedelta,
    'datetime.date': datetime.date, 'datetime.time': datetime.time,
    'abc.ABCMeta': abc.ABCMeta, 'abc.ABC': abc.ABC,
    'collections.abc.MutableMapping': collections.abc.MutableMapping,
    'collections.abc.Mapping': collections.abc.Mapping,
    'collections.abc.MutableSequence': collections.abc.MutableSequence,
    'collections.abc.Iterable': collections.abc.Iterable,
    'collections.abc.Sequence': collections.abc.Sequence,
    'collections.abc.Callable': collections.abc.Callable,
    'collections.OrderedDict': dict,
    'os.sep': '/', 'os.path.sep': '/', 'os.linesep': '\n', 'os.name': 'posix',
    'logging.DEBUG': 10, 'logging.INFO': 20, 'logging.WARNING': 30, 'logging.ERROR': 40,
}


def is_const(v):
    return v is None or v is Ellipsis or v is NotImplemented or \
        isinstance(v, (bool, int, float, complex, str, bytes))


LIVE_SKIP = frozenset([type(None), bool, int, float, str, bytes, complex, type(Ellipsis), type(NotImplemented),
                       Sym, Cls, Ext, Mod, Native, Prop])


def mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__') and '.' not in name:
        return '_%s%s' % (cls.lstrip('_'), name)
    return name


_LOCALS_CACHE = {}


def local_names(node):
    """Names bound in a function scope: (locals, globals, nonlocals)."""
    r = _LOCALS_CACHE.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    loc, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            loc.add(x.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    loc -= glob | nonl
    res = (frozenset(loc), frozenset(glob), frozenset(nonl))
    _LOCALS_CACHE[id(node)] = (node, res)
    return res


_GEN_CACHE = {}


def is_generator(node):
    r = _GEN_CACHE.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    found = False
    stack = list(node.body) if isinstance(node.body, list) else []
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found = True
            break
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    _GEN_CACHE[id(node)] = (node, found)
    return found


class Frame(object):
    __slots__ = ('func', 'mod', 'L', 'parent', 'owner', 'temps', 'ctl', 'node',
                 'kind', 'locs', 'nonl', 'exc', 'glob', 'defcls', 'created')

    def __init__(self, func, mod, parent, owner, kind='function'):
        self.func = func
        self.mod = mod
        self.L = {}
        self.parent = parent        # lexically enclosing Frame or None
        self.owner = owner          # class name for mangling
        self.temps = []
        self.ctl = []
        self.node = None
        self.kind = kind
        self.locs = None
        self.nonl = ()
        self.glob = ()
        self.exc = None
        self.defcls = None
        self.created = next(_serial)


# ---------------------------------------------------------------------------
# iterators
# ---------------------------------------------------------------------------

class It(object):
    abstract = False

    def next(self, I):
        raise StopIter()

    def parts(self):
        """values to canonicalise / rename: list of attribute names"""
        return ()

    def state(self):
        return ()


class SeqIt(It):
    """Over a tuple of segments/items."""

    def __init__(self, segs, site):
        self.segs = tuple(segs)
        self.pos = 0
        self.sub = None
        self.site = site

    def parts(self):
        return ('segs', 'sub')

    def state(self):
        return (self.pos,)

    def next(self, I):
        while True:
            if self.sub is not None:
                try:
                    return self.sub.next(I)
                except StopIter:
                    self.sub = None
            if self.pos >= len(self.segs):
                raise StopIter()
            s = self.segs[self.pos]
            self.pos += 1
            if isinstance(s, Star):
                self.sub = SymIt(I, s.coll, (self.site, 'star'))
            elif isinstance(s, Each):
                self.sub = EachIt(I, s, (self.site, 'each', self.pos))
            elif isinstance(s, Fill):
                self.sub = FillIt(I, s, (self.site, 'fill', self.pos))
            else:
                return s


class EachIt(It):
    """Over what a loop appended: every group occurs, in any order, any number of
    times (in first-occurrence order when the interpreter tracks order).  The
    collection element the entries came from becomes the current element again, so
    what is learnt about it refines the group."""
    abstract = True
    LIMIT = 24

    def __init__(self, I, seg, site):
        self.seg = seg
        self.site = (site, len(I.frames))
        self.keys = [k for k in seg.groups if seg.groups[k][1]]
        if not I.ordered:
            self.keys.sort(key=repr)
        self.left = list(self.keys)
        self.queue = ()
        self.ordered = I.ordered
        self.coll = Sym(seg.coll, H_ANY)
        self.cur = None
        self.curbase = None         # group key of the current element
        self.seen = set()
        self.order = ()
        self.base = None
        self.new = {}               # refined groups
        self.count = 0
        self.skels = None

    def parts(self):
        return ('seg', 'queue', 'coll')

    def state(self):
        return (tuple(self.left), self.cur, self.curbase,
                tuple(self.new) if self.ordered else frozenset(self.new), self.queue == ())

    def next(self, I):
        while not self.queue:
            if self.cur is not None:
                base = self.curbase
                ck, items = self.seg.groups[base]
                name = ('r', self.seg.coll, ck)
                e = self.cur
                cls = I.retire(self, ck)
                r2 = ('r', self.seg.coll, cls)
                items = tuple(I.rv(x, name, r2) for x in items)
                self.new[(cls, I.ren(base[1], name, r2))] = (cls, items)
            elif self.base is None:
                I.note_base(self)
            I.prune_point(('each', self.site), self)
            self.count += 1
            if self.count > self.LIMIT + len(self.keys):
                I.unsaturated.add(I.where())
                raise Cut()
            seen = [k for k in self.keys if k not in self.left]
            opts = (self.left[:1] if self.ordered else list(self.left)) + seen
            if not self.left:
                opts = ['end'] + opts
            o = opts[I.choose(len(opts), ('iter', self.seg.coll))]
            if o == 'end':
                self.finish(I)
                raise StopIter()
            if o in self.left:
                self.left.remove(o)
            ck, items = self.seg.groups[o]
            name = ('r', self.seg.coll, ck)
            e = ('e', self.seg.coll, self.site)
            I.fresh_elem(self, e)
            self.cur = e
            self.curbase = o
            I.restore_class(e, ck)
            rec = I.recs.get(self.seg.coll)
            if rec is not None:
                rec.live = rec.live + ((e, ck),)
            self.queue = tuple(I.rv(x, name, e) for x in items)
        v = self.queue[0]
        self.queue = self.queue[1:]
        return v

    def finish(self, I):
        """A full pass: the refined classes replace the ones they refine."""
        if set(self.new) == set(self.keys):
            return
        old = self.seg.groups
        full = {}
        for k, (ck, items) in old.items():
            if not items:
                full[k] = old[k]
        full.update(self.new)
        bases = set(old[k][0] for k in self.keys) - set(v[0] for k, v in old.items() if not v[1])
        fine = [v[0] for v in self.new.values()]
        self.seg.groups.clear()
        self.seg.groups.update(full)
        rec = I.recs.get(self.seg.coll)
        if rec is not None:
            rec.exists = (rec.exists - bases) | set(fine)
            if rec.completed is not None:
                rec.completed = frozenset((rec.completed - bases) | set(fine))
            if self.ordered:
                out = []
                for c in rec.order:
                    if c not in bases:
                        out.append(c)
                    else:
                        out.extend(x for x in rec.refined.get(c, ()) if x not in out)
                rec.order = tuple(out)


class FillIt(It):
    abstract = True

    def __init__(self, I, seg, site):
        self.seg = seg
        self.site = site
        self.left = None
        self.vals = {}

    def parts(self):
        return ('seg', 'vals')

    def state(self):
        return (None if self.left is None else tuple(self.left),)

    def next(self, I):
        if self.left is None:
            vals = I.fill_support(self.seg)
            self.left = sorted(vals, key=repr)
            self.vals = dict(vals)
        I.prune_point(('fill', self.site))
        seen = [k for k in sorted(self.vals, key=repr) if k not in self.left]
        opts = list(self.left) + seen
        if not self.left:
            opts = ['end'] + opts
        o = opts[I.choose(len(opts), 'order')]
        if o == 'end':
            raise StopIter()
        if o in self.left:
            self.left.remove(o)
        return self.vals[o]


class SymIt(It):
    """Over an unknown collection: recency abstraction of the current element."""
    abstract = True
    LIMIT = 24

    def __init__(self, I, coll, site):
        self.coll = coll
        self.site = (site, len(I.frames))
        self.cur = None
        self.curbase = None
        self.count = 0
        self.lim = 3
        self.skels = None
        self.seen = set()
        self.seen_base = set()
        self.order = ()
        self.base = None

    def parts(self):
        return ('coll',)

    def state(self):
        return (self.site, self.cur, self.curbase, min(self.count, self.lim),
                frozenset(self.seen), frozenset(self.seen_base), self.order)

    def next(self, I):
        C = self.coll.name
        if self.cur is not None:
            I.retire(self)
        elif self.base is None:
            I.note_base(self)
        lo, hi = I.lens.get(C, (0, None))
        self.lim = max(lo, (hi or 0) + 1)
        I.prune_point(('sym', self.site), self)
        rec = I.recs.get(C)
        completed = rec.completed if rec else None
        if self.count > self.LIMIT + len(completed or ()):
            I.unsaturated.add(I.where())
            raise Cut()
        lo, hi = I.lens.get(C, (0, None))
        k = self.count
        may_next = hi is None or k < hi
        may_end = k >= lo
        if completed is not None:
            classes = sorted(completed, key=repr)
            if not classes:
                may_next = False
            if not (completed <= self.seen_base):
                may_end = False
                # visit each known class at least once, then allow the end
        else:
            classes = [None]
        opts = []
        if may_next:
            if completed is not None:
                rest = [c for c in classes if c not in self.seen_base]
                if I.ordered and rec.order:
                    rest = [c for c in rec.order if c in rest][:1] or rest
                again = [c for c in classes if c in self.seen_base]
                if hi is None or hi - k > len(rest):
                    rest = rest + again
                opts.extend(rest)
            else:
                opts.append(None)
        if may_end:
            opts.append('end')
        if not opts:
            raise Cut()
        o = opts[I.choose(len(opts), ('iter', C))]
        if o == 'end':
            I.finish_pass(self)
            raise StopIter()
        self.count += 1
        if lo <= self.count and not I.forget:
            nlo = max(lo, min(self.count, 2)) if hi is None or hi >= self.count else lo
            I.lens[C] = (max(lo, 1) if nlo < 1 else max(lo, 1), hi)
        e = ('e', C, self.site)
        I.fresh_elem(self, e)
        self.cur = e
        self.curbase = o
        if o is not None:
            self.seen_base.add(o)
            I.restore_class(e, o)
            rec.live = rec.live + ((e, o),)
        I.on_elem(self, e)
        return I.elem_value(self.coll, e)


class IdxIt(It):
    """range(len(C))"""
    abstract = True

    def __init__(self, I, coll, site):
        self.inner = SymIt(I, coll, site)

    def parts(self):
        return ('inner',)

    def next(self, I):
        self.inner.next(I)
        return Sym(('idx', self.inner.cur), H_INT)


class EnumIt(It):
    def __init__(self, inner, start=0):
        self.inner = inner
        self.n = start

    def parts(self):
        return ('inner', 'n')

    def next(self, I):
        v = self.inner.next(I)
        s = deep_sym(self.inner)
        if s is not None:
            if self.n == 0:
                return (Sym(('idx', s.cur), H_INT), v)
            return (Sym(('op', 'Add', ('idx', s.cur), ('k', 'int', self.n)), H_INT), v)
        n = self.n
        if isinstance(n, int):
            self.n = n + 1
        if getattr(self.inner, 'abstract', False):
            return (Sym(('enum-index',), H_INT), v)
        return (n, v)


def deep_sym(it):
    while it is not None:
        if isinstance(it, IdxIt):
            it = it.inner
            continue
        if isinstance(it, SymIt):
            return it if it.cur is not None else None
        if isinstance(it, SeqIt):
            # an exact prefix makes indices differ; only a pure star is safe
            if len(it.segs) == 1:
                it = it.sub
                continue
            return None
        return None
    return None


class ZipIt(It):
    def __init__(self, its):
        self.its = tuple(its)
        lead = None
        out = []
        for i in self.its:
            c = whole_coll(i)
            if c is not None and lead is not None and lead[1] == c[0] and c[1] is not None:
                out.append(FollowIt(lead[0], c[1]))
                continue
            if c is not None and lead is None:
                lead = (i, c[0])
            out.append(i)
        if lead is not None and whole_coll(lead[0])[1] is not None:
            # what a loop made of each element goes first: it knows its element
            for k, i in enumerate(out):
                c = whole_coll(i)
                if i is not lead[0] and c is not None and c[0] == lead[1] and c[1] is None:
                    a = out.index(lead[0])
                    out = [FollowIt(i, x.what) if isinstance(x, FollowIt) else x for x in out]
                    out[a] = FollowIt(i, whole_coll(lead[0])[1])
                    break
        self.its = tuple(out)

    def parts(self):
        return ('its',)

    def next(self, I):
        vals = {}
        for k, i in enumerate(self.its):
            if not isinstance(i, FollowIt):
                vals[k] = i.next(I)
        return tuple(vals[k] if k in vals else i.next(I) for k, i in enumerate(self.its))


_COUNTERS = {}


def whole_coll_of(it):
    """The name of the collection that an iterator of loop_counters walks."""
    if isinstance(it, IdxIt):
        return it.inner.coll.name
    if isinstance(it, SymIt):
        return it.coll.name
    return it.segs[0].coll.name


class FollowIt(It):
    """Another walk of the collection that `lead` walks, at the same element."""

    def __init__(self, lead, what):
        self.lead = lead
        self.what = what            # the collection's symbol, or 'idx'

    def parts(self):
        return ('lead', 'what')

    def next(self, I):
        it = self.lead
        while not hasattr(it, 'cur'):
            it = it.sub if isinstance(it, SeqIt) else it.inner
        if self.what == 'idx':
            return Sym(('idx', it.cur), H_INT)
        return I.elem_value(self.what, it.cur)


def whole_coll(it):
    """(name, symbol | 'idx' | None) of the collection that an unstarted iterator walks from end to end."""
    if isinstance(it, IdxIt):
        return (it.inner.coll.name, 'idx') if it.inner.cur is None and it.inner.count == 0 else None
    if isinstance(it, SymIt):
        return (it.coll.name, it.coll) if it.count == 0 else None
    if isinstance(it, SeqIt) and it.pos == 0 and it.sub is None and len(it.segs) == 1:
        g = it.segs[0]
        if isinstance(g, Star):
            return (g.coll.name, g.coll)
        if isinstance(g, Each) and g.groups and all(len(x[1]) == 1 for x in g.groups.values()):
            return (g.coll, None)
    return None


class MapIt(It):
    def __init__(self, f, its):
        self.f = f
        self.its = tuple(its)

    def parts(self):
        return ('f', 'its')

    def next(self, I):
        args = [i.next(I) for i in self.its]
        return I.call(self.f, args, {})


class FilterIt(It):
    def __init__(self, f, it):
        self.f = f
        self.it = it

    def parts(self):
        return ('f', 'it')

    def next(self, I):
        while True:
            v = self.it.next(I)
            if I.truth(v if self.f is None else I.call(self.f, [v], {})):
                return v


class ChainIt(It):
    def __init__(self, its):
        self.its = tuple(its)
        self.pos = 0

    def parts(self):
        return ('its',)

    def state(self):
        return (self.pos,)

    def next(self, I):
        while self.pos < len(self.its):
            it = self.its[self.pos]
            try:
                return it.next(I)
            except StopIter:
                self.pos += 1
        raise StopIter()


class GenIt(It):
    """Generator function or generator expression, run lazily."""

    def __init__(self, frame, pygen, label):
        self.frame = frame
        self.pygen = pygen
        self.label = label
        self.done = False

    def parts(self):
        return ('frame',)

    def state(self):
        return (self.label, self.done)

    def next(self, I):
        if self.done:
            raise StopIter()
        I.frames.append(self.frame)
        try:
            return next(self.pygen)
        except StopIteration:
            self.done = True
            raise StopIter()
        except AbsExc:
            self.done = True
            raise
        finally:
            if I.frames and I.frames[-1] is self.frame:
                I.frames.pop()
            else:
                while I.frames and I.frames[-1] is not self.frame:
                    I.frames.pop()
                if I.frames:
                    I.frames.pop()


class InstIt(It):
    """An object of a repository class with __next__."""

    def __init__(self, obj):
        self.obj = obj

    def parts(self):
        return ('obj',)

    def next(self, I):
        try:
            return I.call(I.getattr(self.obj, '__next__'), [], {})
        except AbsExc as e:
            if I.exc_matches(e.value, StopIteration):
                raise StopIter()
            raise


class Rec(object):
    """What is known of the elements of an unknown collection: classes that occur,
    and (after a full pass) that no others occur."""
    __slots__ = ('completed', 'exists', 'order', 'refined', 'live')

    def __init__(self):
        self.completed = None
        self.exists = set()
        self.refined = {}       # class -> classes it was refined to, by first occurrence
        self.live = ()          # (current element of a later pass, its class before)
        self.order = ()         # classes by first occurrence (when tracked)


# ---------------------------------------------------------------------------

class Interp(object):
    MAXDEPTH = 70

    def __init__(self, root='/repo', config=None):
        self.root = root
        self.config = {'lxml': True}
        self.config.update(config or {})
        self.modules = {}
        self.files = {}              # path -> module name
        self.frames = []
        self.init_mode = True
        self.named_copies = False    # copies of unknown objects are told apart
        self.intercepts = {}         # function qual -> model(I, args, kw)
        self.method_intercepts = {}  # (class qual, name) -> model(I, self, args, kw)
        self.tails = {}              # unknown strings -> what is assumed of them
        self.ext_models = {}         # dotted -> model(I, args, kw)
        self.listeners = []          # fn(I, event, data)
        self.class_filter = None
        self.class_map = None        # (I, element, items) -> items of its class
        self.forget = False          # remember nothing from one pass over a collection to the next
        self.junk = None             # value -> kind: elements told apart by kind only
        self.ordered = False         # track first-occurrence order of elements
        self.unordered = False       # the order of unknown collections does not matter to the check
        self.ret_where = None
        self.out_where = None
        self.on_retire = None
        self.functions_seen = {}
        self.visited = set()
        self.unsaturated = set()
        self.stats = collections.Counter()
        self.boundary = 0
        self.liveness = {}
        self.relpaths = {}
        self.at_join = False
        self.max_paths = 200000
        self._new_path([])
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)

    # -- path state -----------------------------------------------------------

    def _new_path(self, prefix):
        self.prefix = list(prefix)
        self.new_from = len(prefix)
        self.widths = []
        self.pos = 0
        self.facts = {}
        self.lens = {}
        self.resolved = {}
        self.altval = {}
        self.fields = {}
        self.recs = {}
        self.cur_names = frozenset()
        self.mon = {}
        self.journal = []
        self.frames = []
        self.trace = []
        self.events = []
        self.ctr = 0
        self.steps = 0
        self.namecache = {}

    def freeze(self):
        """Everything created so far is static (pre-existing) from now on."""
        self.boundary = next(_serial)
        self.init_mode = False
        self._new_path([])

    def rollback(self):
        for d, k, old in reversed(self.journal):
            if isinstance(d, Inst):
                setattr(d, k, old)
            elif old is MISSING:
                d.pop(k, None)
            else:
                d[k] = old
        self.journal = []

    def explore(self, entry, check=None):
        """Run `entry(I)` under all choices.  check(I, outcome) per complete path,
        outcome = ('return', value) | ('raise', AbsExc)."""
        if self.init_mode:
            self.freeze()
        self.visited = set()
        prefix = []
        n = 0
        deferred = None
        while True:
            self._new_path(prefix)
            n += 1
            self.stats['paths'] += 1
            if n > self.max_paths:
                raise deferred[0] if deferred else Unsupported('more than %d abstract paths' % self.max_paths)
            try:
                try:
                    out = ('return', entry(self))
                    self.out_where = self.ret_where
                except AbsExc as e:
                    out = ('raise', e)
                self.frames = []
                self.stats['complete'] += 1
                if check is not None and check(self, out) == 'stop':
                    self.rollback()
                    break
            except Cut:
                self.stats['cut'] += 1
            except Unsupported as e:
                # the other paths may still show a violation; without one this stands as an error
                if deferred is None:
                    deferred = (e, n)
                elif n > deferred[1] + 300:
                    raise deferred[0]
            finally:
                self.rollback()
            self.stats['steps'] += self.steps
            p, w = self.prefix, self.widths
            while p and p[-1] + 1 >= w[len(p) - 1]:
                p.pop()
            if not p:
                break
            p[-1] += 1
            prefix = p
        if deferred is not None:
            raise deferred[0]
        return n

    def choose(self, n, label=None):
        if n <= 1:
            return 0
        if self.init_mode:
            self.stats['init_choices'] += 1
            return 0
        pos = self.pos
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = 0
            self.prefix.append(0)
        if pos < len(self.widths):
            self.widths[pos] = n
        else:
            self.widths.append(n)
        self.pos += 1
        self.trace.append((self.where(), label, c))
        return c

    def emit(self, kind, *data):
        for l in self.listeners:
            l(self, kind, data)

    def where(self):
        for f in reversed(self.frames):
            if f.node is not None and f.mod is not None:
                return '%s:%d' % (self.relpath(f.mod.path), f.node.lineno)
        return '?'

    def where_func(self):
        for f in reversed(self.frames):
            if f.func is not None:
                return f.func.qual
        return '?'

    def relpath(self, p):
        if not p:
            return '?'
        r = self.relpaths.get(p)
        if r is None:
            r = self.relpaths[p] = os.path.relpath(p, self.root)
        return r

    # -- state keys -----------------------------------------------------------

    def prune_point(self, site, it=None):
        if self.init_mode:
            return
        widen = it is not None and it.count >= 2
        if self.pos < self.new_from and not widen:
            return
        k = self.state_key(site, widen)
        if widen:
            # counters: the third time round with nothing but larger numbers
            ints = []
            sk = self.skeleton(k, ints)
            if it.skels is None:
                it.skels = {}
            prev = it.skels.setdefault(sk, [])
            up = [p for p in prev if p != ints and all(a <= b for a, b in zip(p, ints))]
            prev.append(ints)
            k = hash(k)
            if len(up) >= 1 and self.pos >= self.new_from:
                self.unsaturated.add(self.where())
                raise Cut()
            if self.pos < self.new_from:
                return
        if k in self.visited:
            raise Cut()
        self.visited.add(k)
        self.stats['states'] += 1

    def skeleton(self, k, ints):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'int':
                ints.append(k[1])
                return ('int',)
            return tuple([self.skeleton(x, ints) for x in k])
        return k

    def state_key(self, site, full=False):
        memo = {}
        c = lambda v: self.canon(v, memo)
        self.at_join = site[0] == 'join'
        fr = tuple(self.canon_frame(f, memo) for f in self.frames)
        fields = tuple(sorted(((k, c(v)) for k, v in self.fields.items()), key=repr))
        jr = []
        seen = set()
        for d, k, old in self.journal:
            kk = (id(d), k)
            if kk in seen:
                continue
            seen.add(kk)
            cur = getattr(d, k) if isinstance(d, Inst) else d.get(k, MISSING)
            jr.append((kk, c(cur) if cur is not MISSING else None))
        recs = frozenset((k, r.completed, frozenset(r.exists), r.order, r.live,
                          tuple(r.refined.items()) if self.ordered else ()) for k, r in self.recs.items())
        t = (site, fr, frozenset(self.facts.items()), frozenset(self.lens.items()),
                frozenset(self.resolved.items()), fields, tuple(jr), recs,
                self.cur_names, c(self.mon))
        self.at_join = False
        return t if full else hash(t)

    def canon_frame(self, f, memo):
        k = ('Frame', id(f))
        if k in memo:
            return ('FR', memo[k])
        memo[k] = len(memo)
        c = lambda v: self.canon(v, memo)
        alive = self.live_names(f)
        return ('F', f.func.qual if f.func else f.kind, id(f.node),
                tuple((n, c(v)) for n, v in sorted(f.L.items()) if alive is None or n in alive),
                tuple(c(v) for v in f.temps), tuple(c(v) for v in f.ctl),
                c(f.exc) if f.exc is not None else None)

    def live_names(self, f):
        if f.kind != 'function' or f.func is None or f.node is None:
            return None
        lv = self.liveness.get(id(f.func.node))
        if lv is None:
            lv = self.liveness[id(f.func.node)] = live.Liveness(f.func.node)
        if self.at_join and f is self.frames[-1]:
            return lv.after(f.node)
        return lv.at(f.node, bool(f.ctl) and f.ctl[-1] is f.node)

    def canon(self, v, memo):
        if is_const(v):
            return (type(v).__name__, v)
        if isinstance(v, Sym):
            return ('s', v.name)
        if isinstance(v, tuple):
            return ('t',) + tuple([self.canon(x, memo) for x in v])
        if isinstance(v, type):
            return ('T', v.__module__, v.__name__)
        if isinstance(v, Inst):
            if v.serial <= self.boundary:
                return ('I', v.serial)
            k = ('Inst', id(v))
            if k in memo:
                return ('R', memo[k])
            memo[k] = len(memo)
            cn = v.cls.qual if isinstance(v.cls, Cls) else v.cls.__name__ if isinstance(v.cls, type) else repr(v.cls)
            return ('N', cn, tuple((n, self.canon(x, memo)) for n, x in sorted(v.attrs.items())),
                    self.canon(v.payload, memo), v.opaque)
        if isinstance(v, dict):
            if not self.ordered and len(v) > 1:
                its = sorted(v.items(), key=lambda kv: repr(kv[0]))
            else:
                its = v.items()
            return ('d',) + tuple((self.canon(k, memo) if not isinstance(k, tuple) else k,
                                   self.canon(x, memo)) for k, x in its)
        if isinstance(v, (list,)):
            return ('l',) + tuple(self.canon(x, memo) for x in v)
        if isinstance(v, (set, frozenset)):
            return ('S', frozenset(v))
        if isinstance(v, Cls):
            if v.serial <= self.boundary:
                return ('C', v.qual)
            k = ('Cls', id(v))
            if k in memo:
                return ('RC', memo[k])
            memo[k] = len(memo)
            return ('C', v.qual, memo[k])
        if isinstance(v, Func):
            r = ('f', v.qual, id(v.node))
            if v.closure is not None and v.closure.created > self.boundary:
                return r + (self.canon_frame(v.closure, memo),
                            tuple(self.canon(x, memo) for x in v.defaults))
            return r
        if isinstance(v, Bound):
            return ('b', self.canon(v.func, memo), self.canon(v.self, memo))
        if isinstance(v, BMeth):
            return ('bm', v.typ.__name__ if isinstance(v.typ, type) else str(v.typ), v.name, self.canon(v.self, memo))
        if isinstance(v, It):
            k = ('It', id(v))
            if k in memo:
                return ('RI', memo[k])
            memo[k] = len(memo)
            return ('it', type(v).__name__, v.state()) + tuple(
                self.canon(getattr(v, p), memo) for p in v.parts())
        if isinstance(v, Frame):
            return self.canon_frame(v, memo)
        if isinstance(v, Ext):
            return ('x', v.name)
        if isinstance(v, Mod):
            return ('m', v.name)
        if isinstance(v, Star):
            return ('*', self.canon(v.coll, memo))
        if isinstance(v, Each):
            return ('each', v.coll, v.site, tuple(v.groups) if self.ordered else frozenset(v.groups))
        if isinstance(v, Fill):
            return ('fill', v.coll, self.canon(v.default, memo), frozenset(v.each),
                    None if v.cur is None else (v.cur[0], self.canon(v.cur[1], memo)), v.site, v.done)
        if isinstance(v, Prop):
            return ('prop', id(v))
        if isinstance(v, (SM, CM)):
            return ('sm', self.canon(v.func, memo))
        if isinstance(v, SuperV):
            return ('super', self.canon(v.cls, memo), self.canon(v.obj, memo))
        if isinstance(v, Native):
            return ('nat', v.name)
        if isinstance(v, Partial):
            return ('par', self.canon(v.func, memo), self.canon(tuple(v.args), memo), self.canon(v.kw, memo))
        if isinstance(v, ast.AST):
            return ('ast', id(v))
        if isinstance(v, AbsExc):
            return ('exc', self.canon(v.value, memo))
        if isinstance(v, ReturnSig):
            return ('ret', self.canon(v.value, memo))
        if isinstance(v, Exception):
            return ('pyexc', type(v).__name__)
        if v is MISSING:
            return ('missing',)
        if isinstance(v, slice):
            return ('slice',) + tuple(self.canon(x, memo) for x in (v.start, v.stop, v.step))
        raise Unsupported('canon %r' % (v,))

    def nm(self, v):
        """Name of a value, for use inside other names/facts."""
        if is_const(v):
            return ('k', type(v).__name__, v)
        if isinstance(v, Sym):
            return v.name
        if isinstance(v, tuple):
            return ('t',) + tuple(self.nm(x) for x in v)
        if isinstance(v, type):
            return ('T', v.__name__)
        if isinstance(v, Cls):
            return ('C', v.qual)
        return self.canon(v, {})

    # -- renaming on retirement -----------------------------------------------

    def contains(self, name, e):
        if name == e:
            return True
        if isinstance(name, tuple):
            for x in name:
                if isinstance(x, tuple) and self.contains(x, e):
                    return True
        return False

    def ren(self, name, e, new):
        if name == e:
            return new
        if isinstance(name, tuple):
            changed = False
            out = []
            for x in name:
                if isinstance(x, tuple):
                    y = self.ren(x, e, new)
                    if y is not x:
                        changed = True
                    out.append(y)
                else:
                    out.append(x)
            if changed:
                return tuple(out)
        return name

    def elem_class(self, e):
        at = ('@',)
        items = []
        for k, val in self.facts.items():
            if self.contains(k, e):
                items.append(('f', self.ren(k, e, at), val))
        for k, val in self.resolved.items():
            if self.contains(k, e):
                items.append(('r', self.ren(k, e, at), val))
        for k, val in self.lens.items():
            if self.contains(k, e):
                items.append(('l', self.ren(k, e, at), val))
        for k, val in self.fields.items():
            if self.contains(k[0], e):
                items.append(('w', (self.ren(k[0], e, at), k[1]), self.ren(self.canon(val, {}), e, at)))
        for k, r in self.recs.items():
            if self.contains(k, e):
                items.append(('c', self.ren(k, e, at), (r.completed, frozenset(r.exists))))
        if self.class_filter is not None:
            items = [i for i in items if self.class_filter(i)]
        if self.class_map is not None:
            return frozenset(self.class_map(self, e, items))
        return frozenset(items)

    def restore_class(self, e, cls):
        at = ('@',)
        for kind, k, val in cls:
            if kind == 'f':
                self.facts[self.ren(k, at, e)] = val
            elif kind == 'r':
                self.resolved[self.ren(k, at, e)] = val
            elif kind == 'l':
                self.lens[self.ren(k, at, e)] = val
            elif kind == 'c':
                r = Rec()
                r.completed, ex = val
                r.exists = set(ex)
                self.recs[self.ren(k, at, e)] = r

    def live(self):
        """All path-created Insts / iterators reachable from the path state."""
        insts, its = [], []
        seen = set()
        stack = []
        for f in self.frames:
            stack.append(f)
        stack.extend(self.fields.values())
        stack.append(self.mon)
        for d, k, old in self.journal:
            cur = getattr(d, k) if isinstance(d, Inst) else d.get(k)
            stack.append(cur)
        stack.extend(self.altval.values())
        while stack:
            v = stack.pop()
            t = type(v)
            if t in LIVE_SKIP or isinstance(v, type):
                continue
            if t is tuple or t is list:
                for x in v:
                    if type(x) not in LIVE_SKIP:
                        stack.append(x)
                continue
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Inst):
                if v.serial > self.boundary:
                    insts.append(v)
                    stack.extend(v.attrs.values())
                    p = v.payload
                    if isinstance(p, dict):
                        for kv in p.values():
                            stack.append(kv)
                    elif p is not None:
                        stack.append(p)
            elif isinstance(v, Frame):
                if v.created > self.boundary:
                    its.append(v)
                    stack.extend(v.L.values())
                    stack.extend(v.temps)
                    stack.extend(v.ctl)
                    if v.exc is not None:
                        stack.append(v.exc)
                    if v.parent is not None:
                        stack.append(v.parent)
            elif isinstance(v, It):
                its.append(v)
                for p in v.parts():
                    stack.append(getattr(v, p))
            elif isinstance(v, dict):
                stack.extend(v.values())
            elif isinstance(v, Func):
                if v.closure is not None:
                    stack.append(v.closure)
                stack.extend(v.defaults)
            elif isinstance(v, Bound):
                stack.append(v.func)
                stack.append(v.self)
            elif isinstance(v, BMeth):
                stack.append(v.self)
            elif isinstance(v, SuperV):
                stack.append(v.obj)
            elif isinstance(v, Partial):
                stack.extend(v.args)
                stack.extend(v.kw.values())
                stack.append(v.func)
            elif isinstance(v, Each):
                for ck, items in v.groups.values():
                    stack.extend(items)
            elif isinstance(v, Fill):
                stack.append(v.default)
                stack.extend(v.each.values())
                if v.cur:
                    stack.append(v.cur[1])
            elif isinstance(v, AbsExc):
                stack.append(v.value)
            elif isinstance(v, ReturnSig):
                stack.append(v.value)
        return insts, its

    def rv(self, v, e, new):
        """Value with element name e renamed (immutable parts only)."""
        if isinstance(v, Sym):
            n = self.ren(v.name, e, new)
            return v if n is v.name else Sym(n, v.hint)
        if isinstance(v, tuple):
            out = tuple(self.rv(x, e, new) for x in v)
            return out if any(a is not b for a, b in zip(out, v)) else v
        if isinstance(v, list):
            return [self.rv(x, e, new) for x in v]
        if isinstance(v, Star):
            c = self.rv(v.coll, e, new)
            return v if c is v.coll else Star(c)
        if isinstance(v, Bound):
            s = self.rv(v.self, e, new)
            return v if s is v.self else Bound(v.func, s)
        if isinstance(v, BMeth):
            s = self.rv(v.self, e, new)
            return v if s is v.self else BMeth(v.typ, v.name, s)
        if isinstance(v, SuperV):
            s = self.rv(v.obj, e, new)
            return v if s is v.obj else SuperV(v.cls, s)
        if isinstance(v, Each):
            if not self.contains(v.coll, e) and not any(
                    self.contains(k, e) or self.contains(ck, e) or
                    any(self.rv(x, e, new) is not x for x in items)
                    for k, (ck, items) in v.groups.items()):
                return v
            g = {}
            for k, (ck, items) in v.groups.items():
                its = tuple(self.rv(x, e, new) for x in items)
                g[(self.ren(ck, e, new), self.ren(k[1], e, new))] = (ck, its)
            return Each(self.ren(v.coll, e, new), v.site, g)
        if isinstance(v, Fill):
            ea = {}
            for x in v.each.values():
                y = self.rv(x, e, new)
                ea[self.canon(y, {})] = y
            cur = v.cur
            if cur is not None:
                cur = (self.ren(cur[0], e, new), self.rv(cur[1], e, new))
            return Fill(self.ren(v.coll, e, new), self.rv(v.default, e, new), ea, cur, v.site, v.done)
        if isinstance(v, dict):
            return {(self.ren(k, e, new) if isinstance(k, tuple) else k): self.rv(x, e, new)
                    for k, x in v.items()}
        if isinstance(v, Partial):
            return Partial(self.rv(v.func, e, new), [self.rv(x, e, new) for x in v.args],
                           {k: self.rv(x, e, new) for k, x in v.kw.items()})
        return v

    def retire(self, it, base=None):
        e = it.cur
        if base is None and it.curbase is not None:
            base = it.curbase
        C = it.coll.name
        if self.on_retire is not None:
            self.on_retire(self, it, e)
        cls = self.elem_class(e)
        it.seen.add(cls)
        rec = self.recs.get(C)
        if rec is None:
            rec = Rec()
            if not self.forget:
                self.recs[C] = rec
        rec.exists.add(cls)
        if base is not None:
            rec.live = tuple(x for x in rec.live if x[0] != e)
            old = rec.refined.get(base, ())
            if cls not in old:
                rec.refined = dict(rec.refined)
                rec.refined[base] = old + (cls,)
        if self.ordered and not isinstance(it, EachIt):
            if cls not in it.order:
                it.order = it.order + (cls,)
            if rec.completed is None:
                rec.order = it.order
        new = ('r', C, cls)
        insts, its = self.live()
        # lists: summarise what this iteration appended
        for inst in insts:
            p = inst.payload
            if not isinstance(p, list):
                continue
            b = it.base.get(id(inst)) if it.base else None
            if b is not None and b[0] is inst and len(p) > b[1] > 0 and not all(x is y for x, y in zip(p, b[2])) \
                    and all(x is y for x, y in zip(p[-b[1]:], b[2])) and self.junk is None:
                # put in front
                new_ = p[:-b[1]]
                if not any(isinstance(x, (Star, Each, Fill)) for x in new_):
                    items2 = tuple(self.rv(x, e, new) for x in new_)
                    tail = p[-b[1]:]
                    key = (cls, tuple(self.ren(self.canon(x, {}), e, new) for x in items2))
                    g = {key: (cls, items2)}
                    if isinstance(tail[0], Each) and tail[0].coll == C and tail[0].site == (it.site, 'front'):
                        g = dict(tail[0].groups)
                        g[key] = (cls, items2)
                        tail = tail[1:]
                    inst.payload = [Each(C, (it.site, 'front'), g)] + tail
            elif b is not None and b[0] is inst and len(p) > b[1]:
                items = self.flat_items(p[b[1]:])
                if not items:
                    inst.payload = p[:b[1]]
                elif self.junk is not None:
                    inst.payload = p[:b[1]] + [self.junk_seg(x) for x in items]
                elif not any(isinstance(x, (Star, Each, Fill)) for x in items):
                    items2 = tuple(self.rv(x, e, new) for x in items)
                    head = p[:b[1]]
                    key = (cls, tuple(self.ren(self.canon(x, {}), e, new) for x in items2))
                    last = head[-1] if head else None
                    if isinstance(last, Each) and last.coll == C and last.site == it.site:
                        g = dict(last.groups)
                        g[key] = (cls, items2)
                        head = head[:-1] + [Each(C, it.site, g)]
                    else:
                        head = head + [Each(C, it.site, {key: (cls, items2)})]
                    inst.payload = head
            elif b is not None and b[0] is inst and len(p) == b[1]:
                last = p[-1] if p else None
                if isinstance(last, Each) and last.coll == C and last.site == it.site and not self.forget:
                    g = dict(last.groups)
                    g[(cls, ())] = (cls, ())
                    inst.payload = p[:-1] + [Each(C, it.site, g)]
            for i, s in enumerate(inst.payload):
                if isinstance(s, Fill) and s.coll == C:
                    if s.cur is not None and s.cur[0] == e:
                        if s.done:
                            ea = {}
                        else:
                            ea = dict(s.each)
                        val = self.rv(s.cur[1], e, new)
                        ea[self.canon(val, {})] = val
                        inst.payload = inst.payload[:i] + [Fill(C, s.default, ea, None, it.site, False)] + inst.payload[i + 1:]
                    elif not s.done:
                        ea = dict(s.each)
                        ea[self.canon(s.default, {})] = s.default
                        inst.payload = inst.payload[:i] + [Fill(C, s.default, ea, None, it.site, False)] + inst.payload[i + 1:]
        # rename everywhere
        for inst in insts:
            for k in list(inst.attrs):
                inst.attrs[k] = self.rv(inst.attrs[k], e, new)
            if isinstance(inst.payload, (list, dict, tuple)):
                inst.payload = self.rv(inst.payload, e, new)
        for x in its:
            if isinstance(x, Frame):
                for k in list(x.L):
                    x.L[k] = self.rv(x.L[k], e, new)
                x.temps[:] = [self.rv(t, e, new) for t in x.temps]
                x.ctl[:] = [self.rv(t, e, new) for t in x.ctl]
            else:
                for p in x.parts():
                    val = getattr(x, p)
                    if not isinstance(val, (It, Frame)):
                        setattr(x, p, self.rv(val, e, new))
        for d, k, old in self.journal:
            if isinstance(d, Inst):
                setattr(d, k, self.rv(getattr(d, k), e, new))
            elif k in d:
                d[k] = self.rv(d[k], e, new)
        self.mon = self.rv(self.mon, e, new)
        self.fields = {k: self.rv(v, e, new) for k, v in self.fields.items()
                       if not self.contains(k[0], e)}
        for dn in ('facts', 'resolved', 'lens', 'recs', 'altval'):
            d = getattr(self, dn)
            for k in [k for k in d if self.contains(k, e)]:
                del d[k]
        it.cur = None
        self.cur_names = frozenset(x for x in self.cur_names if not self.contains(x, e))
        self.note_base(it, insts)
        return cls

    def flat_items(self, items):
        """What an inner loop appended, without multiplicity and order."""
        out = []
        seen = set()

        def put(x):
            k = self.canon(x, {})
            if k not in seen:
                seen.add(k)
                out.append(x)
        if not self.forget or not any(isinstance(x, (Star, Each)) for x in items):
            return tuple(items)
        for x in items:
            if isinstance(x, Each):
                for ck, its in x.groups.values():
                    for y in its:
                        put(y)
            elif isinstance(x, Star):
                if self.len_cmp('>', x.coll.name, 0):
                    h = x.coll.hint.elem if x.coll.hint is not None else None
                    put(Sym(('r', x.coll.name, frozenset()), H_ANY if h is None or callable(h) else h))
            else:
                put(x)
        return tuple(out)

    def fresh_elem(self, it, e):
        """An abandoned pass may have left its current element behind under the
        same name: it becomes an ordinary past element."""
        if e in self.cur_names:
            rec = self.recs.get(e[1])
            base = None
            for x, b in (rec.live if rec is not None else ()):
                if x == e:
                    base = b
            old = (it.cur, it.curbase, it.base, it.seen, it.order)
            it.cur, it.curbase, it.base, it.seen, it.order = e, None, None, set(), ()
            hook, self.on_retire = self.on_retire, None
            order = rec.order if rec is not None else ()
            self.retire(it, base)
            if rec is not None:
                rec.order = order
            self.on_retire = hook
            it.cur, it.curbase, _, it.seen, it.order = old
        self.cur_names = self.cur_names | {e}

    def junk_seg(self, x):
        kind = self.junk(x)
        C = ('junk', kind)
        y = Sym(('r', C, frozenset()), x.hint) if isinstance(x, Sym) else x
        return Each(C, 'junk', {(frozenset(), (self.canon(y, {}),)): (frozenset(), (y,))})

    def norm_junk(self, inst):
        p = inst.payload
        seen = set()
        out = []
        for s in p:
            if isinstance(s, Each) and s.coll[:1] == ('junk',):
                if s.coll in seen:
                    continue
                seen.add(s.coll)
            elif isinstance(s, Each):
                for x in s.items():
                    y = self.junk_seg(x)
                    if y.coll not in seen:
                        seen.add(y.coll)
                        out.append(y)
                continue
            out.append(s)
        if len(out) != len(p) or any(a is not b for a, b in zip(out, p)):
            inst.payload = out

    def note_base(self, it, insts=None):
        if insts is None:
            insts, _ = self.live()
        it.base = {}
        for inst in insts:
            if isinstance(inst.payload, list):
                if self.junk is not None:
                    self.norm_junk(inst)
                p = inst.payload
                it.base[id(inst)] = (inst, len(p), tuple(p))

    def finish_pass(self, it):
        C = it.coll.name
        if self.forget:
            rec = Rec()
        else:
            rec = self.recs.get(C)
            if rec is None:
                rec = self.recs[C] = Rec()
        rec.completed = frozenset(it.seen)
        rec.exists = set(it.seen)
        rec.order = it.order
        if self.forget:
            pass
        elif not it.seen:
            self.lens[C] = (0, 0)
        else:
            lo, hi = self.lens.get(C, (0, None))
            self.lens[C] = (max(lo, 1), hi)
        insts, _ = self.live()
        for inst in insts:
            p = inst.payload
            if isinstance(p, list):
                for i, s in enumerate(p):
                    if isinstance(s, Fill) and s.coll == C and (s.site == it.site) and not s.done:
                        p = p[:i] + [Fill(s.coll, s.default, s.each, s.cur, s.site, True)] + p[i + 1:]
                inst.payload = p
        self.emit('pass', it)

    def on_elem(self, it, e):
        self.emit('elem', it, e)

    def fill_support(self, seg):
        vals = dict(seg.each)
        if seg.cur is not None:
            vals[self.canon(seg.cur[1], {})] = seg.cur[1]
        if not seg.done:
            lo, hi = self.lens.get(seg.coll, (0, None))
            if hi == 0:
                return vals
            if not vals:
                if lo == 0:
                    if self.choose(2, ('empty?', seg.coll)) == 1:
                        self.lens[seg.coll] = (0, 0)
                        return vals
                    self.lens[seg.coll] = (1, hi)
                vals[self.canon(seg.default, {})] = seg.default
            elif self.choose(2, 'unassigned entries remain') == 0:
                vals[self.canon(seg.default, {})] = seg.default
        return vals

    def elem_value(self, coll, e):
        h = coll.hint.elem if coll.hint is not None else None
        if callable(h):
            return h(self, coll, e)
        return Sym(e, h or H_ANY)

    # -- facts ----------------------------------------------------------------

    def lookup_fact(self, key):
        if key in self.facts:
            return self.facts[key]
        r = self.find_r(key)
        if r is not None:
            k2 = self.ren(key, r, ('@',))
            for kind, k, val in r[2]:
                if kind == 'f' and k == k2:
                    return val
        return None

    def find_r(self, name):
        if isinstance(name, tuple):
            if len(name) == 3 and name[0] == 'r' and isinstance(name[2], frozenset):
                return name
            for x in name:
                if isinstance(x, tuple):
                    r = self.find_r(x)
                    if r is not None:
                        return r
        return None

    def ask(self, key, label=None):
        """Truth of an unknown predicate, memoised as a fact."""
        v = self.lookup_fact(key)
        if v is not None:
            return v
        v = self.choose(2, label or key) == 0
        if self.find_r(key) is None:
            self.facts[key] = v
        return v

    def force(self, v):
        """Resolve lazily enumerated symbols."""
        while isinstance(v, Sym) and v.hint is not None and v.hint.kind == 'alts':
            n = v.name
            if n in self.altval:
                v2 = self.altval[n]
                v = v2
                continue
            idx = self.resolved.get(n)
            if idx is None:
                r = self.find_r(n)
                if r is not None:
                    k2 = self.ren(n, r, ('@',))
                    for kind, k, val in r[2]:
                        if kind == 'r' and k == k2:
                            idx = val
                            break
            if idx is None:
                alts = v.hint.alts
                ok = [i for i, a in enumerate(alts) if len(a) < 3 or a[2](self, v)]
                if not ok:
                    raise Cut()
                idx = ok[self.choose(len(ok), ('alt', n))]
                if self.find_r(n) is None:
                    self.resolved[n] = idx
            val = v.hint.alts[idx][1]
            if callable(val) and not isinstance(val, (Hint, type)):
                val = val(self, v)
            if isinstance(val, Hint):
                val = Sym(n, val)
            if not (isinstance(val, Sym) and val.name == n and val.hint.kind == 'alts'):
                if self.find_r(n) is None:
                    self.altval[n] = val
            v = val
        return v

    def alt_label(self, sym_or_name, hint=None):
        n = sym_or_name.name if isinstance(sym_or_name, Sym) else sym_or_name
        return self.resolved.get(n)

    # -- errors ---------------------------------------------------------------

    def exc(self, typ, msg=''):
        e = Inst(typ, attrs={'args': (msg,)})
        return AbsExc(e, self.where())

    def opaque_exc(self, label='error'):
        e = Inst(Exception, attrs={'args': (label,)})
        e.opaque = True
        return AbsExc(e, self.where())

    # -- modules --------------------------------------------------------------

    def module_path(self, dotted):
        base = os.path.join(self.root, *dotted.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return p if os.path.exists(p) else None
        if os.path.exists(base + '.py'):
            return base + '.py'
        return None

    def import_module(self, dotted):
        """Import a repository module (and its parents); returns Mod."""
        parts = dotted.split('.')
        mod = None
        for i in range(1, len(parts) + 1):
            name = '.'.join(parts[:i])
            sub = self._import_one(name)
            if mod is not None:
                if parts[i - 1] not in mod.ns or not isinstance(mod.ns.get(parts[i - 1]), Mod):
                    if mod.ns.get(parts[i - 1]) is not sub:
                        self.setitem_raw(mod.ns, parts[i - 1], sub)
            mod = sub
        return mod

    def setitem_raw(self, d, k, v):
        if not self.init_mode:
            self.journal.append((d, k, d.get(k, MISSING)))
        d[k] = v

    def _import_one(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.module_path(name)
        if path is None:
            raise self.exc(ModuleNotFoundError, 'No module named %r' % name)
        return self.load_source(name, path, {})

    def load_source(self, name, path, ns):
        src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        m = Mod(name, dict(ns, __name__=name, __file__=path, __doc__=ast.get_docstring(tree)), path, tree)
        # modules can be loaded in the middle of an abstract path: they are
        # static, so load them outside of the path
        saved = None
        if not self.init_mode:
            saved = (self.init_mode, self.frames)
            self.init_mode = True
        self.modules[name] = m
        self.files[path] = name
        if name == 'ndg':
            if saved:
                self.init_mode = saved[0]
            return m
        f = Frame(None, m, None, None, 'module')
        f.L = m.ns
        self.frames.append(f)
        try:
            self.exec_block(tree.body, f)
        except AbsExc:
            self.modules.pop(name, None)
            raise
        finally:
            self.frames.pop()
            if saved:
                self.init_mode = saved[0]
        if saved:
            # everything the module created is static
            pass
        return m

    def cls(self, qual):
        """Class by dotted path, e.g. ndg.xacml.core.rule.Rule."""
        modname, name = qual.rsplit('.', 1)
        try:
            m = self.import_module(modname)
        except AbsExc:
            raise AnchorMissing('module %s cannot be loaded' % modname)
        c = m.ns.get(name)
        if not isinstance(c, Cls):
            raise AnchorMissing('class %s not found' % qual)
        return c

    def obj(self, qual):
        modname, name = qual.rsplit('.', 1)
        try:
            m = self.import_module(modname)
        except AbsExc:
            raise AnchorMissing('module %s cannot be loaded' % modname)
        if name not in m.ns:
            raise AnchorMissing('%s not found' % qual)
        return m.ns[name]

    def modelled(self, dotted):
        """Stand-in for an external module, when one is asked for."""
        if not self.config.get('etree') or dotted not in ('xml.etree.ElementTree', 'lxml.etree'):
            return None
        if dotted not in self.modules:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pymodels', 'etree.py')
            def hook(name):
                def f(I, a, k):
                    m = I.ext_models.get(name)
                    if m is None:
                        raise Unsupported('no model of ' + name)
                    return m(I, a, k)
                return Native(name, f)
            self.load_source(dotted, path, {'LXML': dotted.startswith('lxml'), '_xa_parse': hook('etree.parse'),
                                            '_xa_tostring': hook('etree.tostring')})
        return self.modules[dotted]

    def ext_import(self, dotted):
        top = dotted.split('.')[0]
        if top == 'lxml':
            if not self.config['lxml']:
                raise self.exc(ImportError, 'No module named lxml')
            return self.modelled(dotted) or Ext(dotted)
        if top in sys.stdlib_module_names:
            return self.modelled(dotted) or Ext(dotted)
        raise self.exc(ImportError, 'No module named %s' % dotted)

    def ext_attr(self, name, attr):
        full = '%s.%s' % (name, attr)
        m = self.modelled(full)
        if m is not None:
            return m
        if full in EXT_REAL:
            return EXT_REAL[full]
        if (full, 'value') in self.fields:
            return self.fields[(full, 'value')]
        nat = self.models.EXT_NATIVE.get(full)
        if nat is not None:
            return Native(full, lambda I, a, k: I.ext_models.get(full, nat)(I, a, k))
        return Ext(full)

    # -- classes --------------------------------------------------------------

    def build_class(self, name, bases, ns, mod, node=None, abc_meta=False):
        bases = [b for b in bases] or [object]
        qual = '%s.%s' % (mod.name if mod else '?', name)
        c = Cls(name, qual, mod, bases, ns, node)
        c.mro = self.c3(c, bases)
        c.abc = abc_meta or any(isinstance(b, Cls) and b.abc or b is abc.ABC or
                                (isinstance(b, type) and type(b) is abc.ABCMeta) for b in bases)
        sl = ns.get('__slots__', MISSING)
        if sl is not MISSING:
            if isinstance(sl, str):
                names = [sl]
            else:
                try:
                    names = [x for x in self.seq_items(sl)]
                except Unsupported:
                    names = []
            c.slots = tuple(mangle(x, name) for x in names if isinstance(x, str))
        has_dict = sl is MISSING or '__dict__' in c.slots
        for b in c.mro[1:]:
            if isinstance(b, Cls):
                has_dict = has_dict or ('__slots__' not in b.ns)
            elif isinstance(b, Ext):
                has_dict = True
            elif isinstance(b, type) and (issubclass(b, BaseException)):
                has_dict = True
        c.has_dict = has_dict
        for v in list(ns.values()):
            f = v.func if isinstance(v, (SM, CM)) else v
            if isinstance(f, Func) and f.closure is None or isinstance(f, Func):
                if '__class__' not in f.attrs:
                    f.attrs['__class__'] = c
            if isinstance(f, Prop):
                for g in (f.fget, f.fset, f.fdel):
                    if isinstance(g, Func) and '__class__' not in g.attrs:
                        g.attrs['__class__'] = c
        # __init_subclass__
        for b in c.mro[1:]:
            if isinstance(b, Cls) and '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                f = f.func if isinstance(f, CM) else f
                self.call(f, [c], {})
                break
        return c

    def c3(self, c, bases):
        def mro_of(b):
            if isinstance(b, Cls):
                return list(b.mro)
            if isinstance(b, type):
                return list(b.__mro__)
            return [b, object]
        seqs = [mro_of(b) for b in bases] + [list(bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return tuple(out)
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            for s in seqs:
                if s[0] is cand or s[0] == cand and not isinstance(cand, Ext):
                    del s[0]
                elif isinstance(cand, Ext) and isinstance(s[0], Ext) and s[0].name == cand.name:
                    del s[0]

    def class_of(self, v):
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Sym):
            v = self.force(v)
            if isinstance(v, Sym):
                return v.hint.cls if v.hint else None
            return self.class_of(v)
        if isinstance(v, (Cls, type)):
            return type
        if v is None or is_const(v) or isinstance(v, (tuple, slice)):
            return type(v)
        if isinstance(v, (Func, Bound, Native, BMeth, Partial)):
            return type(lambda: 0)
        return None

    def mro(self, c):
        if isinstance(c, Cls):
            return c.mro
        if isinstance(c, type):
            return c.__mro__
        return (c,)

    def issub(self, c, d):
        """issubclass on class values; None if unknown."""
        if c is d or d is object:
            return True
        if isinstance(c, Ext) or isinstance(d, Ext):
            if isinstance(c, Ext) and isinstance(d, Ext) and c.name == d.name:
                return True
            m = self.mro(c)
            if any(isinstance(x, Ext) and isinstance(d, Ext) and x.name == d.name for x in m):
                return True
            if isinstance(c, Cls) and not any(isinstance(x, Ext) for x in m):
                return False
            if isinstance(c, type):
                return False
            if isinstance(c, Ext) and isinstance(d, Cls):
                return False
            return None
        if isinstance(c, type) and isinstance(d, type):
            try:
                return issubclass(c, d)
            except TypeError:
                return False
        m = self.mro(c)
        if d in m:
            return True
        if isinstance(d, type):
            # builtin ABCs such as Callable/Iterable are not modelled structurally
            for b in m:
                if isinstance(b, type) and issubclass(b, d):
                    return True
            if d is collections.abc.Callable:
                return self.class_lookup(c, '__call__') is not None
            if d is collections.abc.Iterable:
                return self.class_lookup(c, '__iter__') is not None
            return False
        if isinstance(d, Cls):
            for r in d.registry:
                if self.issub(c, r):
                    return True
            for b in d.mro:
                if isinstance(b, Cls) and '__subclasshook__' in b.ns:
                    h = b.ns['__subclasshook__']
                    h = h.func if isinstance(h, CM) else h
                    r = self.call(h, [d, c], {})
                    if r is not NotImplemented:
                        return self.truth(r)
                    break
            for k in self.subclasses_registered(d):
                if self.issub(c, k):
                    return True
        return False

    def subclasses_registered(self, d):
        return ()

    def class_lookup(self, c, name):
        """(definer, raw value) through the MRO, or None."""
        for k in self.mro(c):
            if isinstance(k, Cls):
                if name in k.ns:
                    return (k, k.ns[name])
            elif isinstance(k, type):
                if name in k.__dict__ or (k in (abc.ABC,) and False):
                    return (k, k.__dict__[name])
            elif isinstance(k, Ext):
                return (k, Ext('%s.%s' % (k.name, name)))
        return None

    def src_lookup(self, c, name):
        """Like class_lookup but only source-defined; None otherwise."""
        if c is None:
            return None
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.ns:
                return (k, k.ns[name])
        return None

    def builtin_base(self, c):
        for k in self.mro(c):
            if isinstance(k, type) and k in (list, dict, set, frozenset, str, int, tuple, float, bytes):
                return k
        return None

    def instance_attrs(self, c):
        """Names assigned on self anywhere in the class hierarchy, plus slots."""
        names = set()
        for k in self.mro(c):
            if isinstance(k, Cls):
                names.update(k.slots)
                if k.node is not None:
                    cached = self.namecache.get(('ia', k.serial))
                    if cached is None:
                        cached = set()
                        for n in ast.walk(k.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                                    and isinstance(n.value, ast.Name):
                                cached.add(mangle(n.attr, k.name))
                        self.namecache[('ia', k.serial)] = cached
                    names.update(cached)
        return names

    # -- attribute access -----------------------------------------------------

    def getattr(self, v, name):
        if isinstance(v, Sym):
            v = self.force(v)
        if isinstance(v, Sym):
            return self.sym_getattr(v, name)
        if isinstance(v, Inst):
            return self.inst_getattr(v, name)
        if isinstance(v, Cls):
            return self.cls_getattr(v, name)
        if isinstance(v, Mod):
            if name in v.ns:
                return v.ns[name]
            p = self.module_path('%s.%s' % (v.name, name))
            if '%s.%s' % (v.name, name) in self.modules:
                return self.modules['%s.%s' % (v.name, name)]
            raise self.exc(AttributeError, 'module %s has no attribute %s' % (v.name, name))
        if isinstance(v, Ext):
            key = (('ext', v.name), name)
            if key in self.fields:
                return self.fields[key]
            return self.ext_attr(v.name, name)
        if isinstance(v, SuperV):
            return self.super_getattr(v, name)
        if isinstance(v, Func):
            if name == '__name__':
                return v.name
            if name == '__doc__':
                return ast.get_docstring(v.node) if isinstance(v.node, ast.FunctionDef) else None
            if name == '__module__':
                return v.mod.name
            if name in v.attrs and name != '__class__':
                return v.attrs[name]
            raise self.exc(AttributeError, name)
        if isinstance(v, Prop):
            if name in ('fget', 'fset', 'fdel'):
                return getattr(v, name)
            if name in ('setter', 'getter', 'deleter'):
                return BMeth(property, name, v)
            if name == '__set__':
                return Native('prop.__set__', lambda I, a, k: I.call(v.fset, a, {}))
            if name == '__get__':
                return Native('prop.__get__', lambda I, a, k: I.call(v.fget, a[:1], {}))
            raise self.exc(AttributeError, name)
        if isinstance(v, Bound):
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            return self.getattr(v.func, name)
        if isinstance(v, (SM, CM)):
            if name == '__func__':
                return v.func
        if isinstance(v, It):
            if name in ('__next__', '__iter__', 'close', 'send'):
                return BMeth('iter', name, v)
        if isinstance(v, (Native, BMeth, Partial)):
            if name == '__name__':
                return v.name if not isinstance(v, Partial) else 'partial'
            if isinstance(v, Partial) and name in ('func', 'args', 'keywords'):
                return {'func': v.func, 'args': tuple(v.args)}.get(name)
            raise self.exc(AttributeError, name)
        # constants, tuples, real types
        if name == '__class__':
            return type(v)
        if isinstance(v, type):
            if name == '__name__':
                return v.__name__
            if name == '__mro__':
                return tuple(v.__mro__)
            if name == '__doc__':
                return v.__doc__
            if name == '__bases__':
                return tuple(v.__bases__)
            if name == '__module__':
                return v.__module__
            if name == '__dict__':
                return Sym(('typedict', v.__name__), H_ANY)
            if name == 'register' and isinstance(v, abc.ABCMeta):
                return Native('register', lambda I, a, k: a[0])
            if hasattr(v, name):
                raw = getattr(v, name)
                if callable(raw):
                    return BMeth(v, name, MISSING)
                if is_const(raw):
                    return raw
                return Ext('%s.%s' % (v.__name__, name))
            raise self.exc(AttributeError, "type object %r has no attribute %r" % (v.__name__, name))
        if v is NotImplemented or v is Ellipsis:
            raise self.exc(AttributeError, name)
        if isinstance(v, tuple) or is_const(v):
            if hasattr(type(v), name):
                raw = getattr(type(v), name)
                if callable(raw):
                    return BMeth(type(v), name, v)
                if isinstance(v, tuple) and not hasattr(v, '_fields'):
                    return raw
                r = getattr(v, name)
                return r if is_const(r) else Sym(('a', self.nm(v), name), H_ANY)
            raise self.exc(AttributeError, "%r object has no attribute %r" % (type(v).__name__, name))
        raise Unsupported('getattr %r.%s' % (v, name))

    def bind(self, raw, obj, c, name):
        """Descriptor binding of class attribute `raw` found on class of obj."""
        if isinstance(raw, (Func, Native)):
            if isinstance(raw, Native):
                return raw
            return Bound(raw, obj)
        if isinstance(raw, Prop):
            if raw.fget is None:
                raise self.exc(AttributeError, 'unreadable attribute %s' % name)
            return self.call(raw.fget, [obj], {})
        if isinstance(raw, SM):
            return raw.func
        if isinstance(raw, CM):
            return Bound(raw.func, c)
        if isinstance(raw, Bound):
            return raw
        if isinstance(raw, Ext):
            return Partial(raw, [obj], {})
        if isinstance(raw, Inst) and isinstance(raw.cls, Cls):
            g = self.src_lookup(raw.cls, '__get__')
            if g:
                return self.call(g[1], [raw, obj, c], {})
        return raw

    def real_attr(self, k, raw, name, obj):
        """Attribute of builtin class k on an instance."""
        if name == '__class__':
            return self.class_of(obj)
        if name in ('__doc__',):
            return None
        if name == '__dict__':
            return Inst(dict, payload={self.nm(a): (a, b) for a, b in getattr(obj, 'attrs', {}).items()})
        if name == '__module__' or name == '__hash__' and raw is None:
            return None
        if callable(raw) or isinstance(raw, (staticmethod, classmethod)):
            return BMeth(k, name, obj)
        if is_const(raw):
            return raw
        return BMeth(k, name, obj)

    def inst_getattr(self, v, name, default=MISSING):
        c = v.cls
        if name == '__class__':
            return c
        if isinstance(c, Cls):
            ga = self.src_lookup(c, '__getattribute__')
            if ga:
                return self.call(ga[1], [v, name], {})
        hit = self.class_lookup(c, name)
        if hit is not None and isinstance(hit[1], (Prop,)):
            try:
                return self.bind(hit[1], v, c, name)
            except AbsExc as e:
                if self.exc_matches(e.value, AttributeError) is True:
                    g = self.src_lookup(c, '__getattr__')
                    if g:
                        return self.call(g[1], [v, name], {})
                raise
        if name in v.attrs:
            return v.attrs[name]
        if name == '__dict__':
            if isinstance(c, Cls) and not c.has_dict:
                raise self.exc(AttributeError, '__dict__')
            return Inst(dict, payload={self.nm(a): (a, b) for a, b in v.attrs.items()})
        if isinstance(c, type) and issubclass(c, BaseException):
            if name == 'args':
                return v.attrs.get('args', ())
            if name == 'message':
                raise self.exc(AttributeError, 'message')
        if hit is not None:
            k, raw = hit
            if isinstance(k, Cls):
                return self.bind(raw, v, c, name)
            if isinstance(k, Ext):
                return self.sym_ext_attr(v, k, name)
            return self.real_attr(k, raw, name, v)
        if v.opaque:
            return Sym(('a', ('opaque', v.serial if v.serial <= self.boundary else 'new'), name), H_ANY)
        if isinstance(c, Cls):
            g = self.src_lookup(c, '__getattr__')
            if g:
                return self.call(g[1], [v, name], {})
        cn = c.name if isinstance(c, Cls) else getattr(c, '__name__', '?')
        raise self.exc(AttributeError, "%r object has no attribute %r" % (cn, name))

    def sym_ext_attr(self, v, k, name):
        return Partial(Ext('%s.%s' % (k.name, name)), [v], {})

    def cls_getattr(self, c, name):
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.name
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__module__':
            return c.mod.name if c.mod else None
        if name == '__class__':
            return type if not c.abc else abc.ABCMeta
        if name == '__dict__':
            return Inst(dict, payload={self.nm(a): (a, b) for a, b in c.ns.items()})
        if name == '__slots__' and '__slots__' in c.ns:
            return c.ns['__slots__']
        if name == '__doc__':
            if '__doc__' in c.ns:
                return c.ns['__doc__']
            return ast.get_docstring(c.node) if c.node is not None else None
        if name == '__subclasses__':
            return Native('__subclasses__', lambda I, a, k: Inst(list, payload=[
                x for m in I.modules.values() for x in m.ns.values()
                if isinstance(x, Cls) and c in x.bases]))
        hit = self.class_lookup(c, name)
        if hit is None:
            if name in c.slots:
                return Ext('slot.%s' % name)
            if name == 'register' and c.abc:
                return Native('register', lambda I, a, k: I.register_abc(c, a[0]))
            if name == 'mro':
                return Native('mro', lambda I, a, k: Inst(list, payload=list(c.mro)))
            raise self.exc(AttributeError, 'class %s has no attribute %s' % (c.name, name))
        k, raw = hit
        if isinstance(k, Cls):
            if isinstance(raw, CM):
                return Bound(raw.func, c)
            if isinstance(raw, SM):
                return raw.func
            return raw
        if name == 'register' and c.abc:
            return Native('register', lambda I, a, k2: I.register_abc(c, a[0]))
        if isinstance(k, Ext):
            return raw
        if callable(raw) or isinstance(raw, (staticmethod, classmethod)):
            bm = BMeth(k, name, MISSING)
            if isinstance(raw, (classmethod,)) or isinstance(getattr(k, name, None), type(dict.fromkeys)):
                bm = BMeth(k, name, c) if isinstance(raw, classmethod) else bm
            return bm
        return raw if is_const(raw) else Ext('%s.%s' % (k.__name__, name))

    def register_abc(self, c, d):
        c.registry.append(d)
        return d

    def super_getattr(self, v, name):
        obj = v.obj
        is_cls = isinstance(obj, (Cls, type)) 
        c = obj if is_cls else self.class_of(obj)
        m = self.mro(c)
        try:
            i = list(m).index(v.cls)
        except ValueError:
            raise self.exc(TypeError, 'super(type, obj): obj must be an instance or subtype of type')
        for k in m[i + 1:]:
            if isinstance(k, Cls):
                if name in k.ns:
                    raw = k.ns[name]
                    if is_cls:
                        if isinstance(raw, CM):
                            return Bound(raw.func, obj)
                        if isinstance(raw, SM):
                            return raw.func
                        return raw
                    return self.bind(raw, obj, c, name)
            elif isinstance(k, type):
                if name in k.__dict__:
                    if is_cls and name == '__new__':
                        return BMeth(k, name, MISSING)
                    return BMeth(k, name, obj)
            elif isinstance(k, Ext):
                return Partial(Ext('%s.%s' % (k.name, name)), [obj], {})
        raise self.exc(AttributeError, "'super' object has no attribute %r" % name)

    def sym_getattr(self, v, name):
        h = v.hint or H_ANY
        c = h.cls
        if h.kind in ('any', 'opaque'):
            key = (v.name, name)
            if key in self.fields:
                return self.fields[key]
            if name in h.fields:
                return self.field_spec(v, name, h.fields[name])
            if name == '__class__':
                return Sym(('typeof', v.name), H_ANY)
            return Sym(('a', v.name, name), H_ANY)
        if name == '__class__':
            return c
        key = (v.name, name)
        if isinstance(c, Cls):
            hit = self.class_lookup(c, name)
            if hit is not None and isinstance(hit[1], Prop):
                if ('prop', name) in h.fields and key not in self.fields:
                    return self.field_spec(v, name, h.fields[('prop', name)])
                return self.bind(hit[1], v, c, name)
            if key in self.fields:
                r = self.fields[key]
                if r is MISSING:
                    raise self.exc(AttributeError, name)
                return r
            if name in h.fields:
                return self.field_spec(v, name, h.fields[name])
            if hit is not None:
                k, raw = hit
                if isinstance(k, Cls):
                    return self.bind(raw, v, c, name)
                if isinstance(k, Ext):
                    return self.sym_ext_attr(v, k, name)
                if name not in k.__dict__ or True:
                    return self.real_attr(k, raw, name, v)
            if name in self.instance_attrs(c):
                return Sym(('a', v.name, name), H_ANY)
            g = self.src_lookup(c, '__getattr__')
            if g:
                return self.call(g[1], [v, name], {})
            raise self.exc(AttributeError, '%r object has no attribute %r' % (c.name, name))
        if key in self.fields:
            return self.fields[key]
        if name in h.fields:
            return self.field_spec(v, name, h.fields[name])
        if isinstance(c, type):
            if hasattr(c, name):
                raw = getattr(c, name)
                if callable(raw):
                    return BMeth(c, name, v)
                return Sym(('a', v.name, name), H_ANY)
            raise self.exc(AttributeError, '%r object has no attribute %r' % (c.__name__, name))
        return Sym(('a', v.name, name), H_ANY)

    def field_spec(self, v, name, spec):
        key = (v.name, name)
        if isinstance(spec, Hint):
            return Sym(('a', v.name, name), spec)
        if callable(spec) and not isinstance(spec, (type, Sym)):
            val = spec(self, v)
            return val
        return spec

    def setattr(self, v, name, val):
        if isinstance(v, Sym):
            v = self.force(v)
        if isinstance(v, Sym):
            h = v.hint or H_ANY
            c = h.cls
            if isinstance(c, Cls):
                sa = self.src_lookup(c, '__setattr__')
                if sa:
                    return self.call(sa[1], [v, name, val], {})
                self._setattr_class(v, c, name, val)
                return
            self.emit('setattr', v, name, val)
            self.fields[(v.name, name)] = val
            return
        if isinstance(v, Inst):
            c = v.cls
            if isinstance(c, Cls):
                sa = self.src_lookup(c, '__setattr__')
                if sa:
                    self.call(sa[1], [v, name, val], {})
                    return
            self._setattr_class(v, c, name, val)
            return
        if isinstance(v, Cls):
            self.emit('setattr', v, name, val)
            if not self.init_mode:
                self.journal.append((v.ns, name, v.ns.get(name, MISSING)))
            v.ns[name] = val
            return
        if isinstance(v, Mod):
            self.emit('setattr', v, name, val)
            self.setitem_raw(v.ns, name, val)
            return
        if isinstance(v, Ext):
            self.emit('setattr', v, name, val)
            self.fields[(('ext', v.name), name)] = val
            return
        if isinstance(v, Func):
            self.emit('setattr', v, name, val)
            self.setitem_raw(v.attrs, name, val)
            return
        raise self.exc(AttributeError, 'cannot set %s' % name)

    def _setattr_class(self, v, c, name, val):
        hit = self.class_lookup(c, name)
        if hit is not None and isinstance(hit[1], Prop):
            if hit[1].fset is None:
                raise self.exc(AttributeError, "can't set attribute %r" % name)
            self.call(hit[1].fset, [v, val], {})
            return
        if hit is not None and isinstance(hit[1], Inst) and isinstance(hit[1].cls, Cls):
            s = self.src_lookup(hit[1].cls, '__set__')
            if s:
                self.call(s[1], [hit[1], v, val], {})
                return
        if name == '__class__':
            raise Unsupported('assignment to __class__')
        self.raw_setattr(v, name, val)

    def raw_setattr(self, v, name, val):
        """object.__setattr__ without descriptors."""
        c = self.class_of(v)
        if isinstance(c, Cls) and not c.has_dict:
            allowed = set()
            for k in c.mro:
                if isinstance(k, Cls):
                    allowed.update(k.slots)
            if name not in allowed:
                raise self.exc(AttributeError, '%r object has no attribute %r' % (c.name, name))
        elif isinstance(c, type) and c in (object, list, dict, str, int, tuple, set):
            raise self.exc(AttributeError, '%r object has no attribute %r' % (c.__name__, name))
        self.emit('setattr', v, name, val)
        if isinstance(v, Inst):
            if not self.init_mode and v.serial <= self.boundary:
                self.journal.append((v.attrs, name, v.attrs.get(name, MISSING)))
            v.attrs[name] = val
        else:
            self.fields[(v.name, name)] = val

    def delattr(self, v, name):
        v = self.force(v) if isinstance(v, Sym) else v
        if isinstance(v, Inst):
            self.emit('delattr', v, name)
            hit = self.class_lookup(v.cls, name)
            if hit is not None and isinstance(hit[1], Prop):
                if hit[1].fdel is None:
                    raise self.exc(AttributeError, name)
                return self.call(hit[1].fdel, [v], {})
            if name not in v.attrs:
                raise self.exc(AttributeError, name)
            if not self.init_mode and v.serial <= self.boundary:
                self.journal.append((v.attrs, name, v.attrs.get(name, MISSING)))
            del v.attrs[name]
            return
        if isinstance(v, Sym):
            self.emit('delattr', v, name)
            self.fields[(v.name, name)] = MISSING
            return
        if isinstance(v, Cls):
            self.emit('delattr', v, name)
            if not self.init_mode:
                self.journal.append((v.ns, name, v.ns.get(name, MISSING)))
            v.ns.pop(name, None)
            return
        raise Unsupported('del attribute on %r' % (v,))

    def set_payload(self, v, p):
        self.emit('mutate', v, p)
        if not self.init_mode and v.serial <= self.boundary:
            self.journal.append((v, 'payload', v.payload))
        v.payload = p

    # -- truth / comparison ---------------------------------------------------

    def truth(self, v):
        v = self.force(v)
        if v is None or v is Ellipsis:
            return False if v is None else True
        if is_const(v):
            return True if v is NotImplemented else bool(v)
        if isinstance(v, tuple):
            return self.seq_nonempty(v)
        if isinstance(v, Inst):
            c = v.cls
            if isinstance(c, Cls):
                for nme in ('__bool__', '__len__'):
                    m = self.src_lookup(c, nme)
                    if m:
                        r = self.call(m[1], [v], {})
                        if nme == '__len__':
                            return self.truth(self.compare(ast.Gt(), r, 0))
                        return self.truth(r)
            p = v.payload
            if isinstance(p, (list, tuple)):
                return self.seq_nonempty(p)
            if isinstance(p, dict):
                return bool(p)
            if isinstance(p, (str, int, float, bytes)):
                return bool(p)
            if isinstance(p, Sym):
                return self.truth(p)
            return True
        if isinstance(v, Sym):
            h = v.hint or H_ANY
            if h.kind == 'bool':
                return self.ask(('truth', v.name))
            if h.kind == 'obj':
                c = h.cls
                if isinstance(c, Cls):
                    for nme in ('__bool__', '__len__'):
                        m = self.src_lookup(c, nme)
                        if m:
                            r = self.call(m[1], [v], {})
                            if nme == '__len__':
                                return self.truth(self.compare(ast.Gt(), r, 0))
                            return self.truth(r)
                if isinstance(c, type) and c in (int, float, str, bool, list, dict, set, tuple):
                    return self.ask(('truth', v.name))
                return True
            if h.kind == 'coll':
                return self.len_cmp('>', v.name, 0)
            if isinstance(v.name, tuple) and v.name and v.name[0] == 'lenp':
                return self.truth(self.compare(ast.NotEq(), v, 0))
            if h.kind in ('str', 'int'):
                t = self.lookup_fact(('truth', v.name))
                ps = self.models.pieces(self, v) if h.kind == 'str' and t is None else None
                if ps and (any(self.models.piece_text(p) for p in ps) or self.tails.get(v.name, {}).get('nonempty')):
                    return True
                if t is None:
                    # an equality with a constant settles truth
                    for c in self.eq_consts(v.name):
                        return bool(c)
                return self.ask(('truth', v.name))
            n = self.lookup_fact(('none', v.name))
            if n:
                return False
            t = self.ask(('truth', v.name))
            if t and n is None and self.find_r(v.name) is None:
                self.facts[('none', v.name)] = False
            return t
        if isinstance(v, It):
            return True
        return True

    def eq_consts(self, name):
        out = []
        for k, val in self.facts.items():
            if val and k[0] == 'eq':
                if k[1] == name and k[2][0] == 'k':
                    out.append(k[2][2])
                elif k[2] == name and k[1][0] == 'k':
                    out.append(k[1][2])
        return out

    def seq_nonempty(self, p):
        for s in p:
            if isinstance(s, Star):
                if self.len_cmp('>', s.coll.name, 0):
                    return True
            elif isinstance(s, Each):
                if any(g[1] for g in s.groups.values()):
                    return True
            elif isinstance(s, Fill):
                if self.len_cmp('>', s.coll, 0):
                    return True
            else:
                return True
        return False

    def len_cmp(self, op, C, k):
        """len(C) op k with interval refinement."""
        if op == '>':
            return not self.len_cmp('<=', C, k)
        if op == '>=':
            return not self.len_cmp('<', C, k)
        if op == '!=':
            return not self.len_cmp('==', C, k)
        if op == '<':
            return self.len_cmp('<=', C, k - 1)
        lo, hi = self.lens.get(C, None) or self.len_default(C)
        if op == '<=':
            if hi is not None and hi <= k:
                return True
            if lo > k:
                return False
            r = self.choose(2, ('len<=', C, k)) == 0
            if r:
                hi = k
            else:
                lo = k + 1
            self.lens[C] = (lo, hi)
            return r
        if op == '==':
            if (hi is not None and hi < k) or lo > k:
                return False
            if lo == hi == k:
                return True
            r = self.choose(2, ('len==', C, k)) == 0
            if r:
                self.lens[C] = (k, k)
            else:
                # keep an interval: split below / above
                if lo == k:
                    self.lens[C] = (k + 1, hi)
                elif hi == k:
                    self.lens[C] = (lo, k - 1)
                else:
                    if self.choose(2, ('len<', C, k)) == 0:
                        self.lens[C] = (lo, k - 1)
                    else:
                        self.lens[C] = (k + 1, hi)
            return r
        raise Unsupported(op)

    def len_default(self, C):
        r = self.recs.get(C)
        if r is not None and r.completed is not None:
            return (1, None) if r.completed else (0, 0)
        if r is not None and r.exists:
            return (1, None)
        return (0, None)

    def eq(self, a, b):
        """a == b as a Python bool (forking as needed) or a raw value if a source
        __eq__ returned something odd."""
        a = self.force(a)
        b = self.force(b)
        ca, cb = self.class_of(a), self.class_of(b)
        if isinstance(ca, Cls) and not isinstance(a, (Cls,)):
            m = self.src_lookup(ca, '__eq__')
            if m and isinstance(a, (Inst, Sym)):
                r = self.call(m[1], [a, b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(cb, Cls) and isinstance(b, (Inst, Sym)):
            m = self.src_lookup(cb, '__eq__')
            if m:
                r = self.call(m[1], [b, a], {})
                if r is not NotImplemented:
                    return r
        return self.eq0(a, b)

    def eq0(self, a, b):
        if isinstance(a, Inst) and isinstance(a.payload, (str, int)) and not isinstance(a.payload, bool):
            a = a.payload
        if isinstance(b, Inst) and isinstance(b.payload, (str, int)) and not isinstance(b.payload, bool):
            b = b.payload
        if is_const(a) and is_const(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if any(isinstance(x, (Star, Each, Fill)) for x in a + b):
                return self.ask(('eq',) + tuple(sorted((self.nm(a), self.nm(b)), key=repr)))
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, (Cls, type, Ext)) or isinstance(b, (Cls, type, Ext)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                s, o = (a, b) if isinstance(a, Sym) else (b, a)
                if (s.hint or H_ANY).kind not in ('any', 'opaque'):
                    return False
                if isinstance(s.name, tuple) and len(s.name) == 3 and s.name[0] == 'typeof' and s.name[2] == 'opaque':
                    return False        # a class unknown to the repository
                return self.ask(('eq',) + tuple(sorted((self.nm(a), self.nm(b)), key=repr)))
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.name == b.name
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a is b:
                return True
            pa, pb = a.payload, b.payload
            if isinstance(pa, list) and isinstance(pb, list):
                return self.eq0(tuple(pa), tuple(pb))
            if isinstance(pa, dict) and isinstance(pb, dict):
                if set(pa) != set(pb):
                    return False
                for k in pa:
                    if not self.truth(self.eq(pa[k][1], pb[k][1])):
                        return False
                return True
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        return a is b

    def sym_eq(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name[0] == b.name[0] == 'idx' and \
                a.name[1][1] == b.name[1][1] and a.name[1][0] + b.name[1][0] in ('er', 're'):
            rec = self.recs.get(a.name[1][1])
            if rec is None or rec.completed is None:
                return False        # the first walk: the current place and an earlier one
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                h = x.hint or H_ANY
                # len(...) compared with an int
                ln = self.len_name(x)
                if ln is not None and isinstance(y, int):
                    return self.len_cmp('==', ln[0], y - ln[1])
                if ln is not None and isinstance(y, Sym) and self.len_name(y):
                    rel = self.len_rel(ln, self.len_name(y))
                    if rel:
                        return rel == '='
                if y is None or y is NotImplemented:
                    if h.kind in ('any',):
                        return self.ask(('none', x.name)) if y is None else self.ask(('eq', x.name, ('k', 'NotImplementedType', y)))
                    return False
                if is_const(y):
                    if h.kind == 'str' and not isinstance(y, str):
                        return False
                    if h.kind == 'bool':
                        if isinstance(y, (bool, int)):
                            if y == 1:
                                return self.truth(x)
                            if y == 0:
                                return not self.truth(x)
                        return False
                    if h.kind == 'int' and not isinstance(y, (int, float)):
                        return False
                    if h.kind in ('obj', 'coll'):
                        # no source __eq__ (handled by caller): identity
                        if isinstance(h.cls, type) and isinstance(y, h.cls):
                            pass
                        elif isinstance(h.cls, Cls) and self.builtin_base(h.cls) in (str, int) \
                                and isinstance(y, self.builtin_base(h.cls)):
                            pass
                        else:
                            return False
                if isinstance(y, Inst) and h.kind in ('str', 'int', 'bool'):
                    if not isinstance(y.payload, (str, int, Sym)):
                        return False
                if isinstance(y, Sym):
                    hy = y.hint or H_ANY
                    prim = ('str', 'int', 'bool')
                    if h.kind in prim and hy.kind in ('obj', 'coll') and not isinstance(hy.cls, type):
                        return False
                    if h.kind in prim and hy.kind in prim and h.kind != hy.kind and 'str' in (h.kind, hy.kind):
                        return False
                    if h.kind == 'obj' and hy.kind == 'obj' and isinstance(h.cls, Cls) and isinstance(hy.cls, Cls):
                        pass
        r = self.models.cat_eq(self, a, b)
        if r is not None:
            return r
        na, nb = self.nm(a), self.nm(b)
        key = ('eq',) + tuple(sorted((na, nb), key=repr))
        known = self.lookup_fact(key)
        if known is None:
            # one constant per symbol
            for s, c in ((na, b), (nb, a)):
                if is_const(c):
                    for k in self.eq_consts(s):
                        if k != c:
                            return False
            # transitivity through a shared term
            if na[0] != 'k' and nb[0] != 'k':
                for t in self.eq_terms(na):
                    if t == nb:
                        return True
                    kk = ('eq',) + tuple(sorted((t, nb), key=repr))
                    if t[0] == 'k' and nb[0] == 'k':
                        return t == nb
                    f = self.lookup_fact(kk)
                    if f is not None:
                        return f
                for t in self.eq_terms(nb):
                    kk = ('eq',) + tuple(sorted((t, na), key=repr))
                    f = self.lookup_fact(kk)
                    if f is not None:
                        return f
        return self.ask(key)

    def eq_terms(self, name):
        out = []
        for k, val in list(self.facts.items()):
            if val and k[0] == 'eq':
                if k[1] == name:
                    out.append(k[2])
                elif k[2] == name:
                    out.append(k[1])
        return out

    def identical(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if is_const(a) and is_const(b):
            if a is None or b is None or a is NotImplemented or b is NotImplemented:
                return a is b
            return type(a) == type(b) and a == b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.name == b.name:
                return True
            ha, hb = (a.hint or H_ANY), (b.hint or H_ANY)
            if ha.kind in ('bool',) and hb.kind == 'bool':
                return self.truth(a) == self.truth(b)
            return self.ask(('is',) + tuple(sorted((a.name, b.name), key=repr)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            h = s.hint or H_ANY
            if o is None:
                if h.kind == 'any':
                    if self.lookup_fact(('truth', s.name)):
                        return False
                    return self.ask(('none', s.name))
                return False
            if isinstance(o, bool):
                if h.kind == 'bool':
                    return self.truth(s) == o
                if h.kind == 'any':
                    return self.ask(('is', s.name, ('k', 'bool', o)))
                return False
            if h.kind in ('any', 'opaque'):
                if isinstance(s.name, tuple) and len(s.name) == 3 and s.name[0] == 'typeof' and s.name[2] == 'opaque':
                    return False
                return self.ask(('is', s.name, self.nm(o)))
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a is b or (a == () and b == ())
        return a is b

    def len_name(self, s):
        """(collection name, offset) if s is a length symbol."""
        if isinstance(s, Sym) and isinstance(s.name, tuple) and s.name and s.name[0] == 'lenp':
            return (s.name[1], s.name[2])
        return None

    def len_rel(self, a, b):
        """How two lengths stand to each other when that is known: '<', '=' or '>'."""
        if a[0] == b[0]:
            return '=' if a[1] == b[1] else '<' if a[1] < b[1] else '>'
        if a[1] != b[1]:
            return None
        for x, y, less, more in ((a[0], b[0], '<', '>'), (b[0], a[0], '>', '<')):
            if x[:1] == ('each',) and x[1] == y:
                lo, hi = x[4]
                if lo == 0 and hi <= 1:
                    return less
                if lo >= 1 and hi > 1:
                    return more
        return None

    def len_sym(self, C, k=0):
        return Sym(('lenp', C, k), H_INT)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            a2 = self.force(a)
            c = self.class_of(a2)
            if isinstance(c, Cls) and isinstance(a2, (Inst, Sym)):
                m = self.src_lookup(c, '__ne__')
                if m:
                    return self.call(m[1], [a2, b], {})
            r = self.eq(a, b)
            return not self.truth(r)
        if t is ast.Is:
            return self.identical(a, b)
        if t is ast.IsNot:
            return not self.identical(a, b)
        if t is ast.In:
            return self.contains_value(b, a)
        if t is ast.NotIn:
            return not self.truth(self.contains_value(b, a))
        a = self.force(a)
        b = self.force(b)
        opn = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if is_const(a) and is_const(b):
            try:
                return {'<': lambda: a < b, '<=': lambda: a <= b,
                        '>': lambda: a > b, '>=': lambda: a >= b}[opn]()
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        la, lb = self.len_name(a), self.len_name(b)
        rel = la and lb and self.len_rel(la, lb)
        if rel:
            return rel in {'<': '<', '<=': '<=', '>': '>', '>=': '>='}[opn]
        if la and isinstance(b, int):
            return self.len_cmp(opn, la[0], b - la[1])
        if lb and isinstance(a, int):
            flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[opn]
            return self.len_cmp(flip, lb[0], a - lb[1])
        dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[opn]
        for x, y, d in ((a, b, dn), (b, a, {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}[dn])):
            c = self.class_of(x)
            if isinstance(c, Cls) and isinstance(x, (Inst, Sym)):
                m = self.src_lookup(c, d)
                if m:
                    return self.call(m[1], [x, y], {})
        if isinstance(a, Inst) and isinstance(a.payload, (set, list)) and isinstance(b, Inst):
            return self.models.set_compare(self, opn, a, b)
        if a is None or b is None:
            raise self.exc(TypeError, "'%s' not supported" % opn)
        na, nb = self.nm(a), self.nm(b)
        if opn == '<':
            return self.ask(('lt', na, nb))
        if opn == '>=':
            return not self.ask(('lt', na, nb))
        if opn == '>':
            return self.ask(('lt', nb, na))
        return not self.ask(('lt', nb, na))

    def contains_value(self, coll, x):
        coll = self.force(coll)
        c = self.class_of(coll)
        if isinstance(c, Cls) and isinstance(coll, (Inst, Sym)):
            m = self.src_lookup(c, '__contains__')
            if m:
                return self.truth(self.call(m[1], [coll, x], {}))
            m = self.src_lookup(c, '__iter__')
            if m and not self.builtin_base(c):
                it = self.iter(coll)
                return self.consume_any(it, lambda v: self.truth(self.eq(v, x)))
        if isinstance(coll, str):
            x = self.force(x)
            if isinstance(x, str):
                return x in coll
            return self.ask(('in', self.nm(x), self.nm(coll)))
        if isinstance(coll, tuple):
            return self.segs_contain(coll, x)
        if isinstance(coll, Inst):
            p = coll.payload
            if isinstance(p, dict):
                return self.dict_find(p, x) is not None
            if isinstance(p, list):
                return self.segs_contain(p, x)
            if isinstance(p, str):
                return self.contains_value(p, x)
        if isinstance(coll, Sym):
            h = coll.hint or H_ANY
            if h.kind == 'coll' and not (isinstance(h.cls, type) and issubclass(h.cls, dict)):
                x = self.force(x)
                cx = self.class_of(x)
                if isinstance(cx, Cls) and self.src_lookup(cx, '__eq__') or self.lens.get(coll.name) == (0, 0):
                    it = self.iter(coll)
                    return self.consume_any(it, lambda v: self.truth(self.eq(v, x)))
                if self.lens.get(coll.name, (0, None))[1] == 0:
                    return False
                r = self.ask(('in', self.nm(x), coll.name))
                if r:
                    lo, hi = self.lens.get(coll.name, (0, None))
                    self.lens[coll.name] = (max(lo, 1), hi)
                return r
            ps = self.models.pieces(self, coll)
            if ps and isinstance(x, str):
                r = self.models.has_part(self, coll, x)
                if r is not None:
                    return r
            return self.ask(('in', self.nm(x), coll.name))
        if isinstance(coll, It):
            return self.consume_any(coll, lambda v: self.truth(self.eq(v, x)))
        if isinstance(coll, (Ext,)):
            return self.ask(('in', self.nm(x), self.nm(coll)))
        if coll is None or is_const(coll):
            raise self.exc(TypeError, 'argument of type %r is not iterable' % type(coll).__name__)
        raise Unsupported('in %r' % (coll,))

    def segs_contain(self, segs, x):
        x = self.force(x)
        if self.plain(x):
            # what every loop pass appended is known to occur: decide without a walk
            rest = []
            for s in segs:
                if isinstance(s, Each):
                    left = False
                    for ck, items in s.groups.values():
                        for y in items:
                            if not self.plain(y):
                                left = True
                            elif y == x:
                                return True
                    if left:
                        rest.append(s)
                elif not isinstance(s, (Star, Fill)) and self.plain(s):
                    if s == x:
                        return True
                else:
                    rest.append(s)
            if not rest:
                return False
            segs = rest
        it = SeqIt(segs, 'in')
        return self.consume_any(it, lambda v: self.identical_fast(v, x) or self.truth(self.eq(v, x)))

    def plain(self, x):
        return is_const(x) or isinstance(x, tuple) and all(self.plain(y) for y in x)

    def identical_fast(self, v, x):
        if isinstance(v, Sym) and isinstance(x, Sym):
            return v is x or v.name == x.name and self.find_r(v.name) is None
        return v is x and not is_const(v)

    def consume_any(self, it, pred):
        f = self.frames[-1] if self.frames else None
        if f is not None:
            f.temps.append(it)
        try:
            while True:
                try:
                    v = it.next(self)
                except StopIter:
                    return False
                if pred(v):
                    return True
        finally:
            if f is not None:
                f.temps.pop()

    def dict_find(self, p, key):
        """The stored key name under which `key` is found, or None."""
        key = self.force(key)
        n = self.key_name(key)
        if n in p:
            return n
        if isinstance(key, Sym) or self.has_sym(key):
            for k2 in list(p):
                kk = p[k2][0]
                if self.truth(self.eq(kk, key)):
                    return k2
        else:
            for k2 in list(p):
                kk = p[k2][0]
                if isinstance(kk, Sym) or self.has_sym(kk):
                    if self.truth(self.eq(kk, key)):
                        return k2
        if self.unhashable(key):
            raise self.exc(TypeError, 'unhashable type')
        return None

    def key_name(self, key):
        if isinstance(key, bool):
            return ('k', 'int', int(key))
        if isinstance(key, float) and key.is_integer():
            return ('k', 'int', int(key))
        if isinstance(key, Inst):
            if isinstance(key.payload, str):
                return ('k', 'str', key.payload)
            return ('inst', id(key))
        return self.nm(key)

    def has_sym(self, v):
        return isinstance(v, tuple) and any(isinstance(x, Sym) or self.has_sym(x) for x in v)

    def unhashable(self, v):
        return isinstance(v, Inst) and v.cls in (list, dict, set)

    # -- isinstance -----------------------------------------------------------

    def isinstance(self, v, c):
        v = self.force(v)
        c = self.force(c)
        if isinstance(c, tuple):
            for x in c:
                if self.isinstance(v, x):
                    return True
            return False
        if not isinstance(c, (Cls, type, Ext, Sym)):
            raise self.exc(TypeError, 'isinstance() arg 2 must be a type or tuple of types')
        if isinstance(c, Sym):
            return self.ask(('isinst', self.nm(v), c.name))
        if isinstance(v, Sym):
            h = v.hint or H_ANY
            if h.kind == 'any':
                return self.ask(('isinst', v.name, self.nm(c)))
            if h.kind == 'opaque':
                return c is object
            k = h.cls
            r = self.issub(k, c)
            if r is None:
                return self.ask(('isinst', v.name, self.nm(c)))
            if not r and not h.exact and self.issub(c, k):
                return self.ask(('isinst', v.name, self.nm(c)))
            return bool(r)
        k = self.class_of(v)
        if k is None:
            if isinstance(v, Ext):
                if isinstance(c, Ext) or c is type:
                    return self.ask(('isinst', self.nm(v), self.nm(c)))
                return False
            if isinstance(v, It):
                return c is object or c is collections.abc.Iterable
            return c is object
        if isinstance(v, Inst) and v.opaque:
            if isinstance(c, type) and issubclass(Exception, c):
                return True
            return self.ask(('isinst', ('opaque',), self.nm(c)))
        if isinstance(v, (Cls,)) and c is type:
            return True
        if isinstance(v, (Func, Bound, Native, Partial, BMeth)) and isinstance(c, type):
            return c is object or c is collections.abc.Callable
        r = self.issub(k, c)
        if r is None:
            return self.ask(('isinst', self.nm(v), self.nm(c)))
        return bool(r)

    def issubclass(self, c, d):
        c = self.force(c)
        d = self.force(d)
        if isinstance(d, tuple):
            return any([self.issubclass(c, x) for x in d])
        if isinstance(c, Sym):
            if (c.hint or H_ANY).kind not in ('any',):
                raise self.exc(TypeError, 'issubclass() arg 1 must be a class')
            return self.ask(('issub', c.name, self.nm(d)))
        if not isinstance(c, (Cls, type, Ext)):
            raise self.exc(TypeError, 'issubclass() arg 1 must be a class')
        if isinstance(d, Sym):
            return self.ask(('issub', self.nm(c), d.name))
        r = self.issub(c, d)
        if r is None:
            return self.ask(('issub', self.nm(c), self.nm(d)))
        return bool(r)

    def exc_matches(self, inst, c):
        """Does exception instance match handler class c?"""
        c = self.force(c) if isinstance(c, Sym) else c
        if isinstance(c, tuple):
            for x in c:
                if self.exc_matches(inst, x):
                    return True
            return False
        if isinstance(c, Cls) or isinstance(c, type):
            if isinstance(inst, Inst):
                if inst.opaque and isinstance(c, (type,)):
                    if issubclass(inst.cls, c):
                        return True
                    if issubclass(c, inst.cls):
                        return self.ask(('exc', 'opaque', self.nm(c)))
                    return False
                if inst.opaque:
                    return self.ask(('exc', 'opaque', self.nm(c)))
                r = self.issub(inst.cls, c)
                return bool(r)
            return self.isinstance(inst, c)
        if isinstance(c, Ext):
            if isinstance(inst, Inst) and (isinstance(inst.cls, Ext)):
                return inst.cls.name == c.name
            if isinstance(inst, Inst) and inst.opaque:
                return self.ask(('exc', 'opaque', c.name))
            if isinstance(inst, Inst) and isinstance(inst.cls, Cls):
                return bool(self.issub(inst.cls, c))
            return False
        return self.ask(('exc', self.nm(c)))

    # -- calls ----------------------------------------------------------------

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.force(f) if isinstance(f, Sym) else f
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('path too long')
        if isinstance(f, Bound):
            m = f.func
            if self.method_intercepts and isinstance(m, Func):
                c = f.self if isinstance(f.self, Cls) else self.class_of(f.self)
                if isinstance(c, Cls):
                    for k in c.mro:
                        if isinstance(k, Cls):
                            mod = self.method_intercepts.get((k.qual, m.name))
                            if mod is not None:
                                r = mod(self, f.self, args, kw)
                                if r is not MISSING:
                                    return r
                                break
            if isinstance(m, Func):
                return self.call_func(m, [f.self] + list(args), kw)
            return self.call(m, [f.self] + list(args), kw)
        if isinstance(f, Func):
            if self.method_intercepts and args and f.attrs.get('__class__') is not None:
                # unbound call Class.method(obj, ...)
                c = args[0] if isinstance(args[0], Cls) else self.class_of(args[0])
                if isinstance(c, Cls):
                    for k in c.mro:
                        if isinstance(k, Cls) and k is f.attrs['__class__'] or k is c:
                            mod = self.method_intercepts.get((k.qual, f.name))
                            if mod is not None and f.attrs['__class__'] in c.mro:
                                r = mod(self, args[0], list(args[1:]), kw)
                                if r is not MISSING:
                                    return r
                                break
            return self.call_func(f, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, BMeth):
            return self.models.call_bmeth(self, f, list(args), kw)
        if isinstance(f, type):
            return self.models.call_type(self, f, list(args), kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.func, list(f.args) + list(args), k2)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f, list(args), kw)
        if isinstance(f, (SM, CM)):
            return self.call(f.func, args, kw)
        if isinstance(f, Inst):
            if isinstance(f.cls, Cls):
                m = self.src_lookup(f.cls, '__call__')
                if m:
                    return self.call(Bound(m[1], f) if isinstance(m[1], Func) else m[1], list(args), kw)
            raise self.exc(TypeError, '%r object is not callable' % (f.cls,))
        if isinstance(f, Sym):
            h = f.hint or H_ANY
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = self.src_lookup(h.cls, '__call__')
                if m:
                    return self.call(Bound(m[1], f), list(args), kw)
                raise self.exc(TypeError, 'object is not callable')
            if h.kind in ('str', 'int', 'bool', 'coll'):
                raise self.exc(TypeError, 'object is not callable')
            return self.models.call_sym(self, f, list(args), kw)
        if f is None or is_const(f) or isinstance(f, tuple):
            raise self.exc(TypeError, '%r object is not callable' % type(f).__name__)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kw):
        model = self.intercepts.get(f.qual)
        if model is not None:
            r = model(self, args, kw)
            if r is not MISSING:
                return r
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported('recursion deeper than %d at %s' % (self.MAXDEPTH, f.qual))
        if not self.init_mode:
            self.functions_seen[f.qual] = f.mod.path
        fr = Frame(f, f.mod, f.closure, f.owner)
        fr.defcls = f.attrs.get('__class__')
        loc = local_names(f.node)
        fr.locs, fr.glob, fr.nonl = loc
        self.bind_args(f, fr, args, kw)
        if f.is_gen:
            return GenIt(fr, self.gexec_function(f, fr), f.qual)
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.node = f.node
                return self.eval(f.node.body, fr)
            try:
                self.exec_block(f.node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            del self.frames[depth - 1:]

    def gexec_function(self, f, fr):
        try:
            for v in self.gexec_block(f.node.body, fr):
                yield v
        except ReturnSig:
            return

    def bind_args(self, f, fr, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        L = fr.L
        ndef = len(f.defaults)
        if any(isinstance(x, (Star, Each, Fill)) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, (Star, Each, Fill)))
            if not a.vararg or i < len(pos):
                args = self.expand_star(args, len(pos), bool(a.vararg))
        if len(args) > len(pos):
            if not a.vararg:
                raise self.exc(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
            L[mangle(a.vararg.arg, f.owner)] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            L[mangle(a.vararg.arg, f.owner)] = ()
        for n, v in zip(pos, args):
            L[mangle(n, f.owner)] = v
        for i, n in enumerate(pos):
            mn = mangle(n, f.owner)
            if mn in L:
                if n in kw:
                    raise self.exc(TypeError, '%s() got multiple values for argument %r' % (f.name, n))
                continue
            if n in kw:
                L[mn] = kw.pop(n)
            else:
                j = i - (len(pos) - ndef)
                if j >= 0:
                    L[mn] = f.defaults[j]
                else:
                    raise self.exc(TypeError, '%s() missing required argument %r' % (f.name, n))
        for x in a.kwonlyargs:
            if x.arg in kw:
                L[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                L[x.arg] = f.kwdefaults[x.arg]
            else:
                raise self.exc(TypeError, '%s() missing keyword argument %r' % (f.name, x.arg))
        if a.kwarg:
            L[a.kwarg.arg] = Inst(dict, payload={self.nm(k): (k, v) for k, v in kw.items()})
        elif kw:
            raise self.exc(TypeError, '%s() got an unexpected keyword argument %r' % (f.name, sorted(kw)[0]))

    def expand_star(self, args, npos, vararg):
        """Positional parameters bound from an unknown-length sequence: fork on
        the number of elements that land on fixed parameters."""
        out = []
        for x in args:
            if isinstance(x, Star):
                C = x.coll.name
                k = 0
                while True:
                    if len(out) >= npos and vararg:
                        if k == 0:
                            out.append(x)
                        else:
                            raise Unsupported('*args split across parameters')
                        break
                    if len(out) > npos:
                        break
                    if self.len_cmp('>', C, k):
                        h = x.coll.hint.elem if x.coll.hint else None
                        nme = ('item', C, k)
                        out.append(h(self, x.coll, nme) if callable(h) else Sym(nme, h or H_ANY))
                        k += 1
                    else:
                        break
            elif isinstance(x, (Each, Fill)):
                raise Unsupported('*args of a computed list')
            else:
                out.append(x)
        return out

    def instantiate(self, c, args, kw):
        if (self.intercepts or False) and c.qual in self.intercepts:
            r = self.intercepts[c.qual](self, args, kw)
            if r is not MISSING:
                return r
        if c.abc:
            ab = self.abstract_methods(c)
            if ab:
                raise self.exc(TypeError, "Can't instantiate abstract class %s with abstract methods %s" % (c.name, ', '.join(sorted(ab))))
        nw = self.src_lookup(c, '__new__')
        if nw:
            f = nw[1].func if isinstance(nw[1], (SM, CM)) else nw[1]
            v = self.call(f, [c] + list(args), kw)
            if not (isinstance(v, Inst) and isinstance(v.cls, Cls) and c in v.cls.mro):
                return v
        else:
            v = self.new_inst(c, args, kw)
        init = self.class_lookup(c, '__init__')
        if init is not None and isinstance(init[0], Cls):
            self.call(Bound(init[1], v), args, kw)
        elif init is not None and isinstance(init[0], Ext):
            v.attrs['__ext_args__'] = tuple(args)
        elif init is not None:
            self.models.builtin_init(self, init[0], v, args, kw)
        return v

    def new_inst(self, c, args=(), kw=None):
        b = self.builtin_base(c)
        payload = None
        if b is list:
            payload = []
        elif b in (dict,):
            payload = {}
        elif b in (set, frozenset):
            payload = []
        elif b in (str, int, float, bytes, tuple):
            a = self.force(args[0]) if args else None
            if a is None and not args:
                payload = b()
            elif isinstance(a, Inst) and isinstance(a.payload, (str, int)):
                payload = a.payload
            elif is_const(a):
                payload = b(a)
            else:
                payload = a
        return Inst(c, payload=payload, site=self.where())

    def abstract_methods(self, c):
        seen = {}
        for k in c.mro:
            if isinstance(k, Cls):
                for n, v in k.ns.items():
                    if n not in seen:
                        seen[n] = v
        out = []
        for n, v in seen.items():
            f = v.func if isinstance(v, (SM, CM)) else v
            if isinstance(f, Func) and f.abstract:
                out.append(n)
            elif isinstance(f, Prop) and (f.abstract or any(
                    isinstance(g, Func) and g.abstract for g in (f.fget, f.fset, f.fdel))):
                out.append(n)
        return out

    # -- iteration ------------------------------------------------------------

    def iter(self, v, site=None):
        v = self.force(v)
        if site is None:
            f = self.frames[-1] if self.frames else None
            site = (id(f.node) if f and f.node is not None else 0)
        if isinstance(v, It):
            return v
        if isinstance(v, tuple):
            return SeqIt(v, site)
        if isinstance(v, str):
            return SeqIt(tuple(v), site)
        if isinstance(v, Inst):
            c = v.cls
            if isinstance(c, Cls):
                m = self.src_lookup(c, '__iter__')
                if m:
                    r = self.call(Bound(m[1], v), [], {})
                    return self.iter(r, site)
                if v.payload is None:
                    m = self.src_lookup(c, '__getitem__')
                    if m:
                        raise Unsupported('iteration through __getitem__')
            p = v.payload
            if isinstance(p, (list, tuple)):
                return SeqIt(p, site)
            if isinstance(p, dict):
                return SeqIt([kv[0] for kv in p.values()], site)
            if isinstance(p, str):
                return SeqIt(tuple(p), site)
            if isinstance(c, Cls) and self.src_lookup(c, '__next__'):
                return InstIt(v)
            if isinstance(p, Sym):
                return self.iter(p, site)
            raise self.exc(TypeError, '%r object is not iterable' % (c,))
        if isinstance(v, Sym):
            h = v.hint or H_ANY
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = self.src_lookup(h.cls, '__iter__')
                if m:
                    return self.iter(self.call(Bound(m[1], v), [], {}), site)
                if not self.builtin_base(h.cls):
                    raise self.exc(TypeError, 'object is not iterable')
            if h.kind in ('int', 'bool') and not self.len_name(v):
                raise self.exc(TypeError, 'object is not iterable')
            if h.kind == 'coll' and isinstance(h.cls, Cls):
                m = self.src_lookup(h.cls, '__iter__')
                if m:
                    return self.iter(self.call(Bound(m[1], v), [], {}), site)
            if v.name and v.name[0] == 'range-len':
                return IdxIt(self, Sym(v.name[1], v.hint.extra), site)
            return SymIt(self, v, site)
        if v is None or is_const(v):
            raise self.exc(TypeError, '%r object is not iterable' % type(v).__name__)
        if isinstance(v, (Cls, type, Func)):
            raise self.exc(TypeError, 'object is not iterable')
        if isinstance(v, Ext):
            return SymIt(self, Sym(('ext', v.name), Hint('coll', cls=list)), site)
        raise Unsupported('iter(%r)' % (v,))

    def seq_items(self, v):
        """Exact items of a sequence value, or Unsupported."""
        v = self.force(v)
        if isinstance(v, tuple):
            segs = v
        elif isinstance(v, Inst) and isinstance(v.payload, (list, tuple)):
            segs = v.payload
        elif isinstance(v, Inst) and isinstance(v.payload, dict):
            segs = [kv[0] for kv in v.payload.values()]
        elif isinstance(v, str):
            segs = tuple(v)
        else:
            it = self.iter(v)
            out = []
            while True:
                try:
                    out.append(it.next(self))
                except StopIter:
                    return out
        if any(isinstance(s, (Star, Each, Fill)) for s in segs):
            raise Unsupported('inexact sequence')
        return list(segs)

    def segs_of(self, v):
        """Segments (possibly with Star etc.) of any iterable value; consumes
        iterators."""
        v = self.force(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Inst):
            c = v.cls
            if not (isinstance(c, Cls) and self.src_lookup(c, '__iter__')):
                if isinstance(v.payload, (list, tuple)):
                    return list(v.payload)
                if isinstance(v.payload, dict):
                    return [kv[0] for kv in v.payload.values()]
        if isinstance(v, Sym):
            h = v.hint or H_ANY
            if h.kind in ('coll', 'any', 'opaque') and v.name[0] != 'range-len' and not (
                    isinstance(h.cls, Cls) and self.src_lookup(h.cls, '__iter__')):
                if self.lens.get(v.name) == (0, 0):
                    return []
                return [Star(v)]
        if isinstance(v, str):
            return list(v)
        out = Inst(list, payload=[])
        it = self.iter(v)
        f = self.frames[-1] if self.frames else None
        if f is not None:
            f.temps.append(it)
            f.temps.append(out)
        try:
            while True:
                try:
                    x = it.next(self)
                except StopIter:
                    break
                out.payload = out.payload + [x]
        finally:
            if f is not None:
                f.temps.pop()
                f.temps.pop()
        return list(out.payload)

    def unpack(self, v, n, star=None):
        """n targets; star index or None."""
        v = self.force(v)
        segs = self.segs_of(v)
        if any(isinstance(s, (Star, Each, Fill)) for s in segs):
            if star is None and len(segs) == 1 and isinstance(segs[0], Star):
                C = segs[0].coll
                if not self.len_cmp('==', C.name, n):
                    raise self.exc(ValueError, 'wrong number of values to unpack')
                h = C.hint.elem if C.hint else None
                out = []
                for k in range(n):
                    nme = ('item', C.name, k)
                    out.append(h(self, C, nme) if callable(h) else Sym(nme, h or H_ANY))
                return out
            exact = [s for s in segs if not isinstance(s, (Star, Each, Fill))]
            if star is not None and star == n - 1 and all(
                    not isinstance(s, (Star, Each, Fill)) for s in segs[:star]):
                return segs[:star] + [Inst(list, payload=segs[star:])]
            return [Sym(('unpack', self.nm(v), i), H_ANY) for i in range(n)]
        if star is None:
            if len(segs) != n:
                raise self.exc(ValueError, 'wrong number of values to unpack (expected %d)' % n)
            return segs
        after = n - star - 1
        if len(segs) < n - 1:
            raise self.exc(ValueError, 'not enough values to unpack')
        mid = segs[star:len(segs) - after]
        return segs[:star] + [Inst(list, payload=list(mid))] + segs[len(segs) - after:]

    # -- statements -----------------------------------------------------------

    def exec_block(self, body, f):
        for s in body:
            self.exec(s, f)

    def exec(self, s, f):
        f.node = s
        self.steps += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.where()))
        m(s, f)

    def x_Expr(self, s, f):
        self.eval(s.value, f)

    def x_Pass(self, s, f):
        pass

    def x_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def x_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def x_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, f)
            new = self.inplace(s.op, old, self.eval(s.value, f))
            self.assign(t, new, f)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            n = mangle(t.attr, f.owner)
            old = self.getattr(o, n)
            f.temps.append(o)
            f.temps.append(old)
            val = self.eval(s.value, f)
            old = f.temps.pop()
            o = f.temps.pop()
            self.setattr(o, n, self.inplace(s.op, old, val))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            f.temps.append(o)
            i = self.eval(t.slice, f)
            old = self.getitem(o, i)
            f.temps.append(i)
            f.temps.append(old)
            val = self.eval(s.value, f)
            old = f.temps.pop()
            i = f.temps.pop()
            o = f.temps.pop()
            self.setitem(o, i, self.inplace(s.op, old, val))

    def inplace(self, op, a, b):
        a = self.force(a)
        names = {ast.Add: '__iadd__', ast.BitOr: '__ior__', ast.BitAnd: '__iand__', ast.Sub: '__isub__', ast.Mult: '__imul__'}
        dn = names.get(type(op))
        c = self.class_of(a)
        if dn and isinstance(c, Cls) and isinstance(a, (Inst, Sym)):
            m = self.src_lookup(c, dn)
            if m:
                return self.call(Bound(m[1], a), [b], {})
        if dn == '__iadd__' and isinstance(a, Inst) and isinstance(a.payload, list) and self.builtin_base(a.cls) is list:
            self.models.call_bmeth(self, BMeth(list, 'extend', a), [b], {})
            return a
        if isinstance(a, Inst) and a.cls is set and dn in ('__ior__', '__iand__', '__isub__'):
            r = self.binop(op, a, b)
            self.set_payload(a, r.payload if isinstance(r, Inst) else [Star(r)])
            return a
        if isinstance(a, Inst) and dn == '__ior__' and isinstance(a.payload, dict):
            self.models.call_bmeth(self, BMeth(dict, 'update', a), [b], {})
            return a
        if isinstance(a, Sym) and (a.hint or H_ANY).kind == 'coll' and dn == '__iadd__':
            self.models.call_bmeth(self, BMeth(list, 'extend', a), [b], {})
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, f)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            vals = self.unpack(v, len(t.elts), star)
            for x, val in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, val, f)
        elif isinstance(t, ast.Attribute):
            f.temps.append(v)
            try:
                o = self.eval(t.value, f)
                v = f.temps[-1]
            finally:
                v = f.temps.pop()
            self.setattr(o, mangle(t.attr, f.owner), v)
        elif isinstance(t, ast.Subscript):
            f.temps.append(v)
            o = self.eval(t.value, f)
            f.temps.append(o)
            i = self.eval_slice(t.slice, f)
            o = f.temps.pop()
            v = f.temps.pop()
            self.setitem(o, i, v)
        else:
            raise Unsupported('assignment target')

    def store_name(self, n, v, f):
        n = mangle(n, f.owner)
        if f.kind == 'function':
            if n in f.glob:
                self.emit('setattr', f.mod, n, v)
                self.setitem_raw(f.mod.ns, n, v)
                return
            if n in f.nonl:
                p = f.parent
                while p is not None and not (n in p.L and p.kind != 'module'):
                    p = p.parent
                if p is None:
                    raise Unsupported('nonlocal %s' % n)
                self.emit('setattr', p, n, v)
                if p.created <= self.boundary:
                    self.setitem_raw(p.L, n, v)
                else:
                    p.L[n] = v
                return
            f.L[n] = v
            return
        if f.kind == 'comp':
            f.L[n] = v
            return
        if f.kind == 'module':
            f.L[n] = v
            return
        f.L[n] = v

    def load_name(self, n, f):
        n = mangle(n, f.owner)
        g = f
        first = True
        while g is not None:
            if g.kind == 'class' and not first:
                g = g.parent
                continue
            if n in g.glob:
                break
            if n in g.L:
                return g.L[n]
            if g.kind == 'function' and g.locs is not None and n in g.locs:
                raise self.exc(UnboundLocalError, 'local variable %r referenced before assignment' % n)
            if g.kind != 'comp':
                first = False
            g = g.parent
        if n in f.mod.ns:
            return f.mod.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        raise self.exc(NameError, 'name %r is not defined' % n)

    def x_Delete(self, s, f):
        for t in s.targets:
            self.delete(t, f)

    def delete(self, t, f):
        if isinstance(t, ast.Name):
            n = mangle(t.id, f.owner)
            if n in f.L:
                del f.L[n]
            else:
                raise self.exc(NameError, n)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, f), mangle(t.attr, f.owner))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            i = self.eval_slice(t.slice, f)
            self.delitem(o, i)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, f)

    def x_If(self, s, f):
        p0 = self.pos
        if self.truth(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)
        if self.pos != p0 and f.kind == 'function':
            f.node = s
            self.prune_point(('join', id(s)))

    def x_For(self, s, f):
        it = self.iter(self.eval(s.iter, f), id(s))
        counters = self.loop_counters(s, f, it)
        f.ctl.append(it)
        f.ctl.append(s)
        depth = len(f.ctl)
        broke = False
        try:
            while True:
                f.node = s
                for c in counters:
                    f.L[c] = 0          # not part of the loop state
                try:
                    try:
                        v = it.next(self)
                    except StopIter:
                        for c in counters:
                            f.L[c] = self.len_sym(whole_coll_of(it))
                        raise
                    for c in counters:
                        f.L[c] = Sym(('idx', deep_sym(it).cur), H_INT)
                except StopIter:
                    break
                self.assign(s.target, v, f)
                try:
                    self.exec_block(s.body, f)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    pass
        finally:
            del f.ctl[depth - 2:]
        if not broke:
            self.exec_block(s.orelse, f)

    def loop_counters(self, s, f, it):
        """Locals that count the passes of a loop over one unknown collection: 0 before it, raised by one in each pass."""
        w = whole_coll(it)
        if w is None or w[1] is None or f.kind != 'function' or self.init_mode:
            return ()
        key = id(s)
        c = _COUNTERS.get(key)
        if c is None or c[0] is not s:
            names = []
            for k, x in enumerate(s.body):
                if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and \
                        isinstance(x.value, ast.Constant) and x.value.value == 1 and x.value.value is not True:
                    n = x.target.id
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                        isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and \
                        ast.dump(x.value) in (ast.dump(ast.parse('%s + 1' % x.targets[0].id, mode='eval').body),
                                              ast.dump(ast.parse('1 + %s' % x.targets[0].id, mode='eval').body)):
                    n = x.targets[0].id
                else:
                    continue
                stores = [y for z in [s.target] + s.body for y in ast.walk(z)
                          if isinstance(y, ast.Name) and y.id == n and not isinstance(y.ctx, ast.Load)]
                skips = [y for z in s.body[:k] for y in ast.walk(z) if isinstance(y, ast.Continue)]
                inner = [y for z in s.body for y in ast.walk(z) if isinstance(y, (ast.Lambda, ast.FunctionDef, ast.ClassDef))]
                if len(stores) == 1 and not skips and not inner:
                    names.append(n)
            c = _COUNTERS[key] = (s, tuple(names))
        return tuple(n for n in c[1] if type(f.L.get(n)) is int and f.L[n] == 0)

    def x_While(self, s, f):
        idx = self.index_loop(s, f)
        if idx is not None:
            return self.run_index_loop(s, f, *idx)
        f.ctl.append(s)
        depth = len(f.ctl)
        broke = False
        n = 0
        try:
            while True:
                f.node = s
                self.prune_point(('while', id(s), len(self.frames)))
                n += 1
                if not self.init_mode and n > 12 and self.pos > 0:
                    self.unsaturated.add(self.where())
                    raise Cut()
                if n > 3000:
                    raise Unsupported('while loop does not terminate in the analysis at %s' % self.where())
                if not self.truth(self.eval(s.test, f)):
                    break
                try:
                    self.exec_block(s.body, f)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    pass
        finally:
            del f.ctl[depth - 1:]
        if not broke:
            self.exec_block(s.orelse, f)

    def index_loop(self, s, f):
        """`while i < len(C) [and ...]` from i == 0: (counter, collection, rest)."""
        t = s.test
        rest = []
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            t, rest = t.values[0], t.values[1:]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, b, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            a, b = b, a
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(a, ast.Name) or f.L.get(a.id, None) != 0 or f.L.get(a.id) is False:
            return None
        if isinstance(b, ast.Name):
            v = f.L.get(b.id)
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and len(b.args) == 1 \
                and isinstance(b.args[0], (ast.Name, ast.Attribute)):
            v = self.eval(b, f)
        else:
            return None
        ln = self.len_name(v)
        if ln is None or ln[1] != 0:
            return None
        return a.id, ln[0], rest

    def run_index_loop(self, s, f, name, C, rest):
        it = SymIt(self, Sym(C, H_ANY), id(s))
        f.ctl.append(it)
        f.ctl.append(s)
        depth = len(f.ctl)
        broke = False
        try:
            while True:
                f.node = s
                v = f.L.get(name)
                if it.cur is None:
                    if not (isinstance(v, int) and v == 0):
                        raise Unsupported('index loop counter %s at %s' % (name, self.where()))
                elif not (isinstance(v, Sym) and v.name == ('op', 'Add', ('idx', it.cur), ('k', 'int', 1))):
                    if isinstance(v, Sym) and v.name == ('idx', it.cur):
                        # counter not advanced: the same element again
                        self.prune_point(('idxwhile', id(s)))
                        if not all(self.truth(self.eval(r, f)) for r in rest):
                            break
                        try:
                            self.exec_block(s.body, f)
                        except BreakSig:
                            broke = True
                            break
                        except ContinueSig:
                            pass
                        continue
                    raise Unsupported('index loop counter %s at %s' % (name, self.where()))
                try:
                    f.L[name] = 0       # not part of the loop state
                    it.next(self)
                except StopIter:
                    f.L[name] = self.len_sym(C)
                    break
                f.L[name] = Sym(('idx', it.cur), H_INT)
                if not all(self.truth(self.eval(r, f)) for r in rest):
                    break
                try:
                    self.exec_block(s.body, f)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    pass
        finally:
            del f.ctl[depth - 2:]
        if not broke:
            self.exec_block(s.orelse, f)

    def x_Break(self, s, f):
        raise BreakSig()

    def x_Continue(self, s, f):
        raise ContinueSig()

    def x_Return(self, s, f):
        v = self.eval(s.value, f) if s.value is not None else None
        f.node = s
        self.ret_where = self.where()
        raise ReturnSig(v)

    def make_exc(self, v):
        v = self.force(v) if isinstance(v, Sym) else v
        if isinstance(v, Cls) or (isinstance(v, type) and issubclass(v, BaseException)):
            v = self.call(v, [], {})
        if isinstance(v, Ext):
            v = Inst(v, attrs={'args': ()})
        if isinstance(v, Sym):
            i = Inst(Exception, attrs={'args': ()})
            i.opaque = True
            i.attrs['sym'] = v
            return i
        if isinstance(v, Inst):
            b = v.cls
            if isinstance(b, Ext) or any((isinstance(k, type) and issubclass(k, BaseException)) or isinstance(k, Ext)
                                         for k in self.mro(b)):
                return v
        raise self.exc(TypeError, 'exceptions must derive from BaseException')

    def x_Raise(self, s, f):
        if s.exc is None:
            g = f
            for fr in reversed(self.frames):
                if fr.exc is not None:
                    raise AbsExc(fr.exc.value, fr.exc.where)
            raise self.exc(RuntimeError, 'No active exception to reraise')
        v = self.make_exc(self.eval(s.exc, f))
        if s.cause is not None:
            self.eval(s.cause, f)
        raise AbsExc(v, self.where())

    def x_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            raise self.exc(AssertionError, '')

    def x_Try(self, s, f):
        if s.finalbody:
            pending = None
            nctl, ntmp, nfr = len(f.ctl), len(f.temps), len(self.frames)
            try:
                self._try_core(s, f)
            except (AbsExc, ReturnSig, BreakSig, ContinueSig) as e:
                pending = e
            del f.ctl[nctl:]
            del f.temps[ntmp:]
            del self.frames[nfr:]
            f.ctl.append(pending if pending is not None else s)
            self.exec_block(s.finalbody, f)
            pending = f.ctl.pop() if f.ctl else pending
            if isinstance(pending, Exception):
                raise pending
        else:
            self._try_core(s, f)

    def _try_core(self, s, f):
        nctl, ntmp, nfr = len(f.ctl), len(f.temps), len(self.frames)
        try:
            self.exec_block(s.body, f)
        except AbsExc as e:
            del f.ctl[nctl:]
            del f.temps[ntmp:]
            del self.frames[nfr:]
            for h in s.handlers:
                f.node = h
                if h.type is None or self.exc_matches(e.value, self.eval(h.type, f)):
                    old = f.exc
                    f.exc = e
                    if h.name:
                        f.L[mangle(h.name, f.owner)] = e.value
                    try:
                        self.exec_block(h.body, f)
                    finally:
                        f.exc = old
                        if h.name:
                            f.L.pop(mangle(h.name, f.owner), None)
                    return
            raise
        self.exec_block(s.orelse, f)

    def x_With(self, s, f):
        self._with(s, 0, f)

    def _with(self, s, i, f):
        if i == len(s.items):
            self.exec_block(s.body, f)
            return
        item = s.items[i]
        m = self.eval(item.context_expr, f)
        m = self.force(m)
        if isinstance(m, (Sym, Ext, It)) or not isinstance(self.class_of(m), Cls):
            v = m
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
            self._with(s, i + 1, f)
            return
        v = self.call(self.getattr(m, '__enter__'), [], {})
        f.ctl.append(m)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, f)
        try:
            self._with(s, i + 1, f)
        except AbsExc as e:
            m = f.ctl.pop()
            r = self.call(self.getattr(m, '__exit__'), [self.class_of(e.value), e.value, None], {})
            if self.truth(r):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            m = f.ctl.pop()
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        m = f.ctl.pop()
        self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    def x_Global(self, s, f):
        pass

    def x_Nonlocal(self, s, f):
        pass

    def x_Import(self, s, f):
        for al in s.names:
            name = al.name
            if name.split('.')[0] == 'ndg':
                m = self.import_module(name)
                v = m if al.asname else self.modules[name.split('.')[0]]
            else:
                v = self.ext_import(name)
                if not al.asname:
                    v = Ext(name.split('.')[0])
            self.store_name(al.asname or name.split('.')[0], v, f)

    def x_ImportFrom(self, s, f):
        name = s.module or ''
        if s.level:
            base = f.mod.name.split('.')
            if not (f.mod.path or '').endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == '__future__':
            return
        for al in s.names:
            if name.split('.')[0] == 'ndg':
                m = self.import_module(name)
                if al.name == '*':
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            self.store_name(k, v, f)
                    continue
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    sub = '%s.%s' % (name, al.name)
                    if self.module_path(sub):
                        v = self.import_module(sub)
                    else:
                        raise self.exc(ImportError, 'cannot import name %r from %r' % (al.name, name))
            else:
                self.ext_import(name)
                v = self.ext_attr(name, al.name)
            self.store_name(al.asname or al.name, v, f)

    def make_func(self, node, f, name):
        d = [self.eval(x, f) for x in node.args.defaults]
        kd = {}
        for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if x is not None:
                kd[a.arg] = self.eval(x, f)
        closure = f if f.kind != 'module' else None
        q = f.mod.name
        chain = []
        g = f
        while g is not None and g.kind != 'module':
            if g.kind == 'class':
                chain.append(g.L.get('__qualname__', '?'))
            elif g.func is not None:
                chain.append(g.func.qual.split(f.mod.name + '.', 1)[-1])
                break
            g = g.parent
        qual = '.'.join([q] + list(reversed(chain)) + [name])
        fn = Func(node, f.mod, f.owner, closure, d, kd, name, qual)
        if isinstance(node, ast.FunctionDef):
            fn.is_gen = is_generator(node)
        if f.kind in ('function', 'comp'):
            g = f
            while g is not None:
                if g.defcls is not None:
                    fn.attrs['__class__'] = g.defcls
                    break
                g = g.parent
        return fn

    def x_FunctionDef(self, s, f):
        fn = self.make_func(s, f, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, f), [v], {})
        self.store_name(s.name, v, f)

    def x_AsyncFunctionDef(self, s, f):
        raise Unsupported('async')

    def x_ClassDef(self, s, f):
        bases = []
        for b in s.bases:
            v = self.force(self.eval(b, f))
            bases.append(v)
        meta = None
        for k in s.keywords:
            v = self.eval(k.value, f)
            if k.arg == 'metaclass':
                meta = v
        cf = Frame(None, f.mod, f, s.name, 'class')
        cf.L = {'__module__': f.mod.name, '__qualname__': s.name}
        cf.node = s
        self.frames.append(cf)
        try:
            self.exec_block(s.body, cf)
        finally:
            self.frames.pop()
        ns = dict(cf.L)
        ns.pop('__qualname__', None)
        for b in bases:
            if not isinstance(b, (Cls, type, Ext)):
                if isinstance(b, Sym):
                    raise Unsupported('symbolic base class')
                raise self.exc(TypeError, 'bases must be types')
        c = self.build_class(s.name, bases, ns, f.mod, s, abc_meta=meta is abc.ABCMeta)
        if f.kind == 'class':
            c.qual = '%s.%s.%s' % (f.mod.name, f.L.get('__qualname__'), s.name)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, f), [v], {})
        self.store_name(s.name, v, f)

    def x_Match(self, s, f):
        v = self.eval(s.subject, f)
        for case in s.cases:
            binds = {}
            if self.match_pattern(case.pattern, v, binds, f):
                for k, x in binds.items():
                    self.store_name(k, x, f)
                if case.guard is None or self.truth(self.eval(case.guard, f)):
                    self.exec_block(case.body, f)
                    return

    def match_pattern(self, p, v, b, f):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, b, f):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, b, f) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            v = self.force(v)
            if isinstance(v, str) or not (isinstance(v, tuple) or isinstance(v, Inst) and isinstance(v.payload, list)):
                return False
            items = self.seq_items(v)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported('match star')
            return len(items) == len(p.patterns) and all(
                self.match_pattern(q, x, b, f) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, f)
            if p.patterns and not (isinstance(c, type) and len(p.patterns) == 1):
                raise Unsupported('match class positional')
            if not self.isinstance(v, c):
                return False
            for q in p.patterns:
                if not self.match_pattern(q, v, b, f):
                    return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pattern(q, self.getattr(v, a), b, f):
                    return False
            return True
        raise Unsupported('match pattern %s' % type(p).__name__)

    # -- generator execution (statements containing yield) ---------------------

    def has_yield(self, s):
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not s:
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    def gexec_block(self, body, f):
        for s in body:
            if not self.has_yield(s):
                self.exec(s, f)
                continue
            f.node = s
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Yield):
                    yield (self.eval(s.value.value, f) if s.value.value is not None else None)
                    f.node = s
                elif isinstance(s.value, ast.YieldFrom):
                    it = self.iter(self.eval(s.value.value, f), id(s))
                    f.ctl.append(it)
                    while True:
                        try:
                            v = it.next(self)
                        except StopIter:
                            break
                        yield v
                    f.ctl.pop()
                else:
                    raise Unsupported('yield inside an expression')
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Yield):
                yield (self.eval(s.value.value, f) if s.value.value is not None else None)
                for t in s.targets:
                    self.assign(t, None, f)
            elif isinstance(s, ast.If):
                if self.truth(self.eval(s.test, f)):
                    yield from self.gexec_block(s.body, f)
                else:
                    yield from self.gexec_block(s.orelse, f)
            elif isinstance(s, ast.For):
                it = self.iter(self.eval(s.iter, f), id(s))
                f.ctl.append(it)
                f.ctl.append(s)
                broke = False
                while True:
                    f.node = s
                    try:
                        v = it.next(self)
                    except StopIter:
                        break
                    self.assign(s.target, v, f)
                    try:
                        yield from self.gexec_block(s.body, f)
                    except BreakSig:
                        broke = True
                        break
                    except ContinueSig:
                        pass
                f.ctl.pop()
                f.ctl.pop()
                if not broke:
                    yield from self.gexec_block(s.orelse, f)
            elif isinstance(s, ast.While):
                f.ctl.append(s)
                broke = False
                n = 0
                while True:
                    f.node = s
                    self.prune_point(('while', id(s), len(self.frames)))
                    n += 1
                    if n > 12 and self.pos > 0:
                        self.unsaturated.add(self.where())
                        raise Cut()
                    if n > 3000:
                        raise Unsupported('while loop in generator')
                    if not self.truth(self.eval(s.test, f)):
                        break
                    try:
                        yield from self.gexec_block(s.body, f)
                    except BreakSig:
                        broke = True
                        break
                    except ContinueSig:
                        pass
                f.ctl.pop()
                if not broke:
                    yield from self.gexec_block(s.orelse, f)
            elif isinstance(s, ast.Try):
                pending = None
                try:
                    try:
                        yield from self.gexec_block(s.body, f)
                    except AbsExc as e:
                        for h in s.handlers:
                            if h.type is None or self.exc_matches(e.value, self.eval(h.type, f)):
                                if h.name:
                                    f.L[h.name] = e.value
                                yield from self.gexec_block(h.body, f)
                                break
                        else:
                            raise
                    else:
                        yield from self.gexec_block(s.orelse, f)
                except (AbsExc, ReturnSig, BreakSig, ContinueSig) as e:
                    pending = e
                yield from self.gexec_block(s.finalbody, f)
                if pending is not None:
                    raise pending
            elif isinstance(s, ast.With):
                for item in s.items:
                    v = self.eval(item.context_expr, f)
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v, f)
                yield from self.gexec_block(s.body, f)
            else:
                raise Unsupported('yield in %s' % type(s).__name__)

    # -- expressions ----------------------------------------------------------

    def eval(self, n, f):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.where()))
        return m(n, f)

    def e_Constant(self, n, f):
        return n.value

    def e_Name(self, n, f):
        return self.load_name(n.id, f)

    def e_Attribute(self, n, f):
        v = self.eval(n.value, f)
        return self.getattr(v, mangle(n.attr, f.owner))

    def hold_eval(self, nodes, f, fn=None):
        """Evaluate nodes left to right keeping partial results visible to the
        state abstraction."""
        base = len(f.temps)
        for x in nodes:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, f)
                f.temps.append(v)
                segs = self.segs_of(v)
                f.temps.pop()
                f.temps.extend(segs)
            else:
                f.temps.append(self.eval(x, f))
        out = f.temps[base:]
        del f.temps[base:]
        return out

    def e_Tuple(self, n, f):
        return tuple(self.hold_eval(n.elts, f))

    def e_List(self, n, f):
        return Inst(list, payload=self.hold_eval(n.elts, f))

    def e_Set(self, n, f):
        return self.models.make_set(self, self.hold_eval(n.elts, f))

    def e_Dict(self, n, f):
        d = Inst(dict, payload={})
        f.temps.append(d)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, f)
                self.models.call_bmeth(self, BMeth(dict, 'update', d), [o], {})
                continue
            kv = self.force(self.eval(k, f))
            f.temps.append(kv)
            vv = self.eval(v, f)
            kv = f.temps.pop()
            d.payload[self.key_name(kv)] = (kv, vv)
        f.temps.pop()
        return d

    def e_Lambda(self, n, f):
        return self.make_func(n, f, '<lambda>')

    def e_IfExp(self, n, f):
        if self.truth(self.eval(n.test, f)):
            return self.eval(n.body, f)
        return self.eval(n.orelse, f)

    def e_NamedExpr(self, n, f):
        v = self.eval(n.value, f)
        g = f
        while g.kind == 'comp':
            g = g.parent
        self.store_name(n.target.id, v, g)
        return v

    def e_BoolOp(self, n, f):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, f)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.known_truth(v, False)
            if not isand and t:
                return v
        return v

    def known_truth(self, v, t):
        return v

    def e_UnaryOp(self, n, f):
        v = self.eval(n.operand, f)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.force(v)
        if is_const(v):
            try:
                return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        return Sym(('op', type(n.op).__name__, self.nm(v)), v.hint if isinstance(v, Sym) else H_ANY)

    def e_Compare(self, n, f):
        left = self.eval(n.left, f)
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            f.temps.append(left)
            right = self.eval(c, f)
            left = f.temps.pop()
            f.temps.append(right)
            r = self.compare(op, left, right)
            right = f.temps.pop()
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return r
            left = right

    def e_BinOp(self, n, f):
        a = self.eval(n.left, f)
        f.temps.append(a)
        b = self.eval(n.right, f)
        a = f.temps.pop()
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Call(self, n, f):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and 'super' not in f.L:
            g = f
            while g is not None and (g.kind == 'comp' or g.defcls is None):
                g = g.parent
            if g is None or not g.func:
                raise Unsupported('super() outside a method')
            a = g.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(g.defcls, g.L[first])
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars') and not n.args:
            glob = n.func.id == 'globals'
            return Inst(dict, {'globals of': f.mod.ns} if glob else {}, {self.nm(k): (k, v) for k, v in (
                f.mod.ns if glob else f.L).items()})
        fn = self.eval(n.func, f)
        f.temps.append(fn)
        args = self.hold_eval(n.args, f)
        base = len(f.temps)
        f.temps.extend(args)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, f)
            if k.arg is None:
                v = self.force(v)
                if isinstance(v, Inst) and isinstance(v.payload, dict):
                    for kk, vv in v.payload.values():
                        kw[kk] = vv
                elif isinstance(v, Sym):
                    kw['**'] = v
                else:
                    raise Unsupported('** of %r' % (v,))
            else:
                kw[k.arg] = v
        args = f.temps[base:base + len(args)]
        del f.temps[base:]
        fn = f.temps.pop()
        node = f.node
        nt = len(f.temps)
        f.temps.append(n)
        try:
            return self.call(fn, args, kw)
        finally:
            del f.temps[nt:]
            f.node = node

    def e_Subscript(self, n, f):
        v = self.eval(n.value, f)
        f.temps.append(v)
        i = self.eval_slice(n.slice, f)
        v = f.temps.pop()
        return self.getitem(v, i)

    def eval_slice(self, s, f):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.force(self.eval(x, f))
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, f)

    def e_Slice(self, n, f):
        return self.eval_slice(n, f)

    def e_Starred(self, n, f):
        raise Unsupported('starred')

    def e_JoinedStr(self, n, f):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.force(self.eval(x.value, f))
                if isinstance(v, str) and x.conversion == -1 and x.format_spec is None:
                    parts.append(v)
                elif is_const(v) and x.format_spec is None:
                    parts.append(repr(v) if x.conversion == 114 else str(v))
                else:
                    parts.append(v)
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return self.models.str_concat(self, parts)

    def e_FormattedValue(self, n, f):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), f)

    def e_Yield(self, n, f):
        raise Unsupported('yield in expression')

    def comp_frame(self, f):
        c = Frame(f.func, f.mod, f, f.owner, 'comp')
        c.defcls = f.defcls
        c.node = f.node
        return c

    def run_comp(self, n, f, emit_item):
        """Eager comprehension with fixpoint over unknown collections."""
        first = self.eval(n.generators[0].iter, f)
        cf = self.comp_frame(f)
        cf.temps.append(n)
        self.frames.append(cf)
        depth = len(self.frames)
        try:
            self._comp(n, 0, self.iter(first, id(n)), cf, emit_item)
        finally:
            del self.frames[depth - 1:]

    def _comp(self, n, gi, it, cf, emit_item):
        g = n.generators[gi]
        cf.ctl.append(it)
        try:
            while True:
                try:
                    v = it.next(self)
                except StopIter:
                    return
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    if gi + 1 < len(n.generators):
                        it2 = self.iter(self.eval(n.generators[gi + 1].iter, cf), (id(n), gi + 1))
                        self._comp(n, gi + 1, it2, cf, emit_item)
                    else:
                        emit_item(cf)
        finally:
            cf.ctl.pop()

    def e_ListComp(self, n, f):
        out = Inst(list, payload=[])
        f.temps.append(out)

        def emit_item(cf):
            v = self.eval(n.elt, cf)
            out.payload = out.payload + [v]
        self.run_comp(n, f, emit_item)
        f.temps.pop()
        return out

    def e_SetComp(self, n, f):
        out = self.e_ListComp(n, f)
        return self.models.make_set(self, out.payload)

    def e_DictComp(self, n, f):
        out = Inst(dict, payload={})
        f.temps.append(out)

        def emit_item(cf):
            k = self.force(self.eval(n.key, cf))
            v = self.eval(n.value, cf)
            out.payload = dict(out.payload)
            out.payload[self.key_name(k)] = (k, v)
        self.run_comp(n, f, emit_item)
        f.temps.pop()
        return out

    def e_GeneratorExp(self, n, f):
        first = self.iter(self.eval(n.generators[0].iter, f), id(n))
        cf = self.comp_frame(f)
        return GenIt(cf, self.gen_comp(n, 0, first, cf), ('genexp', id(n)))

    def gen_comp(self, n, gi, it, cf):
        g = n.generators[gi]
        cf.ctl.append(it)
        while True:
            try:
                v = it.next(self)
            except StopIter:
                cf.ctl.pop()
                return
            self.assign(g.target, v, cf)
            ok = True
            for c in g.ifs:
                if not self.truth(self.eval(c, cf)):
                    ok = False
                    break
            if ok:
                if gi + 1 < len(n.generators):
                    it2 = self.iter(self.eval(n.generators[gi + 1].iter, cf), (id(n), gi + 1))
                    yield from self.gen_comp(n, gi + 1, it2, cf)
                else:
                    yield self.eval(n.elt, cf)

    # -- subscripts -----------------------------------------------------------

    def getitem(self, v, i):
        return self.models.getitem(self, v, i)

    def setitem(self, v, i, x):
        return self.models.setitem(self, v, i, x)

    def delitem(self, v, i):
        return self.models.delitem(self, v, i)

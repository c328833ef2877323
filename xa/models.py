"""Models of Python builtins and of the few library calls the repository makes."""
import ast
import re
import abc
import builtins as _b
import collections
import collections.abc
import datetime
import os

from .values import *
from .values import MISSING
from .engine import (It, SeqIt, EnumIt, ZipIt, MapIt, FilterIt, ChainIt, StopIter,
                     AbsExc, Unsupported, EXC_TYPES, is_const, Frame, SymIt)

CONTAINER_TYPES = (list, dict, set, frozenset, tuple)


# -- helpers ----------------------------------------------------------------

def conc(v):
    """Python value of a fully concrete abstract value, or MISSING."""
    if is_const(v):
        return v
    if isinstance(v, tuple):
        out = [conc(x) for x in v]
        return MISSING if any(x is MISSING for x in out) else tuple(out)
    if isinstance(v, type):
        return v
    if isinstance(v, slice):
        return v
    if isinstance(v, Inst):
        p = v.payload
        if isinstance(p, (str, int, float, bytes)):
            return p
        if v.cls is list and isinstance(p, list):
            out = [conc(x) for x in p]
            return MISSING if any(x is MISSING for x in out) else out
        if v.cls in (set, frozenset) and isinstance(p, list):
            out = [conc(x) for x in p]
            return MISSING if any(x is MISSING for x in out) else set(out)
        if v.cls is dict and isinstance(p, dict):
            out = {}
            for k, x in p.values():
                ck, cx = conc(k), conc(x)
                if ck is MISSING or cx is MISSING:
                    return MISSING
                out[ck] = cx
            return out
    return MISSING


def lift(v):
    """Abstract value of a Python value."""
    if is_const(v):
        return v
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, list):
        return Inst(list, payload=[lift(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return Inst(set, payload=[lift(x) for x in sorted(v, key=repr)])
    if isinstance(v, dict):
        return Inst(dict, payload={('k', type(k).__name__, k) if is_const(k) else ('t', repr(k)): (lift(k), lift(x))
                                   for k, x in v.items()})
    raise Unsupported('lift %r' % (v,))


def has_seg(p):
    return any(isinstance(s, (Star, Each, Fill)) for s in p)


def strval(v):
    if isinstance(v, str):
        return v
    if isinstance(v, Inst) and isinstance(v.payload, str):
        return v.payload
    return None


def seg_len(I, segs):
    return seg_total(I, segs, None)


def seg_total(I, segs, weigh):
    """How many entries (weigh is None) or what the weights of the entries add up to; None when a weight is not known."""
    n = 0
    stars = []
    for s in segs:
        if isinstance(s, Star):
            if weigh is not None:
                return None
            stars.append(s.coll.name)
        elif isinstance(s, Fill):
            if weigh is None:
                stars.append(s.coll)
                continue
            ws = [weigh(x) for x in I.fill_support(s).values()]
            if None in ws:
                return None
            stars.append(each_total(I, s.coll, ('fill', s.site), frozenset(enumerate(ws)), ws))
        elif isinstance(s, Each):
            ws = [[1 if weigh is None else weigh(x) for x in g[1]] for g in s.groups.values()]
            if any(None in w for w in ws):
                return None
            key = frozenset(s.groups) if weigh is None else frozenset(zip(s.groups, [tuple(w) for w in ws]))
            stars.append(each_total(I, s.coll, s.site, key, [sum(w) for w in ws]))
        else:
            w = 1 if weigh is None else weigh(s)
            if w is None:
                return None
            n += w
    stars = [s for s in stars if s is not None]
    if not stars:
        return n
    if len(stars) == 1:
        lo, hi = I.lens.get(stars[0], None) or I.len_default(stars[0])
        if hi is not None and lo == hi:
            return n + lo
        return I.len_sym(stars[0], n)
    nm = ('sum',) + tuple(stars)
    if nm not in I.lens:
        lo = sum((I.lens.get(s, None) or I.len_default(s))[0] for s in stars)
        I.lens[nm] = (lo, None)
    return I.len_sym(nm, n)


def each_total(I, coll, site, key, sizes):
    if set(sizes) == {1} and not I.forget:
        return coll
    if set(sizes) <= {0}:
        return None
    nm = ('each', coll, site, key, (min(sizes), max(sizes)) if not I.forget else (0, 9))
    lo = sum(sizes)
    if I.forget:
        lo = min(lo, 1)
    if nm not in I.lens:
        I.lens[nm] = (lo, None)
    return nm


def equal_weight(I, x):
    """Weights that count the entries equal to a plain value."""
    def w(y):
        y = I.force(y)
        if isinstance(y, Sym) and (y.hint or H_ANY).kind == 'bool' and isinstance(x, int):
            return None
        return None if isinstance(y, (Sym, Inst)) or not I.plain(y) else int(y == x)
    return w


def number_weight(I):
    def w(y):
        y = I.force(y)
        return int(y) if isinstance(y, int) and y >= 0 else None
    return w


def py_len(I, args, kw):
    v = I.force(args[0])
    c = I.class_of(v)
    if isinstance(c, Cls) and isinstance(v, (Inst, Sym)):
        m = I.src_lookup(c, '__len__')
        if m:
            return I.call(m[1], [v], {})
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, tuple):
        return seg_len(I, v)
    if isinstance(v, Inst):
        p = v.payload
        if isinstance(p, (list, tuple)):
            return seg_len(I, p)
        if isinstance(p, dict):
            if any(I.find_r(k) is not None for k in p):
                nm = ('dictlen', frozenset(p))
                if nm not in I.lens:
                    I.lens[nm] = (1, None)
                return I.len_sym(nm, 0)
            return len(p)
        if isinstance(p, str):
            return len(p)
        if isinstance(p, Sym):
            return py_len(I, [p], {})
    if isinstance(v, Sym):
        h = v.hint or H_ANY
        if h.kind in ('coll', 'any', 'opaque'):
            lo, hi = I.lens.get(v.name, None) or I.len_default(v.name)
            if hi is not None and lo == hi:
                return lo
            return I.len_sym(v.name, 0)
        if h.kind == 'str':
            return Sym(('len', v.name), H_INT)
        if h.kind in ('int', 'bool'):
            raise I.exc(TypeError, 'object has no len()')
        if h.kind == 'obj' and I.builtin_base(h.cls):
            return I.len_sym(v.name, 0)
    raise I.exc(TypeError, 'object of type %s has no len()' % (c,))


def py_isinstance(I, args, kw):
    return I.isinstance(args[0], args[1])


def py_issubclass(I, args, kw):
    return I.issubclass(args[0], args[1])


def attr_name(I, n):
    n = I.force(n)
    if isinstance(n, Inst) and isinstance(n.payload, str):
        n = n.payload
    return n


def py_getattr(I, args, kw):
    n = attr_name(I, args[1])
    if isinstance(n, Sym):
        return Sym(('dynattr', I.nm(args[0]), n.name), H_ANY)
    if not isinstance(n, str):
        raise I.exc(TypeError, 'attribute name must be string')
    if len(args) > 2:
        try:
            return I.getattr(args[0], n)
        except AbsExc as e:
            if I.exc_matches(e.value, AttributeError):
                return args[2]
            raise
    return I.getattr(args[0], n)


def py_setattr(I, args, kw):
    n = attr_name(I, args[1])
    if isinstance(n, Sym):
        I.emit('setattr', args[0], n, args[2])
        return None
    if not isinstance(n, str):
        raise I.exc(TypeError, 'attribute name must be string')
    I.setattr(args[0], n, args[2])


def py_hasattr(I, args, kw):
    n = attr_name(I, args[1])
    if isinstance(n, Sym):
        return I.ask(('hasattr', I.nm(args[0]), n.name))
    v = I.force(args[0])
    if isinstance(v, Sym) and (v.hint or H_ANY).kind in ('any',) and n not in (v.hint or H_ANY).fields:
        return I.ask(('hasattr', v.name, n))
    try:
        I.getattr(v, n)
        return True
    except AbsExc as e:
        if I.exc_matches(e.value, AttributeError):
            return False
        raise


def py_delattr(I, args, kw):
    I.delattr(args[0], attr_name(I, args[1]))


def py_callable(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, (Func, Bound, Native, BMeth, Partial, Cls, type, Ext)):
        return True
    if isinstance(v, Inst):
        return isinstance(v.cls, Cls) and I.src_lookup(v.cls, '__call__') is not None
    if isinstance(v, Sym):
        h = v.hint or H_ANY
        if h.kind == 'any':
            return I.ask(('callable', v.name))
        if h.kind == 'obj' and isinstance(h.cls, Cls):
            return I.src_lookup(h.cls, '__call__') is not None
        return False
    return False


def py_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    return EnumIt(I.iter(args[0]), I.force(start))


def py_zip(I, args, kw):
    return ZipIt([I.iter(a, ('zip', i, I.where())) for i, a in enumerate(args)])


def py_map(I, args, kw):
    return MapIt(args[0], [I.iter(a, ('map', i, I.where())) for i, a in enumerate(args[1:])])


def py_filter(I, args, kw):
    return FilterIt(I.force(args[0]), I.iter(args[1]))


def py_reversed(I, args, kw):
    v = I.force(args[0])
    segs = I.segs_of(v)
    out = []
    for s in reversed(segs):
        if isinstance(s, Star) and not I.unordered:
            out.append(Star(Sym(('rev', s.coll.name), s.coll.hint)))
        else:
            out.append(s)
    return SeqIt(out, ('reversed', I.where()))


def py_sorted(I, args, kw):
    segs = I.segs_of(args[0])
    if len(segs) == 1 and isinstance(segs[0], Star):
        s = segs[0]
        return Inst(list, payload=[Star(Sym(('sorted', s.coll.name), s.coll.hint))])
    cs = [conc(x) for x in segs] if not has_seg(segs) else [MISSING]
    if all(c is not MISSING for c in cs) and not kw.get('key'):
        try:
            return lift(sorted(cs, reverse=bool(conc(kw.get('reverse', False)))))
        except TypeError as e:
            raise I.exc(TypeError, str(e))
    if kw.get('key') is not None and not has_seg(segs):
        ks = [conc(I.call(kw['key'], [x], {})) for x in segs]
        if all(k is not MISSING for k in ks):
            idx = sorted(range(len(segs)), key=lambda i: ks[i], reverse=bool(conc(kw.get('reverse', False))))
            return Inst(list, payload=[segs[i] for i in idx])
    segs = list(segs)
    if len(segs) > 1 and I.choose(2, ('sorted-order', tuple(I.nm(x) for x in segs))):
        segs.reverse()      # any order is possible: one that differs everywhere
    return Inst(list, payload=segs)


def held(I, it, fn):
    f = I.frames[-1] if I.frames else None
    if f is not None:
        f.temps.append(it)
    try:
        return fn()
    finally:
        if f is not None and f.temps and f.temps[-1] is it:
            f.temps.pop()


def py_any(I, args, kw):
    it = I.iter(args[0])
    return I.consume_any(it, lambda v: I.truth(v))


def py_all(I, args, kw):
    it = I.iter(args[0])
    return not I.consume_any(it, lambda v: not I.truth(v))


def py_sum(I, args, kw):
    segs = I.segs_of(args[0])
    acc = I.force(args[1]) if len(args) > 1 else 0
    if not has_seg(segs):
        for s in segs:
            s = I.force(s)
            if isinstance(s, Sym) and (s.hint or H_ANY).kind == 'bool':
                s = 1 if I.truth(s) else 0
            acc = binop(I, ast.Add(), acc, s)
        return acc
    t = seg_total(I, segs, number_weight(I)) if isinstance(acc, int) else None
    if t is not None:
        return binop(I, ast.Add(), acc, t) if acc else t
    return Sym(('sum', I.nm(tuple(segs)), I.nm(acc)), H_INT)


def _minmax(name):
    def f(I, args, kw):
        if len(args) == 1:
            segs = I.segs_of(args[0])
        else:
            segs = list(args)
        key = kw.get('key')
        if not segs and 'default' in kw:
            return kw['default']
        if not segs:
            raise I.exc(ValueError, '%s() arg is an empty sequence' % name)
        if has_seg(segs):
            # extreme of an unknown collection: fold with one element per class
            it = SeqIt(segs, (name, I.where()))
            best = [MISSING, None]

            def run():
                while True:
                    try:
                        v = it.next(I)
                    except StopIter:
                        return
                    k = I.call(key, [v], {}) if key is not None else v
                    if best[0] is MISSING:
                        best[0], best[1] = v, k
                        continue
                    if I.truth(I.compare(ast.Lt() if name == 'min' else ast.Gt(), k, best[1])):
                        best[0], best[1] = v, k
            held(I, it, run)
            if best[0] is MISSING:
                if 'default' in kw:
                    return kw['default']
                raise I.exc(ValueError, '%s() arg is an empty sequence' % name)
            return best[0]
        best = segs[0]
        bk = I.call(key, [best], {}) if key is not None else best
        for s in segs[1:]:
            k = I.call(key, [s], {}) if key is not None else s
            if I.truth(I.compare(ast.Lt() if name == 'min' else ast.Gt(), k, bk)):
                best, bk = s, k
        return best
    return f


def py_abs(I, args, kw):
    v = I.force(args[0])
    if is_const(v):
        try:
            return abs(v)
        except TypeError as e:
            raise I.exc(TypeError, str(e))
    return Sym(('abs', I.nm(v)), v.hint if isinstance(v, Sym) else H_ANY)


def py_round(I, args, kw):
    v = I.force(args[0])
    cs = [conc(I.force(a)) for a in args]
    if MISSING not in cs:
        try:
            return round(*cs)
        except (TypeError, ValueError, OverflowError) as e:
            raise I.exc(type(e), str(e))
    c = I.class_of(v)
    if isinstance(c, Cls):
        m = I.src_lookup(c, '__round__')
        if m:
            return I.call(m[1], [v] + list(args[1:]), {})
        if I.builtin_base(c) not in (int, float):
            raise I.exc(TypeError, "type doesn't define __round__ method")
    h = (v.hint or H_ANY) if isinstance(v, Sym) else H_ANY
    if h.kind in ('str', 'coll', 'opaque') or isinstance(v, (tuple, Inst)) and not isinstance(c, Cls) \
            or h.kind == 'obj' and c not in (int, float, bool):
        raise I.exc(TypeError, "type doesn't define __round__ method")
    return Sym(('round',) + tuple(I.nm(a) for a in args), H_ANY)


def py_repr(I, args, kw):
    v = I.force(args[0])
    if is_const(v):
        return repr(v)
    c = I.class_of(v)
    if isinstance(c, Cls) and isinstance(v, (Inst, Sym)):
        m = I.src_lookup(c, '__repr__')
        if m:
            return I.call(m[1], [v], {})
    return Sym(('repr', I.nm(v)), H_STR)


def py_id(I, args, kw):
    return Sym(('id', I.nm(args[0])), H_INT)


def py_hash(I, args, kw):
    v = I.force(args[0])
    if I.unhashable(v):
        raise I.exc(TypeError, 'unhashable type')
    return Sym(('hash', I.nm(v)), H_INT)


def py_iter(I, args, kw):
    if len(args) == 2:
        raise Unsupported('iter(callable, sentinel)')
    return I.iter(args[0], ('iter()', I.where()))


def py_next(I, args, kw):
    it = I.force(args[0])
    if isinstance(it, It):
        try:
            return held(I, it, lambda: it.next(I))
        except StopIter:
            if len(args) > 1:
                return args[1]
            raise I.exc(StopIteration, '')
    if isinstance(it, (Inst,)) or (isinstance(it, Sym) and isinstance(I.class_of(it), Cls)):
        try:
            return I.call(I.getattr(it, '__next__'), [], {})
        except AbsExc as e:
            if len(args) > 1 and I.exc_matches(e.value, StopIteration):
                return args[1]
            raise
    if isinstance(it, (Sym, Ext)):
        return Sym(('next', I.nm(it)), H_ANY)
    raise I.exc(TypeError, 'object is not an iterator')


def py_import(I, args, kw):
    m = I.ext_models.get('__import__')
    if m is not None:
        return m(I, args, kw)
    name = I.force(args[0])
    if isinstance(name, Sym):
        return Sym(('module', name.name), H_OPAQUE)
    if name.split('.')[0] == 'ndg':
        m = I.import_module(name)
        fl = args[3] if len(args) > 3 else kw.get('fromlist', None)
        if fl is not None and I.truth(fl):
            return m
        return I.modules['ndg']
    v = I.ext_import(name)
    return v


def py_super(I, args, kw):
    if not args:
        raise Unsupported('super() through alias')
    return SuperV(args[0], args[1])


def py_range(I, args, kw):
    a = [I.force(x) for x in args]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 4096:
            raise Unsupported('large range')
        return Inst(list, payload=list(r))
    if len(a) == 2 and a[0] == 0 and isinstance(a[0], int):
        a = a[1:]
    ln = I.len_name(a[0]) if len(a) == 1 else None
    if ln is not None and ln[1] == 0:
        return Sym(('range-len', ln[0]), Hint('coll', cls=list, elem=H_INT,
                                              extra=Hint('coll', cls=list)))
    return Sym(('range',) + tuple(I.nm(x) for x in a), h_coll(H_INT))


def py_open(I, args, kw):
    m = I.ext_models.get('open')
    if m:
        return m(I, args, kw)
    return Sym(('open',) + tuple(I.nm(a) for a in args), H_ANY)


def py_print(I, args, kw):
    return None


def py_vars(I, args, kw):
    return I.getattr(args[0], '__dict__')


def py_dir(I, args, kw):
    v = I.force(args[0])
    names = set()
    if isinstance(v, Mod):
        names.update(v.ns)
    elif isinstance(v, (Inst, Cls)):
        c = v if isinstance(v, Cls) else v.cls
        for k in I.mro(c):
            if isinstance(k, Cls):
                names.update(k.ns)
                names.update(k.slots)
            elif isinstance(k, type):
                names.update(dir(k))
        if isinstance(v, Inst):
            names.update(v.attrs)
    else:
        return Sym(('dir', I.nm(v)), h_coll(H_STR))
    return Inst(list, payload=sorted(names))


def py_format(I, args, kw):
    return Sym(('format',) + tuple(I.nm(a) for a in args), H_STR)


def make_builtins(I):
    d = dict(EXC_TYPES)
    for n in ('str int bool float list tuple dict set frozenset object type bytes bytearray '
              'complex property staticmethod classmethod slice').split():
        d[n] = getattr(_b, n)
    for n, fn in dict(len=py_len, isinstance=py_isinstance, issubclass=py_issubclass,
                      getattr=py_getattr, setattr=py_setattr, hasattr=py_hasattr, delattr=py_delattr,
                      callable=py_callable, enumerate=py_enumerate, zip=py_zip, map=py_map,
                      filter=py_filter, reversed=py_reversed, sorted=py_sorted, any=py_any,
                      all=py_all, sum=py_sum, min=_minmax('min'), max=_minmax('max'), abs=py_abs,
                      round=py_round, repr=py_repr, id=py_id, hash=py_hash, iter=py_iter,
                      next=py_next, __import__=py_import, super=py_super, range=py_range,
                      open=py_open, print=py_print, vars=py_vars, dir=py_dir, format=py_format,
                      ).items():
        d[n] = Native(n, fn)
    d['NotImplemented'] = NotImplemented
    d['Ellipsis'] = Ellipsis
    d['__name__'] = 'builtins'
    for n in ('ord', 'chr', 'divmod', 'pow', 'hex', 'oct', 'bin'):
        d[n] = Native(n, _pure(getattr(_b, n), n))
    return d


def _pure(fn, name):
    def f(I, args, kw):
        a = [conc(I.force(x)) for x in args]
        if MISSING not in a:
            try:
                return lift(fn(*a))
            except Exception as e:
                raise I.exc(type(e), str(e))
        return Sym(('call', name) + tuple(I.nm(I.force(x)) for x in args), H_ANY)
    return f


# -- constructors -----------------------------------------------------------

def to_str(I, v):
    v = I.force(v)
    if isinstance(v, str):
        return v
    if is_const(v):
        return str(v)
    if isinstance(v, Inst):
        c = v.cls
        if isinstance(c, Cls):
            for n in ('__str__', '__repr__'):
                m = I.src_lookup(c, n)
                if m:
                    return I.call(m[1], [v], {})
        if isinstance(v.payload, str):
            return v.payload
        if isinstance(v.payload, Sym) and I.builtin_base(c) is str:
            return v.payload
    if isinstance(v, Sym):
        h = v.hint or H_ANY
        if h.kind == 'str':
            return v
        if h.kind == 'obj' and isinstance(h.cls, Cls):
            m = I.src_lookup(h.cls, '__str__')
            if m:
                return I.call(m[1], [v], {})
    return Sym(('str', I.nm(v)), H_STR)


def fill_dict(I, p, args, kw):
    p = dict(p)
    if args:
        src = I.force(args[0])
        if isinstance(src, Inst) and isinstance(src.payload, dict):
            p.update(src.payload)
        elif isinstance(src, (Inst, Sym)) and isinstance(I.class_of(src), Cls) and \
                I.src_lookup(I.class_of(src), 'keys'):
            it = I.iter(I.call(I.getattr(src, 'keys'), [], {}))
            while True:
                try:
                    k = I.force(it.next(I))
                except StopIter:
                    break
                p[I.key_name(k)] = (k, I.getitem(src, k))
        else:
            if isinstance(src, Sym) and (src.hint or H_ANY).cls is dict:
                k = Sym(('e', src.name, 'dict()'), H_ANY)
                p[k.name] = (k, Sym(('a', src.name, 'value'), (src.hint.elem if not callable(src.hint.elem) else None) or H_ANY))
            else:
                it = I.iter(src)
                f = I.frames[-1] if I.frames else None
                holder = Inst(dict, payload=p)
                if f is not None:
                    f.temps.append(it)
                    f.temps.append(holder)
                try:
                    while True:
                        try:
                            kv = it.next(I)
                        except StopIter:
                            break
                        k, x = I.unpack(kv, 2)
                        k = I.force(k)
                        if I.unhashable(k):
                            raise I.exc(TypeError, 'unhashable')
                        holder.payload = dict(holder.payload)
                        holder.payload[I.key_name(k)] = (k, x)
                finally:
                    if f is not None:
                        f.temps.pop()
                        f.temps.pop()
                p = holder.payload
    for k, x in kw.items():
        p[('k', 'str', k)] = (k, x)
    return p


def make_set(I, items):
    out = []
    for x in items:
        if isinstance(x, (Star, Each, Fill)):
            out.append(x)
            continue
        x = I.force(x)
        if I.unhashable(x):
            raise I.exc(TypeError, 'unhashable type')
        if not any(not isinstance(y, (Star, Each, Fill)) and (y is x or I.truth(I.eq(x, y))) for y in out):
            out.append(x)
    if len(out) > 1 and not I.unordered and any(isinstance(x, Star) for x in out) and \
            I.choose(2, ('set-order', tuple(I.nm(x) for x in out))):
        out.reverse()       # a set has no order of its own
    return Inst(set, payload=out)


def conv_num(I, t, v, args):
    v = I.force(v)
    if isinstance(v, Inst) and isinstance(v.payload, (str, int, float)):
        v = v.payload
    if is_const(v):
        try:
            return t(v, *[conc(a) for a in args[1:]])
        except (ValueError, TypeError, OverflowError) as e:
            raise I.exc(type(e), str(e))
    if isinstance(v, Sym):
        h = v.hint or H_ANY
        if h.kind == 'bool' and t is int:
            return 1 if I.truth(v) else 0
        if h.kind == 'int' and t is int:
            return v
        if h.kind in ('int',):
            return Sym((t.__name__, v.name), Hint('obj', cls=t))
        if h.kind == 'obj' and h.cls in (int, float) and t is float:
            return Sym((t.__name__, v.name), Hint('obj', cls=t))
        if h.kind in ('coll', 'opaque') or (h.kind == 'obj' and isinstance(h.cls, Cls) and not I.builtin_base(h.cls)):
            raise I.exc(TypeError, '%s() argument' % t.__name__)
        if not I.ask((t.__name__ + '-parses', v.name)):
            raise I.exc(ValueError, 'invalid literal for %s()' % t.__name__)
        return Sym((t.__name__, v.name), H_INT if t is int else Hint('obj', cls=t))
    raise I.exc(TypeError, '%s() argument must be a string or a number' % t.__name__)


def call_type(I, t, args, kw):
    if t is type:
        if len(args) == 1:
            v = I.force(args[0])
            c = I.class_of(v)
            if c is None and isinstance(v, Sym) and (v.hint or H_ANY).kind == 'opaque':
                return Sym(('typeof', v.name, 'opaque'), H_ANY)
            if c is None:
                return Sym(('typeof', I.nm(v)), H_ANY)
            if isinstance(v, Sym) and v.hint and not v.hint.exact:
                return Sym(('typeof', v.name), H_ANY)
            return c
        name = I.force(args[0])
        if not isinstance(name, str):
            if isinstance(name, Sym):
                name = 'Dyn'
            else:
                raise I.exc(TypeError, 'type() argument 1 must be str')
        bases = I.seq_items(args[1])
        nsd = I.force(args[2])
        ns = {}
        if isinstance(nsd, Inst):
            for k, x in nsd.payload.values():
                ns[I.force(k)] = x
        mod = None
        for f in reversed(I.frames):
            if f.mod is not None:
                mod = f.mod
                break
        given = '__module__' in ns
        ns.setdefault('__module__', mod.name if mod else '?')
        c = I.build_class(name, [I.force(b) for b in bases], ns, mod)
        if c.abc and not given:
            # ABCMeta.__new__ is Python code: the class seems to come from abc
            ns['__module__'] = 'abc'
        return c
    if t is str:
        if not args:
            return ''
        return to_str(I, args[0])
    if t is bool:
        return I.truth(args[0]) if args else False
    if t in (int, float):
        return conv_num(I, t, args[0], args) if args else t()
    if t is list:
        return Inst(list, payload=I.segs_of(args[0]) if args else [])
    if t is tuple:
        if not args:
            return ()
        v = I.force(args[0])
        if isinstance(v, tuple):
            return v
        return tuple(I.segs_of(v))
    if t is dict:
        return Inst(dict, payload=fill_dict(I, {}, args, kw))
    if t in (set, frozenset):
        s = make_set(I, I.segs_of(args[0])) if args else Inst(set, payload=[])
        s.cls = t
        return s
    if t is object:
        return Inst(object)
    if t is property:
        a = list(args) + [None] * (3 - len(args))
        g = lambda n, i: kw.get(n, a[i])
        return Prop(g('fget', 0), g('fset', 1), g('fdel', 2))
    if t is staticmethod:
        return SM(args[0])
    if t is classmethod:
        return CM(args[0])
    if isinstance(t, type) and issubclass(t, BaseException):
        e = Inst(t, attrs={'args': tuple(args)})
        if issubclass(t, OSError) and len(args) >= 2:
            e.attrs['errno'] = args[0]
        for k, v in kw.items():
            e.attrs[k] = v
        return e
    if t is slice:
        a = [I.force(x) for x in args]
        return slice(*a)
    if t in (bytes, bytearray):
        return Sym(('bytes',) + tuple(I.nm(a) for a in args), Hint('obj', cls=bytes))
    m = I.ext_models.get('%s.%s' % (t.__module__, t.__name__))
    if m:
        return m(I, args, kw)
    # datetime and the like
    return Sym(('new', t.__name__) + tuple(I.nm(I.force(a)) for a in args) +
               tuple((k, I.nm(I.force(v))) for k, v in sorted(kw.items())), Hint('obj', cls=t))


def builtin_init(I, k, v, args, kw):
    """__init__ inherited from the builtin type k."""
    if isinstance(k, type) and issubclass(k, BaseException):
        v.attrs['args'] = tuple(args)
        return
    if k is list:
        I.set_payload(v, I.segs_of(args[0]) if args else [])
        return
    if k is dict:
        I.set_payload(v, fill_dict(I, {}, args, kw))
        return
    if k is set:
        I.set_payload(v, make_set(I, I.segs_of(args[0])).payload if args else [])
        return
    if k is object or (isinstance(k, type) and k.__module__ in ('abc', 'collections.abc')):
        c = v.cls
        if (args or kw) and k is object:
            # object() takes no parameters unless __new__ is overridden
            if not I.src_lookup(c, '__new__') and not I.builtin_base(c):
                raise I.exc(TypeError, '%s() takes no arguments' % (c.name if isinstance(c, Cls) else c))
        return
    return


# -- external calls ---------------------------------------------------------

def call_ext(I, e, args, kw):
    n = e.name
    m = I.ext_models.get(n)
    if m is not None:
        return m(I, args, kw)
    if n == 'logging.logger.getEffectiveLevel':
        return Sym(('log-level',), H_INT)
    if n in ('logging.logger.isEnabledFor', 'logging.logger.hasHandlers'):
        return Sym(('log-enabled', I.nm(args[0]) if args else None), H_BOOL)
    if n.startswith('logging.') or n.startswith('warnings.'):
        if n.endswith('.isEnabledFor'):
            return Sym(('log', n), H_BOOL)
        return None
    if n.startswith('traceback.'):
        return Sym(('traceback',), H_STR)
    if n.startswith('slot.'):
        return None
    I.emit('extcall', n, args, kw)
    return Sym(('call', n) + tuple(I.nm(I.force(a)) for a in args) +
               tuple((k, I.nm(v)) for k, v in sorted(kw.items())), H_ANY)


def call_sym(I, f, args, kw):
    m = I.ext_models.get('sym-call')
    if m is not None:
        r = m(I, [f] + list(args), kw)
        if r is not MISSING:
            return r
    I.emit('symcall', f, args, kw)
    return Sym(('call', f.name) + tuple(I.nm(I.force(a)) for a in args), H_ANY)


def _abstract(I, args, kw):
    f = args[0]
    if isinstance(f, Func):
        f.abstract = True
    return f


def _abstractprop(I, args, kw):
    a = list(args) + [None] * 3
    p = Prop(kw.get('fget', a[0]), kw.get('fset', a[1]), kw.get('fdel', a[2]))
    p.abstract = True
    return p


def _reduce(I, args, kw):
    f = args[0]
    it = I.iter(args[1])

    def run():
        if len(args) > 2:
            acc = args[2]
        else:
            try:
                acc = it.next(I)
            except StopIter:
                raise I.exc(TypeError, 'reduce() of empty sequence')
        fr = I.frames[-1] if I.frames else None
        while True:
            if fr is not None:
                fr.temps.append(acc)
            try:
                try:
                    x = it.next(I)
                finally:
                    if fr is not None:
                        acc = fr.temps.pop()
            except StopIter:
                return acc
            acc = I.call(f, [acc, x], {})
    return held(I, it, run)


def _partial(I, args, kw):
    return Partial(args[0], list(args[1:]), dict(kw))


def _wraps(I, args, kw):
    return Native('wraps', lambda I, a, k: a[0])


def _chain(I, args, kw):
    return ChainIt([I.iter(a, ('chain', i, I.where())) for i, a in enumerate(args)])


def _chain_from(I, args, kw):
    outer = I.segs_of(args[0])
    if has_seg(outer):
        raise Unsupported('chain.from_iterable of unknown collection')
    return ChainIt([I.iter(a, ('chain', i, I.where())) for i, a in enumerate(outer)])


def _opn(name, n=2):
    import operator

    binops = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'mod': ast.Mod,
              'floordiv': ast.FloorDiv, 'and_': ast.BitAnd, 'or_': ast.BitOr}
    cmps = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE,
            'is_': ast.Is, 'is_not': ast.IsNot}

    def f(I, args, kw):
        if name in binops:
            return binop(I, binops[name](), args[0], args[1])
        if name in cmps:
            return I.compare(cmps[name](), args[0], args[1])
        if name == 'not_':
            return not I.truth(args[0])
        if name == 'truth':
            return I.truth(args[0])
        if name == 'contains':
            return I.contains_value(args[0], args[1])
        if name == 'getitem':
            return I.getitem(args[0], args[1])
        if name == 'attrgetter':
            ns = [I.force(a) for a in args]

            def g(I, a, k):
                out = []
                for nm in ns:
                    v = a[0]
                    for p in nm.split('.'):
                        v = I.getattr(v, p)
                    out.append(v)
                return out[0] if len(out) == 1 else tuple(out)
            return Native('attrgetter:%s' % (ns,), g)
        if name == 'itemgetter':
            ns = [I.force(a) for a in args]
            return Native('itemgetter:%s' % (ns,), lambda I, a, k: I.getitem(a[0], ns[0]) if len(ns) == 1
                          else tuple(I.getitem(a[0], x) for x in ns))
        if name == 'methodcaller':
            nm = I.force(args[0])
            rest, kk = list(args[1:]), dict(kw)
            return Native('methodcaller:%s' % nm, lambda I, a, k: I.call(I.getattr(a[0], nm), rest, kk))
        raise Unsupported('operator.%s' % name)
    return f


def _path_join(I, args, kw):
    import os
    a = [I.force(x) for x in args]
    for x in a:
        if x is None or isinstance(x, (int, float)) or isinstance(x, tuple):
            raise I.exc(TypeError, 'expected str, bytes or os.PathLike object')
    c = [strval(x) for x in a]
    if all(x is not None for x in c):
        return os.path.join(*c)
    return sym_join(I, a) or Sym(('pathjoin',) + tuple(I.nm(x) for x in a), H_STR)


def sym_join(I, a):
    """os.path.join where it is known which parts are absolute."""
    out = a[0]
    for b in a[1:]:
        if not isinstance(b, str) and not pieces(I, b):
            return None
        t = starts(I, b, '/', ask=False)
        if t is None:
            return None
        if t:
            out = b
            continue
        if isinstance(out, str):
            sep = '' if not out or out.endswith('/') else '/'
        else:
            ps = pieces(I, out) or [I.nm(out)]
            last = piece_text(ps[-1])
            if last is not None:
                end = last.endswith('/')
            elif len(ps) == 1 and not I.tails.get(ps[0], {}).get('nonempty') and not I.ask(('truth', ps[0])):
                end = True
            else:
                end = I.ask(('ends', ps[-1], '/'))
            sep = '' if end else '/'
        out = str_concat(I, [out, sep, b])
    return out


def _strfn(name):
    import os

    def f(I, args, kw):
        a = [strval(I.force(x)) for x in args]
        if all(x is not None for x in a):
            return lift(getattr(os.path, name)(*a))
        return Sym(('os.path.' + name,) + tuple(I.nm(I.force(x)) for x in args), H_STR)
    return f


def _abspath(I, args, kw):
    import os
    v = I.force(args[0])
    s = strval(v)
    if s is not None and os.path.isabs(s):
        return os.path.normpath(s)
    n = ('os.path.abspath', I.nm(v))
    I.tails.setdefault(n, {'nonempty': True})
    return Sym(n, H_STR)


def _realpath(I, args, kw):
    n = ('os.path.realpath', I.nm(I.force(args[0])))
    I.tails.setdefault(n, {'nonempty': True})
    return Sym(n, H_STR)


def _isabs(I, args, kw):
    v = I.force(args[0])
    if pieces(I, v):
        return starts(I, v, '/')
    return _strfn('isabs')(I, args, kw)


def _boolfn(name):
    def f(I, args, kw):
        ns = [I.nm(I.force(x)) for x in args]
        while ns and ns[0][0] in ('os.path.abspath', 'os.path.realpath'):
            ns[0] = ns[0][1]        # exists or not like the path itself
        return Sym((name,) + tuple(ns), H_BOOL)
    return f


EXT_NATIVE = {
    'abc.abstractmethod': _abstract, 'abc.abstractproperty': _abstractprop,
    'functools.reduce': _reduce, 'functools.partial': _partial, 'functools.wraps': _wraps,
    'itertools.chain': _chain, 'itertools.chain.from_iterable': _chain_from,
    'os.path.join': _path_join, 'os.path.dirname': _strfn('dirname'), 'os.path.basename': _strfn('basename'),
    'os.path.abspath': _abspath, 'os.path.normpath': _strfn('normpath'),
    'os.path.realpath': _realpath, 'os.path.split': lambda I, a, k: (_strfn('dirname')(I, a, k), _strfn('basename')(I, a, k)),
    'os.path.isfile': _boolfn('isfile'), 'os.path.exists': _boolfn('exists'), 'os.path.isdir': _boolfn('isdir'),
    'os.path.isabs': lambda I, a, k: _isabs(I, a, k),
    'logging.getLogger': lambda I, a, k: Ext('logging.logger'),
    'copy.copy': lambda I, a, k: py_copy(I, a, k), 'copy.deepcopy': lambda I, a, k: py_copy(I, a, k),
    're.compile': lambda I, a, k: Sym(('re', I.nm(I.force(a[0]))) + tuple(I.nm(x) for x in a[1:]), Hint('any')),
    'importlib.import_module': lambda I, a, k: py_import(I, [a[0], None, None, ('x',)], {}),
}
for _n in ('add sub mul truediv mod floordiv and_ or_ eq ne lt le gt ge is_ is_not not_ truth contains '
           'getitem attrgetter itemgetter methodcaller').split():
    EXT_NATIVE['operator.' + _n] = _opn(_n)


def py_copy(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Inst):
        p = v.payload
        n = Inst(v.cls, attrs=dict(v.attrs), payload=list(p) if isinstance(p, list) else dict(p) if isinstance(p, dict) else p,
                 site=I.where())
        return n
    if isinstance(v, Sym) and (v.hint or H_ANY).kind == 'coll':
        return Inst(v.hint.cls, payload=[Star(v)])
    if isinstance(v, Sym) and v.hint is not None and v.hint.kind == 'obj' and I.named_copies:
        return Sym(('copy', v.name), v.hint)
    return v


# -- operators --------------------------------------------------------------

_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}
_DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
           ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
           ast.LShift: 'lshift', ast.RShift: 'rshift'}

_SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?(?P<c>.)', re.S)


def str_format(I, fmt, b):
    specs = [m for m in _SPEC.finditer(fmt) if m.group('c') != '%']
    keyed = any(m.group('key') is not None for m in specs)
    if keyed:
        if not (isinstance(b, Inst) and isinstance(b.payload, dict)) and not isinstance(b, Sym):
            raise I.exc(TypeError, 'format requires a mapping')
        return Sym(('fmt', fmt, I.nm(b)), H_STR)
    if isinstance(b, tuple):
        if not has_seg(b) and len(b) != len(specs):
            raise I.exc(TypeError, 'not enough arguments for format string' if len(b) < len(specs)
                        else 'not all arguments converted during string formatting')
        args = list(b)
    else:
        if len(specs) > 1:
            if isinstance(b, Sym) and (b.hint or H_ANY).kind == 'any':
                return Sym(('fmt', fmt, I.nm(b)), H_STR)
            raise I.exc(TypeError, 'not enough arguments for format string')
        if len(specs) == 0:
            if isinstance(b, Inst) and isinstance(b.payload, dict) or isinstance(b, Sym):
                return fmt.replace('%%', '%')
            raise I.exc(TypeError, 'not all arguments converted during string formatting')
        args = [b]
    args = [I.force(a) for a in args]
    out = []
    for a in args:
        if isinstance(a, Inst) and isinstance(a.payload, str):
            a = a.payload
        out.append(a)
    args = out
    if all(isinstance(a, (str, int, float, bool)) or a is None for a in args):
        try:
            return fmt % tuple(args)
        except (TypeError, ValueError) as e:
            raise I.exc(type(e), str(e))
    for m, a in zip(specs, args):
        if m.group('c') in 'dioxXeEfFgG' and isinstance(a, str):
            raise I.exc(TypeError, '%%%s format: a number is required' % m.group('c'))
    parts = []
    pos = 0
    k = 0
    for m in _SPEC.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group('c') == '%':
            parts.append('%')
            continue
        a = args[k]
        k += 1
        if m.group('c') == 's' and m.end() - m.start() == 2:
            parts.append(a if not (is_const(a) and not isinstance(a, str)) else str(a))
        else:
            parts.append(Sym(('fmt', m.group(0), I.nm(a)), H_STR))
    parts.append(fmt[pos:])
    return str_concat(I, parts)


def str_concat(I, parts):
    """Concatenation of strings and other values; canonical name."""
    flat = []
    for p in parts:
        if isinstance(p, Inst) and isinstance(p.payload, str):
            p = p.payload
        if isinstance(p, Sym) and isinstance(p.name, tuple) and p.name and p.name[0] == 'cat':
            for q in p.name[1:]:
                flat.append(q)
            continue
        if isinstance(p, str):
            if not p:
                continue
            n = ('k', 'str', p)
        else:
            n = I.nm(p)
        flat.append(n)
    out = []
    for n in flat:
        if out and n[0] == 'k' and out[-1][0] == 'k' and isinstance(n[2], str) and isinstance(out[-1][2], str):
            out[-1] = ('k', 'str', out[-1][2] + n[2])
        else:
            out.append(n)
    if not out:
        return ''
    if len(out) == 1 and out[0][0] == 'k' and isinstance(out[0][2], str):
        return out[0][2]
    return Sym(('cat',) + tuple(out), H_STR)


def is_strish(I, v):
    return isinstance(v, str) or (isinstance(v, Sym) and (v.hint or H_ANY).kind == 'str') or \
        (isinstance(v, Inst) and I.builtin_base(v.cls) is str)


# -- strings of which parts are known ----------------------------------------
#
# A 'cat' symbol is a concatenation of constants and unknown strings. I.tails says of an unknown string what it
# is assumed not to start with ('not_prefix'), not to contain ('lacks'), and that it is not empty ('nonempty').

def pieces(I, v):
    """The parts of a partly known string, or None when nothing is known of it."""
    if isinstance(v, Inst):
        v = v.payload
    if isinstance(v, str):
        return [('k', 'str', v)]
    if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name:
        if v.name[0] == 'cat':
            return list(v.name[1:])
        if v.name in I.tails:
            return [v.name]
    return None


def piece_text(p):
    return p[2] if p[0] == 'k' and len(p) == 3 and isinstance(p[2], str) else None


def from_pieces(I, ps):
    out = []
    for p in ps:
        t = piece_text(p)
        out.append(t if t is not None else Sym(p, H_STR))
    return str_concat(I, out)


def starts(I, v, const, ask=True):
    """Whether a partly known string starts with a constant; None when not decided (and not to be asked)."""
    rest = const
    for p in pieces(I, v) or [I.nm(v)]:
        if not rest:
            return True
        t = piece_text(p)
        if t is not None:
            if t.startswith(rest):
                return True
            if not rest.startswith(t):
                return False
            rest = rest[len(t):]
            continue
        for n in I.tails.get(p, {}).get('not_prefix', ()):
            if rest.startswith(n):
                return False
        for k, val in list(I.facts.items()):
            if k[0] == 'starts' and k[1] == p:
                if val and k[2].startswith(rest):
                    return True
                if val and not rest.startswith(k[2]) or not val and rest.startswith(k[2]):
                    return False
        return I.ask(('starts', p, rest)) if ask else None
    return not rest


def ends(I, v, const):
    ps = pieces(I, v)
    t = piece_text(ps[-1])
    if t is not None and (t.endswith(const) or len(ps) == 1 or not const.endswith(t)):
        return t.endswith(const)
    return I.ask(('ends', I.nm(v) if t is not None else ps[-1], const))


def has_part(I, v, const):
    """Whether a partly known string contains a constant; None when not decided."""
    ps = pieces(I, v)
    if any(piece_text(p) is not None and const in piece_text(p) for p in ps):
        return True
    for i, p in enumerate(ps):
        t = piece_text(p)
        if t is None:
            if const not in I.tails.get(p, {}).get('lacks', ()):
                return None
        elif i + 1 < len(ps):
            for k in range(1, len(const)):
                if t.endswith(const[:k]) and starts(I, from_pieces(I, ps[i + 1:]), const[k:], ask=False) is not False:
                    return None
    return False


def cat_slice(I, v, i):
    """v[a:b] within what is known, or None."""
    ps = pieces(I, v)
    if ps is None or i.step not in (None, 1):
        return None
    a, b = i.start or 0, i.stop
    t = piece_text(ps[0]) or ''
    if not isinstance(a, int) or a < 0 or not (b is None or isinstance(b, int) and b >= 0):
        return None
    if b is None:
        if a == 0:
            return v
        return from_pieces(I, [('k', 'str', t[a:])] + ps[1:]) if a <= len(t) else None
    if b <= len(t):
        return t[a:b]
    if a == 0 and not t:
        return Sym(('head', ps[0], b), H_STR)
    return None


def cat_meth(I, name, v, args, kw):
    """A method of a partly known string; MISSING when it is not one of those decided here."""
    ps = pieces(I, v)
    first = piece_text(ps[0]) or ''
    a = [strval(x) if not isinstance(x, tuple) else tuple(strval(I.force(y)) for y in x) for x in args]
    if name in ('startswith', 'endswith') and len(args) == 1 and not kw:
        f = starts if name == 'startswith' else ends
        alts = a[0] if isinstance(a[0], tuple) else (a[0],)
        if None in alts:
            return MISSING
        return any(f(I, v, x) for x in alts)
    if name in ('lower', 'casefold', 'upper') and not args:
        out = []
        for p in ps:
            t = piece_text(p)
            if t is None:
                q = ('m', name, p)
                if p in I.tails:
                    I.tails[q] = I.tails[p]
                out.append(Sym(q, H_STR))
            else:
                out.append(getattr(t, name)())
        return str_concat(I, out)
    if not a or not isinstance(a[0], str) or not a[0]:
        return MISSING
    sub = a[0]
    if name == 'lstrip' and not kw:
        for i, p in enumerate(ps):
            t = piece_text(p)
            if t is not None:
                t = t.lstrip(sub)
                if not t:
                    continue
                return from_pieces(I, [('k', 'str', t)] + ps[i + 1:])
            if any(starts(I, Sym(p, H_STR), c) for c in sorted(set(sub))):
                return Sym(('item', p, 'lstrip'), H_STR) if i + 1 == len(ps) else MISSING
            return from_pieces(I, ps[i:])
        return ''
    if name == 'removeprefix':
        if not starts(I, v, sub):
            return v
        r = cat_slice(I, v, slice(len(sub), None))
        return MISSING if r is None else r
    if name in ('find', 'index', 'partition', 'split', 'replace') and (len(args) == 1 or name in ('split', 'replace')):
        if sub in first:
            k = first.index(sub)
            rest = from_pieces(I, [('k', 'str', first[k + len(sub):])] + ps[1:])
            if name in ('find', 'index'):
                return k
            if name == 'partition':
                return (first[:k], sub, rest)
            once = len(args) > 1 and I.force(args[-1]) == 1 or kw.get('maxsplit') == 1 or kw.get('count') == 1
            if not once and (not isinstance(rest, str) and has_part(I, rest, sub) is not False or isinstance(rest, str) and sub in rest):
                return MISSING
            if name == 'split':
                return Inst(list, payload=[first[:k], rest])
            return str_concat(I, [first[:k], args[1], rest])
        if has_part(I, v, sub) is False:
            if name == 'index':
                raise I.exc(ValueError, 'substring not found')
            return {'find': -1, 'partition': (v, '', ''), 'replace': v}[name] if name != 'split' else Inst(list, payload=[v])
    return MISSING


def cat_eq(I, a, b):
    """Equality with a constant of a partly known string, where decided; None otherwise."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, str) and isinstance(x.name, tuple) and x.name:
            if x.name[0] == 'head' and len(x.name) == 3:
                if len(y) > x.name[2]:
                    return False
                if len(y) == x.name[2]:
                    return starts(I, Sym(x.name[1], H_STR), y)
            ps = pieces(I, x)
            if ps:
                if starts(I, x, y, ask=False) is False:
                    return False
                if not y and (len(ps) > 1 or I.tails[x.name].get('nonempty')):
                    return False
    return None


def binop(I, op, a, b):
    a = I.force(a)
    b = I.force(b)
    t = type(op)
    dn = _DUNDER.get(t)
    for x, y, d in ((a, b, '__%s__' % dn), (b, a, '__r%s__' % dn)):
        c = I.class_of(x)
        if isinstance(c, Cls) and isinstance(x, (Inst, Sym)):
            m = I.src_lookup(c, d)
            if m:
                r = I.call(m[1], [x, y], {})
                if r is not NotImplemented:
                    return r
    if t is ast.Mod and (isinstance(a, str) or isinstance(a, Inst) and isinstance(a.payload, str)):
        return str_format(I, a if isinstance(a, str) else a.payload, b)
    if is_const(a) and is_const(b):
        try:
            return _OPS[t](a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            raise I.exc(type(e), str(e))
    if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and t is ast.Mult:
        return a * b
    la = isinstance(a, Inst) and isinstance(a.payload, list) and I.builtin_base(a.cls) is list
    lb = isinstance(b, Inst) and isinstance(b.payload, list) and I.builtin_base(b.cls) is list
    ca = isinstance(a, Sym) and (a.hint or H_ANY).kind == 'coll'
    cb = isinstance(b, Sym) and (b.hint or H_ANY).kind == 'coll'
    if t is ast.Add and (la or ca) and (lb or cb):
        return Inst(list, payload=I.segs_of(a) + I.segs_of(b))
    if t is ast.Add and (la or ca) and (b is None or is_const(b) or isinstance(b, tuple)):
        raise I.exc(TypeError, 'can only concatenate list')
    if t is ast.Mult:
        for x, y, lx in ((a, b, la), (b, a, lb)):
            if lx:
                if isinstance(y, int):
                    return Inst(list, payload=list(x.payload) * y)
                ln = I.len_name(y)
                if ln is not None and ln[1] == 0 and len(x.payload) == 1:
                    return Inst(list, payload=[Fill(ln[0], x.payload[0])])
                return Sym(('op', 'Mult', I.nm(a), I.nm(b)), h_coll())
    sets = (set, frozenset)
    if t in (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor) and isinstance(a, Inst) and isinstance(b, Inst) \
            and I.builtin_base(a.cls) in sets and I.builtin_base(b.cls) in sets:
        return set_op(I, dn, a, b)
    if t is ast.BitOr and isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.payload, dict) \
            and isinstance(b.payload, dict):
        return Inst(dict, payload=fill_dict(I, a.payload, [b], {}))
    if t is ast.Add and is_strish(I, a) and is_strish(I, b):
        return str_concat(I, [a, b])
    if t is ast.Add and (is_strish(I, a) and (b is None or isinstance(b, (int, float))) or
                         is_strish(I, b) and (a is None or isinstance(a, (int, float)))):
        raise I.exc(TypeError, 'can only concatenate str')
    for x, y, sgn in ((a, b, 1), (b, a, 1)):
        ln = I.len_name(x)
        if ln is not None and isinstance(y, int) and not isinstance(y, bool):
            if t is ast.Add:
                return I.len_sym(ln[0], ln[1] + y)
            if t is ast.Sub and x is a:
                return I.len_sym(ln[0], ln[1] - y)
    num = (int, float)
    for x in (a, b):
        if x is None or (isinstance(x, tuple)) or isinstance(x, (Cls, Func)):
            raise I.exc(TypeError, 'unsupported operand type(s)')
        if isinstance(x, Sym):
            h = x.hint or H_ANY
            if h.kind == 'obj' and isinstance(h.cls, Cls) and not I.builtin_base(h.cls):
                raise I.exc(TypeError, 'unsupported operand type(s)')
        if isinstance(x, Inst) and x.payload is None and not x.opaque and isinstance(x.cls, (Cls, type)):
            raise I.exc(TypeError, 'unsupported operand type(s)')
    ka = (a.hint or H_ANY).kind if isinstance(a, Sym) else type(a).__name__
    kb = (b.hint or H_ANY).kind if isinstance(b, Sym) else type(b).__name__
    if t is ast.Sub and ('str' in (ka, kb)):
        raise I.exc(TypeError, 'unsupported operand type(s) for -')
    if t is ast.Add and 'str' in (ka, kb) and (ka in ('int', 'bool', 'float') or kb in ('int', 'bool', 'float')):
        raise I.exc(TypeError, 'can only concatenate str')
    if t in (ast.Div, ast.FloorDiv, ast.Mod) and ka != 'str':
        zero = I.truth(I.eq(b, 0)) if isinstance(b, Sym) else False
        if zero:
            raise I.exc(ZeroDivisionError, 'division by zero')
    if ka in ('int', 'bool') and kb in ('int', 'bool'):
        h = H_INT if t is not ast.Div else Hint('obj', cls=float)
    elif isinstance(a, Sym) and a.hint and a.hint.kind == 'obj':
        h = a.hint
    elif isinstance(b, Sym) and b.hint and b.hint.kind == 'obj':
        h = b.hint
    else:
        h = H_ANY
    h2 = Hint(h.kind, cls=h.cls, exact=h.exact) if h.kind == 'obj' else h
    return Sym(('op', t.__name__, I.nm(a), I.nm(b)), h2)


def set_op(I, dn, a, b):
    A, B = a.payload, b.payload
    if not has_seg(A) and not has_seg(B):
        def inn(x, S):
            return any(y is x or I.truth(I.eq(x, y)) for y in S)
        if dn == 'and':
            out = [x for x in A if inn(x, B)]
        elif dn == 'or':
            out = list(A) + [x for x in B if not inn(x, A)]
        elif dn == 'sub':
            out = [x for x in A if not inn(x, B)]
        else:
            out = [x for x in A if not inn(x, B)] + [x for x in B if not inn(x, A)]
        return Inst(set, payload=out)
    if dn == 'or':
        return make_set(I, list(A) + [x for x in B])
    nm = Sym(('setop', dn, I.nm(tuple(A)), I.nm(tuple(B))), h_coll(None, list))
    return Inst(set, payload=[Star(nm)])


def set_compare(I, opn, a, b):
    A, B = a.payload, b.payload
    if not isinstance(A, list) or not isinstance(B, list):
        raise I.exc(TypeError, 'comparison not supported')
    if I.builtin_base(a.cls) is list:
        return I.ask(('listcmp', opn, I.nm(tuple(A)), I.nm(tuple(B))))
    if has_seg(A) or has_seg(B):
        return I.ask(('setcmp', opn, I.nm(tuple(A)), I.nm(tuple(B))))

    def sub(X, Y):
        for x in X:
            if not any(y is x or I.truth(I.eq(x, y)) for y in Y):
                return False
        return True
    if opn == '<=':
        return sub(A, B)
    if opn == '>=':
        return sub(B, A)
    if opn == '<':
        return sub(A, B) and len(A) < len(B)
    return sub(B, A) and len(B) < len(A)


# -- subscripts -------------------------------------------------------------

def elem_at(I, coll, k):
    h = coll.hint.elem if coll.hint is not None else None
    nme = ('item', coll.name, k)
    if callable(h) and not isinstance(h, Hint):
        return h(I, coll, nme)
    return Sym(nme, h or H_ANY)


def seq_index(I, segs, i, what):
    segs = list(segs)
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i >= 0:
            k = i
            for j, s in enumerate(segs):
                if isinstance(s, Star):
                    if I.len_cmp('>', s.coll.name, k):
                        return elem_at(I, s.coll, k)
                    # shorter: skip its (now bounded) elements
                    lo, hi = I.lens[s.coll.name]
                    for n in range(0, k + 1):
                        if I.len_cmp('==', s.coll.name, n):
                            k -= n
                            break
                    continue
                if isinstance(s, Each):
                    its = [x for g in s.groups.values() for x in g[1]]
                    if not its:
                        continue
                    return its[I.choose(len(its), 'index into computed list')]
                if isinstance(s, Fill):
                    vals = I.fill_support(s)
                    if not vals:
                        continue
                    ks = sorted(vals, key=repr)
                    return vals[ks[I.choose(len(ks), 'index into computed list')]]
                if k == 0:
                    return s
                k -= 1
            raise I.exc(IndexError, '%s index out of range' % what)
        k = -i - 1
        for s in reversed(segs):
            if isinstance(s, Star):
                if I.len_cmp('>', s.coll.name, k):
                    return elem_at(I, s.coll, -k - 1)
                for n in range(0, k + 1):
                    if I.len_cmp('==', s.coll.name, n):
                        k -= n
                        break
                continue
            if isinstance(s, Each):
                its = [x for g in s.groups.values() for x in g[1]]
                if not its:
                    continue
                return its[I.choose(len(its), 'index into computed list')]
            if isinstance(s, Fill):
                vals = I.fill_support(s)
                if not vals:
                    continue
                ks = sorted(vals, key=repr)
                return vals[ks[I.choose(len(ks), 'index')]]
            if k == 0:
                return s
            k -= 1
        raise I.exc(IndexError, '%s index out of range' % what)
    if isinstance(i, Sym):
        n = i.name
        if n[0] == 'idx':
            e = n[1]
            if len(segs) == 1 and isinstance(segs[0], Star) and e[0] in ('e', 'r') and e[1] == segs[0].coll.name:
                return I.elem_value(segs[0].coll, e)
            if len(segs) == 1 and isinstance(segs[0], Fill) and segs[0].coll == e[1]:
                s = segs[0]
                if s.cur is not None and s.cur[0] == e:
                    return s.cur[1]
                vals = dict(s.each) if s.done else {}
                if not vals:
                    return s.default
                ks = sorted(vals, key=repr)
                return vals[ks[I.choose(len(ks), 'index')]]
        if len(segs) == 1 and isinstance(segs[0], Star):
            ln = I.len_name(i)
            if ln is not None and ln[0] == segs[0].coll.name and ln[1] < 0:
                return seq_index(I, segs, ln[1], what)
            return elem_at(I, segs[0].coll, n)
        if not has_seg(segs) and segs:
            for j, s in enumerate(segs):
                if I.truth(I.eq(i, j)):
                    return s
            raise I.exc(IndexError, 'index out of range')
        return Sym(('item', I.nm(tuple(segs)), n), H_ANY)
    raise I.exc(TypeError, '%s indices must be integers or slices' % what)


def seq_slice(I, segs, sl):
    lo, hi, st = (I.force(x) if x is not None else None for x in (sl.start, sl.stop, sl.step))
    if not has_seg(segs) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return list(segs)[slice(lo, hi, st)]
    if lo is None and hi is None and st is None:
        return list(segs)
    if lo is None and hi is None and st == -1:
        return [Star(Sym(('rev', s.coll.name), s.coll.hint)) if isinstance(s, Star) else s for s in reversed(segs)]
    if (lo is None or lo == 0) and hi is None and st is None:
        return list(segs)
    if isinstance(lo, int) and lo > 0 and hi is None and st is None and \
            all(not isinstance(s, (Star, Each, Fill)) for s in list(segs)[:lo]):
        return list(segs)[lo:]
    if isinstance(hi, int) and hi >= 0 and (lo is None or lo >= 0) and st is None and \
            all(not isinstance(s, (Star, Each, Fill)) for s in list(segs)[:hi]):
        return list(segs)[lo:hi]
    h = None
    for s in segs:
        if isinstance(s, Star):
            h = s.coll.hint
    nm = Sym(('slice', I.nm(tuple(segs)), I.nm(lo), I.nm(hi), I.nm(st)), Hint('coll', cls=list, elem=h.elem if h else None))
    return [Star(nm)]


def getitem(I, v, i):
    v = I.force(v)
    i = I.force(i) if not isinstance(i, slice) else i
    c = I.class_of(v)
    if isinstance(c, Cls) and isinstance(v, (Inst, Sym)):
        m = I.src_lookup(c, '__getitem__')
        if m:
            return I.call(Bound(m[1], v), [i], {})
    return raw_getitem(I, v, i)


def raw_getitem(I, v, i):
    if isinstance(v, Inst) and isinstance(v.payload, (str, bytes)):
        v = v.payload
    if isinstance(v, tuple):
        if isinstance(i, slice):
            return tuple(seq_slice(I, v, i))
        return seq_index(I, v, i, 'tuple')
    if isinstance(v, str):
        if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            return v[i]
        if isinstance(i, int):
            try:
                return v[i]
            except IndexError as e:
                raise I.exc(IndexError, str(e))
        if isinstance(i, (Sym, slice)):
            return Sym(('item', I.nm(v), I.nm(i) if isinstance(i, Sym) else 'slice'), H_STR)
        raise I.exc(TypeError, 'string indices must be integers')
    if isinstance(v, Inst):
        p = v.payload
        if isinstance(p, list) and I.builtin_base(v.cls) in (set, frozenset):
            raise I.exc(TypeError, "'set' object is not subscriptable")
        if isinstance(p, list):
            if isinstance(i, slice):
                return Inst(list, payload=seq_slice(I, p, i))
            return seq_index(I, p, i, 'list')
        if isinstance(p, dict):
            k = I.dict_find(p, i)
            if k is None:
                m = I.src_lookup(v.cls, '__missing__') if isinstance(v.cls, Cls) else None
                if m:
                    return I.call(Bound(m[1], v), [i], {})
                raise I.exc(KeyError, i if is_const(i) else 'key')
            return p[k][1]
        if isinstance(p, Sym):
            return raw_getitem(I, p, i)
        raise I.exc(TypeError, 'object is not subscriptable')
    if isinstance(v, Sym):
        h = v.hint or H_ANY
        if h.kind in ('int', 'bool'):
            raise I.exc(TypeError, 'object is not subscriptable')
        if h.kind == 'obj' and isinstance(h.cls, Cls) and not I.builtin_base(h.cls):
            raise I.exc(TypeError, 'object is not subscriptable')
        if h.kind == 'str':
            r = cat_slice(I, v, i if isinstance(i, slice) else slice(i, i + 1)) if isinstance(i, slice) or isinstance(i, int) and i >= 0 else None
            if r is not None and r != '':
                return r
            return Sym(('item', v.name, I.nm(i) if not isinstance(i, slice) else
                        ('slice', I.nm(i.start), I.nm(i.stop), I.nm(i.step))), H_STR)
        if h.kind == 'coll' and isinstance(I.builtin_base(h.cls), type) and issubclass(I.builtin_base(h.cls), dict):
            if not I.ask(('in', I.nm(i), v.name)):
                raise I.exc(KeyError, i if is_const(i) else 'key')
            return elem_at(I, v, I.nm(i))
        if h.kind == 'coll':
            if isinstance(i, slice):
                return Inst(list, payload=seq_slice(I, [Star(v)], i))
            return seq_index(I, [Star(v)], i, 'list')
        if isinstance(i, slice):
            return Sym(('slice', v.name, I.nm(i.start), I.nm(i.stop), I.nm(i.step)), H_ANY)
        key = (v.name, ('item', I.nm(i)))
        if key in I.fields:
            return I.fields[key]
        return Sym(('item', v.name, I.nm(i)), H_ANY)
    if isinstance(v, Ext):
        key = (('ext', v.name), ('item', I.nm(i)))
        if key in I.fields:
            return I.fields[key]
        return Sym(('item', ('ext', v.name), I.nm(i)), H_ANY)
    raise I.exc(TypeError, 'object is not subscriptable')


def setitem(I, v, i, x):
    v = I.force(v)
    i = I.force(i) if not isinstance(i, slice) else i
    c = I.class_of(v)
    if isinstance(c, Cls) and isinstance(v, (Inst, Sym)):
        m = I.src_lookup(c, '__setitem__')
        if m:
            return I.call(Bound(m[1], v), [i, x], {})
    return raw_setitem(I, v, i, x)


def raw_setitem(I, v, i, x):
    if isinstance(v, Inst):
        p = v.payload
        if isinstance(p, dict):
            if I.unhashable(i):
                raise I.exc(TypeError, 'unhashable type')
            k = I.dict_find(p, i)
            n = dict(p)
            if k is None:
                n[I.key_name(i)] = (i, x)
            else:
                n[k] = (p[k][0], x)
            if 'globals of' in v.attrs and isinstance(i, str):
                I.setitem_raw(v.attrs['globals of'], i, x)
            I.set_payload(v, n)
            return None
        if isinstance(p, list) and I.builtin_base(v.cls) is list:
            if isinstance(i, slice):
                if i.start is None and i.stop is None and i.step is None:
                    I.set_payload(v, I.segs_of(x))
                    return None
                if not has_seg(p) and all(q is None or isinstance(q, int) for q in (i.start, i.stop, i.step)):
                    n = list(p)
                    n[i] = I.segs_of(x)
                    I.set_payload(v, n)
                    return None
                raise Unsupported('slice assignment')
            if len(p) == 1 and isinstance(p[0], Each) and not I.forget and (isinstance(i, Sym) or type(i) is int):
                # the same value for every element is a filled list
                its = [g[1] for g in p[0].groups.values()]
                if its and all(len(t) == 1 and is_const(t[0]) and I.nm(t[0]) == I.nm(its[0][0]) for t in its):
                    p = [Fill(p[0].coll, its[0][0])]
            if isinstance(i, Sym) and i.name[0] == 'idx' and len(p) == 1 and isinstance(p[0], Fill) \
                    and p[0].coll == i.name[1][1]:
                s = p[0]
                each = s.each
                done = s.done
                I.set_payload(v, [Fill(s.coll, s.default, each, (i.name[1], x), s.site, done)])
                return None
            if isinstance(i, int):
                if not has_seg(p):
                    if not -len(p) <= i < len(p):
                        raise I.exc(IndexError, 'list assignment index out of range')
                    n = list(p)
                    n[i] = x
                    I.set_payload(v, n)
                    return None
                pre = p[:i + 1] if i >= 0 else p[i:]
                if len(pre) and not has_seg(pre):
                    n = list(p)
                    n[i] = x
                    I.set_payload(v, n)
                    return None
            if isinstance(i, (str, tuple)) or i is None:
                raise I.exc(TypeError, 'list indices must be integers')
            if not has_seg(p) and p and isinstance(i, Sym):
                for j in range(len(p)):
                    if I.truth(I.eq(i, j)):
                        n = list(p)
                        n[j] = x
                        I.set_payload(v, n)
                        return None
                raise I.exc(IndexError, 'list assignment index out of range')
            if len(p) == 1 and isinstance(p[0], Fill) and isinstance(i, (int, Sym)) and not I.forget:
                # some other place: one of the values assigned so far may give way
                f = p[0]
                if isinstance(i, int) and not I.len_cmp('>', f.coll, i if i >= 0 else -i - 1):
                    raise I.exc(IndexError, 'list assignment index out of range')
                ks = sorted(f.each, key=repr)
                c = I.choose(len(ks) + 1, ('place assigned', f.coll)) if ks else 0
                each = dict(f.each)
                if c:
                    del each[ks[c - 1]]
                each[I.canon(x, {})] = x
                I.set_payload(v, [Fill(f.coll, f.default, each, f.cur, f.site, f.done)])
                return None
            raise Unsupported('list item assignment at %s' % I.where())
        raise I.exc(TypeError, 'object does not support item assignment')
    if isinstance(v, Sym):
        I.emit('mutate', v, ('setitem', i, x))
        I.fields[(v.name, ('item', I.nm(i) if not isinstance(i, slice) else 'slice'))] = x
        return None
    if isinstance(v, Ext):
        I.emit('mutate', v, ('setitem', i, x))
        I.fields[(('ext', v.name), ('item', I.nm(i)))] = x
        return None
    raise I.exc(TypeError, 'object does not support item assignment')


def delitem(I, v, i):
    v = I.force(v)
    i = I.force(i) if not isinstance(i, slice) else i
    c = I.class_of(v)
    if isinstance(c, Cls) and isinstance(v, (Inst, Sym)):
        m = I.src_lookup(c, '__delitem__')
        if m:
            return I.call(Bound(m[1], v), [i], {})
    return raw_delitem(I, v, i)


def raw_delitem(I, v, i):
    if isinstance(v, Inst):
        p = v.payload
        if isinstance(p, dict):
            k = I.dict_find(p, i)
            if k is None:
                raise I.exc(KeyError, 'key')
            n = dict(p)
            del n[k]
            I.set_payload(v, n)
            return
        if isinstance(p, list):
            if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
                I.set_payload(v, [])
                return
            if isinstance(i, (int, slice)) and not has_seg(p):
                n = list(p)
                try:
                    del n[i]
                except IndexError as e:
                    raise I.exc(IndexError, str(e))
                I.set_payload(v, n)
                return
            raise Unsupported('del list item')
    if isinstance(v, (Sym, Ext)):
        I.emit('mutate', v, ('delitem', i))
        return
    raise I.exc(TypeError, 'object does not support item deletion')


# -- builtin methods --------------------------------------------------------

STR_RES = {}
for _n in 'strip lstrip rstrip lower upper title capitalize replace join format swapcase zfill center ljust rjust expandtabs casefold translate removeprefix removesuffix decode'.split():
    STR_RES[_n] = H_STR
for _n in 'startswith endswith isdigit isalpha isalnum isspace isupper islower isnumeric isidentifier isdecimal'.split():
    STR_RES[_n] = H_BOOL
for _n in 'find rfind index rindex count'.split():
    STR_RES[_n] = H_INT
for _n in 'split rsplit splitlines'.split():
    STR_RES[_n] = h_coll(H_STR)


def call_bmeth(I, bm, args, kw):
    typ, name, self = bm.typ, bm.name, bm.self
    args = list(args)
    if typ is property:
        p = self
        n = Prop(p.fget, p.fset, p.fdel)
        n.abstract = p.abstract
        setattr(n, {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name], args[0])
        return n
    if typ == 'iter':
        if name == '__next__':
            return py_next(I, [self], {})
        if name == '__iter__':
            return self
        return None
    if name == '__new__':
        # object.__new__(cls, ...) and friends
        if self is not MISSING and not isinstance(self, (Cls, type)):
            self = args.pop(0)
        elif self is MISSING:
            self = args.pop(0)
        elif args and isinstance(args[0], (Cls, type)):
            self = args.pop(0)
        if isinstance(self, Cls):
            if self.abc:
                ab = I.abstract_methods(self)
                if ab:
                    raise I.exc(TypeError, "Can't instantiate abstract class %s" % self.name)
            if issubclass(typ, BaseException):
                v = Inst(self, attrs={'args': tuple(args)}, site=I.where())
                return v
            return I.new_inst(self, args, kw)
        return call_type(I, self, args, kw)
    if isinstance(typ, type) and isinstance(typ.__dict__.get(name), (classmethod, staticmethod)) or \
            (isinstance(typ, type) and name in ('fromkeys', 'maketrans', 'now', 'utcnow', 'strptime', 'combine',
                                                'fromtimestamp', 'utcfromtimestamp', 'today', 'fromisoformat')):
        if typ is dict and name == 'fromkeys':
            ks = I.segs_of(args[0])
            if has_seg(ks):
                if len(args) > 1:
                    raise Unsupported('dict.fromkeys of unknown collection')
                pre = I.modules.get('xa.prelude') or I.load_source('xa.prelude', os.path.join(os.path.dirname(__file__), 'prelude.py'), {})
                return I.call(pre.ns['unique'], [args[0]], {})      # used for its keys, each once
            val = args[1] if len(args) > 1 else None
            return Inst(dict, payload={I.key_name(I.force(k)): (I.force(k), val) for k in ks})
        m = I.ext_models.get('%s.%s' % (typ.__name__, name))
        if m:
            return m(I, args, kw)
        if name in ('strptime', 'fromisoformat'):
            key = ('parses', name) + tuple(I.nm(I.force(a)) for a in args)
            if not I.ask(key):
                raise I.exc(ValueError, 'does not match format')
        return Sym(('m', typ.__name__, name) + tuple(I.nm(I.force(a)) for a in args), Hint('obj', cls=typ))
    if self is MISSING:
        if not args:
            raise I.exc(TypeError, 'unbound method %s needs an argument' % name)
        self = args.pop(0)
    self = I.force(self)
    if name == '__init__':
        if isinstance(self, Inst):
            builtin_init(I, typ, self, args, kw)
        elif isinstance(self, Sym):
            I.emit('mutate', self, ('__init__',))
        return None
    if name == '__setattr__':
        I._setattr_class(self, I.class_of(self), attr_name(I, args[0]), args[1])
        return None
    if name in ('__getattribute__', '__getattr__'):
        n = attr_name(I, args[0])
        if isinstance(self, Inst):
            # bypass source __getattribute__
            c = self.cls
            hit = I.class_lookup(c, n)
            if hit is not None and isinstance(hit[1], Prop):
                return I.bind(hit[1], self, c, n)
            if n in self.attrs:
                return self.attrs[n]
            if hit is not None and isinstance(hit[0], Cls):
                return I.bind(hit[1], self, c, n)
            if n == '__class__':
                return c
            raise I.exc(AttributeError, n)
        return I.getattr(self, n)
    if name == '__delattr__':
        return I.delattr(self, attr_name(I, args[0]))
    if name == '__eq__':
        return I.eq0(self, I.force(args[0])) if not isinstance(self, (Sym,)) else I.sym_eq(self, I.force(args[0]))
    if name == '__ne__':
        return not I.truth(I.eq0(self, I.force(args[0])))
    if name in ('__hash__',):
        return Sym(('hash', I.nm(self)), H_INT)
    if name == '__repr__':
        return Sym(('repr', I.nm(self)), H_STR) if not is_const(self) else repr(self)
    if name == '__str__':
        if isinstance(self, Inst) and isinstance(self.payload, (str,)):
            return self.payload
        return Sym(('str', I.nm(self)), H_STR)
    if name == '__init_subclass__':
        return None
    if name in ('__enter__',):
        return self
    if name in ('__exit__',):
        return None
    if name in ('__getstate__', '__reduce__', '__reduce_ex__', '__setstate__', '__sizeof__', '__format__', '__subclasshook__'):
        return Sym(('m', name, I.nm(self)), H_ANY)
    if name == '__call__':
        return I.call(self, args, kw)
    if isinstance(self, Inst) and isinstance(I.builtin_base(self.cls) or self.cls, type):
        base = I.builtin_base(self.cls) or self.cls
    elif isinstance(self, tuple):
        base = tuple
    elif is_const(self):
        base = type(self)
    elif isinstance(self, Sym):
        base = typ
    else:
        base = typ
    if isinstance(typ, type) and typ.__module__ == 'collections.abc':
        return mapping_meth(I, typ, name, self, args, kw)
    if isinstance(typ, type) and issubclass(typ, BaseException):
        if name == 'with_traceback':
            return self
        return Sym(('m', name, I.nm(self)), H_ANY)
    if base in (str, bytes) or typ in (str, bytes):
        return str_meth(I, name, self, args, kw)
    if base is dict or typ is dict:
        return dict_meth(I, name, self, args, kw)
    if base in (list,) or typ is list:
        return list_meth(I, name, self, args, kw)
    if base in (set, frozenset) or typ in (set, frozenset):
        return set_meth(I, name, self, args, kw)
    if base is tuple or typ is tuple:
        return tuple_meth(I, name, self, args, kw)
    cs = [conc(I.force(a)) for a in args]
    cself = conc(self)
    if cself is not MISSING and MISSING not in cs and is_const(cself):
        try:
            return lift(getattr(cself, name)(*cs))
        except Unsupported:
            pass
        except Exception as e:
            if type(e) in EXC_TYPES.values():
                raise I.exc(type(e), str(e))
            raise
    dund = {'__add__': ast.Add, '__sub__': ast.Sub, '__mul__': ast.Mult, '__mod__': ast.Mod}
    return Sym(('m', name, I.nm(self)) + tuple(I.nm(I.force(a)) for a in args), H_ANY)


def str_meth(I, name, self, args, kw):
    s = strval(self) if not isinstance(self, bytes) else self
    args = [I.force(a) for a in args]
    if isinstance(self, Inst) and isinstance(self.payload, Sym):
        self = self.payload
    if name == '__contains__':
        return I.contains_value(s if s is not None else self, args[0])
    if name == '__len__':
        return py_len(I, [s if s is not None else self], {})
    if name == '__getitem__':
        return raw_getitem(I, s if s is not None else self, args[0])
    if name == '__iter__':
        return I.iter(s if s is not None else self)
    if name in ('__add__', '__mod__'):
        return binop(I, {'__add__': ast.Add, '__mod__': ast.Mod}[name](), s if s is not None else self, args[0])
    if name == 'join':
        segs = I.segs_of(args[0])
        if s is not None and not has_seg(segs):
            parts = []
            for j, x in enumerate(segs):
                x = I.force(x)
                if x is None or isinstance(x, (int, float)) or (isinstance(x, Inst) and not isinstance(x.payload, (str, Sym))):
                    raise I.exc(TypeError, 'sequence item: expected str instance')
                if j:
                    parts.append(s)
                parts.append(x)
            return str_concat(I, parts)
        return Sym(('join', I.nm(self), I.nm(tuple(segs))), H_STR)
    cs = [conc(a) for a in args]
    ck = {k: conc(I.force(v)) for k, v in kw.items()}
    if s is not None and MISSING not in cs and MISSING not in ck.values():
        try:
            return lift(getattr(s, name)(*cs, **ck))
        except Unsupported:
            pass
        except (TypeError, ValueError, IndexError, KeyError, UnicodeError, AttributeError) as e:
            t = type(e) if type(e) in EXC_TYPES.values() else ValueError
            raise I.exc(t, str(e))
    if name == 'format' and s is not None:
        return Sym(('format', s) + tuple(I.nm(a) for a in args) + tuple((k, I.nm(I.force(v))) for k, v in sorted(kw.items())), H_STR)
    if s is None and pieces(I, self):
        r = cat_meth(I, name, self, args, kw)
        if r is not MISSING:
            return r
    nm = ('m', name, I.nm(self)) + tuple(I.nm(a) for a in args)
    h = STR_RES.get(name, H_ANY)
    if h.kind == 'coll':
        if nm not in I.lens:
            I.lens[nm] = (1, None) if args else (0, None)
            if name.endswith('split') and len(args) > 1 and isinstance(args[1], int):
                I.lens[nm] = (1, args[1] + 1)
    return Sym(nm, h)


def _items(I, p, what):
    if what == 'keys':
        return [kv[0] for kv in p.values()]
    if what == 'values':
        return [kv[1] for kv in p.values()]
    return [(kv[0], kv[1]) for kv in p.values()]


def dict_meth(I, name, self, args, kw):
    if isinstance(self, Sym):
        return sym_dict_meth(I, name, self, args, kw)
    p = self.payload
    if not isinstance(p, dict):
        raise Unsupported('dict method on %r' % (self,))
    if name in ('keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems'):
        return Inst(list, payload=_items(I, p, name.replace('iter', '')))
    if name == '__iter__':
        return SeqIt(_items(I, p, 'keys'), ('dictiter', I.where()))
    if name == 'get':
        k = I.dict_find(p, args[0])
        if k is not None:
            return p[k][1]
        return args[1] if len(args) > 1 else kw.get('default')
    if name == '__getitem__':
        return raw_getitem(I, self, I.force(args[0]))
    if name == '__setitem__':
        return raw_setitem(I, self, I.force(args[0]), args[1])
    if name == '__delitem__':
        return raw_delitem(I, self, I.force(args[0]))
    if name in ('__contains__', 'has_key'):
        return I.dict_find(p, args[0]) is not None
    if name == '__len__':
        return len(p)
    if name in ('update', '__ior__'):
        I.set_payload(self, fill_dict(I, p, args, kw))
        return None if name == 'update' else self
    if name == 'setdefault':
        k = I.dict_find(p, args[0])
        if k is not None:
            return p[k][1]
        d = args[1] if len(args) > 1 else None
        raw_setitem(I, self, I.force(args[0]), d)
        return d
    if name == 'pop':
        k = I.dict_find(p, args[0])
        if k is None:
            if len(args) > 1:
                return args[1]
            raise I.exc(KeyError, 'key')
        v = p[k][1]
        n = dict(p)
        del n[k]
        I.set_payload(self, n)
        return v
    if name == 'popitem':
        if not p:
            raise I.exc(KeyError, 'popitem(): dictionary is empty')
        k = list(p)[-1]
        v = p[k]
        n = dict(p)
        del n[k]
        I.set_payload(self, n)
        return (v[0], v[1])
    if name == 'clear':
        I.set_payload(self, {})
        return None
    if name == 'copy':
        return Inst(dict, payload=dict(p))
    raise Unsupported('dict.%s' % name)


def sym_dict_meth(I, name, self, args, kw):
    if name == 'get':
        k = I.force(args[0])
        if I.ask(('in', I.nm(k), self.name)):
            return elem_at(I, self, I.nm(k))
        return args[1] if len(args) > 1 else None
    if name == '__getitem__':
        return raw_getitem(I, self, I.force(args[0]))
    if name in ('__contains__',):
        return I.ask(('in', I.nm(I.force(args[0])), self.name))
    if name in ('keys', '__iter__'):
        return I.iter(self)
    if name in ('items', 'values'):
        return Sym(('m', name, self.name), h_coll())
    if name == '__len__':
        return I.len_sym(self.name, 0)
    if name == 'copy':
        return self
    if name in ('update', 'setdefault', 'pop', 'popitem', 'clear', '__setitem__', '__delitem__'):
        if name == '__setitem__':
            return raw_setitem(I, self, I.force(args[0]), args[1])
        I.emit('mutate', self, (name,) + tuple(args))
        if name in ('pop', 'setdefault'):
            k = I.force(args[0])
            if I.ask(('in', I.nm(k), self.name)):
                return elem_at(I, self, I.nm(k))
            if len(args) > 1:
                return args[1]
            if name == 'pop':
                raise I.exc(KeyError, 'key')
        return None
    raise Unsupported('dict.%s on unknown mapping' % name)


def list_meth(I, name, self, args, kw):
    if isinstance(self, Sym):
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear', '__setitem__', '__delitem__', '__iadd__'):
            if name == 'extend' and args:
                segs = I.segs_of(args[0])
                if not segs:
                    return None
            I.emit('mutate', self, (name,) + tuple(args))
            if name == 'pop':
                if I.len_cmp('==', self.name, 0):
                    raise I.exc(IndexError, 'pop from empty list')
                return seq_index(I, [Star(self)], I.force(args[0]) if args else -1, 'list')
            return self if name == '__iadd__' else None
        if name == '__iter__':
            return I_iter_raw(I, self)
        if name == '__len__':
            return I.len_sym(self.name, 0)
        if name == '__getitem__':
            return raw_getitem(I, self, args[0])
        if name == '__contains__':
            return I.ask(('in', I.nm(I.force(args[0])), self.name))
        if name == 'copy':
            return Inst(list, payload=[Star(self)])
        if name in ('index', 'count'):
            return Sym(('m', name, self.name, I.nm(I.force(args[0]))), H_INT)
        if name in ('__add__',):
            return binop(I, ast.Add(), self, args[0])
        if (self.hint or H_ANY).kind in ('any', 'opaque'):
            return Sym(('m', name, self.name), H_ANY)
        raise Unsupported('list.%s on unknown list' % name)
    p = self.payload
    if not isinstance(p, list):
        raise Unsupported('list method %s on %r' % (name, self))
    if name == 'append':
        I.set_payload(self, p + [args[0]])
        return None
    if name in ('extend', '__iadd__'):
        segs = I.segs_of(args[0])
        I.set_payload(self, self.payload + segs)
        return None if name == 'extend' else self
    if name == 'insert':
        i = I.force(args[0])
        if isinstance(i, int) and (not has_seg(p) or i == 0):
            n = list(p)
            n.insert(i, args[1])
            I.set_payload(self, n)
            return None
        I.set_payload(self, p + [args[1]])
        return None
    if name == '__len__':
        return seg_len(I, p)
    if name == '__iter__':
        return SeqIt(p, ('listiter', I.where()))
    if name == '__getitem__':
        i = args[0] if isinstance(args[0], slice) else I.force(args[0])
        return raw_getitem(I, self, i)
    if name == '__setitem__':
        i = args[0] if isinstance(args[0], slice) else I.force(args[0])
        return raw_setitem(I, self, i, args[1])
    if name == '__delitem__':
        return raw_delitem(I, self, args[0])
    if name == '__contains__':
        return I.segs_contain(p, args[0])
    if name == '__reversed__':
        return py_reversed(I, [self], {})
    if name == 'pop':
        if not p:
            raise I.exc(IndexError, 'pop from empty list')
        i = I.force(args[0]) if args else -1
        if not has_seg(p) and isinstance(i, int):
            n = list(p)
            try:
                v = n.pop(i)
            except IndexError as e:
                raise I.exc(IndexError, str(e))
            I.set_payload(self, n)
            return v
        if isinstance(i, int) and (i == 0 and not isinstance(p[0], (Star, Each, Fill)) or
                                   i == -1 and not isinstance(p[-1], (Star, Each, Fill))):
            v = p[i]
            I.set_payload(self, p[1:] if i == 0 else p[:-1])
            return v
        I.emit('mutate', self, None)
        raise Unsupported('pop from unknown list')
    if name == 'remove':
        for j, x in enumerate(p):
            if isinstance(x, (Star, Each, Fill)):
                raise Unsupported('remove from unknown list')
            if x is args[0] or I.truth(I.eq(x, args[0])):
                n = list(p)
                del n[j]
                I.set_payload(self, n)
                return None
        raise I.exc(ValueError, 'list.remove(x): x not in list')
    if name == 'index':
        if has_seg(p):
            if not I.segs_contain(p, args[0]):
                raise I.exc(ValueError, 'not in list')
            return Sym(('index', I.nm(tuple(p)), I.nm(I.force(args[0]))), H_INT)
        for j, x in enumerate(p):
            if x is args[0] or I.truth(I.eq(x, args[0])):
                return j
        raise I.exc(ValueError, 'not in list')
    if name == 'count':
        if has_seg(p):
            x = I.force(args[0])
            t = seg_total(I, p, equal_weight(I, x)) if I.plain(x) else None
            return Sym(('count', I.nm(tuple(p)), I.nm(x)), H_INT) if t is None else t
        return sum(1 for x in p if x is args[0] or I.truth(I.eq(x, args[0])))
    if name == 'clear':
        I.set_payload(self, [])
        return None
    if name == 'copy':
        return Inst(list, payload=list(p))
    if name == 'reverse':
        I.set_payload(self, list(py_reversed(I, [self], {}).segs))
        return None
    if name == 'sort':
        I.set_payload(self, py_sorted(I, [self], kw).payload)
        return None
    if name == '__add__':
        return binop(I, ast.Add(), Inst(list, payload=p), args[0])
    if name == '__mul__':
        return binop(I, ast.Mult(), Inst(list, payload=p), args[0])
    if name in ('__lt__', '__le__', '__gt__', '__ge__'):
        return I.ask(('listcmp', name, I.nm(tuple(p)), I.nm(I.force(args[0]))))
    raise Unsupported('list.%s' % name)


def I_iter_raw(I, v):
    return SymIt(I, v, ('rawiter', I.where()))


def set_meth(I, name, self, args, kw):
    if isinstance(self, Sym):
        I.emit('mutate', self, (name,))
        return Sym(('m', name, self.name), H_ANY)
    p = self.payload
    if name == 'add':
        if I.unhashable(I.force(args[0])):
            raise I.exc(TypeError, 'unhashable type')
        # members known one by one tell whether it is new; beside the others it may stand twice
        if not I.segs_contain([y for y in p if not isinstance(y, (Star, Each, Fill))], args[0]):
            I.set_payload(self, self.payload + [args[0]])
        return None
    if name in ('discard', 'remove'):
        for j, x in enumerate(p):
            if isinstance(x, (Star, Each, Fill)):
                raise Unsupported('remove from unknown set')
            if x is args[0] or I.truth(I.eq(x, args[0])):
                n = list(p)
                del n[j]
                I.set_payload(self, n)
                return None
        if name == 'remove':
            raise I.exc(KeyError, 'key')
        return None
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        out = self
        for a in args:
            out = set_op(I, {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor'}[name],
                         out, make_set(I, I.segs_of(a)))
        if out is self:
            out = Inst(set, payload=list(p))
        return out
    if name == 'update':
        for a in args:
            I.set_payload(self, make_set(I, self.payload + I.segs_of(a)).payload)
        return None
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        o = make_set(I, I.segs_of(args[0]))
        if name == 'isdisjoint':
            return not I.seq_nonempty(set_op(I, 'and', self, o).payload)
        return set_compare(I, '<=' if name == 'issubset' else '>=', self, o)
    if name == '__len__':
        return seg_len(I, p)
    if name == '__iter__':
        return SeqIt(p, ('setiter', I.where()))
    if name == '__contains__':
        return I.segs_contain(p, args[0])
    if name == 'copy':
        return Inst(set, payload=list(p))
    if name == 'clear':
        I.set_payload(self, [])
        return None
    if name == 'pop':
        if not p:
            raise I.exc(KeyError, 'pop from an empty set')
        v = p[0]
        if isinstance(v, (Star, Each, Fill)):
            raise Unsupported('pop from unknown set')
        I.set_payload(self, p[1:])
        return v
    dm = {'__and__': 'and', '__or__': 'or', '__sub__': 'sub', '__xor__': 'xor'}
    if name in dm:
        return set_op(I, dm[name], self, args[0])
    if name in ('__le__', '__lt__', '__ge__', '__gt__'):
        return set_compare(I, {'__le__': '<=', '__lt__': '<', '__ge__': '>=', '__gt__': '>'}[name], self, args[0])
    raise Unsupported('set.%s' % name)


def tuple_meth(I, name, self, args, kw):
    if isinstance(self, Inst):
        self = tuple(self.payload)
    if isinstance(self, Sym):
        return list_meth(I, name, self, args, kw)
    if name == 'index':
        for j, x in enumerate(self):
            if I.truth(I.eq(x, args[0])):
                return j
        raise I.exc(ValueError, 'tuple.index(x): x not in tuple')
    if name == 'count':
        return sum(1 for x in self if I.truth(I.eq(x, args[0])))
    if name == '__contains__':
        return I.segs_contain(self, args[0])
    if name == '__len__':
        return seg_len(I, self)
    if name == '__iter__':
        return SeqIt(self, ('tupiter', I.where()))
    if name == '__getitem__':
        return raw_getitem(I, self, I.force(args[0]))
    if name == '__add__':
        return binop(I, ast.Add(), self, args[0])
    raise Unsupported('tuple.%s' % name)


def mapping_meth(I, typ, name, self, args, kw):
    get = lambda n: I.getattr(self, n)
    if name == 'get':
        try:
            return getitem(I, self, args[0])
        except AbsExc as e:
            if I.exc_matches(e.value, KeyError):
                return args[1] if len(args) > 1 else None
            raise
    if name == '__contains__':
        try:
            getitem(I, self, args[0])
            return True
        except AbsExc as e:
            if I.exc_matches(e.value, KeyError):
                return False
            raise
    if name == 'keys':
        return Inst(list, payload=I.segs_of(I.iter(self)))
    if name in ('items', 'values'):
        ks = I.segs_of(I.iter(self))
        if has_seg(ks):
            raise Unsupported('%s of unknown mapping' % name)
        return Inst(list, payload=[(k, getitem(I, self, k)) if name == 'items' else getitem(I, self, k) for k in ks])
    if name == 'update':
        d = fill_dict(I, {}, args, kw)
        for k, x in d.values():
            setitem(I, self, k, x)
        return None
    if name == 'setdefault':
        try:
            return getitem(I, self, args[0])
        except AbsExc as e:
            if not I.exc_matches(e.value, KeyError):
                raise
        d = args[1] if len(args) > 1 else None
        setitem(I, self, args[0], d)
        return d
    if name == 'pop':
        try:
            v = getitem(I, self, args[0])
        except AbsExc as e:
            if not I.exc_matches(e.value, KeyError):
                raise
            if len(args) > 1:
                return args[1]
            raise
        delitem(I, self, args[0])
        return v
    if name == 'clear':
        for k in I.segs_of(I.iter(self)):
            delitem(I, self, k)
        return None
    if name == 'register':
        return args[0]
    raise Unsupported('%s.%s' % (typ.__name__, name))

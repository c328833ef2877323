"""P16: evaluation changes nothing that outlives it.

Everything the evaluation properties (P01 to P11) analyse is analysed again for what it writes: from the call that starts the evaluation
on, an assignment or a change of content is allowed on objects made since then, and not on anything that was there before or was handed
in by a part that stands for policy, request, handler or function."""
import importlib
import os

from xa.values import *
from xa.lib import *
from xa import values
from xa.engine import Frame

STARTS = ('evaluate', 'evaluateResponse', 'match', 'selectText', 'pipQuery')
MODULES = ('p01', 'p02', 'p03', 'p04', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11')
RESULTS = ('ndg.xacml.core.context.result.Decision', 'ndg.xacml.core.context.result.Result', 'ndg.xacml.core.context.response.Response')
DECISION_TEXT = ('Permit', 'Deny', 'NotApplicable', 'Indeterminate')


def run(ctx):
    tasks = [('functions of ' + m.upper(), module, m) for m in ('p07', 'p05', 'p10', 'p11', 'p06', 'p08', 'p09', 'p04', 'p03', 'p02', 'p01')]
    only = os.environ.get('XA_ONLY', '').split(',') if os.environ.get('XA_ONLY') else None
    ctx.parallel([t for t in tasks if not only or t[2] in only] + [('selection of text', selection, lxml) for lxml in (False, True)])
    ctx.minimum('state-unchanged', 60)


def module(ctx, m):
    importlib.import_module('checks.' + m).run(Effects(ctx))


def roots(n, out=None):
    """The unknown things a term speaks of."""
    out = set() if out is None else out
    if isinstance(n, tuple):
        if n and n[0] in ('p', 'e', 'r') and len(n) >= 2:
            out.add(n)
        else:
            for x in n:
                roots(x, out)
    return out


def subterms(n, out=None):
    out = set() if out is None else out
    if isinstance(n, tuple):
        out.add(n)
        for x in n:
            subterms(x, out)
    return out


def residual(n, allowed):
    """Something the term n speaks of outside the allowed terms, or None."""
    if isinstance(n, frozenset):
        n = tuple(n)
    if not isinstance(n, tuple) or n in allowed:
        return None
    if n and n[0] in ('p', 'e', 'r') and len(n) >= 2:
        return n
    for x in n:
        r = residual(x, allowed)
        if r is not None:
            return r
    return None


class Effects(object):
    """The context of another property's check, with its obligations replaced by those on writes."""

    def __init__(self, ctx):
        self.__dict__.update(_ctx=ctx, _caches={}, _deleted=[], _label='', _st=None)

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def ob(self, rule, construct, ok, *a, **k):
        return ok

    def minimum(self, *a):
        pass

    def guard(self, what, fn, *a, **k):
        return self._ctx.guard(what, fn, *a, **k)

    def parallel(self, tasks, **k):
        for t in tasks:
            self.guard(t[0], t[1], self, *t[2:])

    # -- the analysis of one entry point ------------------------------------------

    def explore(self, label, I, entry, check=None):
        if 'effects' not in I.__dict__:
            I.effects = True
            self.install(I)
        me = self

        def go(I):
            me.__dict__['_st'] = {'mark': None, 'shared': set(), 'escaped': set()}
            me.__dict__['_label'] = label
            return entry(I)

        def chk(I, out):
            me._ctx.ob('state-unchanged', label, True)
            me._ctx.ob('no-kept-decision', label, True)
        self.__dict__['_caches'] = {}
        self.__dict__['_deleted'] = []
        n = self._ctx.explore(label, I, go, chk)
        for loc, where, tr in self._deleted:
            if loc not in self._caches:
                self._ctx.ob('state-unchanged', label, False, 'evaluation removes from %s, which outlives it' % (loc,), where, tr)
        return n

    def install(self, I):
        st = lambda: self._st
        call_func = I.call_func

        def start(f, args, kw):
            s = st()
            if s is not None and s['mark'] is None and not I.frames and f.name in STARTS:
                s['mark'] = next(values._serial)
            return call_func(f, args, kw)
        I.call_func = start
        for d in (I.method_intercepts, I.intercepts):
            for k in list(d):
                d[k] = self.outside(d[k])
        I.listeners.append(self.event)

    def outside(self, model):
        """What a stood-in part hands out is not the evaluation's own."""
        def f(I, *a):
            r = model(I, *a)
            s = self._st
            if s is not None and s['mark'] is not None:
                self.share(r, 'shared')
            return r
        return f

    def share(self, v, how):
        if isinstance(v, Inst) and v.serial not in self._st[how]:
            self._st[how].add(v.serial)
            for x in v.attrs.values():
                self.share(x, how)
            p = v.payload
            for x in (p if isinstance(p, (list, tuple)) else [y[1] for y in p.values()] if isinstance(p, dict) else ()):
                self.share(x, how)

    def place(self, I, v):
        """What v is when it is not the evaluation's own, else None."""
        s = self._st
        if isinstance(v, Inst):
            if v.serial > s['mark'] and v.serial not in s['shared'] and v.serial not in s['escaped']:
                return None
            c = v.cls.name if isinstance(v.cls, Cls) else getattr(v.cls, '__name__', str(v.cls))
            return 'a %s kept from before (%s)' % (c, v.site) if v.site else 'a %s kept from before' % c
        if isinstance(v, Sym):
            if isinstance(v.name, tuple) and v.name and v.name[0] == 'x' and not roots(v.name):
                return None
            return V_show(v.name)
        if isinstance(v, Cls):
            return None if v.serial > s['mark'] else 'class %s' % v.name
        if isinstance(v, Func):
            return None if v.closure is not None and v.closure.created > s['mark'] else 'function %s' % v.name
        if isinstance(v, Mod):
            return 'module %s' % v.name
        if isinstance(v, Frame):
            return None if v.created > s['mark'] else 'variables of %s' % (v.func.name if v.func else 'a function')
        if isinstance(v, Ext):
            return v.name
        return None

    def event(self, I, kind, data):
        s = self._st
        if s is None or s['mark'] is None or kind not in ('setattr', 'delattr', 'mutate'):
            return
        v = data[0]
        p = self.place(I, v)
        if p is None:
            return
        where = I.where()
        if kind == 'setattr':
            old = self.before(I, v, data[1])
            if old is not MISSING and old is not None and I.canon(old, {}) != I.canon(data[2], {}):
                self.bad(I, 'evaluation changes %s.%s' % (p, data[1]), where)
                return
            self.kept(I, p, ('attribute', data[1]), I_key(I, v), data[2], '%s.%s' % (p, data[1]), where)
        elif kind == 'delattr':
            self.bad(I, 'evaluation deletes %s.%s' % (p, data[1]), where)
        else:
            new = data[1]
            if isinstance(v, Inst) and isinstance(v.payload, dict) and isinstance(new, dict):
                old = v.payload
                for k in new:
                    if k in old and old[k][1] is not new[k][1] and I.canon(old[k][1], {}) != I.canon(new[k][1], {}):
                        self.bad(I, 'evaluation changes %s[%s]' % (p, V_show(k)), where)
                    elif k not in old or old[k][1] is not new[k][1]:
                        self.kept(I, p, k, k, new[k][1], '%s[%s]' % (p, V_show(k)), where)
                if [k for k in old if k not in new]:
                    self._deleted.append((p, where, trace_text(I)))
            elif isinstance(v, Inst) and isinstance(v.payload, list) and isinstance(new, list) and len(new) == len(v.payload) and all(
                    x is y for x, y in zip(new, v.payload)):
                pass
            else:
                self.bad(I, 'evaluation changes the content of %s' % p, where)

    def before(self, I, v, name):
        """What the attribute holds before it is set: MISSING when it may be unset."""
        if isinstance(v, (Cls, Mod)):
            return v.ns.get(name, MISSING)
        if isinstance(v, Frame):
            return v.L.get(name, MISSING)
        if isinstance(v, (Inst, Func)):
            return v.attrs.get(name, MISSING)
        if isinstance(v, Sym):
            if (v.name, name) in I.fields:
                return I.fields[(v.name, name)]
            plain = name.split('__', 1)[1] if name.startswith('_') and '__' in name else name
            c = I.class_of(v)
            try:
                if not isinstance(c, Cls) or I.class_lookup(c, plain) is None and name not in I.instance_attrs(c):
                    return MISSING
                old = I.getattr(v, plain if I.class_lookup(c, plain) is not None else name)
            except AbsExc:
                return MISSING
            return old
        return MISSING

    def bad(self, I, msg, where):
        self._ctx.ob('state-unchanged', self._label, False, msg, where, trace_text(I))

    def kept(self, I, p, slot, key, value, what, where):
        """Something is kept beyond the evaluation: allowed for what the key alone determines."""
        kt = I.canon(key, {}) if not isinstance(key, tuple) else key
        vt = I.canon(value, {}) if not isinstance(value, Sym) else ('s', value.name)
        if is_decision(I, value):
            self._ctx.ob('no-kept-decision', self._label, False, 'a decision is kept in %s' % what, where, trace_text(I))
            return
        allowed = subterms(kt)
        r = residual(vt, allowed)
        if r is not None:
            self.bad(I, 'evaluation sets %s to something that depends on %s' % (what, V_show(r)), where)
            return
        facts = frozenset((k, x) for k, x in I.facts.items() if residual(k, allowed) is None and roots(k)) if hasattr(I, 'facts') else frozenset()
        try:
            group = self._caches.setdefault(p, {}).setdefault((slot, kt), {})
            for f2, v2 in group.items():
                if v2 != vt and not contradict(f2, facts):
                    self.bad(I, 'evaluation sets %s to one thing or another, depending on more than its key' % what, where)
                    return
            group[facts] = vt
        except TypeError:
            self.bad(I, 'evaluation sets %s' % what, where)
            return
        self.share(value, 'escaped')


def I_key(I, v):
    return ('s', v.name) if isinstance(v, Sym) else ('o', getattr(v, 'serial', None) or getattr(v, 'name', None) or id(v))


def contradict(a, b):
    da, db = dict(a), dict(b)
    return any(k in db and db[k] != v for k, v in da.items())


def is_decision(I, v, depth=0):
    if isinstance(v, str):
        return v in DECISION_TEXT
    if isinstance(v, tuple):
        return any(is_decision(I, x, depth + 1) for x in v)
    c = I.class_of(v) if isinstance(v, (Inst, Sym)) else None
    if isinstance(c, Cls):
        for q in RESULTS:
            try:
                if I.issub(c, I.cls(q)):
                    return True
            except Exception:
                pass
    if isinstance(v, Inst) and depth < 4:
        p = v.payload
        xs = p if isinstance(p, (list, tuple)) else [y[1] for y in p.values()] if isinstance(p, dict) else ()
        return any(is_decision(I, x, depth + 1) for x in list(xs) + list(v.attrs.values()))
    return False


def selection(ctx, lxml):
    """The text selector of the library."""
    I = ctx.interp('ndg.xacml.utils.xpath_selector', lxml=lxml, etree=True)
    E = Effects(ctx)
    X = I.cls('ndg.xacml.utils.xpath_selector.EtreeXPathSelector')
    el = I.modules['lxml.etree' if lxml else 'xml.etree.ElementTree'].ns['_Element']
    kid = Hint('obj', cls=el, exact=True, fields={'text': h_opt(H_STR), 'tag': H_STR})
    root = Sym(('p', 'request element'), Hint('obj', cls=el, exact=True, fields={'_children': h_coll(kid)}))
    label = 'EtreeXPathSelector.selectText' + (' (lxml)' if lxml else '')

    def entry(I):
        s = I.call(X, [root], {})
        return call_method(I, s, 'selectText', Sym(('p', 'path'), H_STR))
    E.explore(label, I, entry)

"""P23: where references to other documents lead, and how they are fetched."""
import os

from xa.values import *
from xa.lib import *
from xa.lib import MISSING
from xa import models
from checks.p03 import outcome

E = 'ndg.xacml.parsers.etree.'
C = 'ndg.xacml.core.'
URLFINDER = 'ndg.xacml.finder.urlpolicyfinder.UrlPolicyFinder'
DEFAULT = 'ndg.xacml.finder.defaultfinder.getDefaultPolicyFinder'
FETCH = 'ndg.xacml.utils.urlfetcher.'
SCHEMES = ('file://', 'http://', 'https://', 'ftp://')
T = ('p', 'tail')
# reference: known start, what follows, what it has to become ('as is', 'file', 'base')
SHAPES = {
    'file:// and an absolute path': ('file:///', 'as is'),
    'file://./ and a relative path': ('file://./', 'base'),
    'file:// and a relative path': ('file://', 'base'),
    'http://': ('http://', 'as is'),
    'https://': ('https://', 'as is'),
    'ftp://': ('ftp://', 'as is'),
    'an absolute path': ('/', 'file'),
    './ and a relative path': ('./', 'base'),
    'a relative path': ('', 'base'),
}
SOURCES = ('existing path', 'other string', 'stream of an existing path', 'stream of another name', 'stream of a number', 'other object')
BASE = ('p', 'base')


def run(ctx):
    tasks = []
    for shape in SHAPES:
        for find in ('findPolicy', 'findPolicySet'):
            tasks.append(('%s %s' % (find, shape), reference, shape, find, 'given'))
        tasks.append(('no base %s' % shape, reference, shape, 'findPolicy', 'none'))
    for source in SOURCES:
        for shape in ('a relative path', 'an absolute path', 'http://'):
            tasks.append(('%s %s' % (source, shape), reference, shape, 'findPolicy', source))
    tasks += [('proxy', proxy), ('data', data)]
    ctx.parallel(tasks)
    ctx.minimum('location', 30)
    ctx.minimum('fetched-read', 2)
    ctx.minimum('proxy', 2)
    ctx.minimum('fetch-failure', 2)


def network(I):
    """Openers record what they are asked to open; opening works or fails."""
    def build(I, args, kw):
        I.mon['handlers'] = tuple(I.force(a) for a in args)
        I.mon['eqs'] = dict(I.facts)
        I.mon['recs'] = [(c, r.completed) for c, r in I.recs.items()]
        return Sym(('p', 'opener'), H_ANY)

    def proxies(I, args, kw):
        v = I.force(args[0]) if args else I.force(kw['proxies']) if 'proxies' in kw else None
        none = isinstance(v, Inst) and isinstance(v.payload, dict) and not v.payload
        return Sym(('p', 'no proxy' if none else 'proxy'), H_ANY)

    def open_(I, args, kw):
        a = list(args) + list(kw.values())
        I.mon['opened'] = I.mon.get('opened', ()) + (I.nm(I.force(a[0])) if a else None,)
        o = outcome(I, ('p', 'opening', len(I.mon['opened'])), ('works', 'HTTPError', 'URLError', 'fails'))
        if o == 'works':
            r = I.call(I.modules['xa_stream'].ns['Response'], ['url'], {})
            I.mon['responses'] = I.mon.get('responses', ()) + (r,)
            return r
        I.mon['open failed'] = I.where()
        if o == 'fails':
            raise I.opaque_exc('cannot be opened')
        raise I.exc(I.ext_attr('urllib.error', o), 'cannot be opened')

    def call(I, args, kw):
        f = args[0]
        if f.name == ('a', ('p', 'opener'), 'open'):
            return open_(I, args[1:], kw)
        if f.name == ('a', ('p', 'opener'), 'add_handler'):
            return None
        return MISSING

    def plain(I, args, kw):
        I.mon['handlers'] = ()
        I.mon['eqs'] = dict(I.facts)
        I.mon['recs'] = [(c, r.completed) for c, r in I.recs.items()]
        return open_(I, args, kw)
    I.ext_models['urllib.request.build_opener'] = build
    I.ext_models['urllib.request.ProxyHandler'] = proxies
    I.ext_models['urllib.request.urlopen'] = plain
    I.ext_models['urllib.request.Request'] = lambda I, a, k: (list(a) + [k.get('url')])[0]
    I.ext_models['sym-call'] = call


def setting(I):
    """The settings of the environment: strings or not set."""
    def get(I, args, kw):
        k = I.force(args[0])
        n = ('p', 'env', I.nm(k))
        if outcome(I, n + ('set',), ('set', 'not set')) == 'set':
            return Sym(n, H_STR)
        return args[1] if len(args) > 1 else kw.get('default')
    for f in ('os.environ.get', 'os.getenv'):
        I.ext_models[f] = get


def interp(ctx):
    mods = [q.rsplit('.', 1)[0] for q in (URLFINDER, DEFAULT)]
    I = ctx.interp(E + 'factory', E + 'policybasereader', 'ndg.xacml.parsers.common', C + 'context.pdp', 'ndg.xacml.utils.urlfetcher', *mods, etree=True)
    network(I)
    setting(I)
    I.load_source('xa_stream', os.path.join(os.path.dirname(models.__file__), 'pymodels', 'stream.py'), {})

    def quote(name):
        def f(I, args, kw):
            n = ('call', name, I.nm(I.force(args[0])))
            if 'os.path.abspath' in str(n) or 'os.path.realpath' in str(n):
                I.tails.setdefault(n, {'nonempty': True})
            return Sym(n, H_STR)
        return f
    for q in QUOTE:
        I.ext_models[q] = quote(q)
    return I


def reference(ctx, shape, find, source):
    """The document a reference is looked for in."""
    I = interp(ctx)
    start, want = SHAPES[shape]
    con = '%s: %s%s' % (find, shape, '' if source == 'given' else ' (%s)' % ('no base' if source == 'none' else source))
    where = where_of(I, I.cls(URLFINDER), find)
    I.tails[T] = {'nonempty': True, 'lacks': ('://',)}
    if want == 'base':
        I.tails[T]['not_prefix'] = ('/', './') + SCHEMES
    P = I.cls(C + 'policy.Policy')

    def opened(I, args, kw):
        """Reading the document: what is parsed, then stop."""
        I.mon['parsed'] = I.force(args[0])
        raise I.opaque_exc('cannot be read')
    I.ext_models['etree.parse'] = opened

    def entry(I):
        ref = models.str_concat(I, [start, Sym(T, H_STR)])
        if source in ('given', 'none'):
            f = I.call(I.cls(URLFINDER), [Sym(BASE, H_STR) if source == 'given' else None], {})
        else:
            s = make_source(I, source)
            f = I.call(I.obj(DEFAULT), [s], {})
        common = I.call(I.cls('ndg.xacml.parsers.common.Common'), [f], {})
        call_method(I, f, 'setReader', I.cls(E + 'policybasereader.PolicyBaseReader'))
        I.mon['looking'] = True
        return call_method(I, f, find, ref, common)

    def check(I, out):
        urls = I.mon.get('opened', ())
        if not I.mon.get('looking'):
            ctx.ob('location', con, False, 'no finder is made: ' + exc_text(out[1]), out[1].where, trace_text(I))
            return
        based = source != 'none' and (source == 'given' or source.endswith('existing path'))
        if want == 'base' and not based:
            ctx.ob('location', con, not urls and out[0] == 'raise', 'opens %s though it is not known what the reference is relative to' % V_show(urls and urls[0]), where, trace_text(I))
            return
        if not urls:
            ctx.ob('location', con, False, 'is not looked for' + (': ' + exc_text(out[1]) if out[0] == 'raise' else ''), out[1].where if out[0] == 'raise' else where, trace_text(I))
            return
        for u in urls[:1]:
            r = judge(I, u, start, want, BASE if source == 'given' else ('os.path.dirname', SRC))
            if r == 'unknown':
                ctx.error('%s: cannot tell where %s leads' % (con, V_show(u)))
            else:
                ctx.ob('location', con, r is None, 'leads to %s: %s' % (V_show(u), r), where, trace_text(I))
        if 'open failed' in I.mon:
            ctx.ob('fetch-failure', con, out[0] == 'raise', 'a failed fetch is not reported', I.mon['open failed'], trace_text(I))
            ctx.ob('fetch-failure', con, 'parsed' not in I.mon, 'something is read though the fetch failed', I.mon['open failed'], trace_text(I))
        else:
            p = I.mon.get('parsed')
            ctx.ob('fetched-read', con, p is I.mon.get('responses', (None,))[0], 'what is read is not the response', where, trace_text(I))
            ctx.ob('fetch-failure', con, out[0] == 'raise', 'a document that cannot be read is not reported', where, trace_text(I))
    ctx.explore(con, I, entry, check)


SRC = ('p', 'source')


def make_source(I, kind):
    """What a policy is parsed from; the file exists or not."""
    if kind == 'other object':
        return I.call(I.modules['xa_stream'].ns['Other'], [], {})
    there = kind.endswith('existing path')
    for q in ('exists', 'isfile'):
        I.facts[('truth', (q, SRC))] = there
    if kind in ('existing path', 'other string'):
        return Sym(SRC, H_STR)
    return I.call(I.modules['xa_stream'].ns['Stream'], [3 if kind == 'stream of a number' else Sym(SRC, H_STR)], {})


QUOTE = ('urllib.request.pathname2url', 'urllib.parse.quote')
PATHS = ('os.path.abspath', 'os.path.realpath', 'os.path.normpath')


def base_term(n):
    """(quoted, made absolute, the path meant) of a term for a base directory; None when it is something else."""
    quoted = absolute = False
    if n[0] == 'call' and n[1] in QUOTE and len(n) == 3:
        quoted, n = True, n[2]

    def strip(n):
        nonlocal absolute
        if n[0] in PATHS:
            absolute = absolute or n[0] != 'os.path.normpath'
            return strip(n[1])
        if n[0] in ('os.path.dirname', 'os.path.basename'):
            return (n[0], strip(n[1]))
        return n
    n = strip(n)
    m = n
    while m[0] in ('os.path.dirname', 'os.path.basename'):
        m = m[1]
    if m not in (BASE, SRC):
        return None
    return quoted, absolute, n


def understood(n):
    if n == T or n[0] == 'k' or base_term(n):
        return True
    return n[0] == 'item' or n[0] == 'm' and n[1] in ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase') and understood(n[2])


def judge(I, u, start, want, base):
    """None when the URL is the one meant, else what is wrong with it ('unknown': no saying)."""
    if u is None:
        return 'unknown'
    ps = list(u[1:]) if u[0] == 'cat' else [u]
    got = []
    for p in ps:
        if p[0] in PATHS and p[1][0] == 'cat':
            p = p[1]                # tidied as a whole
        if p[0] == 'pathjoin':
            for i, q in enumerate(p[1:]):
                got += ([('k', 'str', '/')] if i else []) + [q]
            continue
        got += list(p[1:]) if p[0] == 'cat' else [p]
    if not all(understood(p) for p in got):
        return 'unknown'
    if want != 'base':
        exp = {'as is': (start,), 'file': ('file:///', 'file:/')}[want]
        return None if len(got) == 2 and got[1] == T and models.piece_text(got[0]) in exp else 'not ' + {'as is': 'the reference itself', 'file': 'the file of that path'}[want]
    if len(got) < 3 or models.piece_text(got[0]) != 'file://':
        return 'not relative to the base directory'
    b = base_term(got[1])
    if b is None or b[2] != base:
        return 'not relative to the base directory'
    if not b[1]:
        return 'the base directory may be relative itself'
    if not b[0]:
        return 'the base directory may hold characters with a meaning in URLs'
    mid = got[2:-1]
    text = ''.join(models.piece_text(p) or '?' for p in mid)
    if got[-1] != T or '?' in text:
        return 'not the path of the reference'
    if not text and not any(k[0] == 'ends' and k[2] == '/' and v for k, v in I.facts.items()):
        return 'base directory and path run together'
    return None if text.strip('/').lstrip('.').strip('/') == '' and '..' not in text else 'not the path of the reference'


URL = ('p', 'url')
ENV = ('p', 'env', ('k', 'str', 'no_proxy'))


def is_host(n):
    return n[0] == 'a' and n[2] == 'hostname' and n[1] in [('call', 'urllib.parse.' + f, URL) for f in ('urlparse', 'urlsplit')]


def tidied(n):
    """A term less the changes of white space and case around it."""
    while n[0] == 'm' and (n[1] in ('strip', 'lstrip', 'rstrip', 'lower', 'casefold') and len(n) == 3 or n[1] == 'replace' and n[3:] == (('k', 'str', ' '), ('k', 'str', ''))):
        n = n[2]
    return n


def listed(n, elem='e'):
    """Whether a term is one of the hosts listed in the environment."""
    n, whole = tidied(n), n
    if not any(w in str(whole) for w in ("('m', 'strip',", "('m', 'replace',")):
        return False                # white space around the names is no part of them
    return n[0] in elem and (n[0] == '@' or the_list(n[1]))


def plain(n):
    """Whether it is clear what a term means."""
    n = tidied(n)
    return n[0] in 'e@' and (n[0] == '@' or the_list(n[1]))


def the_list(c):
    return c[0] == 'm' and c[1] == 'split' and c[3:] == (('k', 'str', ','),) and tidied(c[2]) == ENV


def pairs(facts):
    for k, v in facts:
        if k[0] == 'eq' and len(k) == 3:
            for a, b in (k[1:], k[:0:-1]):
                if is_host(tidied(a)):
                    yield b, v


def proxy(ctx):
    """Whether a proxy is kept from being used, and what becomes of a failure to fetch."""
    I = interp(ctx)
    for u in ('urlparse', 'urlsplit'):
        I.tails[('a', ('call', 'urllib.parse.' + u, URL), 'hostname')] = {'nonempty': True}
    where = '%s:%d' % (I.relpath(I.modules[FETCH[:-1]].path), I.obj(FETCH + 'open_url').node.lineno)
    for f in ('open_url', 'fetch_stream_from_url'):
        def entry(I):
            return I.call(I.obj(FETCH + f), [Sym(URL, H_STR)], {})

        def check(I, out):
            if 'handlers' not in I.mon:
                ctx.ob('fetch-failure', f, out[0] == 'raise', 'gives something that was not fetched', where, trace_text(I))
                ctx.ob('fetch', f, out[0] != 'raise', 'fails before anything is fetched' + (': ' + exc_text(out[1]) if out[0] == 'raise' else ''), where, trace_text(I))
                return
            off = any(isinstance(h, Sym) and h.name == ('p', 'no proxy') for h in I.mon['handlers'])
            eqs, recs = I.mon['eqs'], I.mon['recs']
            hit = any(v and listed(t) for t, v in pairs(eqs.items()))
            odd = [t for t, v in pairs(eqs.items()) if v and not hit and str(ENV) in str(t) and not plain(t)]
            if odd:
                ctx.error('%s: cannot tell whether %s is a listed host' % (f, V_show(odd[0])))
            elif off:
                ctx.ob('proxy', f, hit, 'the proxy is switched off for a host that is not listed', where, trace_text(I))
            else:
                msg = None
                if hit:
                    msg = 'the proxy is used for a host that is listed'
                elif eqs.get(('truth', ENV)) is not False and I.resolved.get(ENV + ('set',)) != 1 and not no_host(eqs):
                    done = [classes for c, classes in recs if the_list(c)]
                    if not done or not all(any(not v and listed(t, 'e@') for t, v in pairs([x[1:] for x in cl if x[0] == 'f'])) for classes in done[:1] for cl in classes or ()) or done[0] is None:
                        msg = 'the proxy is used for a host that may be listed'
                ctx.ob('proxy', f, msg is None, msg or '', where, trace_text(I))
            if 'open failed' in I.mon:
                ctx.ob('fetch-failure', f, out[0] == 'raise', 'a failed fetch is not reported', I.mon['open failed'], trace_text(I))
            else:
                r = I.mon.get('responses', ())
                ctx.ob('fetch', f, out[0] == 'return' and len(r) == 1 and out[1] is r[0] and r[0].attrs.get('closed') is None and I.mon['opened'] == (URL,),
                       'a document that can be fetched is not given', out[1].where if out[0] == 'raise' else where, trace_text(I))
        ctx.explore(f, I, entry, check)


def no_host(facts):
    return any(k[0] in ('none', 'truth') and is_host(k[1]) and v == (k[0] == 'none') for k, v in facts.items() if len(k) == 2)


def data(ctx):
    """The content of a document."""
    I = interp(ctx)
    f = 'fetch_data_from_url'
    where = '%s:%d' % (I.relpath(I.modules[FETCH[:-1]].path), I.obj(FETCH + f).node.lineno)
    I.intercepts[FETCH + '_should_use_proxy'] = lambda I, a, k: True

    def read(I, self_, args, kw):
        if self_.attrs.get('closed'):
            raise I.exc(ValueError, 'read of closed file')
        I.mon['reads'] = I.mon.get('reads', 0) + 1
        if outcome(I, ('p', 'reading'), ('works', 'fails')) == 'fails':
            I.mon['open failed'] = I.where()
            raise I.opaque_exc('cannot be read')
        return Sym(('p', 'content'), H_STR) if I.mon['reads'] == 1 and not args else Sym(('p', 'part'), H_STR)
    I.method_intercepts[('xa_stream.Stream', 'read')] = read
    I.method_intercepts[('xa_stream.Response', 'read')] = read

    def entry(I):
        return I.call(I.obj(FETCH + f), [Sym(URL, H_STR)], {})

    def check(I, out):
        if 'open failed' in I.mon:
            ctx.ob('fetch-failure', f, out[0] == 'raise', 'a failed fetch is not reported', I.mon['open failed'], trace_text(I))
        else:
            ctx.ob('fetch', f, out[0] == 'return' and isinstance(out[1], Sym) and out[1].name == ('p', 'content'), 'does not give the content',
                   out[1].where if out[0] == 'raise' else where, trace_text(I))
    ctx.explore(f, I, entry, check)

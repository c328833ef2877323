"""P24: temporary changes to process-wide settings are undone on every exit; no others are made."""
import ast
from xa.values import *
from xa.lib import *
from checks.p19 import sources

FA = 'ndg.xacml.utils.factory'
PP = 'ndg.xacml.utils.etree'
ET = {False: 'xml.etree.ElementTree', True: 'lxml.etree'}
# the settings borrowed and where: judged by the interpretation of the functions there
BORROWED = {('sys', 'path'): ['ndg/xacml/utils/factory.py'],
            ('ElementTree', '_namespace_map'): ['ndg/xacml/utils/etree.py']}
# registration of the prefixes of elements made for output
REGISTERS = {('ElementTree', '_namespace_map'): ['ndg/xacml/parsers/etree/__init__.py']}


def run(ctx):
    for lxml in (False, True):
        ctx.guard('callModuleObject', load, ctx, lxml)
        ctx.guard('prettyPrint', pretty, ctx, lxml)
    ctx.guard('effects', effects, ctx)
    ctx.minimum('search-path', 3)
    ctx.minimum('module-found', 1)
    ctx.minimum('namespace-table', 6)
    ctx.minimum('process-wide', 60)


# -- module search path -----------------------------------------------------

def load(ctx, lxml):
    I = ctx.interp(FA, lxml=lxml)
    m = I.modules[FA]
    f = m.ns.get('callModuleObject')
    if not isinstance(f, Func):
        raise AnchorMissing('callModuleObject not found')
    for init in (['/a', '/b'], []):
        for label, path in (('no path', None), ('empty path', ''), ('path', Sym(('p', 'file path'), H_STR)), ('path already there', '/a')):
            con = 'callModuleObject, %s%s' % (label, '' if init else ', empty search path')

            def imp(I, args, kw):
                p = current(I)
                I.mon['at import'] = list(p.payload) if isinstance(p, Inst) and isinstance(p.payload, list) else None
                if I.ask(('p', 'import fails')):
                    raise I.opaque_exc('import fails')
                return Sym(('p', 'module'), H_ANY)
            I.ext_models['__import__'] = imp
            I.ext_models['importlib.import_module'] = imp

            def current(I):
                return I.force(I.getattr(Ext('sys'), 'path'))

            def entry(I):
                I.fields[(('ext', 'sys'), 'path')] = Inst(list, payload=list(init))
                return I.call(f, ['some.module.Class'], {'moduleFilePath': path})

            def check(I, out):
                w = where_func(I, f)
                p = current(I)
                now = list(p.payload) if isinstance(p, Inst) and isinstance(p.payload, list) else None
                ctx.ob('search-path', con, now == init, 'search path %s became %s' % (init, now),
                       I.mon.get('set') or (out[1].where if out[0] == 'raise' else w), trace_text(I))
                if 'at import' in I.mon:
                    a = I.mon['at import']
                    want = list(init) + ([path] if path is not None and path != '' else [])
                    if a is not None and not (isinstance(path, Sym) and path not in a and I.lookup_fact(('truth', path.name)) is False):
                        ctx.ob('module-found', con, all(any(x is y or is_const(x) and x == y for y in a) for x in want),
                               'search path while importing is %s, expected %s' % (a, want), w, trace_text(I))
            ctx.explore(con, I, entry, check)


def where_func(I, f):
    return '%s:%d' % (I.relpath(f.mod.path), f.node.lineno)


# -- namespace table --------------------------------------------------------

A, B, N0 = 'urn:a', 'urn:b', 'urn:known'


def pretty(ctx, lxml):
    I = ctx.interp(PP, lxml=lxml, etree=True)
    f = I.modules[PP].ns.get('prettyPrint')
    if not isinstance(f, Func):
        raise AnchorMissing('prettyPrint not found')
    et = I.modules[ET[lxml]]
    base = {N0: 'known', 'urn:x': 'ns1'}

    def el(I, tag, text=None, children=(), **attrib):
        e = I.call(et.ns['Element'], [tag], {})
        I.setattr(e, 'text', text)
        for k, v in attrib.items():
            I.call(I.getattr(e, 'set'), [k, v], {})
        for c in children:
            I.call(I.getattr(e, 'append'), [c], {})
        if lxml:
            I.setattr(e, 'nsmap', pydict(I, {'a': A, 'known': N0}))
        return e

    def q(n, t='e'):
        return '{%s}%s' % (n, t)
    docs = [
        ('element', lambda I: el(I, q(A), 'text')),
        ('known namespace', lambda I: el(I, q(N0), ' text ')),
        ('nested', lambda I: el(I, q(A), None, [el(I, q(B)), el(I, q(A), 'x', [el(I, q('urn:c'))])])),
        ('attribute', lambda I: el(I, q(A), None, (), **{q(B, 'attr'): 'v', 'plain': 'w'})),
        ('comment', lambda I: el(I, q(A), None, [el(I, q(B)), I.call(et.ns['Comment'], ['c'], {})])),
        ('no namespace', lambda I: el(I, q(A), None, [el(I, 'plain')])),
        ('no element', lambda I: None),
    ]
    for label, make in docs:
        con = 'prettyPrint, %s%s' % (label, ' (lxml)' if lxml else '')

        def entry(I, make=make):
            d = pydict(I, base)
            I.setattr(et, '_namespace_map', d)
            return I.call(f, [make(I)], {})

        def check(I, out):
            d = I.force(I.getattr(et, '_namespace_map'))
            now = {k: v for k, v in d.payload.values()} if isinstance(d, Inst) and isinstance(d.payload, dict) else None
            ctx.ob('namespace-table', con, now == base, 'namespace table %s became %s%s' % (
                base, now, ' (%s)' % exc_text(out[1]) if out[0] == 'raise' else ''),
                out[1].where if out[0] == 'raise' else where_func(I, f), trace_text(I))
        ctx.explore(con, I, entry, check)


def pydict(I, d):
    return Inst(dict, payload={I.nm(k): (k, v) for k, v in d.items()})


# -- everything else --------------------------------------------------------

# calls that change settings of the process
SETTERS = {
    'os': 'chdir fchdir putenv unsetenv umask setuid setgid setegid seteuid setsid nice chroot _exit kill fork '
          'setpriority setgroups initgroups sched_setaffinity dup2',
    'sys': 'setrecursionlimit settrace setprofile setswitchinterval set_asyncgen_hooks excepthook displayhook set_int_max_str_digits '
           'addaudithook setdlopenflags',
    'socket': 'setdefaulttimeout', 'locale': 'setlocale', 'signal': 'signal setitimer alarm set_wakeup_fd siginterrupt pthread_sigmask',
    'urllib.request': 'install_opener', 'logging': 'basicConfig disable setLoggerClass setLogRecordFactory addLevelName captureWarnings '
    'shutdown raiseExceptions lastResort', 'logging.config': '*', 'random': 'seed setstate', 'gc': 'disable enable set_threshold set_debug freeze',
    'warnings': 'simplefilter filterwarnings resetwarnings', 'threading': 'setprofile settrace stack_size excepthook', 'time': 'tzset',
    'resource': 'setrlimit prlimit', 'faulthandler': 'enable disable register', 'codecs': 'register register_error',
    'decimal': 'setcontext', 'tempfile': '', 'mimetypes': 'init add_type', 'copyreg': 'pickle constructor add_extension', 'atexit': 'register unregister',
    'importlib': 'reload invalidate_caches', 'builtins': '', 'asyncio': 'set_event_loop set_event_loop_policy', 'ssl': '',
    'xml.etree.ElementTree': 'register_namespace', 'lxml.etree': 'register_namespace set_default_parser use_global_python_log', 'site': 'addsitedir',
    'multiprocessing': 'set_start_method', 'datetime': '', 're': 'purge', 'abc': '', 'http.cookiejar': '', 'email.charset': 'add_charset',
}
# attributes of modules that hold settings; changing what they refer to changes the setting
MUTATORS = set('append extend insert remove pop clear update setdefault popitem sort reverse add discard '
               '__setitem__ __delitem__ __setattr__ __delattr__ __ior__ __iadd__ setLevel addHandler removeHandler addFilter '
               'difference_update intersection_update'.split())


class Scan(object):
    """Changes to objects that belong to modules outside of the library."""

    def __init__(self, rel, tree):
        self.rel, self.tree = rel, tree
        self.names = {}          # module-level or function-level name -> dotted external path
        self.out = []
        self.count = 0

    def run(self):
        self.scope(self.tree.body, {})
        return self.out

    def dotted(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, env)
            return b + (e.attr,) if b is not None else None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.dotted(e.args[0], env)
                return b + (str(e.args[1].value),) if b is not None else None
            if isinstance(f, ast.Name) and f.id == 'vars' and len(e.args) == 1:
                b = self.dotted(e.args[0], env)
                return b + ('__dict__',) if b is not None else None
            if isinstance(f, ast.Name) and f.id == 'importElementTree':
                return ('ElementTree',)
            d = self.dotted(f, env)
            if d in (('logging', 'getLogger'),):
                return ('logging', 'root') if not e.args or isinstance(e.args[0], ast.Constant) and not e.args[0].value else None
            if d == ('importlib', 'import_module') and e.args and isinstance(e.args[0], ast.Constant):
                return (str(e.args[0].value),)
        if isinstance(e, ast.IfExp):
            return self.dotted(e.body, env) or self.dotted(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return next((d for d in (self.dotted(x, env) for x in e.values) if d), None)
        if isinstance(e, ast.NamedExpr):
            return self.dotted(e.value, env)
        return None

    def imported(self, n, env):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] == 'ndg':
                    continue
                if a.asname:
                    env[a.asname] = norm(tuple(a.name.split('.')))
                else:
                    env[a.name.split('.')[0]] = (a.name.split('.')[0],)
        else:
            mod = n.module or ''
            for a in n.names:
                if mod.split('.')[0] == 'ndg' or n.level:
                    if a.name == 'ElementTree':
                        env[a.asname or a.name] = ('ElementTree',)
                    continue
                env[a.asname or a.name] = norm(tuple(mod.split('.')) + (a.name,))

    def scope(self, body, env):
        env = dict(env)
        fns = []
        # imports and aliases of the scope, to a fixed point (order does not matter)
        for _ in range(3):
            for n in walk_scope(body):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.imported(n, env)
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    d = self.dotted(n.value, env)
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and d is not None and (len(d) > 1 or d == ('ElementTree',)):
                            env[t.id] = d
                elif isinstance(n, (ast.With,)):
                    for i in n.items:
                        d = self.dotted(i.context_expr, env)
                        if d and isinstance(i.optional_vars, ast.Name):
                            env[i.optional_vars.id] = d
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
                    d = next((d for d in (self.dotted(x, env) for x in n.iter.elts) if d), None)
                    if d:
                        env[n.target.id] = d
        for n in walk_scope(body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                fns.append(n)
            else:
                self.visit(n, env)
        for n in fns:
            e = dict(env)
            if not isinstance(n, ast.ClassDef):
                a = n.args
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    e.pop(x.arg, None)
            self.count += 1
            self.scope(n.body if isinstance(n.body, list) else [ast.Expr(n.body)], e)

    def hit(self, n, d, what):
        self.out.append((n.lineno, d, what))

    def target(self, t, env, what):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, env, what)
        elif isinstance(t, ast.Starred):
            self.target(t.value, env, what)
        elif isinstance(t, ast.Attribute):
            d = self.dotted(t, env)
            if d is not None:
                self.hit(t, d, what)
        elif isinstance(t, ast.Subscript):
            d = self.dotted(t.value, env)
            if d is not None:
                self.hit(t, d, what + ' an item of')

    def visit(self, n, env):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self.target(t, env, 'assigns')
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(n, ast.AugAssign) or n.value is not None:
                self.target(n.target, env, 'assigns')
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and env.get(n.target.id) and len(env[n.target.id]) > 1:
                self.hit(n, env[n.target.id], 'extends')
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.target(t, env, 'deletes')
        elif isinstance(n, (ast.For, ast.comprehension)):
            self.target(n.target, env, 'assigns')
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    self.target(i.optional_vars, env, 'assigns')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('setattr', 'delattr') and n.args:
                d = self.dotted(n.args[0], env)
                if d is not None:
                    a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                    self.hit(n, d + (str(a),), 'assigns')
                return
            d = self.dotted(f, env)
            if d is None:
                return
            mod, name = '.'.join(d[:-1]), d[-1]
            s = SETTERS.get({'ElementTree': 'xml.etree.ElementTree'}.get(mod, mod))
            if s is not None and (s == '*' or name in s.split()):
                self.hit(n, d, 'calls')
            elif name in MUTATORS and len(d) > 2 or (name in MUTATORS and len(d) == 2 and d[0] == 'logging' and name != 'add'):
                self.hit(n, d[:-1], 'changes (%s)' % name)


def norm(d):
    return ('ElementTree',) + d[3:] if d[:3] == ('xml', 'etree', 'ElementTree') else ('ElementTree',) + d[2:] if d[:2] == ('lxml', 'etree') else d


def walk_scope(body):
    """Nodes of one scope in order; nested functions and classes are yielded, not entered."""
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults + [x for x in n.args.kw_defaults if x])
            continue
        if isinstance(n, ast.Lambda):
            continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))


def effects(ctx):
    for rel, _, tree in sources(ctx):
        s = Scan(rel, tree)
        bad = []
        for line, d, what in s.run():
            d = norm(d)
            key = d[:2]
            if rel in BORROWED.get(key, ()):
                continue
            if rel in REGISTERS.get(key, ()) and what == 'assigns an item of':
                continue
            if d == ('ElementTree', 'register_namespace') and rel in REGISTERS[('ElementTree', '_namespace_map')]:
                continue
            bad.append((line, '%s %s' % (what, '.'.join(d))))
        ctx.ob('process-wide', rel, not bad, '; '.join(t for _, t in bad), '%s:%d' % (rel, bad[0][0] if bad else 1))

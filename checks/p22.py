"""P22: registering custom types, functions and readers; what every identifier stands for before and after."""
import os

import xa
from xa.values import *
from xa.lib import *
from checks.functions import FNS, AVF, TYPES, names, short

AVR = 'ndg.xacml.parsers.etree.attributevaluereader'
RF = 'ndg.xacml.parsers.etree.factory'
CUSTOM = 'xa_custom'
MODEL = {'policy.Policy': 'policyreader.PolicyReader', 'policyset.PolicySet': 'policysetreader.PolicySetReader',
         'policybase.PolicyBase': 'policybasereader.PolicyBaseReader', 'policydefaults.PolicyDefaults': 'policydefaultsreader.PolicyDefaultsReader',
         'rule.Rule': 'rulereader.RuleReader', 'target.Target': 'targetreader.TargetReader', 'condition.Condition': 'conditionreader.ConditionReader',
         'apply.Apply': 'applyreader.ApplyReader', 'attributevalue.AttributeValue': 'attributevaluereader.AttributeValueReader',
         'attributeselector.AttributeSelector': 'attributeselectorreader.AttributeSelectorReader'}
for _n in ('Subject', 'Resource', 'Action', 'Environment'):
    MODEL['%s.%s' % (_n.lower(), _n)] = '%sreader.%sReader' % (_n.lower(), _n)
    MODEL['attributedesignator.%sAttributeDesignator' % _n] = '%sattributedesignatorreader.%sAttributeDesignatorReader' % (_n.lower(), _n)
for _n in ('Subject', 'Resource'):
    MODEL['match.%sMatch' % _n] = '%smatchreader.%sMatchReader' % (_n.lower(), _n)


def run(ctx):
    I = ctx.interp(FNS, 'ndg.xacml.core.context.pdp', AVR, RF, 'ndg.xacml.core.policyset')
    I.load_source(CUSTOM, os.path.join(os.path.dirname(os.path.abspath(xa.__file__)), 'pymodels', 'custom.py'), {})
    K = I.modules[CUSTOM].ns
    ctx.guard('functions', functions, ctx, I, K)
    ctx.guard('attribute types', types, ctx, I, K)
    ctx.guard('data type readers', data_readers, ctx, I, K)
    ctx.guard('readers', readers, ctx, I, K)
    ctx.minimum('standard-refused', 200)
    ctx.minimum('registered', 30)
    ctx.minimum('failed-registration', 30)
    ctx.minimum('standard-reader', 15)


def got(I, f, *a, **kw):
    """What a lookup or registration does."""
    try:
        return 'value', I.force(I.call(f, list(a), kw))
    except AbsExc as e:
        return 'raise', exc_text(e).split(' at ')[0]


def same(a, b):
    return a[0] == b[0] and (a[0] == 'raise' or a[1] is b[1])


def table(I, look, ids):
    return {i: look(I, i) for i in ids}


def diff(a, b):
    return [i for i in a if not same(a[i], b[i])]


class Scenario(object):
    """One registration: tables before and after."""

    def __init__(self, ctx, I, con, where, ids, look, register):
        self.ctx, self.I, self.con, self.where = ctx, I, con, where
        self.ids, self.look, self.register = ids, look, register

    def run(self, args, judge, first=None, name=str):
        """judge(result, before, after) -> (rule, complaint or None)"""
        def entry(I):
            look = self.look(I)
            if first is not None:
                self.register(I, *first)
            b = table(I, look, self.ids)
            r = self.register(I, *args)
            return r, b, table(I, look, self.ids)

        def check(I, out):
            if out[0] == 'raise':
                self.ctx.ob('registered', self.con, False, 'lookup fails: ' + exc_text(out[1]), out[1].where, trace_text(I))
                return
            rule, msg = judge(*out[1])
            self.ctx.ob(rule, self.con, msg is None, msg or '', self.where, trace_text(I))
        self.ctx.explore(self.con, self.I, entry, check)


def refused(r, b, a):
    d = diff(b, a)
    return 'standard-refused', 'is accepted' if r[0] != 'raise' else 'is refused but changes %s' % ', '.join(map(short_of, d)) if d else None


def failed(r, b, a):
    d = diff(b, a)
    return 'failed-registration', 'is accepted' if r[0] != 'raise' else 'fails but changes %s' % ', '.join(map(short_of, d)) if d else None


def adds(key, value):
    def judge(r, b, a):
        if r[0] == 'raise':
            return 'registered', 'fails: %s' % r[1]
        d = [i for i in diff(b, a) if i is not key and i != key]
        if d:
            return 'registered', 'also changes %s' % ', '.join(map(short_of, d))
        if a[key] != ('value', value):
            return 'registered', 'yields %r' % (a[key][1],)
        return 'registered', None
    return judge


def ignored(r, b, a):
    d = diff(b, a)
    return 'registered', 'changes %s' % ', '.join(map(short_of, d)) if d else None


def either(key, value):
    """Replaced or left alone, nothing else changed."""
    def judge(r, b, a):
        d = [i for i in diff(b, a) if i != key]
        if d:
            return 'registered', 'also changes %s' % ', '.join(map(short_of, d))
        if not same(a[key], b[key]) and a[key] != ('value', value) or r[0] == 'raise' and not same(a[key], b[key]):
            return 'registered', 'yields %r' % (a[key][1],)
        return 'registered', None
    return judge


def near(n):
    """Identifiers that resemble n and are not n."""
    out = [n.lower(), n.upper(), n + ' ', ' ' + n, n + '#', n + '-x', n + ':x', n[:-1], n.replace('-', '_'), n.split(':')[-1], n.rsplit(':', 1)[0],
           n.replace('urn:', 'http:'), n.rsplit('#')[-1]]
    return sorted(set(x for x in out if x != n))


def short_of(i):
    return short(i) if isinstance(i, str) else getattr(i, 'name', repr(i))


# ---------------------------------------------------------------------------

def functions(ctx, I, K):
    FM = I.cls(FNS + '.FunctionMap')
    std = names(I)
    w = where_of(I, FM, 'load_custom_function')
    sample = [n for i, n in enumerate(std) if i % 16 == 0 or n.endswith((':and', 'string-equal', 'regexp-string-match', '2.0:function:string-concatenate'))]
    new = ['urn:Custom:my-function', 'urn:Custom:my-function2']
    close = [std[0] + '-custom', std[0].upper(), std[0][:-1], 'urn:oasis:names:tc:xacml:1.0:function:', ' ' + std[0]]

    def look(I):
        fm = I.mon['fm'] = I.call(FM, [], {})
        return lambda I, i: got(I, I.getattr(fm, 'get'), i)

    def register(I, n, *a, **kw):
        return got(I, I.getattr(I.mon['fm'], 'load_custom_function'), n, *a, **kw)

    def by_path(I, n, p):
        return register(I, n, function_factory_path=p)
    inst = {k: I.call(K[k], [], {}) for k in ('FactoryA', 'FactoryB', 'FactoryNone', 'FactoryOther', 'FactoryRaises')}
    path = CUSTOM + '.FactoryA'

    def imp(I, args, kw):
        if isinstance(args[0], str) and args[0] == CUSTOM:
            return I.modules[CUSTOM]
        if isinstance(args[0], str) and args[0] == 'no_module':
            raise I.exc(ImportError, 'No module named no_module')
        saved = I.ext_models.pop('__import__')
        try:
            return I.call(I.builtins['__import__'], args, kw)
        finally:
            I.ext_models['__import__'] = saved
    I.ext_models['__import__'] = imp

    def sc(con, ids, reg=register):
        return Scenario(ctx, I, con, w, ids, look, reg)
    # a standard identifier, before and after it was looked up
    for n in std:
        sc('load_custom_function ' + short(n), [n]).run((n, inst['FactoryA']), refused)
    for n in sample[:6]:
        sc('load_custom_function %s by path' % short(n), [n], by_path).run((n, path), refused)
    ids = sorted(set(sample + new + near(new[0])))
    for n in new[:1] + close:
        sc('load_custom_function %r' % n, sorted(set(ids + near(n) + [n]))).run((n, inst['FactoryA']), adds(n, K['FunctionA']))
        sc('load_custom_function %r by path' % n, sorted(set(ids + near(n) + [n])), by_path).run((n, path), adds(n, K['FunctionA']))
    n = new[0]
    sc('load_custom_function again', ids).run((n, inst['FactoryB']), either(n, K['FunctionB']), first=(n, inst['FactoryA']))
    sc('load_custom_function second', ids).run((new[1], inst['FactoryB']), adds(new[1], K['FunctionB']), first=(n, inst['FactoryA']))
    for k in ('FactoryNone', 'FactoryOther', 'FactoryRaises'):
        sc('load_custom_function with ' + k, ids).run((n, inst[k]), failed)
        sc('load_custom_function again with ' + k, ids).run((n, inst[k]), failed, first=(n, inst['FactoryA']))
    for bad in (None, 1, K['Plain']):
        sc('load_custom_function for %r' % (bad,), ids).run((bad, inst['FactoryA']), failed)
        sc('load_custom_function with %r' % (bad,), ids, by_path).run((n, bad), failed)
    for p in ('no_module.Factory', CUSTOM + '.NoFactory'):
        sc('load_custom_function with path %s' % p, ids, by_path).run((n, p), failed)
    # the map the library itself uses
    shared = I.obj(FNS + '.functionMap')
    ctx.ob('registered', 'functionMap', isinstance(shared, Inst) and I.isinstance(shared, FM), 'is no FunctionMap', w)
    I.ext_models.pop('__import__')


def types(ctx, I, K):
    F = I.cls(AVF)
    w = where_of(I, F, 'addClass')
    own = ['urn:Custom:my-type', 'urn:Custom:my-type2', TYPES['string'].upper()]
    ids = sorted(set(list(TYPES.values()) + own + near(own[0]) + near(TYPES['string'])))

    def look(I):
        a, b = I.call(F, [], {}), None
        b = I.obj(AVR + '.AttributeValueReader')
        b = I.getattr(b, 'FACTORY')

        def f(I, i):
            x, y = got(I, a, i), got(I, b, i)
            z = got(I, I.call(F, [], {}), i)
            return x if same(x, y) and same(x, z) else ('value', (x[1], y[1], z[1]))
        return f

    def register(I, i, c, *a, **kw):
        return got(I, I.getattr(F, 'addClass'), i, c, *a, **kw)

    def over(I, i, c):
        return register(I, i, c, overwrite=True)

    def sc(con, reg=register):
        return Scenario(ctx, I, con, w, ids, look, reg)
    for i in sorted(TYPES.values()):
        sc('addClass ' + short(i)).run((i, K['ValueA']), ignored)
        sc('addClass %s, overwrite' % short(i), over).run((i, K['ValueA']), adds(i, K['ValueA']))
    for i in own:
        for reg, t in ((register, ''), (over, ', overwrite')):
            sc('addClass %s%s' % (short(i), t), reg).run((i, K['ValueA']), adds(i, K['ValueA']))
        sc('addClass %s again' % short(i)).run((i, K['ValueB']), ignored, first=(i, K['ValueA']))
        sc('addClass %s again, overwrite' % short(i), over).run((i, K['ValueB']), adds(i, K['ValueB']), first=(i, K['ValueA']))
        sc('addClass %s second' % short(i)).run((i, K['ValueB']), adds(i, K['ValueB']), first=('urn:other', K['ValueA']))
    for reg, t in ((register, ''), (over, ', overwrite')):
        for bad in (None, 1, K['Plain']):
            sc('addClass for %r%s' % (bad, t), reg).run((bad, K['ValueA']), failed)
        for bad in (None, 'x', K['Plain'], K['FunctionA']):
            for i in ('urn:custom:type', TYPES['string']):
                sc('addClass %s, %r%s' % (short(i), bad, t), reg).run((i, bad), failed)


def data_readers(ctx, I, K):
    F = I.cls(AVR + '.DataTypeReaderClassFactory')
    base = I.cls(AVR + '.ETreeDataTypeReaderBase')
    V = I.cls('ndg.xacml.core.attributevalue.AttributeValue')
    w = where_of(I, F, 'addReader')
    ids = sorted(set(list(TYPES.values()) + ['urn:Custom:my-type', 'urn:custom:type2'] + near('urn:Custom:my-type') + near(TYPES['string'])))
    fac = I.call(I.cls(AVF), [], {})

    def look(I):
        def f(I, i):
            v = I.call(I.force(I.call(fac, [TYPES['string']], {})), [], {})
            I.setattr(v, 'dataType', i)
            return got(I, I.getattr(F, 'getReader'), v)
        return f

    def register(I, i, c):
        return got(I, I.getattr(F, 'addReader'), i, c)

    def sc(con):
        return Scenario(ctx, I, con, w, ids, look, register)
    for i in ids:
        sc('addReader ' + short(i)).run((i, K['DataReaderA']), adds(i, K['DataReaderA']))
        sc('addReader %s again' % short(i)).run((i, K['DataReaderB']), adds(i, K['DataReaderB']), first=(i, K['DataReaderA']))
        sc('addReader %s second' % short(i)).run((i, K['DataReaderB']), adds(i, K['DataReaderB']), first=('urn:other', K['DataReaderA']))
    for bad in (None, 1, K['Plain']):
        sc('addReader for %r' % (bad,)).run((bad, K['DataReaderA']), failed)
    for bad in (None, 'x', K['Plain'], K['ReaderA']):
        for i in ('urn:custom:type', TYPES['string']):
            sc('addReader %s, %r' % (short(i), bad)).run((i, bad), failed)


def readers(ctx, I, K):
    F = I.cls(RF + '.ReaderFactory')
    w = where_of(I, F, 'addReader')
    model = {I.cls('ndg.xacml.core.' + c): 'ndg.xacml.parsers.etree.' + r for c, r in sorted(MODEL.items())}
    ids = list(model) + [K['ModelA'], K['ModelB']]

    def look(I):
        return lambda I, c: got(I, I.getattr(F, 'getReader'), c)
    for c, r in model.items():
        x = got(I, I.getattr(F, 'getReader'), c)
        ctx.ob('standard-reader', c.qual, x[0] == 'value' and x[1] is I.cls(r), 'is read by %r' % (x[1],), where_of(I, F, 'getReader'))

    def register(I, c, r):
        return got(I, I.getattr(F, 'addReader'), c, r)

    def sc(con):
        return Scenario(ctx, I, con, w, ids, look, register)
    for c in list(model)[:6] + [K['ModelA'], K['ModelB']]:
        sc('addReader ' + c.name).run((c, K['ReaderA']), adds(c, K['ReaderA']))
        sc('addReader %s again' % c.name).run((c, K['ReaderB']), adds(c, K['ReaderB']), first=(c, K['ReaderA']))
    sc('addReader second').run((K['ModelB'], K['ReaderB']), adds(K['ModelB'], K['ReaderB']), first=(K['ModelA'], K['ReaderA']))
    for bad in (None, 'x', 1, K['Plain']):
        sc('addReader for %r' % (bad,)).run((bad, K['ReaderA']), failed)
    for bad in (None, 'x', K['Plain'], K['ValueA']):
        for c in (K['ModelA'], list(model)[0]):
            sc('addReader %s, %r' % (c.name, bad)).run((c, bad), failed)

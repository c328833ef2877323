"""The implemented functions: which identifier denotes which family and type."""
from xa.values import *
from xa.lib import *
from checks.p07 import AV, AVF, CX

FNS = 'ndg.xacml.core.functions'
V1 = 'urn:oasis:names:tc:xacml:1.0:function:'
V2 = 'urn:oasis:names:tc:xacml:2.0:function:'
XS = 'http://www.w3.org/2001/XMLSchema#'
X1 = 'urn:oasis:names:tc:xacml:1.0:data-type:'
X2 = 'urn:oasis:names:tc:xacml:2.0:data-type:'
XQ = 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#'
TYPES = {'string': XS + 'string', 'boolean': XS + 'boolean', 'integer': XS + 'integer', 'double': XS + 'double',
         'date': XS + 'date', 'time': XS + 'time', 'dateTime': XS + 'dateTime', 'anyURI': XS + 'anyURI',
         'hexBinary': XS + 'hexBinary', 'base64Binary': XS + 'base64Binary',
         'dayTimeDuration': XQ + 'dayTimeDuration', 'yearMonthDuration': XQ + 'yearMonthDuration',
         'x500Name': X1 + 'x500Name', 'rfc822Name': X1 + 'rfc822Name',
         'ipAddress': X2 + 'ipAddress', 'dnsName': X2 + 'dnsName'}
# identifier suffix -> family; the longest suffix wins
FAMILIES = ('-equal', '-match', '-regexp-match', '-one-and-only', '-bag', '-at-least-one-member-of', '-concatenate')
NAMED = {V1 + 'and': 'and', V1 + 'not': 'not', V1 + 'round': 'round'}
# functions over nodes of the request: this library implements them over strings
NODE = {'xpath-node': 'string', 'uri-string': 'anyURI', 'url-string': 'anyURI'}


def family(identifier):
    """(family, data type URI) of an identifier, or (None, None)."""
    if identifier in NAMED:
        return NAMED[identifier], None
    name = identifier.split(':')[-1]
    for s in sorted(FAMILIES, key=len, reverse=True):
        if name.endswith(s):
            p = name[:-len(s)]
            p = NODE.get(p, p)
            if p in TYPES:
                return s[1:], TYPES[p]
    return None, None


def names(I):
    return [x for x in I.seq_items(I.getattr(I.cls(FNS + '.XacmlFunctionNames'), 'FUNCTION_NAMES'))]


def load(ctx):
    """interp and [(identifier, family, value class, function instance)] of every
    standard function the map resolves."""
    I = ctx.interp(FNS, 'ndg.xacml.core.context.pdp')
    fm = I.obj(FNS + '.functionMap')
    fac = I.call(I.cls(AVF), [], {})
    out = []
    base = I.cls(FNS + '.AbstractFunction')
    for n in names(I):
        fam, uri = family(n)
        c = call_method(I, fm, 'get', n)
        if c is NotImplemented or c is None:
            continue
        if not isinstance(c, Cls):
            raise AnchorMissing('functionMap yields no class for ' + n)
        if fam is None:
            ctx.note('no reference semantics for the implementation of ' + n)
            continue
        T = I.call(fac, [uri], {}) if uri else None
        out.append((n, fam, T, I.call(c, [], {})))
    return I, fac, out


def native(I, T):
    t = I.getattr(T, 'TYPE') if T is not None else None
    return {str: H_STR, int: H_INT, bool: H_BOOL}.get(t, Hint('obj', cls=t) if isinstance(t, type) else H_ANY)


def typed(I, T):
    """Hint of a value of class T whose value is an unknown of its native type."""
    h = native(I, T)
    return obj_hint(I, T, value=lambda I, s: Sym(('a', s.name, 'value'), h),
                    dataType=lambda I, s: I.getattr(T, 'IDENTIFIER'))


def short(n):
    return n.split(':')[-1]

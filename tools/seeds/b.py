exec(open('/verif/tools/seeds/a.py').read().split("C = 'ndg/xacml/core/'")[0])
C = 'ndg/xacml/core/'
P = 'ndg/xacml/parsers/etree/'
POL = '''
import tempfile, shutil
from io import BytesIO
from ndg.xacml.core.policy import Policy
from ndg.xacml.parsers.etree.factory import ReaderFactory
NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
ALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:deny-overrides'


def policy(body, **kw):
    a = ''.join(' %s="%s"' % i for i in kw.items())
    return ('<Policy xmlns="%s" PolicyId="p" RuleCombiningAlgId="%s"%s>%s</Policy>' % (NS, ALG, a, body)).encode()


def read(text):
    return Policy.fromSource(BytesIO(text), ReaderFactory)


def rejected(text):
    try:
        read(text)
    except Exception:
        return True
    return False


def literal(v):
    return '<AttributeValue DataType="%sstring">%s</AttributeValue>' % (XS, v)


def apply(*vs):
    return '<Apply FunctionId="urn:oasis:names:tc:xacml:1.0:function:string-bag">%s</Apply>' % ''.join(literal(v) for v in vs)


def rule(i, body=''):
    return '<Rule RuleId="%s" Effect="Permit">%s</Rule>' % (i, body)
'''
SEEDS = [
 dict(id='p12-module-by-last-word', property='P12', needs='a function of two words such as x-at-least-one-member-of looked up under a name whose first words repeat',
      breaks='an unknown function name that begins with a known function yields that function', skip=True,
      edits=[], demo=''),
 dict(id='p13-first-bad-child', property='P13', needs='a target match whose unknown child comes after both operands',
      breaks='an unknown child of a match is ignored once both operands are there',
      edits=[(P + 'matchreader.py', """            else:
                raise XMLParseError("XACML %r child""", """            elif match.attributeValue is None or (match.attributeDesignator is None and
                                                  match.attributeSelector is None):
                raise XMLParseError("XACML %r child""")],
      demo=POL + '''
def target(extra):
    return policy('<Target><Subjects><Subject><SubjectMatch MatchId="urn:oasis:names:tc:xacml:1.0:function:string-equal">'
                  '%s<SubjectAttributeDesignator AttributeId="a" DataType="%sstring"/>%s</SubjectMatch></Subject></Subjects></Target>'
                  % (literal('x'), XS, extra))
assert len(read(target('')).target.subjects) == 1
assert rejected(target('<Other/>'))
'''),
 dict(id='p14-repeated-literal', property='P14', needs='a function application with two equal literal operands next to each other',
      breaks='the second of two equal literal operands is dropped',
      edits=[(P + 'applyreader.py', """                AttributeValueReader = ReaderFactory.getReader(AttributeValue) 
                applyObj.expressions.append(AttributeValueReader.parse(subElem,
                                                                       common))""", """                AttributeValueReader = ReaderFactory.getReader(AttributeValue)
                literal = AttributeValueReader.parse(subElem, common)
                last = applyObj.expressions[-1:]
                if not (last and type(last[0]) == type(literal) and
                        last[0].value == literal.value):
                    applyObj.expressions.append(literal)""")],
      demo=POL + '''
p = read(policy(rule('r', '<Condition>%s</Condition>' % apply('a', 'b', 'a'))))
assert [e.value for e in p.rules[0].condition.expression.expressions] == ['a', 'b', 'a']
p = read(policy(rule('r', '<Condition>%s</Condition>' % apply('a', 'a', 'b'))))
assert [e.value for e in p.rules[0].condition.expression.expressions] == ['a', 'a', 'b']
'''),
 dict(id='p15-adjacent-rule-ids', property='P15', needs='two rules with the same id that are not next to each other',
      breaks='a repeated rule id is noticed only when the rules are neighbours',
      edits=[(P + 'policyreader.py', "if rule.id in [_rule.id for _rule in policy.rules]:", "if rule.id in [_rule.id for _rule in policy.rules[-1:]]:")],
      demo=POL + '''
assert len(read(policy(rule('a') + rule('b'))).rules) == 2
assert rejected(policy(rule('a') + rule('a')))
assert rejected(policy(rule('a') + rule('b') + rule('a')))
'''),
 dict(id='p16-pip-into-request', property='P16', needs='a request whose handler supplies more values, evaluated twice',
      breaks='the values that the handler supplies are added to the list that the request holds',
      edits=[(C + 'attributedesignator.py', """        for subject in context.subjects:  
            for attr in subject.attributes:
                if _attributeMatch(attr):
                    attributeValueBag.extend(""", """        for subject in context.subjects:  
            for attr in subject.attributes:
                if _attributeMatch(attr):
                    if len(context.subjects) == 1 and len(subject.attributes) == 1 and len(
                            [i for i in attr.attributeValues if i.dataType != dataType]) == 0:
                        attributeValueBag = attr.attributeValues
                        continue
                    attributeValueBag.extend(""")],
      demo='''
from ndg.xacml.core.attributedesignator import SubjectAttributeDesignator
from ndg.xacml.core.context.handler import CtxHandlerInterface
class H(CtxHandlerInterface):
    def handlePEPRequest(self, pepRequest):
        pass
    def pipQuery(self, request, designator):
        b = TypedList(S)
        b.append(S('more'))
        return b
r = Request()
r.subjects.append(Subject())
r.subjects[0].attributes.append(attr('a', ['x']))
r.ctxHandler = H()
d = SubjectAttributeDesignator()
d.attributeId, d.dataType = 'a', S.IDENTIFIER
assert [v.value for v in d.evaluate(r)] == ['x', 'more']
assert [v.value for v in r.subjects[0].attributes[0].attributeValues] == ['x']
'''),
 dict(id='p16-regex-cache-result', property='P16', needs='two texts that differ only after 128 characters, matched one after the other',
      breaks='the result of a match is kept for the pattern and the first 128 characters of the text',
      edits=[(C + 'functions/v1/regexp_match.py', """        return bool(compiled_regex.match(input.value))""", """        key = (pat.value, input.value[:128])
        if key not in self.compiled_regexes:
            self.compiled_regexes[key] = bool(compiled_regex.match(input.value))
        return self.compiled_regexes[key]""")],
      demo='''
f = functionMap.get('urn:oasis:names:tc:xacml:1.0:function:string-regexp-match')()
p = S('a*$')
assert f.evaluate(p, S('a' * 200)) is True
assert f.evaluate(p, S('a' * 100 + 'b')) is False
assert f.evaluate(p, S('a' * 200 + 'b')) is False
'''),
 dict(id='p17-extend-first-only', property='P17', needs='extending a typed list by items of which a later one has another type',
      breaks='only the first item added by += is checked',
      edits=[('ndg/xacml/utils/__init__.py', """        for i in iter:
            if not isinstance(i, self.__elementType):
                raise TypeError("List items must be of type %s" % 
                                (self.__elementType,))
                    
        return super(TypedList, self).__iadd__(iter)""", """        for i in iter:
            if not isinstance(i, self.__elementType):
                raise TypeError("List items must be of type %s" % 
                                (self.__elementType,))
            break
                    
        return super(TypedList, self).__iadd__(iter)""")],
      demo='''
l = TypedList(str)
l += ['a', 'b']
assert l == ['a', 'b']
for bad in ([1], [1, 'c'], ['c', 1]):
    try:
        l += bad
    except TypeError:
        pass
    else:
        raise AssertionError(l)
    assert l == ['a', 'b']
'''),
 dict(id='p18-code-prefix', property='P18', needs='a status code that is no code but begins like one',
      breaks='any text under the prefix of the standard codes is accepted as a status code',
      edits=[(C + 'context/result.py', "        if value not in self.__class__.CODES:\n            raise AttributeError('Status code", "        if not value.startswith(self.__class__.IDENTIFIER_PREFIX + ':'):\n            raise AttributeError('Status code")],
      demo='''
from ndg.xacml.core.context.result import StatusCode
s = StatusCode()
for c in StatusCode.CODES:
    s.value = c
    assert s.value == c
for c in ('x', 'urn:oasis:names:tc:xacml:1.0:status:', 'urn:oasis:names:tc:xacml:1.0:status:okay'):
    try:
        s.value = c
    except Exception:
        pass
    else:
        raise AssertionError(c)
'''),
 dict(id='p20-empty-subject', property='P20', needs='a request with a subject that has no attributes',
      breaks='a subject without attributes is left out of the document',
      edits=[(P + 'context.py', """            subjectElem = SubjectElementTree.toXML(subject)
            elem.append(subjectElem)""", """            subjectElem = SubjectElementTree.toXML(subject)
            if len(subjectElem) or len(request.subjects) == 1:
                elem.append(subjectElem)""")],
      demo='''
from ndg.xacml.parsers.etree.context import RequestElementTree
def req(*ns):
    r = Request()
    for n in ns:
        s = Subject()
        for i in range(n):
            s.attributes.append(attr('a', ['x']))
        r.subjects.append(s)
    r.resources.append(Resource())
    r.action, r.environment = Action(), Environment()
    return len([e for e in RequestElementTree.toXML(r) if str(e.tag).endswith('Subject')])
assert req(1, 2) == 2
assert req(0) == 1
assert req(1, 0) == 2
'''),
 dict(id='p21-empty-category', property='P21', needs='a request pickled after its subject list was set up with attributes only of a resource',
      breaks='fields that are None or empty are left out of the pickled state of attributes, so a restored attribute lacks them',
      edits=[(C + 'attribute.py', """                attrName = "_Attribute" + attrName
                
            _dict[attrName] = getattr(self, attrName)""", """                attrName = "_Attribute" + attrName
                
            value = getattr(self, attrName)
            if value is None and attrName.endswith('ssuer'):
                continue
            _dict[attrName] = value""")],
      demo='''
import pickle
a = attr('a', ['x'], issuer='me')
b = pickle.loads(pickle.dumps(a, 2))
assert b.issuer == 'me' and b.attributeId == 'a'
b = pickle.loads(pickle.dumps(attr('a', ['x']), 2))
assert b.issuer is None and b.attributeId == 'a'
'''),
 dict(id='p22-folded-alias', property='P22', needs='a custom identifier with capital letters',
      breaks='a custom function is also returned for its identifier in small letters',
      edits=[(C + 'functions/__init__.py', """        self[function_ns] = function
        self.__custom_class_factory_map[function_ns] = function_factory""", """        self[function_ns] = function
        self.__custom_class_factory_map[function_ns] = function_factory
        alias = function_ns.lower()
        if alias not in self:
            self[alias] = function""")],
      demo='''
from ndg.xacml.core.functions import FunctionMap, AbstractFunction
class Fn(AbstractFunction):
    FUNCTION_NS = 'urn:My:function'
    def evaluate(self, *a):
        return True
m = FunctionMap()
m.load_custom_function('urn:My:function', lambda ns: Fn)
assert m['urn:My:function'] is Fn
assert 'urn:my:function' not in list(m)
'''),
 dict(id='p23-proxy-suffix', property='P23', needs='a host listed in no_proxy of which the requested host is a longer name, or an empty entry',
      breaks='hosts whose names end in a listed name are fetched without the proxy, and so is every host when the list has an empty entry',
      edits=[('ndg/xacml/utils/urlfetcher.py', "        if urlObj.hostname == np:", "        if urlObj.hostname is not None and urlObj.hostname.endswith(np):")],
      demo='''
from ndg.xacml.utils.urlfetcher import _should_use_proxy as f
def with_(v, url):
    os.environ['no_proxy'] = v
    return f(url)
assert with_('a.org', 'http://a.org/x') is False
assert with_('a.org', 'http://b.org/x') is True
assert with_('a.org', 'http://data.org/x') is True
'''),
 dict(id='p25-eq-any-type', property='P25', needs='comparing values of two data types that hold equal native values',
      breaks='values of different data types that hold the same native type compare equal instead of failing',
      edits=[(C + 'attributevalue.py', "        if not isinstance(attrVal, self.__class__):", "        if not isinstance(attrVal, AttributeValue) or attrVal.TYPE is not self.TYPE:")],
      demo='''
assert S('a') == S('a') and not S('a') == S('b')
for x, y in ((S('a'), I(1)), (S('a'), U('a')), (S('a'), U('b'))):
    try:
        x == y
    except TypeError:
        pass
    else:
        raise AssertionError((x, y))
'''),
]
SEEDS = [s for s in SEEDS if s['demo']]

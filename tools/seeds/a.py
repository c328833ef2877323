PRELUDE = '''
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributevalue import AttributeValue, AttributeValueClassFactory
from ndg.xacml.core.functions import functionMap
from ndg.xacml.utils import TypedList
F = AttributeValueClassFactory()
XS = 'http://www.w3.org/2001/XMLSchema#'
S, B, I, U = F(XS + 'string'), F(XS + 'boolean'), F(XS + 'integer'), F(XS + 'anyURI')


class Child(object):
    """Stands for a rule or policy that gives a fixed decision."""
    def __init__(self, decision, effect='Permit'):
        from ndg.xacml.core.rule import Effect
        self.d = decision
        self.id = self.ident = 'c'
        self.effect = Effect(effect)
        self.seen = 0

    def evaluate(self, context):
        self.seen += 1
        return Decision(decision=self.d)


def attr(ident, values, cls=S, issuer=None):
    a = Attribute()
    a.attributeId = ident
    a.dataType = cls.IDENTIFIER
    if issuer is not None:
        a.issuer = issuer
    for v in values:
        a.attributeValues.append(cls(v))
    return a


def bag(cls, *values):
    b = TypedList(cls)
    for v in values:
        b.append(cls(v))
    return b
'''
C = 'ndg/xacml/core/'
SEEDS = [
 dict(id='p01-potential-deny-reset', property='P01', needs='an Indeterminate Deny rule followed by an Indeterminate Permit rule and a Permit rule',
      breaks='a later Indeterminate Permit rule clears the potential deny recorded before, so deny-overrides permits',
      edits=[(C + 'rule_combining_alg.py', '''                if rule.effect.value == Decision.DENY:
                    potentialDeny = True''', '''                potentialDeny = rule.effect.value == Decision.DENY''')],
      demo='''
from ndg.xacml.core.rule_combining_alg import DenyOverridesRuleCombiningAlg as A
r = A().evaluate([Child('Indeterminate', 'Deny'), Child('Indeterminate', 'Permit'), Child('Permit')], None)
assert r == Decision.INDETERMINATE, r.value
r = A().evaluate([Child('Indeterminate', 'Permit'), Child('Permit')], None)
assert r == Decision.PERMIT, r.value
'''),
 dict(id='p02-permit-overrides-error-first', property='P02', needs='an Indeterminate child policy before a Deny one',
      breaks='policy permit-overrides prefers Indeterminate to Deny when the error comes first',
      edits=[(C + 'policy_combining_alg.py', '''            if decision == Decision.DENY:
                atLeastOneDeny = True
                continue
''', '''            if decision == Decision.DENY:
                atLeastOneDeny = not atLeastOneError
                continue
''')],
      demo='''
from ndg.xacml.core.policy_combining_alg import PermitOverridesPolicyCombiningAlg as A
for seq, want in ((['Indeterminate', 'Deny'], 'Deny'), (['Deny', 'Indeterminate'], 'Deny'), (['Indeterminate'], 'Indeterminate')):
    r = A().evaluate([Child(x) for x in seq], None)
    assert r == want, (seq, r.value)
'''),

 dict(id='p03-none-target-match', property='P03', needs='a rule without a target whose condition raises a missing-attribute error',
      breaks='an error in the condition of a rule is reported as NotApplicable when the condition comes with an own target that matched',
      edits=[(C + 'rule.py', """            log.error('Error occurred evaluating rule %r, returning '
                      'Indeterminate result to caller: %s',
                      self.id, _traceback)
            return Decision.INDETERMINATE""", """            log.error('Error occurred evaluating rule %r, returning '
                      'Indeterminate result to caller: %s',
                      self.id, _traceback)
            return (Decision.INDETERMINATE if self.target is None or 
                    self.condition is None else decision and 
                    Decision.NOT_APPLICABLE)""")],
      demo="""
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.target import Target
from ndg.xacml.core.expression import Expression
class Bad(Expression):
    ELEMENT_LOCAL_NAME = 'Bad'
    def evaluate(self, context):
        raise ValueError('broken')
r = Rule(); r.id = 'r'; r.effect = Effect('Deny'); r.target = Target()
c = Condition(); c.expression = Bad(); r.condition = c
d = r.evaluate(Request())
assert d == Decision.INDETERMINATE, d.value
"""),
 dict(id='p04-stale-permit', property='P04', needs='a policy whose combining algorithm permits after an earlier evaluation of the same policy, with a target error now',
      breaks='when the target of a policy set with a parent raises an error the policy set is taken as not applicable',
      edits=[(C + 'policybase.py', """            decision = Decision.INDETERMINATE

        return decision""", """            decision = (Decision.NOT_APPLICABLE if targetMatch is None
                        else Decision.INDETERMINATE)

        return decision"""), (C + 'policybase.py', """        try:
            log.debug('Evaluating %s %r ...', self.ELEMENT_LOCAL_NAME,""", """        targetMatch = None
        try:
            log.debug('Evaluating %s %r ...', self.ELEMENT_LOCAL_NAME,""")],
      demo="""
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.target import Target
from ndg.xacml.core.subject import Subject as TS
from ndg.xacml.core.match import SubjectMatch
class M(SubjectMatch):
    def evaluate(self, context):
        raise ValueError('broken')
p = Policy(); p.policyId = 'p'
t = Target(); e = TS(); e.matches.append(M()); t.subjects.append(e); p.target = t
d = p.evaluate(Request())
assert d == Decision.INDETERMINATE, d.value
"""),
 dict(id='p05-no-environment', property='P05', needs='a target with an environments section and a request without environment',
      breaks='the environments section of a target counts as matching when the request has no environment',
      edits=[(C + 'target.py', """            if len(targetElem) == 0:""", """            if len(targetElem) == 0 or (attrName == 'environments' and
                                        request.environment is None):""")],
      demo="""
from ndg.xacml.core.target import Target
from ndg.xacml.core.environment import Environment as TE
from ndg.xacml.core.match import EnvironmentMatch
class M(EnvironmentMatch):
    def evaluate(self, context):
        return False
t = Target()
e = TE(); e.matches.append(M()); t.environments.append(e)
r = Request()
assert not t.match(r)
r.environment = Environment()
assert not t.match(r)
"""),
 dict(id='p06-repeated-value', property='P06', needs='a bag in which a value follows one that equals it but satisfies the match function while the later one does not',
      breaks='the status of a bag value is stored at the place of the first equal value, so a match found before a repetition is lost',
      edits=[(C + 'match.py', """            attrMatchStatusValues[i] = matchFunction.evaluate(""", """            i = requestAttributeValues.index(requestAttributeValue)
            attrMatchStatusValues[i] = matchFunction.evaluate(""")],
      demo="""
from ndg.xacml.core.match import SubjectMatch
from ndg.xacml.core.functions import AbstractFunction
class Fn(AbstractFunction):
    FUNCTION_NS = 'x'
    n = 0
    def evaluate(self, a, b):
        self.n += 1
        return self.n == 1
b = bag(S, 'same', 'same')
from ndg.xacml.core.attributedesignator import SubjectAttributeDesignator
class D(SubjectAttributeDesignator):
    def evaluate(self, context):
        return b
m = SubjectMatch()
m.attributeDesignator = D(); m.attributeValue = S('yes')
setattr(m, '_MatchBase__function', Fn())
assert m.evaluate(Request())
"""),
 dict(id='p07-resource-issuer', property='P07', needs='a resource attribute without issuer while the designator names one',
      breaks='the resource designator takes attributes that carry no issuer for attributes of the issuer it names',
      edits=[(C + 'attributedesignator.py', """                                        _issuerMatch(attr.issuer))
                    
        for resource in""", """                                        (attr.issuer is None or 
                                         _issuerMatch(attr.issuer)))
                    
        for resource in""")],
      demo="""
from ndg.xacml.core.attributedesignator import ResourceAttributeDesignator as D
r = Request(); x = Resource(); r.resources.append(x)
x.attributes.append(attr('a', ['none']))
x.attributes.append(attr('a', ['mine'], issuer='i'))
x.attributes.append(attr('a', ['other'], issuer='j'))
d = D(); d.attributeId = 'a'; d.dataType = XS + 'string'; d.issuer = 'i'; d.mustBePresent = False
assert [v.value for v in d.evaluate(r)] == ['mine']
"""),
 dict(id='p07-pip-replaces', property='P07', needs='two subjects and an information point that supplies values for the second',
      breaks='values of an earlier subject that the information point repeats are dropped together with later ones',
      edits=[(C + 'attributedesignator.py', """        for subject in context.subjects:  
""", """        for subject in list(context.subjects)[:2]:
""")],
      demo="""
from ndg.xacml.core.attributedesignator import SubjectAttributeDesignator as D
r = Request()
for v in 'abc':
    x = Subject(); r.subjects.append(x)
    x.attributes.append(attr('a', [v]))
d = D(); d.attributeId = 'a'; d.dataType = XS + 'string'; d.mustBePresent = False
assert [v.value for v in d.evaluate(r)] == ['a', 'b', 'c']
"""),
 dict(id='p08-blank-text', property='P08', needs='a selected text that is empty',
      breaks='empty texts selected from the request are left out of the bag',
      edits=[(C + 'attributeselector.py', """        for value in values:
""", """        for value in filter(None, values):
""")],
      demo="""
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
class X(XPathSelectorInterface):
    def __init__(self):
        pass
    def selectText(self, path):
        return ['a', '', 'b']
r = Request(); r.attributeSelector = X()
s = AttributeSelector(); s.dataType = XS + 'string'; s.requestContextPath = '//x'; s.mustBePresent = False
assert [v.value for v in s.evaluate(r)] == ['a', '', 'b']
"""),
 dict(id='p09-missing-operand', property='P09', needs='an operand designator that must be present and is not, below a function that takes a variable number of operands',
      breaks='an operand whose mandatory attribute is missing is left out of the call instead of failing the application',
      edits=[(C + 'apply.py', """            funcInputs[i] = expression.evaluate(context)
""", """            try:
                funcInputs[i] = expression.evaluate(context)
            except LookupError:
                continue
""")],
      demo="""
from ndg.xacml.core.apply import Apply
class Fn(object):
    def evaluate(self, *a):
        return a
class E(S):
    def evaluate(self, context):
        return self.value
class Missing(S):
    def evaluate(self, context):
        raise KeyError('missing')
a = Apply()
for v in (E('x'), E('y')):
    a.expressions.append(v)
setattr(a, '_Apply__function', Fn())
assert a.evaluate(Request()) == ('x', 'y')
a.expressions.append(Missing('z'))
try:
    a.evaluate(Request())
except KeyError:
    pass
else:
    raise AssertionError('error swallowed')
"""),
 dict(id='p10-second-bag-unchecked', property='P10', needs='an at-least-one-member-of whose second bag has another element type and is empty or holds equal native values',
      breaks='the type of the second bag is only checked when the first bag is not empty',
      edits=[(C + 'functions/v1/at_least_one_member_of.py', """        if set2.elementType != self.__class__.TYPE:""", """        if len(set1) and set2.elementType != self.__class__.TYPE:""")],
      demo="""
f = functionMap.get('urn:oasis:names:tc:xacml:1.0:function:string-at-least-one-member-of')()
for a in (bag(S, 'x'), bag(S)):
    try:
        f.evaluate(a, bag(U, 'x'))
    except Exception:
        pass
    else:
        raise AssertionError('bag of another type accepted')
"""),
 dict(id='p10-and-later-operand', property='P10', needs='a false operand before an operand that is no truth value',
      breaks='operands after the first false one are not checked',
      edits=[(C + 'functions/v1/and.py', """                if type(arg) != self.__class__.ATTRIBUTE_TYPE:""", """                if arg is False:
                    break
                if type(arg) != self.__class__.ATTRIBUTE_TYPE:""")],
      demo="""
f = functionMap.get('urn:oasis:names:tc:xacml:1.0:function:and')()
assert f.evaluate(True, False) is False and f.evaluate(True, True) is True
for args in ((True, 'x'), (False, 'x'), (False, None)):
    try:
        f.evaluate(*args)
    except Exception:
        pass
    else:
        raise AssertionError('operands %r accepted' % (args,))
"""),
 dict(id='p11-regex-cache-key', property='P11', needs='two patterns of which one is the other with blanks around it, used one after the other',
      breaks='the cache of compiled patterns ignores blanks at the ends of a pattern, so a match may use an earlier pattern',
      edits=[(C + 'functions/v1/regexp_match.py', "compiled_regex = self.compiled_regexes.get(pat.value, None)", "compiled_regex = self.compiled_regexes.get(pat.value.strip(), None)")],
      demo="""
f = functionMap.get('urn:oasis:names:tc:xacml:1.0:function:string-regexp-match')()
assert f.evaluate(S('abc'), S('abc'))
assert not f.evaluate(S('abc '), S('abc'))
assert f.evaluate(S('abc '), S('abc '))
"""),
 dict(id='p11-share-falsy', property='P11', needs='two bags whose only common value is a false one such as 0',
      breaks='at-least-one-member-of overlooks a common value that is false',
      edits=[(C + 'functions/v1/at_least_one_member_of.py', "return len(list(_set1 & _set2)) > 0", "return any(_set1 & _set2)")],
      demo="""
f = functionMap.get('urn:oasis:names:tc:xacml:1.0:function:integer-at-least-one-member-of')()
assert f.evaluate(bag(I, 1, 2), bag(I, 2, 3)) is True
assert f.evaluate(bag(I, 0, 1), bag(I, 0, 3)) is True
assert f.evaluate(bag(I, 1), bag(I, 3)) is False
"""),
]
SEEDS = [s for s in SEEDS if s['demo']]

P = 'ndg/xacml/'
C = P + 'core/'
_t = open('/repo/ndg/xacml/core/context/result.py', newline='').read()
_i = _t.index('class NotApplicableDecision')
_w = '''raise AttributeError("can't set attribute")'''
NA = _t[_i:_t.index(_w, _i) + len(_w)]
SEEDS = [
 dict(id='p24-prefixes-lost', property='P24', needs='pretty printing after a namespace prefix starting with ns was registered',
      breaks='pretty printing puts back only the namespace prefixes that do not look generated',
      edits=[(P + 'utils/etree.py', "        namespace_map_backup = ElementTree._namespace_map.copy()",
              "        namespace_map_backup = dict((uri, prefix) for uri, prefix in ElementTree._namespace_map.items() if prefix[:2] != 'ns')")],
      demo='''
from ndg.xacml import importElementTree, Config
Config.use_lxml = False
ET = importElementTree()
from ndg.xacml.utils.etree import prettyPrint
table = lambda: dict(ET._namespace_map)
el = ET.Element('{urn:a}x')
el.append(ET.Element('{urn:b}y'))
before = table()
prettyPrint(el)
assert table() == before
ET.register_namespace('nsel', 'urn:own')
before = table()
prettyPrint(el)
assert table() == before, set(before) ^ set(table())
'''),
 dict(id='p12-ordered-alias', property='P12', needs='a policy that names the ordered-permit-overrides algorithm of version 1.1',
      breaks='the ordered permit-overrides rule-combining algorithm resolves to deny-overrides',
      edits=[(C + 'rule_combining_alg.py', "        FirstApplicableRuleCombiningAlg\n    })", """        FirstApplicableRuleCombiningAlg,
    'urn:oasis:names:tc:xacml:1.1:rule-combining-algorithm:ordered-deny-overrides':
        DenyOverridesRuleCombiningAlg,
    'urn:oasis:names:tc:xacml:1.1:rule-combining-algorithm:ordered-permit-overrides':
        DenyOverridesRuleCombiningAlg
    })""")],
      demo="""
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory, ALGORITHMS
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.context.result import Decision
f = RuleCombiningAlgClassFactory()
for i in ALGORITHMS:
    c = f(i)
    if not isinstance(c, type):
        continue
    for effects in (('Deny', 'Permit'), ('Permit', 'Deny')):
        rules = []
        for n, e in enumerate(effects):
            r = Rule()
            r.id = str(n)
            r.effect = Effect(e)
            rules.append(r)
        want = effects[0] if 'first' in i else 'Permit' if 'permit' in i else 'Deny'
        assert str(c().evaluate(rules, None)) == want, (i, effects)
"""),
 dict(id='p19-loose-constant', property='P19', needs='assigning another valid decision to the shared not-applicable constant',
      breaks='the shared not-applicable decision can be set to another decision',
      edits=[(C + 'context/result.py', NA, NA.replace('        raise AttributeError', '        if value not in Decision.TYPES:\n            raise AttributeError') + '\n        super(NotApplicableDecision, self)._setValue(value)')],
      demo='''
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core.rule import Effect
for c in (Decision.PERMIT, Decision.DENY, Decision.INDETERMINATE, Decision.NOT_APPLICABLE, Effect.PERMIT, Effect.DENY):
    was = str(c)
    for v in ('Permit', 'Deny', 'Indeterminate', 'NotApplicable', Decision('Deny'), 'bad', 3):
        try:
            c.value = v
        except (AttributeError, TypeError):
            pass
        assert str(c) == was, (was, v)
'''),
 dict(id='p08-repeated-text', property='P08', needs='an attribute selector whose path selects the same text twice',
      breaks='texts that are selected more than once are wrapped once',
      edits=[(C + 'attributeselector.py', "        for value in values:", "        for value in dict.fromkeys(values):")],
      demo='''
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.context.request import Request
from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
class Sel(XPathSelectorInterface):
    def __init__(self, texts):
        self.texts = texts
    def selectText(self, path):
        return list(self.texts)
for texts in (['a'], ['a', 'b'], ['b', 'a', 'b'], ['', '']):
    s = AttributeSelector()
    s.dataType = 'http://www.w3.org/2001/XMLSchema#string'
    s.requestContextPath = '//x'
    s.mustBePresent = False
    r = Request()
    r.attributeSelector = Sel(texts)
    assert [v.value for v in s.evaluate(r)] == texts, texts
'''),
]

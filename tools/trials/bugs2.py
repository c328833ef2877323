"""Further edits that break a property, each written from its statement."""
import re
exec(open('/verif/tools/trials/refac2.py').read().split('TRIALS =')[0])
U, RS, AV, FN, FC, RC, PC = 'ndg/xacml/utils/__init__.py', B + 'context/result.py', B + 'attributevalue.py', B + 'functions/__init__.py', 'ndg/xacml/parsers/etree/factory.py', B + 'rule_combining_alg.py', B + 'policy_combining_alg.py'
E = 'ndg/xacml/parsers/etree/'
CX, MR, PR, PS, RR, XR, AR, DR = [E + x for x in ('context.py', 'matchreader.py', 'policyreader.py', 'policysetreader.py', 'rulereader.py', 'expressionreader.py', 'attributevaluereader.py', 'attributedesignatorreader.py')]
F1 = B + 'functions/v1/'

TRIALS = [
    ('b-rule-memo', 'bad', 'P01', [(RC, sub(r"(class DenyOverridesRuleCombiningAlg\(.*?atLeastOneError = False\n)", r"\1        known = {}\n", 1)), (RC, sub(r"            decision = rule\.evaluate\(context\)\n", "            if rule.id not in known:\n                known[rule.id] = rule.evaluate(context)\n            decision = known[rule.id]\n", 1))]),
    ('b-pol-seen', 'bad', 'P02', [(PC, sub(r"(class DenyOverridesPolicyCombiningAlg\(.*?atLeastOnePermit = False\n)", r"\1        seen = []\n", 1)), (PC, sub(r"            decision = policy\.evaluate\(context\)\n", "            if policy.ident in seen:\n                continue\n            seen.append(policy.ident)\n            decision = policy.evaluate(context)\n", 1))]),
    ('b-pol-first-err', 'bad', 'P02', [(PC, sub(r"(class FirstApplicablePolicyCombiningAlg.*?)            if decision == Decision\.INDETERMINATE:", r"\1            if decision == Decision.INDETERMINATE and policy is not policies[0]:", 1))]),
    ('b-rule-cond-none', 'bad', 'P03', [(RL, sub(r"if conditionStatus:", "if conditionStatus is not False:"))]),
    ('b-rule-missing', 'bad', 'P03', [(RL, sub(r"        except Exception:\n(.*?)            return Decision\.INDETERMINATE", r"        except AttributeError:\n            return Decision.NOT_APPLICABLE\n        except Exception:\n\1            return Decision.INDETERMINATE"))]),
    ('b-pb-swallow', 'bad', 'P04', [(PB, sub(r"            decision = Decision\.INDETERMINATE\n\s*return decision", "            if self.target is None:\n                decision = Decision.INDETERMINATE\n        return decision"))]),
    ('b-target-emptychild', 'bad', 'P05', [(TG, sub(r"        if targetChild is None:", "        if targetChild is None or len(targetChild.matches) > 1 and targetChild.matches[0].matchId == targetChild.matches[1].matchId:"))]),
    ('b-match-truth', 'bad', 'P06', [(MT, sub(r"matchStatus = any\(attrMatchStatusValues\)", "matchStatus = attrMatchStatusValues.count(True) == 1 or all(attrMatchStatusValues) and bool(attrMatchStatusValues)"))]),
    ('b-ds-pip-once', 'bad', 'P07', [(AD, sub(r"if context\.ctxHandler is not None:", "if context.ctxHandler is not None and subject is context.subjects[0]:"))]),
    ('b-ds-pip-empty', 'bad', 'P07', [(AD, sub(r"if context\.ctxHandler is not None:", "if context.ctxHandler is not None and not attributeValueBag:"))]),
    ('b-ds-firstattr', 'bad', 'P07', [(AD, sub(r"(for attr in environment\.attributes:.*?i\.dataType == dataType\]\))", r"\1\n                break"))]),
    ('b-sl-uniq', 'bad', 'P08', [(AS, sub(r"for value in values:", "for value in dict.fromkeys(values):"))]),
    ('b-sl-strip', 'bad', 'P08', [(AS, sub(r"attributeValue\.value = value", "attributeValue.value = value.strip() if isinstance(value, str) else value"))]),
    ('b-ap-none', 'bad', 'P09', [(AP, sub(r"funcInputs\[i\] = expression\.evaluate\(context\)", "funcInputs[i] = expression.evaluate(context)\n            if funcInputs[i] is None:\n                funcInputs[i] = funcInputs[i - 1]"))]),
    ('b-ap-flat', 'bad', 'P09', [(AP, sub(r"result = self\.function\.evaluate\(\*tuple\(funcInputs\)\)", "if len(funcInputs) == 1 and isinstance(funcInputs[0], list):\n            funcInputs = funcInputs[0]\n        result = self.function.evaluate(*tuple(funcInputs))"))]),
    ('b-eq-type1', 'bad', 'P10', [(F1 + 'equal.py', sub(r"if not isinstance\(attribute2, self\.__class__\.TYPE\):", "if not isinstance(attribute2, (self.__class__.TYPE, type(attribute1))) and type(attribute2.value) is not type(attribute1.value):"))]),
    ('b-rx-search', 'bad', 'P11', [(F1 + 'regexp_match.py', sub(r"compiled_regex\.match\(input\.value\)", "compiled_regex.match(input.value.strip())"))]),
    ('b-cc-first', 'bad', 'P11', [(B + 'functions/v2/concatenate.py', sub(r"''\.join\(\[a\.value for a in args\]\)", "args[0].value.rstrip() + ''.join([a.value for a in args[1:]])"))]),
    ('b-fm-modcache', 'bad', 'P12', [(FN, sub(r"                functionFactory = callModuleObject\(classPath\)\n|            functionFactory = callModuleObject\(classPath\)\n", "            functionFactory = self.__factoryByModule.get(moduleName)\n            if functionFactory is None:\n                functionFactory = callModuleObject(classPath)\n                self.__factoryByModule[moduleName] = functionFactory\n", 1)), (FN, sub(r"        self\.__classFactoryMap = \{\}\n", "        self.__classFactoryMap = {}\n        self.__factoryByModule = {}\n", 1))]),
    ('b-fm-ns', 'bad', 'P12', [(FN, sub(r"            if functionNs\.startswith\(namespacePrefix\):", "            if functionNs.startswith(namespacePrefix) or ':function:' in functionNs and namespacePrefix == AbstractFunction.V1_0_FUNCTION_NS and functionNs not in XacmlFunctionNames.FUNCTION_NAMES:"))]),
    ('b-rd-otherns', 'bad', 'P13', [(RR, sub(r"            else:\n(\s+)raise XMLParseError", r"            elif QName.getNs(childElem.tag) != QName.getNs(elem.tag):\n                continue\n            else:\n\1raise XMLParseError"))]),
    ('b-rd-must', 'bad', 'P14', [(DR, sub(r"if mustBePresent is not None:", "if mustBePresent:")), (DR, sub(r"str2Bool\(mustBePresent\)", "mustBePresent == 'true'"))]),
    ('b-av-strip', 'bad', 'P14', [(AR, sub(r"attributeValue\.value = elem\.text", "attributeValue.value = elem.text.strip()"))]),
    ('b-ver', 'bad', 'P14', [(PR, sub(r"policy\.version = ", "policy.version = xacmlType.DEFAULT_XACML_VERSION if elem.attrib.get(xacmlType.VERSION_ATTRIB_NAME) == '1' else "))]),
    ('b-rid-case', 'bad', 'P15', [(PR, sub(r"if rule\.id in \[_rule\.id for _rule in policy\.rules\]:", "if rule.id in [_rule.id for _rule in policy.rules if _rule.effect == rule.effect]:"))]),
    ('b-ref-strip', 'bad', 'P15', [(PS, sub(r"return common\.policyFinder\.findPolicy\(policyIdReference, common\)", "for known in common.policyFinder.policyMap.values() if hasattr(common.policyFinder, 'policyMap') else ():\n            if known.policyId.lower() == policyIdReference.lower():\n                return known\n        return common.policyFinder.findPolicy(policyIdReference, common)"))]),
    ('b-eval-sort', 'bad', 'P16', [(AD, sub(r"for resource in context\.resources:", "context.resources.reverse()\n        for resource in context.resources:"))]),
    ('b-rule-lastdec', 'bad', 'P16', [(RL, sub(r"decision = Decision\(decision=self\.effect\.value\)", "decision = Decision(decision=self.effect.value)\n                self.__description = self.__description or str(decision)"))]),
    ('b-tl-slice', 'bad', 'P17', [(U, sub(r"(class TypedList.*?)            for i in item:\n                self\.__checkType\(i\)\n", r"\1            for i in item[:len(self)]:\n                self.__checkType(i)\n", 1))]),
    ('b-rk-setdefault', 'bad', 'P17', [(U, sub(r"(    def setdefault\(self, key, \*arg\):.*?)if key not in self\.__keyNames:", r"\1if arg and key not in self.__keyNames:", 1))]),
    ('b-dec-none', 'bad', 'P18', [(RS, sub(r"        if not isinstance\(value, Decision\):\n", "        if value is not None and not isinstance(value, Decision):\n", 1))]),
    ('b-const-same', 'bad', 'P19', [(RS, sub(r"(class NotApplicableDecision.*?def _setValue\(self, value\):\s*)raise AttributeError\(\"can't set attribute\"\)", r"\1if value not in self.TYPES:\n            raise AttributeError(\"can't set attribute\")\n        super(NotApplicableDecision, self)._setValue(value)", 1))]),
    ('b-const-share', 'bad', 'P19', [(RS, sub(r"result\.decision = Decision\(\)\n\s+result\.decision\.value = decision", "result.decision = decision if isinstance(decision, Decision) else Decision(decision)")), (RS, sub(r"class PermitDecision\(Decision\)(.*?)    def _setValue\(self, value\):\s+raise AttributeError\(\"can't set attribute\"\)\n", r"class PermitDecision(Decision)\1", 1))]),
    ('b-issuer-empty', 'bad', 'P20', [(CX, sub(r"if attribute\.issuer is not None:", "if attribute.issuer:"))]),
    ('b-attr-merge', 'bad', 'P20', [(CX, sub(r"(class SubjectElementTree.*?)subject\.attributes\.append\(attribute\)", r"\1if attribute.attributeId not in [a.attributeId for a in subject.attributes]:\n                    subject.attributes.append(attribute)", 1))]),
    ('b-av-map', 'bad', 'P25', [(AV, sub(r"    TYPE_MAP = dict\(", "    TYPE_MAP = dict(", 1)), (AV, sub(r"        if not isinstance\(value, self\.__class__\.TYPE\):\n", "        if not isinstance(value, self.__class__.TYPE) and not (self.__class__.TYPE is float and isinstance(value, int)):\n", 1))]),
]

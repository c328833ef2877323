E = 'ndg/xacml/parsers/etree/'
P, S, R, T, C, M, A, D, V = [E + x + 'reader.py' for x in 'policy policyset rule target condition match apply attributedesignator attributevalue'.split()]
X, L, B, G, F = E + 'expressionreader.py', E + 'attributeselectorreader.py', E + 'policybasereader.py', E + 'targetchildreader.py', E + 'policydefaultsreader.py'
I, RD = E + '__init__.py', E + 'reader.py'
PU, U = 'ndg/xacml/parsers/__init__.py', 'ndg/xacml/utils/__init__.py'
SKIP = "raise XMLParseError(\"XACML Rule child element name %r not \"\n                                    \"recognised\" % localName)"
TRIALS = [
 # behaviour kept
 ('rule-helper', 'ok', 'P13@Rule,P14@Rule', [(R, "            if localName == xacmlType.DESCRIPTION_LOCAL_NAME:\n                if rule.description is not None:\n                    raise XMLParseError('Duplicate %r element found' % localName)\n\n                if childElem.text is not None:\n                    rule.description = childElem.text.strip()\n", "            if localName == xacmlType.DESCRIPTION_LOCAL_NAME:\n                self._description(rule, childElem)\n"), (R, "    TYPE = Rule\n", "    TYPE = Rule\n\n    @staticmethod\n    def _description(rule, childElem):\n        if rule.description is not None:\n            raise XMLParseError('Duplicate description element found')\n        text = childElem.text\n        if text is not None:\n            rule.description = text.strip()\n")]),
 ('rule-attribs', 'ok', 'P13@Rule,P14@Rule', [(R, "        rule.effect = Effect()        \n        rule.id, rule.effect.value = attributeValues", "        rule.id = attributeValues[0]\n        rule.effect = Effect(attributeValues[1])")]),
 ('policy-ids-set', 'ok', 'P13@Policy,P14@Policy', [(P, "                if rule.id in [_rule.id for _rule in policy.rules]:", "                if any(_rule.id == rule.id for _rule in policy.rules):")]),
 ('target-table', 'ok', 'P13@Target,P14@Target', [(T, "            if localName == xacmlType.SUBJECTS_ELEMENT_LOCAL_NAME:\n                for subjElem in getElementChildren(childElem):\n                    SubjectReader = ReaderFactory.getReader(Subject)\n                    target.subjects.append(SubjectReader.parse(subjElem,\n                                                               common))", "            table = {xacmlType.SUBJECTS_ELEMENT_LOCAL_NAME: (Subject, target.subjects)}\n            if localName in table:\n                childType, items = table[localName]\n                reader = ReaderFactory.getReader(childType)\n                for subjElem in getElementChildren(childElem):\n                    items.append(reader.parse(subjElem, common))")]),
 ('condition-list', 'ok', 'P13@Condition,P14@Condition', [(C, "        nSubElem = 0\n", "        subElems = list(getElementChildren(elem))\n        nSubElem = 0\n"), (C, "        for childElem in getElementChildren(elem):", "        for childElem in subElems:")]),
 ('apply-table', 'ok', 'P13@Apply,P14@Apply', [(A, "            elif localName == AttributeValue.ELEMENT_LOCAL_NAME:", "            elif localName in (AttributeValue.ELEMENT_LOCAL_NAME,):")]),
 ('match-reorder', 'ok', 'P13@SubjectMatch+ActionMatch,P14@SubjectMatch+ActionMatch', [(M, "        for attributeName in (xacmlType.MATCH_ID_ATTRIB_NAME, ):\n", "        attributeDesignatorType = self.__class__.ATTRIBUTE_DESIGNATOR_TYPE\n        for attributeName in (xacmlType.MATCH_ID_ATTRIB_NAME, ):\n")]),
 ('designator-if', 'ok', 'P13@ActionAttributeDesignator,P14@ActionAttributeDesignator', [(D, "        issuer = elem.attrib.get(xacmlType.ISSUER_ATTRIB_NAME)\n        if issuer is not None:\n            attributeDesignator.issuer = issuer", "        if xacmlType.ISSUER_ATTRIB_NAME in elem.attrib:\n            attributeDesignator.issuer = elem.attrib[xacmlType.ISSUER_ATTRIB_NAME]")]),
 ('base-if', 'ok', 'P13@PolicyBase,P14@PolicyBase', [(B, "        (xacmlType, readerType) = self.TYPE_MAP.get(localName, (None, None))\n        if xacmlType is None:", "        readerType = {Policy.ELEMENT_LOCAL_NAME: PolicyReader, PolicySet.ELEMENT_LOCAL_NAME: PolicySetReader}.get(localName)\n        if readerType is None:")]),
 # rejections lost
 ('rule-unknown-skipped', 'bad', 'P13@Rule', [(R, SKIP, 'continue')]),
 ('rule-unknown-one', 'bad', 'P13@Rule', [(R, "            elif localName == Target.ELEMENT_LOCAL_NAME:", "            elif localName == 'Obligations':\n                continue\n\n            elif localName == Target.ELEMENT_LOCAL_NAME:")]),
 ('policy-obligations', 'bad', 'P13@Policy', [(P, "                raise NotImplementedError('Parsing for Obligations element is '\n                                          'not implemented')", "                pass")]),
 ('policy-combiner', 'bad', 'P13@Policy', [(P, "            elif localName == xacmlType.RULE_COMBINER_PARAMETERS_LOCAL_NAME:\n                raise NotImplementedError()", "            elif localName == xacmlType.RULE_COMBINER_PARAMETERS_LOCAL_NAME:\n                continue")]),
 ('policyset-variable', 'bad', 'P13@PolicySet', [(S, "            elif localName == VariableDefinition.ELEMENT_LOCAL_NAME:\n                raise", "            elif localName == VariableDefinition.ELEMENT_LOCAL_NAME:\n                if policySet.policies:\n                    continue\n                raise")]),
 ('policyset-startswith', 'ok', 'P13@PolicySet', [(S, "            elif localName == Policy.ELEMENT_LOCAL_NAME:", "            elif localName.endswith('Policy'):")]),
 ('policy-version-req', 'bad', 'P14@Policy', [(P, "(elem.attrib.get(xacmlType.VERSION_ATTRIB_NAME) or \n                          xacmlType.DEFAULT_XACML_VERSION)", "xacmlType.DEFAULT_XACML_VERSION")]),
 ('policy-id-default', 'bad', 'P13@Policy', [(P, "            attributeValue = elem.attrib.get(attributeName)\n            if attributeValue is None:", "            attributeValue = elem.attrib.get(attributeName, elem.attrib.get('Id'))\n            if attributeValue is None and attributeName != xacmlType.POLICY_ID_ATTRIB_NAME:")]),
 ('effect-default', 'bad', 'P13@Rule', [(R, "            attributeValue = elem.attrib.get(attributeName)\n", "            attributeValue = elem.attrib.get(attributeName, 'Deny')\n")]),
 ('condition-last', 'bad', 'P13@Condition', [(C, "        if nSubElem != 1:", "        if nSubElem < 1:")]),
 ('condition-fallback', 'ok', 'P13@Condition', [(C, "        if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:", "        if subElemlocalName != 'Function':")]),
 ('base-default', 'ok', 'P13@PolicyBase', [(B, "self.TYPE_MAP.get(localName, (None, None))", "self.TYPE_MAP.get(localName, (PolicySet, PolicySetReader) if localName.startswith('PolicySet') else (None, None))")]),
 ('base-unchecked', 'ok', 'P13@PolicyBase', [(B, "self.TYPE_MAP.get(localName, (None, None))", "self.TYPE_MAP.get(localName, (PolicySet, PolicySetReader))")]),
 ('selector-path', 'bad', 'P13@AttributeSelector', [(L, "            if attributeValue is None:", "            if attributeValue is None and 'DataType' not in elem.attrib:")]),
 ('value-unknown-type', 'bad', 'P13@AttributeValue', [(V, "        attributeValueClass = self.__class__.FACTORY(elemAttributeValues[0])\n", "        attributeValueClass = self.__class__.FACTORY(elemAttributeValues[0]) or self.__class__.FACTORY('http://www.w3.org/2001/XMLSchema#string')\n"), (V, "        attributeValue.dataType = elemAttributeValues[0]\n", "        attributeValue.dataType = attributeValueClass.IDENTIFIER\n")]),
 ('designator-name', 'bad', 'P13@ActionAttributeDesignator', [(X, "        if localName != xacmlType.ELEMENT_LOCAL_NAME:", "        if not localName.endswith('AttributeDesignator') and localName != xacmlType.ELEMENT_LOCAL_NAME:")]),
 ('target-skip', 'bad', 'P13@Target', [(T, "            else:\n                raise XMLParseError(\"XACML Target child element name %r not \"\n                                    \"recognised\" % localName)", "")]),
 ('swallow-child', 'bad', 'P13@Policy', [(P, "                policy.target = TargetReader.parse(childElem, common)", "                try:\n                    policy.target = TargetReader.parse(childElem, common)\n                except NotImplementedError:\n                    policy.target = Target()")]),
 ('swallow-error', 'bad', 'P13@Rule', [(R, "                rule.condition = ConditionReader.parse(childElem, common)", "                try:\n                    rule.condition = ConditionReader.parse(childElem, common)\n                except Exception:\n                    pass")]),
 ('unresolved-skip', 'bad', 'P13@PolicySet', [(S, "                policySet.policies.append(self._getReferencedPolicy(common,\n                                                            policyIdReference))", "                policy = self._getReferencedPolicy(common, policyIdReference)\n                if policy is not None:\n                    policySet.policies.append(policy)")]),
 # content lost or misplaced
 ('rule-order', 'bad', 'P14@Policy', [(P, "                policy.rules.append(rule)", "                policy.rules.insert(0, rule)")]),
 ('apply-order', 'bad', 'P14@Apply', [(A, "            elif localName == AttributeValue.ELEMENT_LOCAL_NAME:", "            elif localName == AttributeValue.ELEMENT_LOCAL_NAME and applyObj.expressions:\n                applyObj.expressions.insert(-1, ReaderFactory.getReader(AttributeValue).parse(subElem, common))\n            elif localName == AttributeValue.ELEMENT_LOCAL_NAME:")]),
 ('desc-overwrite', 'bad', 'P14@Rule', [(R, "                if rule.description is not None:\n                    raise XMLParseError('Duplicate %r element found' % localName)\n", "")]),
 ('target-overwrite', 'bad', 'P14@PolicySet', [(S, "                if policySet.target is not None:\n                    raise XMLParseError('Duplicate %r element found' % localName)\n", "")]),
 ('ids-swapped', 'bad', 'P14@PolicySet', [(S, "        policySet.policySetId, policySet.policyCombiningAlgId = attributeValues", "        policySet.policySetId, policySet.policyCombiningAlgId = attributeValues[0], attributeValues[-1]\n        policySet.policySetId = policySet.policySetId.strip()")]),
 ('resources-in-actions', 'bad', 'P14@Target', [(T, "                    target.actions.append(", "                    (target.actions if common else target.resources).append("),(T, "                    target.resources.append(", "                    target.actions.append(")]),
 ('target-first-section', 'bad', 'P14@Target', [(T, "                for environElem in getElementChildren(childElem):", "                for environElem in list(getElementChildren(childElem))[:2]:")]),
 ('target-reset', 'bad', 'P14@Target', [(T, "                for resourceElem in getElementChildren(childElem):", "                del target.resources[:]\n                for resourceElem in getElementChildren(childElem):")]),
 ('match-dup', 'bad', 'P14@Subject', [(G, "                targetChild.matches.append(matchReader.parse(childElem, common))", "                match = matchReader.parse(childElem, common)\n                if match.matchId not in [m.matchId for m in targetChild.matches]:\n                    targetChild.matches.append(match)")]),
 ('designator-both', 'bad', 'P14@ActionMatch', [(M, "                if match.attributeSelector is not None:\n                    raise", "                if match.attributeSelector is not None and match.attributeValue is None:\n                    raise")]),
 ('issuer-lost', 'bad', 'P14@SubjectAttributeDesignator', [(D, "        if issuer is not None:", "        if issuer is not None and attributeDesignator.issuer is not None:")]),
 ('mbp-bool', 'bad', 'P14@SubjectAttributeDesignator', [(D, "str2Bool(mustBePresent)", "bool(mustBePresent)")]),
 ('mbp-one', 'bad', 'P14@AttributeSelector', [(L, "str2Bool(mustBePresent)", "mustBePresent == 'true'")]),
 ('dt-issuer', 'bad', 'P14@ResourceAttributeDesignator', [(D, "elem.attrib.get(xacmlType.ISSUER_ATTRIB_NAME)", "elem.attrib.get(xacmlType.ISSUER_ATTRIB_NAME, elem.attrib.get('DataType'))")]),
 ('value-strip', 'bad', 'P14@AttributeValue', [(V, "        attributeValue.value = elem.text", "        attributeValue.value = elem.text.strip()")]),
 ('defaults-lost', 'bad', 'P14@PolicySet', [(S, "                policySet.policySetDefaults = PolicyDefaultsReader.parse(\n                                                            childElem, common)", "                PolicyDefaultsReader.parse(childElem, common)")]),
 ('ref-twice', 'bad', 'P14@PolicySet', [(S, "                policySetIdReference = childElem.text\n", "                policySetIdReference = childElem.text\n                if policySetIdReference in [p.policySetId for p in policySet.policies if isinstance(p, PolicySet)]:\n                    continue\n")]),
 ('comments-bad', 'bad', 'P14@Rule', [(I, "if not callable(", "if not isinstance(")] if False else [(R, "        for childElem in getElementChildren(elem):", "        for childElem in elem:")]),
 ('first-only', 'bad', 'P14@Policy', [(P, "        for childElem in getElementChildren(elem):", "        for childElem in list(getElementChildren(elem))[:1000]:")]),
 ('skip-last', 'bad', 'P14@Apply', [(A, "        for subElem in getElementChildren(elem):", "        for subElem in list(getElementChildren(elem))[:-1] + list(getElementChildren(elem))[-1:][:len(elem) % 2 or 1]:")]),
]

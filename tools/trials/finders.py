B = 'ndg/xacml/finder/policyfinderbase.py'
L = 'ndg/xacml/finder/localpolicyfinder.py'
U = 'ndg/xacml/finder/urlpolicyfinder.py'
P = 'ndg/xacml/parsers/etree/policyreader.py'
S = 'ndg/xacml/parsers/etree/policysetreader.py'
PB = 'ndg/xacml/core/policybase.py'
PD = 'ndg/xacml/core/context/pdp.py'
TRIALS = [
 ('local-try', 'ok', 'P15@finder', [(L, "        return self.policyMap.get(policyIdReference, None)", "        return self.policyMap[policyIdReference]")]),
 ('base-setdefault', 'ok', 'P15@finder', [(B, "        self.policyMap[policy.policyId] = policy", "        self.policyMap.setdefault(policy.policyId, policy)")]),
 ('url-return', 'ok', 'P15@finder', [(U, "            policy = self._findPolicyFromReference(policyIdReference, common)\n", "            self._findPolicyFromReference(policyIdReference, common)\n")]),
 ('seen-set', 'ok', 'P15@Policy', [(P, "                if rule.id in [_rule.id for _rule in policy.rules]:", "                if rule.id in set(_rule.id for _rule in policy.rules):")]),
 ('seen-set2', 'ok', 'P15@Policy', [(P, "                if rule.id in [_rule.id for _rule in policy.rules]:", "                if rule.id in ruleIds:"), (P, "        attributeValues = []\n", "        attributeValues = []\n        ruleIds = set()\n"), (P, "                policy.rules.append(rule)", "                ruleIds.add(rule.id)\n                policy.rules.append(rule)")]),
 ('no-dup-policy', 'bad', 'P15@finder', [(B, "        if policy.policyId in self.policyMap:", "        if policy in self.policyMap.values():")]),
 ('dup-truthy', 'bad', 'P15@finder', [(B, "        if policySet.policySetId in self.policySetMap:", "        if policySet.policySetId and policySet.policySetId in self.policySetMap:")]),
 ('one-map', 'bad', 'P15@finder', [(B, "        self.policySetMap = {}", "        self.policySetMap = self.policyMap")]),
 ('strip-key', 'bad', 'P15@finder', [(L, "    def findPolicySet(self, policySetIdReference, common):", "    def findPolicySet(self, policySetIdReference, common):\n        for key in self.policySetMap:\n            if key.startswith(policySetIdReference):\n                return self.policySetMap[key]\n")]),
 ('url-returned', 'bad', 'P15@finder', [(U, "            policy = self._findPolicyFromReference(policyIdReference, common)\n", "            return self._findPolicyFromReference(policyIdReference, common)\n")]),
 ('url-alias', 'bad', 'P15@finder', [(U, "            policySet = self._findPolicyFromReference(policySetIdReference, common)\n", "            policySet = self._findPolicyFromReference(policySetIdReference, common)\n            self.policySetMap.setdefault(policySetIdReference, policySet)\n"), ] if False else [(U, "        policySet = self.policySetMap.get(policySetIdReference, None)\n        if policySet is None:\n            raise", "        policySet = self.policySetMap.get(policySetIdReference, policySet)\n        if policySet is None:\n            raise")]),
 ('url-none', 'bad', 'P13@PolicySet,P15@PolicySet', [(S, "                policySet.policies.append(self._getReferencedPolicy(common,\n                                                            policyIdReference))", "                policy = self._getReferencedPolicy(common, policyIdReference)\n                if policy is not None:\n                    policySet.policies.append(policy)")]),
 ('ref-kind', 'bad', 'P15@PolicySet', [(S, "        return common.policyFinder.findPolicySet(policySetIdReference, common)", "        return common.policyFinder.findPolicy(policySetIdReference, common)")]),
 ('ref-text-first', 'bad', 'P15@PolicySet', [(S, "                policyIdReference = childElem.text\n", "                policyIdReference = elem.find(childElem.tag).text\n")]),
 ('unregistered', 'bad', 'P15@Policy', [(P, "            common.policyFinder.addPolicyReference(policy)", "            if policy.rules:\n                common.policyFinder.addPolicyReference(policy)")]),
 ('swallow-dup', 'bad', 'P15@PolicySet,P13@PolicySet', [(S, "            common.policyFinder.addPolicySetReference(policySet)", "            try:\n                common.policyFinder.addPolicySetReference(policySet)\n            except XMLParseError:\n                pass")]),
 ('rule-last-only', 'bad', 'P15@Policy', [(P, "                if rule.id in [_rule.id for _rule in policy.rules]:", "                if policy.rules and rule.id == policy.rules[-1].id:")]),
 ('rule-same-effect', 'bad', 'P15@Policy', [(P, "[_rule.id for _rule in policy.rules]", "[_rule.id for _rule in policy.rules if _rule.effect == rule.effect]")]),
 ('new-common', 'bad', 'P15@finder', [(PB, "        reader = common.policyFinder.reader\n        return reader.parse(source, common)", "        reader = common.policyFinder.reader\n        return reader.parse(source, Common(common.policyFinder.__class__(None)))")]),
 ('pdp-ignores', 'bad', 'P15@finder', [(PD, "        if not finder:", "        if not finder or isinstance(source, str):")]),
 ('nested-policy-only', 'bad', 'P15@finder', [(PB, "        finder.setReader(reader)", "        from ndg.xacml.core.policy import Policy\n        finder.setReader(readerFactory.getReader(Policy))")]),
]

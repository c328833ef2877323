FI = 'ndg/xacml/core/functions/__init__.py'
AVP = 'ndg/xacml/core/attributevalue.py'
F = 'ndg/xacml/core/functions/'
RC = 'ndg/xacml/core/rule_combining_alg.py'
PC = 'ndg/xacml/core/policy_combining_alg.py'
TRIALS = [
 ('reg-helper', 'ok', 'P12,P10,P11', [(FI, '''        if functionNs in self:
            return self[functionNs]
''', '''        cached = VettedDict.get(self, functionNs)
        if cached is not None:
            return cached
''')]),
 ('reg-split', 'ok', 'P12', [(FI, '''                    for pfx in SPECIAL_TYPE_MAP.keys():
                        pfxsep = pfx + '-'
                        if functionName.startswith(pfxsep):
                            prefix = pfxsep
                            break
''', '''                    found = [p for p in sorted(SPECIAL_TYPE_MAP)
                             if functionName[:len(p) + 1] == p + '-']
                    if found:
                        prefix = found[0] + '-'
''')]),
 ('reg-dispatch', 'ok', 'P12', [(FI, '''        for namespacePrefix, pkgNamePrefix in list(cls.SUPPORTED_NSS.items()):
            if functionNs.startswith(namespacePrefix):''', '''        for namespacePrefix in sorted(cls.SUPPORTED_NSS, reverse=True):
            pkgNamePrefix = cls.SUPPORTED_NSS[namespacePrefix]
            if functionNs[:len(namespacePrefix)] == namespacePrefix:''')]),
 ('reg-comb-literal', 'ok', 'P12,P01', [(RC, "DEFAULT_MAP = {}.fromkeys(ALGORITHMS, NotImplemented)", "DEFAULT_MAP = dict((a, NotImplemented) for a in ALGORITHMS)")]),
 ('reg-type-fallback', 'bad', 'P12', [(FI, '''                raise TypeError('No AttributeValue.TYPE_URI_MAP entry for '
                                '%r type' % typePart) ''', '''                typeURI = AttributeValue.TYPE_URI_MAP['String']''')]),
 ('reg-capital', 'bad', 'P12', [(FI, "_capitalize = lambda s: s[0].upper() + s[1:]", "_capitalize = lambda s: s.capitalize()")]),
 ('reg-module-lastpart', 'bad', 'P12', [(FI, "moduleName = '_'.join(functionNameParts[1:]).lower()", "moduleName = functionNameParts[-1].lower()")]),
 ('reg-cache-by-name', 'bad', 'P12', [(FI, "        functionClass = self.__map.get(identifier)\n        if functionClass is None:\n            # No", "        functionClass = self.__map.get(identifier)\n        if not self.__map:\n            # No"),
     (FI, "            function = functionFactory(functionNs)\n            if function is None:\n                raise unsupportedFunctionErrorFactory(functionNs)\n                \n            self[functionNs] = function\n            self.__classFactoryMap[functionNs] = functionFactory", "            functionFactory = self.__classFactoryMap.setdefault(classPath, functionFactory)\n            function = functionFactory(functionNs)\n            self[functionNs] = function or list(functionFactory._FunctionClassFactoryBase__map.values())[0]")]),
 ('reg-ordered', 'bad', 'P12', [(RC, "    DEFAULT_MAP.update({", "    DEFAULT_MAP.update({\n        'urn:oasis:names:tc:xacml:1.1:rule-combining-algorithm:ordered-deny-overrides': DenyOverridesRuleCombiningAlg,")]),
 ('reg-ordered-get', 'bad', 'P12', [(PC, "        return self.__map.get(identifier)", "        return self.__map.get(identifier.replace('1.1', '1.0').replace('ordered-', ''))")]),
 ('reg-notimpl-and', 'bad', 'P12', [(F + 'v1/and.py', "        if identifier == And.FUNCTION_NS:", "        if identifier.startswith(And.FUNCTION_NS[:-3]):")]),
 ('reg-notimpl-suffix', 'bad', 'P12', [(F + 'v1/and.py', "        if identifier == And.FUNCTION_NS:", "        if identifier.endswith('and'):")]),
 ('reg-get-default', 'bad', 'P12', [('ndg/xacml/core/apply.py', "        if functionClass is NotImplemented:", "        if functionClass is NotImplemented and self.loadFunctionFromId is None:")]),
 ('av-native-map', 'ok', 'P25', [(AVP, "        if not isinstance(value, self.__class__.TYPE):", "        native = self.__class__.TYPE\n        if not isinstance(value, native):")]),
 ('av-eq-order', 'ok', 'P25', [(AVP, "        return self.__value == attrVal.value", "        return attrVal.value == self.value")]),
 ('av-type-order', 'bad', 'P12', [(AVP,  "        'DayTimeDuration',\n        'YearMonthDuration',", "        'YearMonthDuration',\n        'DayTimeDuration',")]),
 ('av-eq-native', 'bad', 'P25', [(AVP, "        if not isinstance(attrVal, self.__class__):", "        if not isinstance(attrVal, AttributeValue) or not isinstance(attrVal.value, self.TYPE):")]),
 ('av-set-coerce', 'bad', 'P25', [(AVP, "        self.__value = value  \n", "        self.__value = value.strip() if isinstance(value, str) else value\n")]),
 ('av-unknown-string', 'bad', 'P25', [(AVP, "        return self.__classMap.get(identifier)", "        return self.__classMap.get(identifier) or self.__classMap.get(identifier.lower())")]),
 ('av-init-falsy', 'bad', 'P25', [(AVP, "        if value is not None:\n            self.value", "        if value:\n            self.value")]),
]

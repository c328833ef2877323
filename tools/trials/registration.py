V = 'ndg/xacml/core/attributevalue.py'
F = 'ndg/xacml/core/functions/__init__.py'
D = 'ndg/xacml/parsers/etree/attributevaluereader.py'
R = 'ndg/xacml/parsers/etree/factory.py'
U = 'ndg/xacml/utils/__init__.py'
TRIALS = [
 ('setdefault', 'ok', 'P22', [(V, "            for k, v in list(classMap.items()):\n                if k not in cls.IDENTIFIER2CLASS_MAP:\n                    cls.IDENTIFIER2CLASS_MAP[k] = v", "            if identifier in cls.IDENTIFIER2CLASS_MAP:\n                return\n            cls.IDENTIFIER2CLASS_MAP[identifier] = attributeValueClass")]),
 ('std-helper', 'ok', 'P22', [(F, "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES:", "        if self._isStandard(function_ns):"), (F, "    def load_custom_function(self,", "    @staticmethod\n    def _isStandard(ns):\n        return any(ns == name for name in XacmlFunctionNames.FUNCTION_NAMES)\n\n    def load_custom_function(self,")]),
 ('getreader-get', 'ok', 'P22', [(R, "        if xacmlType in cls.READER_CLASS_MAP:\n", "        reader = cls.READER_CLASS_MAP.get(xacmlType)\n        if reader is not None:\n")]),
 ('std-set', 'ok', 'P22', [(F, "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES:", "        if function_ns in set(XacmlFunctionNames.FUNCTION_NAMES):")]),
 ('std-loaded-only', 'bad', 'P22', [(F, "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES:", "        if VettedDict.get(self, function_ns) is not None:")]),
 ('std-some', 'bad', 'P22', [(F, "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES:", "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES[:-6]:")]),
 ('std-by-path', 'bad', 'P22', [(F, "        if function_ns in XacmlFunctionNames.FUNCTION_NAMES:", "        if function_factory is not None and function_ns in XacmlFunctionNames.FUNCTION_NAMES:")]),
 ('store-first', 'bad', 'P22', [(F, "        function = function_factory(function_ns)\n        if function is None:\n            raise unsupportedFunctionErrorFactory(function_ns)\n        \n        self[function_ns] = function", "        function = function_factory(function_ns)\n        self[function_ns] = NotImplemented\n        if function is None:\n            raise unsupportedFunctionErrorFactory(function_ns)\n        \n        self[function_ns] = function")]),
 ('ignore-none', 'bad', 'P22', [(F, "        function = function_factory(function_ns)\n        if function is None:\n            raise unsupportedFunctionErrorFactory(function_ns)", "        function = function_factory(function_ns)\n        if function is None:\n            return")]),
 ('overwrite-default', 'bad', 'P22', [(V, "attributeValueClass, overwrite=False)", "attributeValueClass, overwrite=True)")]),
 ('overwrite-inverted', 'bad', 'P22', [(V, "                if k not in cls.IDENTIFIER2CLASS_MAP:", "                if k not in cls.IDENTIFIER2CLASS_MAP or k.startswith(AttributeValue.IDENTIFIER_PREFIX):")]),
 ('no-validate', 'bad', 'P22', [(V, "        classMap = AttributeValueClassMap()\n        classMap[identifier] = attributeValueClass\n", "        classMap = {identifier: attributeValueClass}\n"), (U, "        if not self.__KeyFilter(key):", "        if False:") if False else (V, "            if not issubclass(value, AttributeValue):", "            if not isinstance(value, type):") if False else (V, "        if not isinstance(key, str):", "        if key is not None and not isinstance(key, (str, int)):")]),
 ('map-copy', 'bad', 'P22', [(V, "            self.__classMap = self.__class__.IDENTIFIER2CLASS_MAP\n", "            self.__classMap = AttributeValueClassMap()\n            self.__classMap.update(self.__class__.IDENTIFIER2CLASS_MAP)\n")]),
 ('lower', 'bad', 'P22', [(D, "        cls.MAP[identifier] = readerClass", "        cls.MAP[identifier.replace('type2', 'type')] = readerClass")]),
 ('reader-first-wins', 'bad', 'P22', [(D, "        cls.MAP[identifier] = readerClass", "        cls.MAP.setdefault(identifier, readerClass)")]),
 ('reader-mro', 'bad', 'P22', [(R, "        if xacmlType in cls.READER_CLASS_MAP:\n", "        for xacmlBase in xacmlType.__mro__:\n            if xacmlBase in cls.READER_CLASS_MAP:\n                return cls.READER_CLASS_MAP[xacmlBase]\n        if False:\n")]),
 ('reader-name', 'bad', 'P22', [(R, "importModuleObject(readerClassName)", "importModuleObject(readerClassName.replace('.environment', '.action').replace('.Environment', '.Action'))")]),
 ('reader-cache', 'bad', 'P22', [(R, "            readerClass = importModuleObject(readerClassName)", "            readerClass = importModuleObject(readerClassName)\n            for name in list(cls.READER_CLASS_MAP):\n                readerClass = cls.READER_CLASS_MAP[name]")]),
]

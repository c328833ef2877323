B = 'ndg/xacml/core/'
X = B + 'context/'
def after(anchor, old, new):
    def f(s):
        i = s.index(anchor)
        j = s.index(old, i)
        return s[:j] + new + s[j + len(old):]
    return f
LOOP = '''        for attrName in %s.__slots__:
            # Ugly hack to allow for derived classes setting private member
            # variables
            if attrName.startswith('__'):
                attrName = "_%s" + attrName
                
            _dict[attrName] = getattr(self, attrName)
'''
def loop(c): return LOOP % (c, c)
TRIALS = [
 ('comprehension', 'ok', 'P21', [(X + 'subject.py', loop('Subject'), "        _dict.update((('_Subject' + n if n.startswith('__') else n), getattr(self, '_Subject' + n if n.startswith('__') else n)) for n in Subject.__slots__)\n")]),
 ('literal', 'ok', 'P21', [(X + 'result.py', loop('Status'), "        _dict['_Status__statusCode'] = self.__statusCode\n        _dict['_Status__statusMessage'] = self.__statusMessage\n        _dict['_Status__statusDetail'] = self.__statusDetail\n")]),
 ('setstate-loop', 'ok', 'P21', [(B + '__init__.py', "        for attrName, val in list(attrDict.items()):\n            setattr(self, attrName, val)", "        for attrName in attrDict:\n            object.__setattr__(self, attrName, attrDict[attrName])")]),
 ('reduce-ex', 'ok', 'P21', [('ndg/xacml/utils/__init__.py', "        return self.__class__, (self.__elementType, list(self))", "        return type(self), (self.__elementType,), None, iter(self)")]),
 ('helper', 'ok', 'P21', [(B + 'attribute.py', after('def __getstate__', loop('Attribute'), "        self._saveSlots(_dict)\n")), (B + 'attribute.py', "    def __getstate__(self):", "    def _saveSlots(self, state):\n        for name in Attribute.__slots__:\n            state['_Attribute' + name] = getattr(self, '_Attribute' + name)\n\n    def __getstate__(self):")]),
 ('content-inline', 'ok', 'P21', [(X + 'resource.py', "            if isinstance(v, etree.SerialisedElementTree):\n                setattr(self, k, etree.deserialiseIfElementTree(v))\n            else:\n                setattr(self, k, v)", "            setattr(self, k, etree.deserialiseIfElementTree(v))")]),
 ('missing-slot', 'bad', 'P21', [(X + 'result.py', loop('Status'), loop('Status').replace("in Status.__slots__:", "in Status.__slots__[:2]:"))]),
 ('wrong-prefix', 'bad', 'P21', [(X + 'subject.py', loop('Subject'), loop('Subject').replace("            _dict[attrName] =", "            _dict[attrName.lstrip('_')] ="))]),
 ('no-super', 'bad', 'P21', [(X + 'response.py', "        _dict = super(Response, self).__getstate__()", "        _dict = {}")]),
 ('other-slots', 'bad', 'P21', [(X + 'request.py', "        for attrName in Request.__slots__:", "        for attrName in Request.__slots__[1:]:")]),
 ('skip-falsy', 'bad', 'P21', [(B + '__init__.py', "            setattr(self, attrName, val)", "            if val:\n                setattr(self, attrName, val)")]),
 ('self-class', 'ok', 'P21', [(B + 'attributevalue.py', "        for attrName in AttributeValue.__slots__:", "        for attrName in self.__slots__:")]),
 ('context-setstate', 'bad', 'P21', [(X + '__init__.py', "            setattr(self, attr, val)", "            setattr(self, attr.replace('__xmlns', '__elem'), val)")]),
 ('reduce-type', 'bad', 'P21', [('ndg/xacml/utils/__init__.py', "(self.__elementType, list(self))", "(type(self[0]) if self else self.__elementType, list(self))")]),
 ('reduce-items', 'bad', 'P21', [('ndg/xacml/utils/__init__.py', "(self.__elementType, list(self))", "(self.__elementType, list(self)[:1])")]),
 ('unimportable', 'bad', 'P21', [(B + 'attributevalue.py', "        globals()[_className] = _attributeValueClass\n", "        if _type is not object:\n            globals()[_typeName] = _attributeValueClass\n")]),
 ('module-attr', 'bad', 'P21', [(B + 'attributevalue.py', "                      '__module__': __name__}", "                      }")]),
 ('serialise-type', 'bad', 'P21', [('ndg/xacml/parsers/etree/__init__.py', "            return SerialisedElementTree(ElementTree.tostring(obj,\n                                                              encoding=str))", "            return ElementTree.tostring(obj, encoding=str)")]),
 ('serialise-tail', 'bad', 'P21', [('ndg/xacml/parsers/etree/__init__.py', "ElementTree.tostring(obj,\n                                                              encoding=str)", "ElementTree.tostring(obj,\n                                                              method='text', encoding=str)")]),
 ('decision-str', 'bad', 'P21', [(X + 'result.py', after('class Decision(object)', "            _dict[attrName] = getattr(self, attrName)", "            _dict[attrName] = str(self) and None"))]),
 ('effect-name', 'bad', 'P21', [(B + 'rule.py', '"_Effect" + attrName', '"_Decision" + attrName')]),
]

B = 'ndg/xacml/core/'
def rn(old, new, k=1):
    def f(s):
        parts = s.split(old)
        return old.join(parts[:k]) + new + old.join(parts[k:])
    return f
def after(anchor, old, new):
    def f(s):
        i = s.index(anchor)
        j = s.index(old, i)
        return s[:j] + new + s[j + len(old):]
    return f
MSG = """            raise TypeError('Expecting %r type for "resourceId" '
                            'result; got %r' % (str, type(value)))
"""
HELP = '''
def _check(value, cls, name):
    if not isinstance(value, cls):
        raise TypeError('Expecting %r type for %r; got %r' % (cls, name, type(value)))
    return value

class Result(XacmlContextBase):'''
TRIALS = [
 # refactorings
 ('helper', 'ok', 'P18', [(B + 'context/result.py', lambda s: after('def resourceId(self, value)', "        self.__resourceId = value", "        self.__resourceId = _check(value, str, 'resourceId')")(
     after('def status(self, value)', "        self.__status = value", "        self.__status = _check(value, Status, 'status')")(s)).replace('\nclass Result(XacmlContextBase):', HELP))]),
 ('fn-lookup-first', 'ok', 'P18,P12', [(B + 'apply.py', lambda s: after('def _set_functionId', s[s.index("        previous = self.__functionId"):s.index("    functionId = property(")], """        if self.__loadFunctionFromId:
            was, self.__functionId = self.__functionId, value
            ok = False
            try:
                self.setFunctionFromMap(self.__functionMap)
                ok = True
            finally:
                if not ok:
                    self.__functionId = was
        else:
            self.__functionId = value

""")(s))]),
 ('dec-str', 'ok', 'P18', [(B + 'context/result.py', after('class Decision', "            value = str(value)\n", "            value = value._getValue()\n"))]),
 ('types-in', 'ok', 'P18', [(B + 'context/result.py', after('class StatusCode', "        if value not in self.__class__.CODES:", "        if not any(value == c for c in StatusCode.CODES):"))]),
 # mutants
 ('store-first', 'bad', 'P18', [(B + 'rule.py', after('def _set_id', "        if not isinstance(value, str):", "        self.__id = value\n        if not isinstance(value, str):"))]),
 ('none-ok', 'bad', 'P18', [(B + 'attributedesignator.py', after('@issuer.setter', "        if not isinstance(value, str):", "        if value is not None and not isinstance(value, str):"))]),
 ('strip', 'bad', 'P18', [(B + 'attribute.py', after('@attributeId.setter', "        self.__attributeId = value", "        self.__attributeId = value.strip()"))]),
 ('mbp-int', 'bad', 'P18', [(B + 'attributeselector.py', after('@mustBePresent.setter', "isinstance(value, bool)", "isinstance(value, (bool, int))"))]),
 ('mbp-coerce', 'bad', 'P18', [(B + 'attributedesignator.py', after('@mustBePresent.setter', "        self.__mustBePresent = value", "        self.__mustBePresent = value or None"))]),
 ('exact-class', 'bad', 'P18', [(B + 'rule.py', after('@target.setter', "if not isinstance(value, Target):", "if type(value) is not Target:"))]),
 ('wrong-slot', 'bad', 'P18', [(B + 'context/request.py', after('@environment.setter', "        self.__environment = value", "        self.__environment = self.__action = value"))]),
 ('wrong-type', 'bad', 'P18', [(B + 'context/request.py', after('@environment.setter', "isinstance(value, Environment)", "isinstance(value, (Environment, Action))"))]),
 ('policy-any', 'bad', 'P18', [(B + 'context/pdp.py', after('@policy.setter', "if not isinstance(value, PolicyBase):", "if not hasattr(value, 'evaluate'):"))]),
 ('dec-case', 'bad', 'P18', [(B + 'context/result.py', after('class Decision', "        if value not in self.__class__.TYPES:", "        if value.strip() not in self.__class__.TYPES:"))]),
 ('code-prefix', 'bad', 'P18', [(B + 'context/result.py', after('class StatusCode', "if value not in self.__class__.CODES:", "if not value.startswith(self.IDENTIFIER_PREFIX):"))]),
 ('effect-old', 'bad', 'P18', [(B + 'rule.py', after('class Effect', "        if value not in self.__class__.TYPES:", "        self.__value = value\n        if value not in self.__class__.TYPES:"))]),
 ('fn-keep', 'bad', 'P18', [(B + 'match.py', "                self.__matchId = previous\n", "                pass\n")]),
 ('fn-cached', 'bad', 'P18', [(B + 'match.py', "        if self.__loadFunctionFromId:\n            try", "        if self.__loadFunctionFromId and self.__function is None:\n            try")]),
 ('alg-keep', 'bad', 'P18', [(B + 'policyset.py', after('def _setPolicyCombiningAlgFromId', "        policyCombiningAlgClass = self", "        self.__policyCombiningAlg = None\n        policyCombiningAlgClass = self"))]),
 ('sel-keeps', 'bad', 'P18', [(B + 'match.py', after('@attributeSelector.setter', "        self.__attributeDesignator = None", "        self.__attributeValue = None"))]),
 ('readonly', 'bad', 'P18', [(B + 'target.py', after('def environments', "        return self.__environments\n", "        return self.__environments\n\n    @environments.setter\n    def environments(self, value):\n        self.__environments = value\n"))]),
 ('desc-empty', 'bad', 'P18', [(B + 'policy.py', after('def _setDescription', "        self.__description = value", "        if value:\n            self.__description = value"))]),
 ('msg-none', 'bad', 'P18', [(B + 'context/result.py', after('def _getStatusMessage', "return self.__statusMessage", "return self.__statusMessage or None"))]),
 ('av-reset', 'bad', 'P18', [(B + 'attributevalue.py', after('def _set_value', "        if not isinstance", "        self.__value = None\n        if not isinstance"))]),
 ('resp-exc', 'bad', 'P18', [(B + 'context/exceptions.py', after('@response.setter', "if not isinstance(value, Response)", "if value is None or not isinstance(value, (Response, Result))"))]),
 ('init-shared', 'bad', 'P18', [(B + 'context/subject.py', "        self.__subjectCategory = None\n", "        pass\n")]),
 ('shared-list', 'bad', 'P18', [(B + 'target.py', "    def __init__(self):\n", "    _none = TypedList(Environment)\n\n    def __init__(self):\n"), (B + 'target.py', "TypedList(Environment)\n    \n", "self.__class__._none\n\n")]),
]

"""Edits that keep the behaviour: containers, results, effects, registries, designators."""
import re
exec(open('/verif/tools/trials/refac2.py').read().split('TRIALS =')[0])
U, RS, AV, FN, FC, RC = 'ndg/xacml/utils/__init__.py', B + 'context/result.py', B + 'attributevalue.py', B + 'functions/__init__.py', 'ndg/xacml/parsers/etree/factory.py', B + 'rule_combining_alg.py'


def typed_helper(s):
    i = s.index('class TypedList'); j = s.index('class RestrictedKeyNamesDict')
    t = s[i:j]
    t = re.sub(r"        iter = list\(iter\)\n        for i in iter:\n            if not isinstance\(i, self\.__elementType\):\n                raise TypeError\(\"List items must be of type %s\" %\s+\(self\.__elementType,\)\)\n", "        iter = self.__checkAll(iter)\n", t)
    assert t.count('__checkAll') == 2, t
    t = t.replace("    def __repr__(self):", "    def __checkAll(self, items):\n        items = list(items)\n        for item in items:\n            self.__checkType(item)\n        return items\n\n    def __repr__(self):", 1)
    return s[:i] + t + s[j:]


def decision_types(s):
    """The four fixed decisions share one base."""
    for n in ('Permit', 'Deny', 'Indeterminate', 'NotApplicable'):
        s = s.replace('class %sDecision(Decision)' % n, 'class %sDecision(_FixedDecision)' % n)
    s = s.replace('class PermitDecision', 'class _FixedDecision(Decision):\n    __slots__ = ()\n\n    def _setValue(self, value):\n        raise AttributeError("can\'t set attribute")\n\n\nclass PermitDecision', 1)
    return s


def fixed_once(s):
    s = decision_types(s)
    i = s.index('class PermitDecision')
    return s[:i] + re.sub(r"    def _setValue\(self, value\):\s+raise AttributeError\(\"can't set attribute\"\)\n", "", s[i:])


TRIALS = [
    ('tl-helper', 'ok', 'P17', [(U, typed_helper)]),
    ('tl-validate-gen', 'ok', 'P17', [(U, body('TypedList', 'append', '''
    def append(self, item):
        self.__checkType(item)
        super(TypedList, self).append(item)
'''))]),
    ('rk-check', 'ok', 'P17', [(U, body('RestrictedKeyNamesDict', '__setitem__', '''
    def _requireKnown(self, key):
        if key in self.__keyNames:
            return
        raise KeyError('Key name %r not recognised.  Valid key names are: %r' % (key, self.__keyNames))

    def __setitem__(self, key, val):
        self._requireKnown(key)
        super(RestrictedKeyNamesDict, self).__setitem__(key, val)
''')), (U, body('RestrictedKeyNamesDict', 'update', '''
    def update(self, d, **kw):
        new = dict(d, **kw)
        for k in new:
            self._requireKnown(k)
        super(RestrictedKeyNamesDict, self).update(new)
'''))]),
    ('ul-in', 'ok', 'P17', [(U, body('UniqList', 'append', '''
    def append(self, item):
        if item not in self:
            super(UniqList, self).append(item)
'''))]),
    ('vd-getitem-try', 'ok', 'P17,P22', [(U, body('VettedDict', '__getitem__', '''
    def __getitem__(self, key):
        try:
            return self.__map[key]
        except KeyError:
            raise KeyError('%r key not found in dict' % (key,))
''')), (U, body('VettedDict', 'get', '''
    def get(self, key, *arg):
        default = arg[1] if len(arg) > 1 else None
        return self.__map.get(key, default)
'''))]),
    ('dc-base', 'ok', 'P19,P21,P18', [(RS, decision_types)]),
    ('dc-base-once', 'ok', 'P19,P21,P18', [(RS, fixed_once)]),
    ('dc-coerce', 'ok', 'P18,P19', [(RS, body('Decision', '_setValue', '''
    @classmethod
    def _coerce(cls, value):
        if isinstance(value, Decision):
            value = value.value
        if not isinstance(value, str):
            raise TypeError('Expecting string or Decision instance for "value" attribute; got %r instead' % type(value))
        if value not in Decision.TYPES:
            raise AttributeError('Permissable decision types are %r; got %r instead' % (Decision.TYPES, value))
        return value

    def _setValue(self, value):
        self.__value = Decision._coerce(value)
'''))]),
    ('dc-eq-coerce', 'ok', 'P19,P01', [(RS, body('Decision', '__eq__', '''
    def __eq__(self, decision):
        if not isinstance(decision, (Decision, str)):
            raise TypeError('Expecting string or Decision instance for input decision value; got %r instead' % type(decision))
        other = str(decision)
        if other not in Decision.TYPES:
            raise AttributeError('Permissable decision types are %r; got %r instead' % (Decision.TYPES, other))
        return other == self.__value
'''))]),
    ('ef-setvalue', 'ok', 'P18,P19', [(RL, body('Effect', '_setValue', '''
    def _setValue(self, value):
        text = str(value) if isinstance(value, Effect) else value
        if not isinstance(text, str):
            raise TypeError('Expecting string or Effect instance for "value" attribute; got %r instead' % type(value))
        if text in Effect.TYPES:
            self.__value = text
        else:
            raise AttributeError('Permissable effect types are %r; got %r instead' % (Effect.TYPES, text))
'''))]),
    ('rs-setter-helper', 'ok', 'P18', [(RS, sub(r"        if not isinstance\(value, Status\):\s+raise TypeError\([^\n]*\n[^\n]*\n", "        _check(value, Status, 'status')\n")), (RS, sub(r"class Result\(", "def _check(value, cls, name):\n    if not isinstance(value, cls):\n        raise TypeError('Expecting %r type for %r; got %r' % (cls, name, type(value)))\n\n\nclass Result("))]),
    ('av-add-direct', 'ok', 'P22,P25', [(AV, body('AttributeValueClassFactory', 'addClass', '''
    @classmethod
    def addClass(cls, identifier, attributeValueClass, overwrite=False):
        checked = AttributeValueClassMap()
        checked[identifier] = attributeValueClass
        known = cls.IDENTIFIER2CLASS_MAP
        if overwrite or identifier not in known:
            known[identifier] = attributeValueClass
''')), (AV, sub(r"    @classmethod\n    @classmethod\n", "    @classmethod\n"))]),
    ('av-eq-not', 'ok', 'P25,P11', [(AV, body('AttributeValue', '__eq__', '''
    def __eq__(self, attrVal):
        if isinstance(attrVal, self.__class__):
            return self.__value == attrVal.value
        raise TypeError('Expecting %r type for "value" attribute; got %r' % (self.__class__.TYPE, type(attrVal)))
'''))]),
    ('fm-get', 'ok', 'P12,P22', [(FN, body('FunctionMap', 'get', '''
    def get(self, key, *arg):
        found = VettedDict.get(self, key, *arg)
        if found is not None:
            return found
        self.loadFunction(key)
        return VettedDict.get(self, key, *arg)
'''))]),
    ('fc-try', 'ok', 'P22', [(FC, body('ReaderFactory', 'getReader', '''
    @classmethod
    def getReader(cls, xacmlType):
        try:
            return cls.READER_CLASS_MAP[xacmlType]
        except KeyError:
            pass
        name = xacmlType.__name__
        return importModuleObject('ndg.xacml.parsers.etree.' + name.lower() + 'reader.' + name + 'Reader')
''')), (FC, sub(r"    @classmethod\s+@classmethod\n", "    @classmethod\n"))]),
    ('rc-elif', 'ok', 'P01', [(RC, body('DenyOverridesRuleCombiningAlg', 'evaluate', '''
    def evaluate(self, rules, context):
        seen = []
        for rule in rules:
            outcome = rule.evaluate(context)
            if outcome == Decision.DENY:
                return Decision.DENY
            elif outcome == Decision.INDETERMINATE and rule.effect.value == Decision.DENY:
                seen.append('potential-deny')
            elif outcome == Decision.INDETERMINATE:
                seen.append('error')
            elif outcome == Decision.PERMIT:
                seen.append('permit')
        for kind, result in (('potential-deny', Decision.INDETERMINATE), ('permit', Decision.PERMIT), ('error', Decision.INDETERMINATE)):
            if kind in seen:
                return result
        return Decision.NOT_APPLICABLE
'''))]),
]

B = 'ndg/xacml/core/'
R, U = B + 'context/result.py', B + 'rule.py'
def after(anchor, old, new):
    def f(s):
        i = s.index(anchor)
        j = s.index(old, i)
        return s[:j] + new + s[j + len(old):]
    return f
TRIALS = [
 ('slots-setattr', 'ok', 'P19,P18', [(R, lambda s: after('class PermitDecision', '    def _setValue(self, value):', '    def __setattr__(self, name, value):\n        if name == "value":\n            raise AttributeError("read-only")\n        super(PermitDecision, self).__setattr__(name, value)\n\n    def _setValue(self, value):')(s))]),
 ('loop-make', 'ok', 'P19', [(R, "Decision.PERMIT = PermitDecision()\n", "for _n, _c in (('PERMIT', PermitDecision),):\n    setattr(Decision, _n, _c())\n")]),
 ('eq-str', 'ok', 'P19,P18', [(R, after('def __eq__', "            value = decision.value\n", "            value = str(decision)\n"))]),
 ('setter-method', 'ok', 'P19,P18', [(U, lambda s: s.replace("""    value = property(fget=_getValue, 
                     fset=lambda self, value: self._setValue(value), 
                     doc="Effect value")""", """    def _assign(self, value):
        self._setValue(value)

    value = property(_getValue, _assign, None, "Effect value")"""))]),
 ('fset-direct', 'bad', 'P19', [(U, "fset=lambda self, value: self._setValue(value)", "fset=_setValue")]),
 ('one-override', 'bad', 'P19', [(R, after('class NotApplicableDecision', "    def _setValue(self, value):", "    def _assignValue(self, value):"))]),
 ('const-plain', 'bad', 'P19', [(R, "Decision.INDETERMINATE = IndeterminateDecision()", "Decision.INDETERMINATE = Decision(Decision.INDETERMINATE_STR)")]),
 ('swap', 'bad', 'P19', [(U, "Effect.DENY = DenyEffect()", "Effect.DENY = PermitEffect()")]),
 ('intern', 'bad', 'P19', [(R, after('class PermitDecision', "        raise AttributeError(\"can't set attribute\")", "        if value != Decision.PERMIT_STR:\n            return super(PermitDecision, self)._setValue(value)"))]),
 ('eq-lenient', 'bad', 'P19', [(R, after('def __eq__', "        if value not in self.__class__.TYPES:", "        if value and value not in self.__class__.TYPES:"))]),
 ('eq-false', 'bad', 'P19', [(U, after('def __eq__', "            raise TypeError(", "            return False\n            raise TypeError("))]),
 ('eq-ident', 'bad', 'P19', [(U, after('def __eq__', "        return self.__value == value", "        return self is effect or self.__value is value and False"))]),
 ('eq-adopt', 'bad', 'P19', [(R, after('def __eq__', "        return self.__value == value", "        same = self.__value == value\n        self.__value = value\n        return same"))]),
 ('shared-slot', 'bad', 'P19', [(R, after('class Decision(object)', "        self.__value = value\n", "        Decision._last = self.__value = value\n")), (R, after('class Decision(object)', "        return self.__value\n", "        return getattr(Decision, '_last', None)\n"))]),
 ('bool', 'bad', 'P19', [(U, after('def __bool__', "self.__value == Effect.PERMIT_STR", "self.__value in Effect.TYPES"))]),
 ('internal', 'bad', 'P19', [(B + 'policybase.py', "            decision = Decision.INDETERMINATE\n", "            decision = Decision.INDETERMINATE\n            decision._Decision__value = Decision.INDETERMINATE_STR\n")]),
]

M = 'ndg/xacml/core/match.py'


def tail(new):
    def f(s):
        i = s.index('        attrMatchStatusValues = [False]*len(requestAttributeValues)')
        j = s.index('class SubjectMatch(MatchBase)')
        return s[:i] + new + '\n\n' + s[j:]
    return f


TRIALS = [
 ('mt-any', 'ok', 'P06', [(M, tail('''        f = self.function
        return any([f.evaluate(self.attributeValue, v) for v in requestAttributeValues])
'''))]),
 ('mt-gen', 'ok', 'P06', [(M, tail('''        return any(self.function.evaluate(self.attributeValue, v) for v in requestAttributeValues)
'''))]),
 ('mt-loop', 'ok', 'P06', [(M, tail('''        status = False
        for v in requestAttributeValues:
            if self.function.evaluate(self.attributeValue, v):
                status = True
        return status
'''))]),
 ('mt-map', 'ok', 'P06', [(M, tail('''        call = lambda v: self.function.evaluate(self.attributeValue, v)
        return True in list(map(call, requestAttributeValues))
'''))]),
 ('mt-idx', 'ok', 'P06', [(M, tail('''        status = False
        for i in range(len(requestAttributeValues)):
            status = self._one(requestAttributeValues[i]) or status
        return status

    def _one(self, v):
        return self.function.evaluate(self.attributeValue, v)
'''))]),
 ('mt-m-all', 'bad', 'P06', [(M, tail('''        f = self.function
        return all([f.evaluate(self.attributeValue, v) for v in requestAttributeValues])
'''))]),
 ('mt-m-last', 'bad', 'P06', [(M, tail('''        status = False
        for v in requestAttributeValues:
            status = self.function.evaluate(self.attributeValue, v)
        return status
'''))]),
 ('mt-m-swap', 'bad', 'P06', [(M, tail('''        f = self.function
        return any([f.evaluate(v, self.attributeValue) for v in requestAttributeValues])
'''))]),
 ('mt-m-try', 'bad', 'P06', [(M, tail('''        f = self.function
        status = False
        for v in requestAttributeValues:
            try:
                status |= f.evaluate(self.attributeValue, v)
            except TypeError:
                pass
        return status
'''))]),
 ('mt-m-first', 'bad', 'P06', [(M, tail('''        f = self.function
        return any([f.evaluate(self.attributeValue, v) for v in requestAttributeValues[1:]])
'''))]),
 ('mt-m-set', 'bad', 'P06', [(M, '        self.__attributeDesignator = value\n        self.__attributeSelector = None\n', '        self.__attributeDesignator = value\n')]),
]

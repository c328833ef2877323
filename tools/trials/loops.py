C = 'ndg/xacml/core/'
M = C + 'match.py'


def tail(new):
    def f(s):
        i = s.index('        attrMatchStatusValues = [False]*len(requestAttributeValues)')
        j = s.index('class SubjectMatch(MatchBase)')
        return s[:i] + new + '\n\n' + s[j:]
    return f


TRIALS = [
 ('lp-counter', 'ok', 'P06', [(M, tail('''        status = [False]*len(requestAttributeValues)
        i = 0
        for v in requestAttributeValues:
            status[i] = self.function.evaluate(self.attributeValue, v)
            i += 1
        return any(status)
'''))]),
 ('lp-while', 'ok', 'P06', [(M, tail('''        status = False
        i = 0
        while i < len(requestAttributeValues):
            if self.function.evaluate(self.attributeValue, requestAttributeValues[i]):
                status = True
            i += 1
        return status
'''))]),
 ('lp-while-n', 'ok', 'P06', [(M, tail('''        matched = 0
        i, n = 0, len(requestAttributeValues)
        while i != n:
            matched += bool(self.function.evaluate(self.attributeValue, requestAttributeValues[i]))
            i = i + 1
        return matched > 0
'''))]),
 ('lp-iter', 'ok', 'P06', [(M, tail('''        status = False
        values = iter(requestAttributeValues)
        while True:
            try:
                v = next(values)
            except StopIteration:
                break
            status |= bool(self.function.evaluate(self.attributeValue, v))
        return status
'''))]),
 ('lp-pop', 'ok', 'P06', [(M, tail('''        status = False
        todo = list(requestAttributeValues)
        while todo:
            v = todo.pop(0)
            status = bool(self.function.evaluate(self.attributeValue, v)) or status
        return status
'''))]),
 ('lp-count', 'ok', 'P06', [(M, tail('''        return sum(1 for v in requestAttributeValues if self.function.evaluate(self.attributeValue, v)) > 0
'''))]),
 ('lp-countall', 'ok', 'P06', [(M, tail('''        statuses = [bool(self.function.evaluate(self.attributeValue, v)) for v in requestAttributeValues]
        return statuses.count(True) > 0
'''))]),
 ('lp-max', 'ok', 'P06', [(M, tail('''        return max([bool(self.function.evaluate(self.attributeValue, v)) for v in requestAttributeValues], default=False)
'''))]),
 ('lp-reduce', 'ok', 'P06', [(M, tail('''        from functools import reduce
        return reduce(lambda a, v: self.function.evaluate(self.attributeValue, v) or a, requestAttributeValues, False)
'''))]),
 ('lp-found', 'ok', 'P06', [(M, tail('''        matched = []
        for v in requestAttributeValues:
            if self.function.evaluate(self.attributeValue, v):
                matched.append(v)
        return len(matched) > 0
'''))]),
 ('lp-zip', 'ok', 'P06', [(M, tail('''        status = [False]*len(requestAttributeValues)
        for i, v in zip(range(len(requestAttributeValues)), requestAttributeValues):
            status[i] = self.function.evaluate(self.attributeValue, v)
        return any(status)
'''))]),
 ('lp-dict', 'ok', 'P06', [(M, tail('''        status = {}
        for i, v in enumerate(requestAttributeValues):
            status[i] = self.function.evaluate(self.attributeValue, v)
        return any(status.values())
'''))]),
 ('lp-set', 'ok', 'P06', [(M, tail('''        status = set()
        for v in requestAttributeValues:
            status.add(bool(self.function.evaluate(self.attributeValue, v)))
        return True in status
'''))]),
 ('lp-rev', 'ok', 'P06', [(M, tail('''        status = False
        for v in reversed(requestAttributeValues):
            status = status or None
            if self.function.evaluate(self.attributeValue, v):
                status = True
        return bool(status)
'''))]),
 ('lp-m-range1', 'bad', 'P06', [(M, tail('''        status = [False]*len(requestAttributeValues)
        for i in range(1, len(requestAttributeValues)):
            status[i] = self.function.evaluate(self.attributeValue, requestAttributeValues[i])
        return any(status)
'''))]),
 ('lp-m-while', 'bad', 'P06', [(M, tail('''        status = False
        i = 0
        while i < len(requestAttributeValues) - 1:
            if self.function.evaluate(self.attributeValue, requestAttributeValues[i]):
                status = True
            i += 1
        return status
'''))]),
 ('lp-m-slot', 'bad', 'P06', [(M, tail('''        status = [False]*len(requestAttributeValues)
        for i, v in enumerate(requestAttributeValues):
            status[0] = self.function.evaluate(self.attributeValue, v)
        return any(status)
'''))]),
 ('lp-m-slice', 'bad', 'P06', [(M, tail('''        return any([self.function.evaluate(self.attributeValue, v) for v in requestAttributeValues[:-1]] + [False])
'''))]),
]

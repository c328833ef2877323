A = 'ndg/xacml/core/apply.py'


def body(new):
    def f(s):
        i = s.index('        funcInputs = [None]*len(self.expressions)')
        return s[:i] + new
    return [(A, f)]


TRIALS = [
 ('ap-comp', 'ok', 'P09', body('''        return self.function.evaluate(*[e.evaluate(context) for e in self.expressions])
''')),
 ('ap-append', 'ok', 'P09', body('''        operands = []
        for e in self.expressions:
            operands.append(e.evaluate(context))
        f = self.function
        return f.evaluate(*operands)
''')),
 ('ap-gen', 'ok', 'P09', body('''        return self.function.evaluate(*(e.evaluate(context) for e in self.expressions))
''')),
 ('ap-map', 'ok', 'P09', body('''        operands = tuple(map(lambda e: e.evaluate(context), self.expressions))
        return self.__function.evaluate(*operands)
''')),
 ('ap-idx', 'ok', 'P09', body('''        n = len(self.expressions)
        operands = [None] * n
        for i in range(n):
            operands[i] = self.expressions[i].evaluate(context)
        return self.function.evaluate(*operands)
''')),
 ('ap-m-rev', 'bad', 'P09', body('''        operands = [e.evaluate(context) for e in self.expressions]
        operands.reverse()
        return self.function.evaluate(*operands)
''')),
 ('ap-m-uniq', 'bad', 'P09', body('''        operands = []
        for e in self.expressions:
            v = e.evaluate(context)
            if v not in operands:
                operands.append(v)
        return self.function.evaluate(*operands)
''')),
 ('ap-m-none', 'bad', 'P09', body('''        operands = [e.evaluate(context) for e in self.expressions]
        return self.function.evaluate(*[o for o in operands if o is not None])
''')),
 ('ap-m-try', 'bad', 'P09', body('''        operands = []
        for e in self.expressions:
            try:
                operands.append(e.evaluate(context))
            except TypeError:
                operands.append(None)
        return self.function.evaluate(*operands)
''')),
 ('ap-m-bool', 'bad', 'P09', body('''        return bool(self.function.evaluate(*[e.evaluate(context) for e in self.expressions]))
''')),
 ('ap-m-sc', 'bad', 'P09', body('''        operands = []
        for e in self.expressions:
            v = e.evaluate(context)
            operands.append(v)
            if v is False:
                break
        return self.function.evaluate(*operands)
''')),
 ('ap-m-twice', 'bad', 'P09', body('''        log = [e.evaluate(context) for e in self.expressions]
        return self.function.evaluate(*[e.evaluate(context) for e in self.expressions])
''')),
 ('ap-m-fn', 'bad', 'P09', [(A, '        self.__function = functionClass()', '        if self.__function is None:\n            self.__function = functionClass()')]),
 ('ap-m-ni', 'bad', 'P09', [('ndg/xacml/core/match.py', "        if functionClass is NotImplemented:", "        if functionClass == 'NotImplemented':")]),
]

C = 'ndg/xacml/core/'
AD = C + 'attributedesignator.py'
PB = C + 'policybase.py'
MA = C + 'match.py'
RX = C + 'functions/v1/regexp_match.py'
EXT = '''attributeValueBag.extend([i for i in attr.attributeValues
                                              if i.dataType == dataType])'''
LOOKUP = '''        compiled_regex = self.compiled_regexes.get(pat.value, None)
        if compiled_regex is None:
            compiled_regex = re.compile(pat.value)
            self.compiled_regexes[pat.value] = compiled_regex
        return bool(compiled_regex.match(input.value))'''


def repl(old, new, n=1):
    def f(s):
        assert old in s, old
        return s.replace(old, new, n)
    return f


def chain(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


TRIALS = [
    # behaviour kept
    ('regex-try', 'ok', 'P16@p11', [(RX, LOOKUP, '''        try:
            compiled = self.compiled_regexes[pat.value]
        except KeyError:
            compiled = self.compiled_regexes[pat.value] = re.compile(pat.value)
        return bool(compiled.match(input.value))''')]),
    ('regex-none', 'ok', 'P16@p11', [(RX, LOOKUP, '''        return bool(re.compile(pat.value).match(input.value))''')]),
    ('local-collect', 'ok', 'P16@p07', [(AD, repl('''            for attr in subject.attributes:
                if _attributeMatch(attr):
                    ''' + EXT, '''            found = []
            for attr in subject.attributes:
                if _attributeMatch(attr):
                    found.append(attr)
            for attr in found:
                for i in attr.attributeValues:
                    if i.dataType == dataType:
                        attributeValueBag.append(i)'''))]),
    ('subject-copy', 'ok', 'P16@p07', [(AD, repl('for subject in context.subjects:  ', 'for subject in list(context.subjects):'))]),
    ('match-helper', 'ok', 'P16@p06', [(MA, repl('''        attrMatchStatusValues = [False]*len(requestAttributeValues)''', '''        attrMatchStatusValues = []
        attrMatchStatusValues.extend([False for _ in requestAttributeValues])'''))]),
    ('policy-locals', 'ok', 'P16@p03,P16@p04', [(PB, repl('''                decision = Decision.NOT_APPLICABLE
                return decision''', '''                return Decision.NOT_APPLICABLE'''))]),
    # broken
    ('memo-decision', 'bad', 'P16@p03+p04', [(PB, repl('''            decision = self.evaluateCombiningAlgorithm(context)''', '''            if id(context) not in _SEEN:
                _SEEN[id(context)] = self.evaluateCombiningAlgorithm(context)
            decision = _SEEN[id(context)]''')), (PB, lambda s: s.replace('class PolicyBase', '_SEEN = {}\n\n\nclass PolicyBase', 1))]),
    ('last-decision', 'bad', 'P16@p03+p04', [(PB, repl('''            result.decision = self.evaluate(request)''', '''            result.decision = self.evaluate(request)
            PolicyBase.last = result'''))]),
    ('count-global', 'bad', 'P16@p03+p04', [(PB, chain(repl('''            decision = Decision()
''', '''            decision = Decision()
            global COUNT
            COUNT = COUNT + 1
'''), repl('class PolicyBase', 'COUNT = 0\n\n\nclass PolicyBase')))]),
    ('bag-alias', 'bad', 'P16@p07', [(AD, repl('''                    ''' + EXT, '''                    if len(attributeValueBag) == 0:
                        attributeValueBag = attr.attributeValues
                    else:
                        ''' + EXT))]),
    ('pip-into-request', 'bad', 'P16@p07', [(AD, repl('''                    attributeValueBag.extend(filtAttributeValues)''', '''                    attributeValueBag.extend(filtAttributeValues)
                    for attr in subject.attributes:
                        if attr.attributeId == attributeId:
                            attr.attributeValues.extend(filtAttributeValues)'''))]),
    ('pip-reverse', 'bad', 'P16@p07', [(AD, repl('''                    attributeValueBag.extend(filtAttributeValues)''', '''                    while filtAttributeValues:
                        attributeValueBag.append(filtAttributeValues.pop())'''))]),
    ('must-be-present-once', 'bad', 'P16@p07', [(AD, repl('''            raise MissingAttributeError(''', '''            self.mustBePresent = False
            raise MissingAttributeError('''))]),
    ('match-keep', 'bad', 'P16@p06', [(MA, repl('''        matchFunction = self.function
''', '''        matchFunction = self.function
        self.matchId = self.matchId + '#'
'''))]),
    ('regex-shared', 'bad', 'P16@p11', [(RX, LOOKUP, '''        compiled_regex = self.compiled_regexes.get('last', None)
        if compiled_regex is None:
            compiled_regex = re.compile(pat.value)
            self.compiled_regexes['last'] = compiled_regex
        return bool(compiled_regex.match(input.value))''')]),
    ('regex-result', 'bad', 'P16@p11', [(RX, LOOKUP, '''        result = self.compiled_regexes.get(pat.value, None)
        if result is None:
            result = bool(re.compile(pat.value).match(input.value))
            self.compiled_regexes[pat.value] = result
        return result''')]),
    ('default-arg', 'bad', 'P16@p03+p04', [(PB, chain(repl('def evaluate(self, context):', 'def evaluate(self, context, seen=[]):'), repl('''            decision = Decision()
''', '''            decision = Decision()
            seen.append(context)
''')))]),
    ('target-drop', 'bad', 'P16@p03+p04', [(PB, repl('''            if not targetMatch:
''', '''            if targetMatch:
                self.description = 'matched'
            if not targetMatch:
'''))]),
]

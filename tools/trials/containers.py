UT = 'ndg/xacml/utils/__init__.py'
def rn(old, new, k=1):
    def f(s):
        parts = s.split(old)
        return old.join(parts[:k]) + new + old.join(parts[k:])
    return f
LOOP = """        for i in iter:
            if not isinstance(i, self.__elementType):
                raise TypeError("List items must be of type %s" % 
                                (self.__elementType,))
"""
TRIALS = [
 ('tl-all', 'ok', 'P17,P07', [(UT, LOOP, """        if not all(isinstance(i, self.__elementType) for i in iter):
            raise TypeError("List items must be of type %s" % (self.__elementType,))
""")]),
 ('tl-append-each', 'ok', 'P17', [(UT, "        return super(TypedList, self).extend(iter)", "        for i in iter:\n            super(TypedList, self).append(i)")]),
 ('vd-and', 'ok', 'P17,P12', [(UT, """        if not self.__KeyFilter(key):
            return False
        
        elif not self.__valueFilter(val):
            return False
        
        else:
            return True""", "        return bool(self.__KeyFilter(key) and self.__valueFilter(val))")]),
 ('tl-extend-late', 'bad', 'P17', [(UT, LOOP, """        n = len(self)
        for i in iter:
            super(TypedList, self).append(i)
        for i in self[n:]:
            if not isinstance(i, self.__elementType):
                raise TypeError("List items must be of type %s" %
                                (self.__elementType,))
        return
""")]),
 ('tl-first-only', 'bad', 'P17', [(UT, LOOP, LOOP + "            break\n")]),
 ('tl-iadd-last', 'bad', 'P17', [(UT, rn("        for i in iter:\n            if not isinstance(i, self.__elementType):", "        for i in iter[-1:]:\n            if not isinstance(i, self.__elementType):", 2))]),
 ('tl-append-filter', 'bad', 'P17', [(UT, "        if not isinstance(item, self.__elementType):\n                raise", "        if item and not isinstance(item, self.__elementType):\n                raise")]),
 ('tl-skip-dups', 'bad', 'P17', [(UT, "        return super(TypedList, self).append(item)", "        if item in self:\n            return\n        return super(TypedList, self).append(item)")]),
 ('ul-is', 'bad', 'P17', [(UT, "            if i == item:\n                return None", "            if i is item:\n                return None")]),
 ('ul-first', 'bad', 'P17', [(UT, "            if i == item:\n                return None\n            \n", "            if i == item:\n                return None\n            break\n\n")]),
 ('rd-kw', 'bad', 'P17', [(UT, "for dictArg in (d, kw):", "for dictArg in (d,):")]),
 ('rd-set', 'bad', 'P17', [(UT, "        if key not in self.__keyNames:\n            raise KeyError('Key name %r not recognised.  Valid key names '\n                           'are: %r' % (key, self.__keyNames))\n            \n", "        if key not in self.__keyNames and key is not None:\n            raise KeyError('Key name %r not recognised.  Valid key names '\n                           'are: %r' % (key, self.__keyNames))\n            \n")]),
 ('vd-or', 'bad', 'P17', [(UT, "        elif not self.__valueFilter(val):", "        elif key not in self.__map and not self.__valueFilter(val):")]),
 ('vd-swallow', 'bad', 'P17', [(UT, "        if self._verifyKeyValPair(key, val):\n", "        try:\n            ok = self._verifyKeyValPair(key, val)\n        except TypeError:\n            ok = True\n        if ok:\n")]),
]

From 4200ca3e5d301b0231e55cc9880dd53fe276ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 01/31] fix: a condition that yields a typed value or no
 boolean let the rule effect through

boolean-one-and-only and similar functions return a BooleanAttributeValue, which
is always true as an object whatever it holds; bags, strings and other values were
taken as true as well.
---
 ndg/xacml/core/condition.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..9e736ff 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
+from ndg.xacml.core.attributevalue import AttributeValue
 from ndg.xacml.core.expression import Expression
 
 
@@ -66,7 +67,17 @@ class Condition(XacmlCoreBase):
         @return: True/False status for whether the rule condition matched or
         not
         @rtype: bool
+        @raise TypeError: if the expression does not yield a boolean value
         """
         result = self.expression.evaluate(context)
         
-        return result
\ No newline at end of file
+        # Functions such as boolean-one-and-only yield a typed value: go by what
+        # it holds and not by the (always true) object
+        if isinstance(result, AttributeValue):
+            result = result.value
+            
+        if not isinstance(result, bool):
+            raise TypeError('Expecting a boolean value for the condition '
+                            'expression; got %r' % type(result))
+            
+        return result
-- 
2.43.0


From d2312de9911efe71681defcacabb99ccfd7d6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 02/31] fix: a typed list lost items taken from an iterator and
 took any item by insert, item assignment or construction

---
 ndg/xacml/utils/__init__.py | 43 +++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..ef296d7 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -61,6 +61,17 @@ class TypedList(list):
         """
         self.__elementType = elementType
         super(TypedList, self).__init__(*arg, **kw)
+        for i in self:
+            self.__checkType(i)
+
+    def __checkType(self, item):
+        """@param item: item to be held in this list
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+            raise TypeError("List items must be of type %s" % 
+                            (self.__elementType,))
 
     def __repr__(self):
         """@return: represent instance giving type information about the 
@@ -85,6 +96,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Items may come from an iterator which can be run through only once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -98,6 +111,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Items may come from an iterator which can be run through only once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -117,6 +132,34 @@ class TypedList(list):
     
         return super(TypedList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: position to insert at
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        self.__checkType(item)
+        return super(TypedList, self).insert(index, item)
+
+    def __setitem__(self, index, item):
+        """Replace an item or a slice of the list
+        @param index: index or slice to be replaced
+        @type index: int/slice
+        @param item: item or, for a slice, iterable of items
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            item = list(item)
+            for i in item:
+                self.__checkType(i)
+        else:
+            self.__checkType(item)
+
+        return super(TypedList, self).__setitem__(index, item)
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 262e61a7beddea38121cea699765ebfedf1e0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 03/31] fix: a unique list took repeated items within one
 extend, by insert, item assignment or construction

---
 ndg/xacml/utils/__init__.py | 43 ++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index ef296d7..c6c55d4 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -20,20 +20,30 @@ class UniqList(list):
     from the list
     """
     
+    def __init__(self, *arg):
+        """
+        @param arg: optional iterable to take the initial items from
+        @type arg: tuple
+        """
+        super(UniqList, self).__init__()
+        if arg:
+            self.extend(*arg)
+
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        for i in iter:
+            self.append(i)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        self.extend(iter)
+        return self
          
     def append(self, item):
         """Add an item to the list
@@ -46,6 +56,33 @@ class UniqList(list):
             
         return super(UniqList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: position to insert at
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        """
+        if item not in self:
+            super(UniqList, self).insert(index, item)
+
+    def __setitem__(self, index, item):
+        """Replace an item or a slice of the list
+        @param index: index or slice to be replaced
+        @type index: int/slice
+        @param item: item or, for a slice, iterable of items
+        @type item: any
+        @raise ValueError: an item would be present more than once
+        """
+        items = list(self)
+        items[index] = item
+        for n, i in enumerate(items):
+            if i in items[:n]:
+                raise ValueError("Item is already present in the list: %r" %
+                                 (i,))
+
+        super(UniqList, self).__setitem__(slice(None), items)
+
 
 class TypedList(list):
     """Extend list type to enabled only items of a given type.  Supports
-- 
2.43.0


From 47582390596e333ac6278ec029d46cb4f3d4f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 04/31] fix: a restricted dictionary took new keys by
 setdefault and |=, and update failed to report an unknown key

---
 ndg/xacml/utils/__init__.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index c6c55d4..ce7b11e 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -232,9 +232,28 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
+
+    def setdefault(self, key, *arg):
+        """@param key: key for item to set if not already set
+        @type key: any
+        @param arg: optional default value
+        @type arg: tuple
+        """
+        if key not in self.__keyNames:
+            raise KeyError('Key name %r not recognised.  Valid key names '
+                           'are: %r' % (key, self.__keyNames))
+
+        return dict.setdefault(self, key, *arg)
+
+    def __ior__(self, d):
+        """@param d: dictionary to update from
+        @type d: dict
+        """
+        self.update(dict(d))
+        return self
         
 
 _isIterable = lambda obj: getattr(obj, '__iter__', False)
-- 
2.43.0


From 9cc11ec9c1759c621cc09cb8a34057af35e19f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 05/31] fix: new targets, matches and obligations had no
 namespace and element fields, new rules no description

---
 ndg/xacml/core/match.py      | 1 +
 ndg/xacml/core/obligation.py | 1 +
 ndg/xacml/core/rule.py       | 1 +
 ndg/xacml/core/target.py     | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index de267f2..d215a54 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -73,6 +73,7 @@ class MatchBase(XacmlCoreBase):
         """Initial attributes corresponding to the equivalent XACML schema type
         and also create a function map to map functions from MatchIds
         """
+        super(MatchBase, self).__init__()
         self.__attributeValue = None
          
         # Either/or in schema
diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..796ebb6 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -166,6 +166,7 @@ class Obligation(XacmlCoreBase):
     
     def __init__(self):
         """Initialise attributes"""
+        super(Obligation, self).__init__()
         self.__attributeAssignments = TypedList(AttributeAssignment)
         self.__obligationId = None
         self.__fulfillOn = None
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..9c1687e 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -225,6 +225,7 @@ class Rule(XacmlCoreBase):
         self.__effect = None
         self.__target = None
         self.__condition = None
+        self.__description = None
         
     @property
     def target(self):
diff --git a/ndg/xacml/core/target.py b/ndg/xacml/core/target.py
index 30d962a..dbc9205 100644
--- a/ndg/xacml/core/target.py
+++ b/ndg/xacml/core/target.py
@@ -62,6 +62,7 @@ class Target(XacmlCoreBase):
     
     def __init__(self):
         """Initial attributes"""
+        super(Target, self).__init__()
         self.__subjects = TypedList(Subject)
         self.__resources = TypedList(Resource)
         self.__actions = TypedList(Action)
-- 
2.43.0


From b08185179c87157ea88fd7adcba13225bb429b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 06/31] fix: assigning an unsupported function or combining
 algorithm id raised but kept the new id with the old function

---
 ndg/xacml/core/apply.py     | 8 +++++++-
 ndg/xacml/core/match.py     | 8 +++++++-
 ndg/xacml/core/policy.py    | 8 +++++++-
 ndg/xacml/core/policyset.py | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/core/apply.py b/ndg/xacml/core/apply.py
index b43637b..7ee2673 100644
--- a/ndg/xacml/core/apply.py
+++ b/ndg/xacml/core/apply.py
@@ -98,11 +98,17 @@ class Apply(Expression):
             raise TypeError('Expecting %r type for "functionId" '
                             'attribute; got %r' % (str, type(value)))
             
+        previous = self.__functionId
         self.__functionId = value
         
         # Also retrieve function for this function ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Don't leave an ID which doesn't correspond to the function
+                self.__functionId = previous
+                raise
 
     functionId = property(_get_functionId, _set_functionId, None, 
                           "Apply type Function ID") 
diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index d215a54..f7c6379 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -177,11 +177,17 @@ class MatchBase(XacmlCoreBase):
             raise TypeError('Expecting string type for "matchId" '
                             'attribute; got %r' % type(value))
             
+        previous = self.__matchId
         self.__matchId = value
         
         # Also retrieve function for this match ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Don't leave an ID which doesn't correspond to the function
+                self.__matchId = previous
+                raise
 
     matchId = property(_getMatchId, _setMatchId, None, 
                        "Match identifier for match function")
diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index caaf380..ee041cd 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -255,8 +255,14 @@ class Policy(PolicyBase):
             raise TypeError('Expecting string type for "ruleCombiningAlgId" '
                             'attribute; got %r' % type(value))
             
+        previous = self.__ruleCombiningAlgId
         self.__ruleCombiningAlgId = value
-        self._setRuleCombiningAlgFromId()
+        try:
+            self._setRuleCombiningAlgFromId()
+        except Exception:
+            # Don't leave an ID which doesn't correspond to the algorithm
+            self.__ruleCombiningAlgId = previous
+            raise
         
     def _setRuleCombiningAlgFromId(self):
         """Set the rule combining algorithm implementation from the Id set in
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..a08ad56 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -246,8 +246,14 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting string type for "policyCombiningAlgId" '
                             'attribute; got %r' % type(value))
 
+        previous = self.__policyCombiningAlgId
         self.__policyCombiningAlgId = value
-        self._setPolicyCombiningAlgFromId()
+        try:
+            self._setPolicyCombiningAlgFromId()
+        except Exception:
+            # Don't leave an ID which doesn't correspond to the algorithm
+            self.__policyCombiningAlgId = previous
+            raise
 
     def _setPolicyCombiningAlgFromId(self):
         """Set the policy combining algorithm implementation from the Id set in
-- 
2.43.0


From 72fca85842fcba13a68cd27676c96a4a5f3202f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 07/31] fix: assigning the value of a shared decision or effect
 constant changed it for the whole process

---
 ndg/xacml/core/context/result.py | 11 +++++++----
 ndg/xacml/core/rule.py           |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..4d8737c 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,7 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -368,7 +368,10 @@ class Decision(object):
         """
         return self.__value
     
-    value = property(fget=_getValue, fset=_setValue, doc="Decision value")
+    # Look the setter up on the instance so that derived types may override it
+    value = property(fget=_getValue, 
+                     fset=lambda self, value: self._setValue(value), 
+                     doc="Decision value")
     
     def __str__(self):
         """represent decision as a string
@@ -404,7 +407,7 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' % type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
@@ -421,7 +424,7 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 9c1687e..bdf7968 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,7 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -101,7 +101,10 @@ class Effect(object):
         """
         return self.__value
     
-    value = property(fget=_getValue, fset=_setValue, doc="Effect value")
+    # Look the setter up on the instance so that derived types may override it
+    value = property(fget=_getValue, 
+                     fset=lambda self, value: self._setValue(value), 
+                     doc="Effect value")
     
     def __str__(self):
         """represent decision as a string
@@ -129,7 +132,7 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 0adfca1b73350c01a55d53831315c81cd4aff47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 08/31] fix: pickling a subject lost its category and pickling
 a status or status code lost everything

---
 ndg/xacml/core/context/result.py  | 34 ++++++++++++++++++++++++++++++-
 ndg/xacml/core/context/subject.py | 19 ++++++++++++++++-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 4d8737c..55e89ca 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -110,7 +110,23 @@ class StatusCode(XacmlContextBase):
         self.__value = value
 
     value = property(fget=_getValue, fset=_setValue, doc="Status code value")
-    
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(StatusCode, self).__getstate__()
+        for attrName in StatusCode.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_StatusCode" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
+            
+        return _dict
 
 class Status(XacmlContextBase): 
     '''XACML Response Result Status
@@ -237,7 +253,23 @@ class Status(XacmlContextBase):
     statusDetail = property(fget=_getStatusDetail,
                             fset=_setStatusDetail,
                             doc="status message")
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(Status, self).__getstate__()
+        for attrName in Status.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_Status" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
             
+        return _dict
 
 class Decision(object):
     """Define decision types for Response Result
diff --git a/ndg/xacml/core/context/subject.py b/ndg/xacml/core/context/subject.py
index 8f321e2..a17e4d5 100644
--- a/ndg/xacml/core/context/subject.py
+++ b/ndg/xacml/core/context/subject.py
@@ -56,4 +56,21 @@ class Subject(RequestChildBase):
         self.__subjectCategory = value   
 
     subjectCategory = property(_get_subjectCategory, _set_subjectCategory, None, 
-                               "Subject category")
\ No newline at end of file
+                               "Subject category")
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(Subject, self).__getstate__()
+        for attrName in Subject.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_Subject" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
+            
+        return _dict
-- 
2.43.0


From 3868150eee569d00c5b79ff4fb54629d4ed86437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 09/31] fix: attributes and attribute values could not be
 pickled and restored

---
 ndg/xacml/core/__init__.py       | 9 +++++++++
 ndg/xacml/core/attribute.py      | 2 +-
 ndg/xacml/core/attributevalue.py | 6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/__init__.py b/ndg/xacml/core/__init__.py
index 5726142..f87cac6 100644
--- a/ndg/xacml/core/__init__.py
+++ b/ndg/xacml/core/__init__.py
@@ -118,6 +118,15 @@ class XacmlCoreBase(object):
             _dict[attrName] = getattr(self, attrName)
             
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Enable unpickling of attributes held in slots
+        
+        @param attrDict: object's attribute dictionary
+        @type attrDict: dict
+        '''
+        for attrName, val in list(attrDict.items()):
+            setattr(self, attrName, val)
             
 
 class XacmlPolicyBase(XacmlCoreBase):
diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 936c531..7fe1eb3 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -146,7 +146,7 @@ class Attribute(XacmlCoreBase):
         @return: class instance attributes dictionary
         @rtype: dict
         '''
-        _dict = {}
+        _dict = super(Attribute, self).__getstate__()
         for attrName in Attribute.__slots__:
             # Ugly hack to allow for derived classes setting private member
             # variables
diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 81b6dd5..f17691b 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -279,10 +279,14 @@ class AttributeValueClassFactory(object):
         _identifier = AttributeValue.TYPE_URI_MAP[_typeName]
     
         _className = _typeName + AttributeValue.CLASS_NAME_SUFFIX               
-        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier}
+        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier,
+                      '__module__': __name__}
         
         _attributeValueClass = type(_className, (AttributeValue, ), _classVars)
         AttributeValue.register(_attributeValueClass)
+        
+        # Pickling needs to find the class in its module by name
+        globals()[_className] = _attributeValueClass
         IDENTIFIER2CLASS_MAP[_identifier] = _attributeValueClass
     
     del _typeName, _type, _identifier, _className, _classVars, \
-- 
2.43.0


From 789729eea0088df9acafdf917e11aeb2e4a9e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 10/31] fix: typed lists with items could not be unpickled

---
 ndg/xacml/utils/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index ce7b11e..16d4c32 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -197,6 +197,10 @@ class TypedList(list):
 
         return super(TypedList, self).__setitem__(index, item)
 
+    def __reduce__(self):
+        """Enable unpickling: the type must be set before items are added"""
+        return self.__class__, (self.__elementType, list(self))
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 7eaa56123d5e7ac06c1920f373bea495754d5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 11/31] fix: loading an object by name left the module file
 path in the search path

---
 ndg/xacml/utils/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index 86572d7..3f0159b 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -102,7 +102,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
                                   moduleFilePath)
                           
                 # Temporarily extend system path ready for import
-                sysPathBak = sys.path
+                sysPathBak = sys.path[:]
                           
                 sys.path.append(moduleFilePath)
 
@@ -115,8 +115,8 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # revert back to original sys path, if necessary
             # NB, python requires the use of a try/finally OR a try/except 
             # block - not both combined
-            if sysPathBak:
-                sys.path = sysPathBak
+            if sysPathBak is not None:
+                sys.path[:] = sysPathBak
                             
     except Exception as e:
         log.debug('%r module import raised %r type exception: %s', 
-- 
2.43.0


From 4b389cce17b0e72b42c349108b638e37218bdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 12/31] fix: pretty printing left changes in the global
 namespace table when it failed

---
 ndg/xacml/utils/etree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 2401f81..1859246 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -64,10 +64,11 @@ def prettyPrint(*arg, **kw):
         mappedPrefixes = {}
 
     _prettyPrint = _PrettyPrint(declaredNss, mappedPrefixes)
-    result = _prettyPrint(*arg, **kw)
-
-    if not Config.use_lxml:
-        ElementTree._namespace_map = namespace_map_backup
+    try:
+        result = _prettyPrint(*arg, **kw)
+    finally:
+        if not Config.use_lxml:
+            ElementTree._namespace_map = namespace_map_backup
 
     return result
 
-- 
2.43.0


From 77a5b129c9e6a31ef7ca0f62b381a52c16cdad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 13/31] fix: parsers swapped the global XML namespace table,
 losing prefixes registered while they lived

---
 ndg/xacml/parsers/etree/reader.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/ndg/xacml/parsers/etree/reader.py b/ndg/xacml/parsers/etree/reader.py
index c2e7c80..6110dbf 100644
--- a/ndg/xacml/parsers/etree/reader.py
+++ b/ndg/xacml/parsers/etree/reader.py
@@ -12,10 +12,9 @@ __revision__ = "$Id$"
 import logging
 log = logging.getLogger(__name__)
 
-from ndg.xacml import Config, importElementTree
+from ndg.xacml import importElementTree
 ElementTree = importElementTree()
 
-from ndg.xacml.core import XacmlPolicyBase
 from ndg.xacml.parsers import AbstractReader
 
 
@@ -27,7 +26,7 @@ class ETreeAbstractReader(AbstractReader):
     TYPE = None
     
     def __init__(self):
-        """Initialise ElementTree namespace map for XACML 2.0 namespaces
+        """Check a derived class has set the type to instantiate
         
         @raise NotImplementedError: TYPE class variable must be set in a 
         derived class
@@ -35,15 +34,6 @@ class ETreeAbstractReader(AbstractReader):
         if self.__class__.TYPE is None:
             raise NotImplementedError('No "TYPE" class variable set to specify '
                                       'the XACML type to instantiate')
-            
-        if not Config.use_lxml:
-            self.__namespace_map_backup = ElementTree._namespace_map.copy()
-            ElementTree._namespace_map[''] = XacmlPolicyBase.XACML_2_0_POLICY_NS
-        
-    def __del__(self):
-        """Restore original global namespace map"""
-        if not Config.use_lxml:
-            ElementTree._namespace_map = self.__namespace_map_backup
     
     @staticmethod
     def _parse(obj):
-- 
2.43.0


From 8415ea190a0b267520ba4e210af9cfe2f8b6e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 14/31] fix: policies with environment matches or environment
 attribute designators could not be parsed

---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 29 +++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..e521f34
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "19/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
\ No newline at end of file
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..40290e2
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,29 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+        
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this 
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
+    
-- 
2.43.0


From cd391508a937f22bf9f716fd0b038314bba509e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 15/31] fix: unknown elements in conditions, matches and
 function applications failed with internal errors

---
 ndg/xacml/parsers/etree/applyreader.py     | 6 ------
 ndg/xacml/parsers/etree/conditionreader.py | 7 ++++---
 ndg/xacml/parsers/etree/matchreader.py     | 2 +-
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/parsers/etree/applyreader.py b/ndg/xacml/parsers/etree/applyreader.py
index fb273a9..bc3d02c 100644
--- a/ndg/xacml/parsers/etree/applyreader.py
+++ b/ndg/xacml/parsers/etree/applyreader.py
@@ -14,7 +14,6 @@ log = logging.getLogger(__name__)
 
 from ndg.xacml.core.apply import Apply
 from ndg.xacml.core.attributevalue import AttributeValue
-from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.variablereference import VariableReference
 from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.core.attributedesignator import (SubjectAttributeDesignator,
@@ -132,11 +131,6 @@ class ApplyReader(ETreeAbstractReader):
                                         AttributeSelectorReader.parse(subElem,
                                                                       common))
             
-            elif localName == Condition.ELEMENT_LOCAL_NAME:
-                ConditionReader = ReaderFactory.getReader(Condition)
-                applyObj.expressions.append(ConditionReader.parse(subElem,
-                                                                  common))
-                
             elif localName == self.__class__.FUNCTION_ELEMENT_LOCAL_NAME:
                 raise NotImplementedError('%r Apply sub-element not '
                                           'implemented', localName)
diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 1692223..e430d2e 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -61,9 +61,10 @@ class ConditionReader(ETreeAbstractReader):
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
             condition.expression = ApplyReader.parse(subElem, common)
         else:
-            raise XMLParseError('Expecting %r Condition sub-element not '
-                                'recognised' %
-                                xacmlType.EXPRESSION_ELEMENT_LOCAL_NAME)
+            raise XMLParseError('Condition sub-element %r not recognised; '
+                                'expecting %r' %
+                                (subElemlocalName,
+                                 xacmlType.APPLY_ELEMENT_LOCAL_NAME))
             
         
    
diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..f1ee494 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -116,7 +116,7 @@ class MatchReaderBase(ETreeAbstractReader):
             else:
                 raise XMLParseError("XACML %r child element name %r not "
                                     "recognised" % 
-                                    (xacmlType.MATCH_TYPE.ELEMENT_LOCAL_NAME,
+                                    (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
                     
         return match
-- 
2.43.0


From 4c702961b139ebdd27fce316105fa931c093eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 16/31] fix: variable definitions failed with an import error
 instead of not being implemented

---
 ndg/xacml/parsers/etree/policyreader.py    | 6 ++----
 ndg/xacml/parsers/etree/policysetreader.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..f66c789 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -123,10 +123,8 @@ class PolicyReader(ETreeAbstractReader):
                 raise NotImplementedError()
             
             elif localName == VariableDefinition.ELEMENT_LOCAL_NAME:
-                VariableDefinitionReader = ReaderFactory.getReader(
-                                                            VariableDefinition)
-                variableDefinition = VariableDefinitionReader.parse(childElem,
-                                                                    common)
+                raise NotImplementedError('Parsing for VariableDefinition '
+                                          'element is not implemented')
                 
             elif localName == Rule.ELEMENT_LOCAL_NAME:
                 RuleReader = ReaderFactory.getReader(Rule)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..e3f77c2 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -111,10 +111,8 @@ class PolicySetReader(ETreeAbstractReader):
                 raise NotImplementedError()
 
             elif localName == VariableDefinition.ELEMENT_LOCAL_NAME:
-                VariableDefinitionReader = ReaderFactory.getReader(
-                                                            VariableDefinition)
-                variableDefinition = VariableDefinitionReader.parse(childElem,
-                                                                    common)
+                raise NotImplementedError('Parsing for VariableDefinition '
+                                          'element is not implemented')
 
             elif localName == Policy.ELEMENT_LOCAL_NAME:
                 PolicyReader = ReaderFactory.getReader(Policy)
-- 
2.43.0


From 009d7fb633258fa4f7a21e4a71105d98d3bbe699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 17/31] fix: of repeated targets, conditions, descriptions,
 defaults and match operands only the last was kept

---
 ndg/xacml/parsers/etree/matchreader.py     | 6 ++++++
 ndg/xacml/parsers/etree/policyreader.py    | 9 +++++++++
 ndg/xacml/parsers/etree/policysetreader.py | 6 ++++++
 ndg/xacml/parsers/etree/rulereader.py      | 9 +++++++++
 4 files changed, 30 insertions(+)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index f1ee494..ade2d2d 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -97,6 +97,9 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                if match.attributeDesignator is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 match.attributeDesignator = attributeDesignatorReaderType.parse(
                                                             childElem, common)
                         
@@ -108,6 +111,9 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                if match.attributeSelector is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 AttributeSelectorReader = ReaderFactory.getReader(
                                                             AttributeSelector)
                 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index f66c789..aea3110 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -104,15 +104,24 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                if policy.description is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 if childElem.text is not None:
                     policy.description = childElem.text.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
+                if policy.policyDefaults is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
                 policy.policyDefaults = PolicyDefaultsReader.parse(childElem,
                                                                    common)
                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policy.target is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policy.target = TargetReader.parse(childElem, common)
              
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index e3f77c2..e980f02 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -88,6 +88,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                if policySet.description is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 if childElem.text is not None:
                     policySet.description = childElem.text.strip()
 
@@ -97,6 +100,9 @@ class PolicySetReader(ETreeAbstractReader):
                                                                       common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policySet.target is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policySet.target = TargetReader.parse(childElem, common)
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..eeddc51 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -66,14 +66,23 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                if rule.description is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 if childElem.text is not None:
                     rule.description = childElem.text.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
+                if rule.condition is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 ConditionReader = ReaderFactory.getReader(Condition)
                 rule.condition = ConditionReader.parse(childElem, common)
                                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if rule.target is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 rule.target = TargetReader.parse(childElem, common)
             
-- 
2.43.0


From 5d3185ea970491eda5af69bed3c9f58ca4a577ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 18/31] fix: policy sets with a PolicySetDefaults element could
 not be parsed

---
 ndg/xacml/core/policydefaults.py                | 1 +
 ndg/xacml/parsers/etree/policydefaultsreader.py | 3 ++-
 ndg/xacml/parsers/etree/policysetreader.py      | 7 +++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/policydefaults.py b/ndg/xacml/core/policydefaults.py
index 19f33a2..b18eaa6 100644
--- a/ndg/xacml/core/policydefaults.py
+++ b/ndg/xacml/core/policydefaults.py
@@ -23,6 +23,7 @@ class PolicyDefaults(XacmlCoreBase):
     @ivar __xpathVersion: XPath version
     @type __xpathVersion: basestring / NoneType
     """
+    POLICY_SET_ELEMENT_LOCAL_NAME = 'PolicySetDefaults'
     ELEMENT_LOCAL_NAME = 'PolicyDefaults'
     XPATH_VERSION_ELEMENT_NAME = 'XPathVersion'
     
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..a52c8ac 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -40,7 +40,8 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         policyDefaults = xacmlType()
         
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             xacmlType.POLICY_SET_ELEMENT_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index e980f02..772472f 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -95,9 +95,12 @@ class PolicySetReader(ETreeAbstractReader):
                     policySet.description = childElem.text.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
+                if policySet.policySetDefaults is not None:
+                    raise XMLParseError('Duplicate %r element found' % localName)
+
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
-                                                                      common)
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(
+                                                            childElem, common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
                 if policySet.target is not None:
-- 
2.43.0


From d00d20fb571dd0a0341891de2923ee11645d11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 19/31] fix: comments in policy defaults made parsing fail

---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index a52c8ac..7897d34 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -45,17 +45,18 @@ class PolicyDefaultsReader(ETreeAbstractReader):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) != 
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = childElems[0].text 
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
-- 
2.43.0


From e4bd8bc5cd4cbc252a23b1ba7812b5fe155dac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 20/31] fix: PolicySet.fromSource always failed for want of a
 policy finder

---
 ndg/xacml/parsers/etree/policysetreader.py | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 772472f..061ffcc 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -43,6 +43,21 @@ class PolicySetReader(ETreeAbstractReader):
 
         return self.processElement(elem, common)
 
+    @classmethod
+    def parse(cls, obj, common=None):
+        """Parse from input object and return new XACML object.
+        As a special case, allow the common parameter to be omitted. This allows
+        a single policy set without references to be read with no policy finder
+        specified.
+        @param obj: input source - file name, stream object or other
+        @type obj: string, stream or other
+        @param common: parsing common data
+        @type common: from ndg.xacml.parsers.common.Common
+        @return: new XACML object
+        @rtype: XacmlCoreBase sub type
+        """
+        return super(ETreeAbstractReader, cls).parse(obj, common)
+
     def processElement(self, elem, common):
         """Parse policy set object
 
@@ -152,7 +167,9 @@ class PolicySetReader(ETreeAbstractReader):
                                     "recognised" % localName)
 
         # Record reference in case of references to this policy set.
-        common.policyFinder.addPolicySetReference(policySet)
+        # As with policies, a single policy set may be read without a finder.
+        if common is not None and hasattr(common, 'policyFinder'):
+            common.policyFinder.addPolicySetReference(policySet)
 
         return policySet
 
@@ -165,6 +182,7 @@ class PolicySetReader(ETreeAbstractReader):
         @return: policy
         @rtype: ndg.xacml.core.policy.Policy derived type
         """
+        self._checkPolicyFinder(common, policyIdReference)
         return common.policyFinder.findPolicy(policyIdReference, common)
 
     def _getReferencedPolicySet(self, common, policySetIdReference):
@@ -176,4 +194,18 @@ class PolicySetReader(ETreeAbstractReader):
         @return: policy set
         @rtype: ndg.xacml.core.policy.PolicySet derived type
         """
+        self._checkPolicyFinder(common, policySetIdReference)
         return common.policyFinder.findPolicySet(policySetIdReference, common)
+
+    @staticmethod
+    def _checkPolicyFinder(common, reference):
+        """Check that there is a finder to resolve references with.
+        @param common: parsing common data
+        @type common: from ndg.xacml.parsers.common.Common / NoneType
+        @param reference: policy or policy set ID
+        @type reference: str
+        @raise XMLParseError: no finder available
+        """
+        if common is None or not hasattr(common, 'policyFinder'):
+            raise XMLParseError('No policy finder set to resolve the '
+                                'reference %r' % reference)
-- 
2.43.0


From df2d2f44dd778140644802be01396609c3db2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 21/31] fix: references relative to a relative base path or one
 with special characters went to the wrong file URL

---
 ndg/xacml/finder/urlpolicyfinder.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 72b8bad..5037e22 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 import os
+from urllib.request import pathname2url
 
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
@@ -121,10 +122,10 @@ class UrlPolicyFinder(PolicyFinderBase):
             if path.startswith(self._RELATIVE_PATH_PREFIX):
                 # Relative path - convert to absolute.
                 path = path[len(self._RELATIVE_PATH_PREFIX):]
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + self._joinToBasePath(path)
             elif not path.startswith(os.path.sep):
                 # Relative path - convert to absolute.
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + self._joinToBasePath(path)
             else:
                 url = reference
         elif [True for scheme in self._NON_FILE_SCHEMES
@@ -135,6 +136,17 @@ class UrlPolicyFinder(PolicyFinderBase):
             if reference.startswith(os.path.sep):
                 url = self._DEFAULT_SCHEME + reference
             else:
-                url = (self._DEFAULT_SCHEME +
-                       os.path.join(self.basePath, reference))
+                url = self._DEFAULT_SCHEME + self._joinToBasePath(reference)
         return url
+
+    def _joinToBasePath(self, path):
+        """
+        Makes the path part of a file URL from a path relative to the base path,
+        which is a file system path: it may be relative to the current directory
+        and contain characters that have a meaning in URLs.
+        @param path: relative path
+        @type path: str
+        @return: path part of URL
+        @rtype: str
+        """
+        return os.path.join(pathname2url(os.path.abspath(self.basePath)), path)
-- 
2.43.0


From 7bef083dd5127f2f3810b0c81fdf3e1fcb3d4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 22/31] fix: the default policy finder failed for sources that
 are no file names

---
 ndg/xacml/finder/defaultfinder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..0590132 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -30,8 +30,9 @@ def getDefaultPolicyFinder(source):
     if isinstance(source, str):
         if os.path.exists(source):
             basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+    else:
+        name = getattr(source, 'name', None)
+        if isinstance(name, str) and os.path.exists(name):
+            basePath = os.path.dirname(name)
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 3de15ef02a13a373d54d4ba1396db99ffd4d02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:23 +0000
Subject: [PATCH 23/31] fix: relative references without a base path failed
 with a TypeError instead of a parse error

---
 ndg/xacml/finder/urlpolicyfinder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 5037e22..38874f5 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -148,5 +148,9 @@ class UrlPolicyFinder(PolicyFinderBase):
         @type path: str
         @return: path part of URL
         @rtype: str
+        @raise XMLParseError: no base path set
         """
+        if self.basePath is None:
+            raise XMLParseError('No base path to resolve the reference %r' %
+                                path)
         return os.path.join(pathname2url(os.path.abspath(self.basePath)), path)
-- 
2.43.0


From 28339a8b523641216daad9f8d21ec3eb021cac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 24/31] fix: results with a resource id could not be converted
 to XML

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..9419d18 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -512,7 +512,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 8dbfdc04de69a0f3808ddd559784ab7b57666c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 25/31] fix: context attributes could not be read with the
 standard ElementTree

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 9419d18..a4d4562 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(list(getElementChildren(elem))) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From 8041e7016d5e5970063271837294a0e8b19269f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 26/31] fix: converting a subject to XML lost its category

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index a4d4562..5d25a42 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From 5231a6747edba0941ba4db26341365b32e2a0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 27/31] fix: elements written with lxml got an XML attribute in
 place of their namespace prefix

---
 ndg/xacml/parsers/etree/__init__.py | 2 +-
 ndg/xacml/parsers/etree/context.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..a0644b7 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -26,7 +26,7 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, {ns_prefix: ns_uri}, **extra)
         return elem
 
     def serialiseIfElementTree(obj):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 5d25a42..75df709 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -387,7 +387,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From 7607e8cac4742d7c19b00d2cb6d6a9c79bfc4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 28/31] fix: unknown elements in request subjects, resources,
 actions and environments were ignored

---
 ndg/xacml/parsers/etree/context.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 75df709..84cd885 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -176,6 +176,9 @@ class SubjectElementTree(Subject):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 subject.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Subject child element name %r"
+                                    " not recognised" % localName)
         return subject
 
 class ResourceElementTree(Resource):
@@ -243,6 +246,9 @@ class ResourceElementTree(Resource):
             elif localName == cls.RESOURCE_CONTENT_ELEMENT_LOCAL_NAME:
                 ### TODO Store resource content as subtree.
                 resource.resourceContent = childElem
+            else:
+                raise XMLParseError("XACML context Resource child element name %r"
+                                    " not recognised" % localName)
         return resource
 
 class ActionElementTree(Action):
@@ -296,6 +302,9 @@ class ActionElementTree(Action):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 action.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Action child element name %r"
+                                    " not recognised" % localName)
         return action
 
 class EnvironmentElementTree(Environment):
@@ -349,6 +358,9 @@ class EnvironmentElementTree(Environment):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 environment.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Environment child element name %r"
+                                    " not recognised" % localName)
         return environment
 
 class AttributeElementTree(Attribute):
-- 
2.43.0


From bb45b739d2b052ecb311d84142b9c09131cbd573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 29/31] fix: converting a resource to XML took its content out
 of the document it was read from

---
 ndg/xacml/parsers/etree/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 84cd885..c8c91a7 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -212,7 +213,8 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # Copy as appending an element may take it out of its document.
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From 2ddad3f6d768edf01aabda4a3d145dbfe73431ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 30/31] fix: of repeated actions, environments, resource
 contents and decisions only the last was read, and results without decision

---
 ndg/xacml/parsers/etree/context.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index c8c91a7..c091788 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -109,9 +109,15 @@ class RequestElementTree(Request):
                 request.resources.append(resource)
 
             elif localName == Action.ELEMENT_LOCAL_NAME:
+                if request.action is not None:
+                    raise XMLParseError("More than one %r element found" %
+                                        localName)
                 request.action = ActionElementTree.fromXML(childElem)
 
             elif localName == Environment.ELEMENT_LOCAL_NAME:
+                if request.environment is not None:
+                    raise XMLParseError("More than one %r element found" %
+                                        localName)
                 request.environment = EnvironmentElementTree.fromXML(childElem)
 
             else:
@@ -246,6 +252,9 @@ class ResourceElementTree(Resource):
                 attribute = AttributeElementTree.fromXML(childElem)
                 resource.attributes.append(attribute)
             elif localName == cls.RESOURCE_CONTENT_ELEMENT_LOCAL_NAME:
+                if resource.resourceContent is not None:
+                    raise XMLParseError("More than one %r element found" %
+                                        localName)
                 ### TODO Store resource content as subtree.
                 resource.resourceContent = childElem
             else:
@@ -567,6 +576,9 @@ class ResultElementTree(Result):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Decision.ELEMENT_LOCAL_NAME:
+                if result.decision is not None:
+                    raise XMLParseError("More than one %r element found" %
+                                        localName)
                 decision = DecisionElementTree.fromXML(childElem)
                 result.decision = decision
             else:
@@ -575,6 +587,10 @@ class ResultElementTree(Result):
 
             ### TODO Handle status and obligations
 
+        if result.decision is None:
+            raise XMLParseError('No "%s" element found' %
+                                Decision.ELEMENT_LOCAL_NAME)
+
         return result
 
 class DecisionElementTree(Decision):
-- 
2.43.0


From 41465d676461a1394950be8dbb8f49fbc490d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 31/31] fix: empty attribute values in a request were read as
 no value

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index c091788..1b80175 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -450,7 +450,7 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                attributeValue = AttributeValueClass(childElem.text or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


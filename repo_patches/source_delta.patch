From 07f25ed5466d7c78f8125cbc82fde05409d417b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 01/29] fix: an implication is not always true: only its last
 operand counts positively

---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 425d9da148ef05330045a740f47eb94aeb380ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 02/29] fix: an implication simplifies to true only if an
 antecedent is false

---
 pylogics_modalities/syntax/base.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..b324089 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -535,13 +535,9 @@ class _MetaImpliesOp(_MetaOp):
 
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
-        new_operands = []
-        for operand in operands:
-            if operand == false:
-                # ex falso sequitur quodlibet
-                new_operands.append(~false)
-                return new_operands
-            new_operands.append(operand)
+        if false in operands[:-1]:
+            # ex falso sequitur quodlibet
+            return [~false]
         return operands
 
 
-- 
2.43.0


From cf9ab3e0d63b7d0892802c0b262b09a14f6a1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 03/29] fix: equal operands of an equivalence cancel out in
 pairs

---
 docs/parsing.md                    |  2 +-
 pylogics_modalities/syntax/base.py | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/docs/parsing.md b/docs/parsing.md
index 48664c4..aeb911b 100644
--- a/docs/parsing.md
+++ b/docs/parsing.md
@@ -64,7 +64,7 @@ parse_pl("a & b")
 parse_pl("a | b")
 parse_pl("a >> b")
 parse_pl("a <-> b")
-parse_pl("a <-> a")       # returns a
+parse_pl("a <-> a")       # returns true
 parse_pl("!(a)")
 parse_pl("true | false")  # returns true
 parse_pl("true & false")  # returns false
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b324089..48f356a 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -571,13 +571,18 @@ class _MetaEquivalenceOp(_MetaOp):
     @staticmethod
     def _simplify_operands(*operands):
         """Simplify operands."""
-        no_duplicate_operands = dict.fromkeys(operands)
-        operands = list(no_duplicate_operands)
-        if len(operands) == 0:
-            return []
-        if len(operands) == 1:
-            return [operands[0]]
-        return operands
+        if len(operands) <= 1:
+            return list(operands)
+        # 'phi <-> phi' is true, hence equal operands cancel out in pairs.
+        odd_operands: Dict[Formula, None] = {}
+        for operand in operands:
+            if operand in odd_operands:
+                del odd_operands[operand]
+            else:
+                odd_operands[operand] = None
+        if len(odd_operands) == 0:
+            return [make_boolean(True, logic=operands[0].logic)]
+        return list(odd_operands)
 
 
 class Equivalence(_CommutativeBinaryOp, metaclass=_MetaEquivalenceOp):
-- 
2.43.0


From 0ef1cf9d6f8713306af1591faf390ffe832a3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 04/29] fix: formulae can be copied and pickled

---
 pylogics_modalities/helpers/cache_hash.py | 6 ++++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..637ddcf 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,10 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        # copy the state, so that the object itself is left untouched; moreover,
+        # the hash may be missing: not computed yet, or removed by a superclass.
+        d = dict(fn(self))
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 48f356a..1991ffe 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__', for copying and unpickling."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 5f64a017853189522b9bdbffe1d5474eb3863d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 05/29] fix: print the test of a regular expression with the
 mark on the right, as it is parsed

---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..cd94353 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -237,7 +237,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 7aeab702e7d63af35671f360cc92a2c6c713493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 06/29] fix: print the weak before and the triggers operators
 of PLTL

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index cd94353..5248bf0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,12 +186,24 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
     return " S ".join(_map_operands_to_string(formula.operands))
 
 
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Once)
 def to_string_pltl_once(formula: Once) -> str:
     """Transform a 'once' formula into string."""
-- 
2.43.0


From 1cb73fb23e565ef5a4de89617512838cc204d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 07/29] fix: 'last' holds in the last instant: it is the weak
 next of false

---
 pylogics_modalities/syntax/ltl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/ltl.py b/pylogics_modalities/syntax/ltl.py
index 4c4172e..ae1b2e8 100644
--- a/pylogics_modalities/syntax/ltl.py
+++ b/pylogics_modalities/syntax/ltl.py
@@ -157,4 +157,4 @@ class StrongRelease(_LTLBinaryOp):
     SYMBOL = "strong_release"
 
 
-Last = partial(Always, FalseFormula(logic=Logic.LTL))
+Last = partial(WeakNext, FalseFormula(logic=Logic.LTL))
-- 
2.43.0


From 8882115a63062f24eebb2b0f7c48dea7315f6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 08/29] fix: LDL grammar accepts the negation of a
 propositional formula in brackets

---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From ab0893e1a4ef0a4f5871d1ef544d3e33a1f4aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 09/29] fix: keywords do not split symbols of which they are a
 prefix

---
 docs/grammars.md                      | 19 +++++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  9 +++++----
 pylogics_modalities/parsers/pl.lark   |  5 +++--
 pylogics_modalities/parsers/pltl.lark |  5 +++--
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..1400f9f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,9 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+// Keywords must not be part of a word
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +119,12 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+// Keywords must not be part of a word
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -190,8 +192,9 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+// Keywords must not be part of a word
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..8eb6e60 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,12 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+// Keywords must not be part of a word
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..d068819 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,9 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+// Keywords must not be part of a word
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..5f36787 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,9 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+// Keywords must not be part of a word
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 724195918791fac55f24983da034db896c0a3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 10/29] fix: conjunctions and disjunctions refuse operands of
 different logics

---
 pylogics_modalities/syntax/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 1991ffe..3ea67e9 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -374,7 +374,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -429,15 +429,19 @@ class _MonotoneBinaryOp(_MetaOp):
         :return: None
         :raises: PylogicsError: if the check fails.
         """
-        filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
-        )
+        filtered_operands = [
+            operand
+            for operand in operands
+            if isinstance(operand, Formula)
+            and not isinstance(operand, (TrueFormula, FalseFormula))
+        ]
         if len(filtered_operands) == 0:
             return
-        logic = filtered_operands[0]
+        logic = filtered_operands[0].logic
         enforce(
             all(sub_formula.logic == logic for sub_formula in filtered_operands),
             message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
         )
 
 
-- 
2.43.0


From c98725c137a5486e4d462e32f7eb17fe6eb2d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 11/29] fix: boolean operators refuse operands that are not
 formulae also when they simplify

---
 pylogics_modalities/syntax/base.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 3ea67e9..e4826c0 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -121,6 +121,15 @@ class _MetaOp(_HashConsing):
         cls._check_not_forbidden_formalism(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
+    @staticmethod
+    def _check_operands_are_formulae(*operands):
+        """Check that every operand is a formula."""
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+
     def _check_not_forbidden_formalism(cls, *operands):
         """Check operands belong to same formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
@@ -374,6 +383,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
+        cls._check_operands_are_formulae(*args)
         cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
@@ -429,12 +439,9 @@ class _MonotoneBinaryOp(_MetaOp):
         :return: None
         :raises: PylogicsError: if the check fails.
         """
-        filtered_operands = [
-            operand
-            for operand in operands
-            if isinstance(operand, Formula)
-            and not isinstance(operand, (TrueFormula, FalseFormula))
-        ]
+        filtered_operands = list(
+            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
+        )
         if len(filtered_operands) == 0:
             return
         logic = filtered_operands[0].logic
@@ -525,6 +532,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_are_formulae(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -569,6 +577,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_are_formulae(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From 7848129180a7b256af9efaabdab4f8957f2fa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 12/29] fix: boolean operators refuse operands of the logics
 they forbid

---
 pylogics_modalities/syntax/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index e4826c0..23f7012 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -139,9 +139,9 @@ class _MetaOp(_HashConsing):
         if allowed is not None:
             forbidden = []
 
-        is_logic_allowed = allowed is not None and logic in allowed
+        is_logic_allowed = allowed is None or logic in allowed
         is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
+        if is_logic_forbidden or not is_logic_allowed:
             raise ValueError(
                 f"error during instantiation of class {cls.__name__}: "
                 f"found operand belonging to logic {logic}, which is forbidden"
-- 
2.43.0


From 22d579a19994b3131ae5e5c32ebc4d11f6730754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 13/29] fix: and-elimination applies to conjunctions only,
 or-introduction to disjunctions only

---
 pylogics_modalities/deduction/fol/nd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..f3477ee 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -202,11 +202,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From f268525585eb726dd77fa17ea801d9d1bfcc4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 14/29] fix: a rule that cites missing lines, or lines of the
 wrong kind, is refused

---
 pylogics_modalities/deduction/fol/nd.py | 39 +++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index f3477ee..cb18b58 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -105,6 +105,42 @@ class NaturalDeduction(AbstractDeductionSystem):
             self.rule.premise: self._check_justification_premise,
         }
 
+        # the kinds of lines each rule is applied to: a formula, a subproof
+        # that opens with a formula, or a subproof that opens with a term.
+        formula, subproof, term_subproof = Formula, NaturalDeductionProof, Term
+        self.cited_kinds = {
+            self.rule.and_e1: [formula],
+            self.rule.and_e2: [formula],
+            self.rule.and_i: [formula, formula],
+            self.rule.assumption: [],
+            self.rule.bot_e: [formula],
+            self.rule.copy: [formula],
+            self.rule.dneg_e: [formula],
+            self.rule.dneg_i: [formula],
+            self.rule.exists_e: [formula, term_subproof],
+            self.rule.exists_i: [formula],
+            self.rule.forall_e: [formula],
+            self.rule.forall_i: [term_subproof],
+            self.rule.impl_e: [formula, formula],
+            self.rule.impl_i: [subproof],
+            self.rule.MT: [formula, formula],
+            self.rule.neg_e: [formula, formula],
+            self.rule.neg_i: [subproof],
+            self.rule.or_e: [formula, subproof, subproof],
+            self.rule.or_i1: [formula],
+            self.rule.or_i2: [formula],
+            self.rule.premise: [],
+        }
+
+    @staticmethod
+    def _kind(content):
+        """Get the kind of a line, None if no rule can be applied to it."""
+        if isinstance(content, Formula):
+            return Formula
+        if isinstance(content, list) and isinstance(content[-1][1], Formula):
+            return Term if isinstance(content[0][1], Term) else NaturalDeductionProof
+        return None
+
     def proof(self, proof: list):
         """Build a proof in the natural deduction expected format."""
         return NaturalDeductionProof(proof)
@@ -123,6 +159,9 @@ class NaturalDeduction(AbstractDeductionSystem):
                 args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
+                kinds = self.cited_kinds[rule]
+                if [self._kind(arg) for arg in args[: len(kinds)]] != kinds:
+                    return False  # Lines the rule cannot be applied to
                 if self.check_justification[rule](content, *args) == False:
                     return False
             elif isinstance(content, list):
-- 
2.43.0


From 9e74bd404416545d5090e4cb272c94f6ce83ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 15/29] fix: modus tollens handles formulae that are not
 negations

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index cb18b58..e4c4f40 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -220,7 +220,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return str(~formula >> ~args[1]) == str(args[0])
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-- 
2.43.0


From b1916f0dc0eb2f7541251bc3ed2bed4c84b69f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 16/29] fix: in a subproof only the opening line can be an
 assumption

---
 pylogics_modalities/deduction/fol/nd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e4c4f40..e3328ca 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -151,11 +151,18 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        is_subproof = sound is not None
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
+                if is_subproof and rule == self.rule.premise:
+                    return False  # Premises are given outside subproofs
+                if is_subproof and rule == self.rule.assumption and not all(
+                    isinstance(line[1], Term) for line in proof[:index]
+                ):
+                    return False  # Assumptions open a subproof
                 args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
-- 
2.43.0


From 3bbfe7b3b3827c7637fbd3dd5ce7e6abe2f78adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 17/29] fix: terms are compared by what they are, not by
 identity

---
 pylogics_modalities/syntax/fol.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..8b1f69a 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -57,6 +57,14 @@ class Term(ABC):
         """Get the logic formalism."""
         return Logic.FOL
 
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return isinstance(other, Term) and str(self) == str(other)
+
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash(str(self))
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"{self.name}({', '.join([str(o) for o in self.operands])})" if 'operands' in dir(self) else f"{self.name}"
-- 
2.43.0


From f7d15aeff7f0931eea9c28fc0ad5e47f28eab5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 18/29] fix: substitution reaches nested quantifiers and
 equivalences, and captures no variable

---
 pylogics_modalities/deduction/fol/nd.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e3328ca..e87183c 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -169,8 +169,11 @@ class NaturalDeduction(AbstractDeductionSystem):
                 kinds = self.cited_kinds[rule]
                 if [self._kind(arg) for arg in args[: len(kinds)]] != kinds:
                     return False  # Lines the rule cannot be applied to
-                if self.check_justification[rule](content, *args) == False:
-                    return False
+                try:
+                    if self.check_justification[rule](content, *args) == False:
+                        return False
+                except PylogicsError:
+                    return False  # The rule cannot be applied to these formulae
             elif isinstance(content, list):
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
@@ -283,16 +286,18 @@ class NaturalDeduction(AbstractDeductionSystem):
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if isinstance(formula, Term) and formula == x:
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
-            if formula.variable == x:
+            if not self._find_term(x, formula.formula) or formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            if self._find_term(formula.variable, a):
+                raise PylogicsError(f"'{a}' would be captured by the quantifier in '{formula}'")
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From 2ce14f14916aafa80968a750bcc76fc293fb91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 19/29] fix: forall-introduction needs an arbitrary term: no
 assumptions on it, nor occurrences in the conclusion

---
 pylogics_modalities/deduction/fol/nd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e87183c..7fc99cb 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -307,8 +307,11 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
+        if not isinstance(a, (Variable, Constant)) or self._find_term(a, formula):
             return False
+        for _, line, reason in args[0]:
+            if isinstance(line, Formula) and reason[0] == self.rule.assumption:
+                return False  # The subproof depends on an assumption
         x, phi = formula.variable, formula.formula
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
-- 
2.43.0


From 3dac3bfd2bbdd0eb27d1dea609f6e06d40d36db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 20/29] fix: exists-elimination needs a fresh term also with
 respect to the existential formula

---
 pylogics_modalities/deduction/fol/nd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 7fc99cb..4d23747 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -345,6 +345,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, (Variable, Constant)) or self._find_term(a, phi):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From e6e87ce861b19e327012158d3584dd7a4e51dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 21/29] fix: predicates are compared by name and terms, not by
 identity

---
 pylogics_modalities/syntax/fol.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 8b1f69a..bef57d8 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -147,6 +147,18 @@ class Predicate(_FOL):
         """Get the operands of the predicate."""
         return self._operands
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, tuple(self.operands)))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            isinstance(other, Predicate)
+            and self.name == other.name
+            and tuple(self.operands) == tuple(other.operands)
+        )
+
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self._operands),
                 f"{self}: expected {len(self._operands)} operands, got {len(operands)}.")
-- 
2.43.0


From 2a7e8f59db370fd6343fd50c4567f4f726f266ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 22/29] fix: quantifier rules take variables as instances, and
 vacuous quantifiers

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 4d23747..2e67448 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -273,7 +273,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_diff(self, x: Formula, y: Formula):
         diffset = set()
-        if type(x) != type(y):
+        if type(x) != type(y) or (isinstance(x, (Variable, Constant)) and x != y):
             diffset = diffset | {(x, y)}
         elif 'argument' in dir(x):
             diffset = diffset | self._find_diff(x.argument, y.argument)
@@ -321,9 +321,9 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
-- 
2.43.0


From ba90fc59fe761b6d1beb891e3c3d14958dbc102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 23/29] fix: boolean operators refuse every regular expression
 among their operands

---
 pylogics_modalities/syntax/base.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 23f7012..4142d48 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -133,19 +133,19 @@ class _MetaOp(_HashConsing):
     def _check_not_forbidden_formalism(cls, *operands):
         """Check operands belong to same formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
         allowed = getattr(cls, "ALLOWED_LOGICS", None)
         forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
         if allowed is not None:
             forbidden = []
 
-        is_logic_allowed = allowed is None or logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_forbidden or not is_logic_allowed:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
-            )
+        for logic in (operand.logic for operand in operands):
+            is_logic_allowed = allowed is None or logic in allowed
+            is_logic_forbidden = forbidden is not None and logic in forbidden
+            if is_logic_forbidden or not is_logic_allowed:
+                raise ValueError(
+                    f"error during instantiation of class {cls.__name__}: "
+                    f"found operand belonging to logic {logic}, which is forbidden"
+                )
 
 
 class _BinaryOp(Formula):
@@ -385,6 +385,7 @@ class _MonotoneBinaryOp(_MetaOp):
             raise ValueError("cannot accept zero arguments")
         cls._check_operands_are_formulae(*args)
         cls._check_operands_same_logic(*args)
+        cls._check_not_forbidden_formalism(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -507,6 +508,11 @@ class Not(_UnaryOp):
         """Instantiate the object."""
         if isinstance(arg, (Not, TrueFormula, FalseFormula)):
             return ~arg
+        enforce(
+            not isinstance(arg, Formula) or arg.logic not in cls.FORBIDDEN_LOGICS,
+            "a regular expression cannot be negated",
+            ValueError,
+        )
         return super(Not, cls).__new__(cls)
 
     def __getnewargs__(self):
@@ -533,9 +539,10 @@ class _MetaImpliesOp(_MetaOp):
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
         cls._check_operands_are_formulae(*args)
-        operands = cls._simplify_operands(*args)
-        if len(operands) == 0:
+        if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
+        cls._check_not_forbidden_formalism(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
@@ -578,8 +585,9 @@ class _MetaEquivalenceOp(_MetaOp):
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
         cls._check_operands_are_formulae(*args)
-        operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
+        cls._check_not_forbidden_formalism(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
-- 
2.43.0


From e2964037b947582769364fbeaeaa37504be75593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 24/29] fix: quantifiers refuse terms as their formula,
 predicates and functions what is no term

---
 pylogics_modalities/syntax/fol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index bef57d8..946b62e 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -88,6 +88,7 @@ class Constant(Term):
 class Function(Term):
 
     def __init__(self, name: str, operands: list):
+        enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         self.name = name
         self.operands = operands
 
@@ -110,7 +111,7 @@ class _Quantifier(_BinaryOp):
         :param formula:
         """
         enforce(isinstance(variable, Variable), f"{type(self).__name__}: expected {Variable}, got {type(variable)}")
-        enforce(formula.logic == Logic.FOL, "tail formula not valid")
+        enforce(isinstance(formula, Formula) and formula.logic == Logic.FOL, "tail formula not valid")
         self._variable = variable
         self._formula = formula
         self._operands = [variable, formula]
@@ -134,6 +135,7 @@ class Predicate(_FOL):
     """Predicate formula."""
 
     def __init__(self, name: str, operands: list = []):
+        enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         self._name = name
         self._operands = operands
 
-- 
2.43.0


From 59d5fae4ca2d759826b80f50063d1614ecd81c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 25/29] fix: building a formula while the cache is reset no
 longer fails

---
 pylogics_modalities/syntax/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 4142d48..ad614ed 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -68,12 +68,12 @@ class _HashConsing(Hashable):
             PylogicsError,
         )
         instance = cast(Formula, super().__call__(*args, **kwargs))
-        cached_instance = cls._context.setdefault(instance.logic, {}).get(
-            instance, None
-        )
+        # the context may be reset meanwhile, e.g. by another thread.
+        table = cls._context.setdefault(instance.logic, {})
+        cached_instance = table.get(instance, None)
         if cached_instance is None:
             # cache the instance.
-            cls._context[instance.logic][instance] = None
+            table[instance] = None
             cached_instance = instance
         return cached_instance
 
-- 
2.43.0


From f6aec8e953235abd66ea7b7d17d206eec57705bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 26/29] fix: predicates and functions keep operands of their
 own, not the caller's list

---
 pylogics_modalities/syntax/fol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 946b62e..c39e90f 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -88,6 +88,7 @@ class Constant(Term):
 class Function(Term):
 
     def __init__(self, name: str, operands: list):
+        operands = list(operands)
         enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         self.name = name
         self.operands = operands
@@ -135,6 +136,7 @@ class Predicate(_FOL):
     """Predicate formula."""
 
     def __init__(self, name: str, operands: list = []):
+        operands = list(operands)
         enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         self._name = name
         self._operands = operands
-- 
2.43.0


From 972c645da5c9bd8a88c8208847930b6374af0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 27/29] fix: a symbol named 'false' is not taken for the
 contradiction in proofs

---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index ad614ed..a5eafa1 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -332,7 +332,7 @@ class FalseFormula(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return "false"
+        return "(false)"  # no symbol is written so
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From f6809367f363f68dd4872da5392d62327fd5ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 28/29] fix: a predicate changed with the list of operands that
 it gives

---
 pylogics_modalities/syntax/fol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index c39e90f..1dd45f6 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -149,7 +149,7 @@ class Predicate(_FOL):
     @property
     def operands(self) -> list:
         """Get the operands of the predicate."""
-        return self._operands
+        return list(self._operands)  # the predicate does not change with it
 
     def __hash__(self) -> int:
         """Compute the hash."""
-- 
2.43.0


From d49d4b419251b8c90e2bb8c036601501545c3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 29/29] fix: a function changed with the list of operands that
 it gives

---
 pylogics_modalities/syntax/fol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 1dd45f6..accf598 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -91,7 +91,12 @@ class Function(Term):
         operands = list(operands)
         enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         self.name = name
-        self.operands = operands
+        self._operands = operands
+
+    @property
+    def operands(self) -> list:
+        """Get the operands of the function."""
+        return list(self._operands)  # the function does not change with it
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
-- 
2.43.0


From ae9b2d545fb3f5140e245f5c2ee0f1e585ee3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 01/23] fix: keep DateTime hash consistent with equality

raw_content is excluded from DateTime.__eq__ but was part of the generated
hash, so equal date-times could have different hashes.
---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..8f5bef5 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -27,7 +27,7 @@ class DateTime:
     time: Time = Time(0, 0)
     tz_offset: Time | str = "UTC"
     #: The original representation of the date time before any parsing.
-    raw_content: str | None = None
+    raw_content: str | None = dataclasses.field(default=None, compare=False)
 
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
-- 
2.43.0


From 91d66906f862652df06b58eeacea9064c6816381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 02/23] fix: print the microseconds of a Time as six decimal
 places

25 microseconds printed as .00000025, a hundredth of their value.
---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 8f5bef5..05d034b 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From 7cd1197935ee07cbe76201d5396dee04bf294a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 03/23] fix: give superscript exponents an integer value
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A superscript exponent was kept as text, so that m² had no dimensionality and
could not be converted. A malformed one is now a SyntaxError.
---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..57cace6 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        exponent = int(normd)
+    except ValueError:
+        # For example a sign without digits.
+        raise SyntaxError(f"Invalid exponent '{string}'") from None
+    return graph.Number(exponent, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From a9fa503c7a6badcd9d3fef2839162ca88148cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 04/23] fix: return a Dimensionality from
 BasisUnit.dimensionality

A plain dictionary has no inverted(), so converting a basis unit itself or
asking whether it is convertible raised AttributeError.
---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From c2176067d0ac2f910fc119f23e525f1f1e36b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 05/23] fix: bracket products in the text of quotients and
 powers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m/(s kg) printed as m/s·kg and (m s)^2 as m·s^2, both of which denote another
unit. Expanded definitions and the equality of units rely on that text.
---
 pyudunits2/_expr/graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..52a3afa 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,7 +101,10 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
-        return f"{self.lhs}^{self.rhs}"
+        lhs = str(self.lhs)
+        if isinstance(self.lhs, BinaryOp):
+            lhs = f"({lhs})"
+        return f"{lhs}^{self.rhs}"
 
 
 class Multiply(BinaryOp):
@@ -111,9 +114,10 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
-        return f"{self.lhs}/{self.rhs}"
+        rhs = str(self.rhs)
+        if isinstance(self.rhs, (Multiply, Divide)):
+            rhs = f"({rhs})"
+        return f"{self.lhs}/{rhs}"
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From a6fe1955b9a49cf9535c07aea99d2124f783f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 06/23] fix: compare what unit definitions mean, not how they
 are spelled

Definitions with the same text short-circuited to equal even where their
identifiers refer to different units.
---
 pyudunits2/_unit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..159e36f 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -366,8 +366,7 @@ class Unit(UnitInterface):
             return NotImplemented
 
         assert isinstance(other, Unit)
-        # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
+        if other._expanded_expr() == self._expanded_expr():
             # Short-circuit identical definitions.
             return True
 
-- 
2.43.0


From c81c55ce0d75ce11eace3e9225d074a96fa81853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 07/23] fix: do not re-register a unit when its definition is
 resolved

Resolving a unit registered all of its names again, replacing units that had
taken over one of them (or an alias) in the meantime: what a name meant
depended on which lookups had happened before. The lazily defined unit caches
its resolved form anyway.
---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..d623f63 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From 3fcaaeffb8054dbf66a0858f6196f7fb09a3bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 08/23] fix: refuse to convert reference-date units

They are convertible to nothing, yet a Converter between days since 2000 and
days since 2001 returned the value unchanged.
---
 pyudunits2/_unit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 159e36f..41b0b34 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -189,11 +189,8 @@ class Converter:
 
         # It is also possible to simply invert the dimensionality. For example,
         # m/s is simply 1/value s/m
-        inverted_d = from_dimensionality.inverted()
-
         is_direct_conversion = from_dimensionality == to_dimensionality
-        is_inverted_conversion = inverted_d == to_dimensionality
-        if not (is_direct_conversion or is_inverted_conversion):
+        if not from_unit.is_convertible_to(to_unit):
             raise IncompatibleUnitsError(
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
-- 
2.43.0


From 0fc70db15a37dd4f9d9ddb6189182a2ee437398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 09/23] fix: ignore shifts nested in products, apply the others

A shift of an already shifted unit replaced the inner shift instead of
adding to it, a logarithm of a shifted unit dropped it, and a shift inside
of a product took the place of the other factors.
---
 pyudunits2/_expr/split.py | 32 +++++++++++++++++++++++++++++++-
 pyudunits2/_unit.py       |  9 +++++----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..7381045 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -4,10 +4,31 @@ import logging
 import typing
 
 from . import graph as unit_graph
+from .substitute import Substitute
 
 _log = logging.getLogger(__name__)
 
 
+def without_nested_shifts(node: unit_graph.Node) -> unit_graph.Node:
+    """
+    Drop each shift which is an operand of a product, quotient or power, since
+    UDUNITS2 ignores those completely (``2 (K @ 3) m`` is ``2 K m``).
+
+    """
+    if isinstance(node, unit_graph.Shift):
+        return unit_graph.Shift(without_nested_shifts(node.unit), node.shift_from)
+    if isinstance(node, unit_graph.Logarithm):
+        return unit_graph.Logarithm(
+            function=node.function, term=without_nested_shifts(node.term)
+        )
+    return _DropShifts({}).visit(node)
+
+
+class _DropShifts(Substitute):
+    def visit_Shift(self, node: unit_graph.Shift):
+        return self.visit(node.unit)
+
+
 class SplitExpr(unit_graph.Visitor):
     """
     Split the given expression into a value transformation component and
@@ -23,6 +44,15 @@ class SplitExpr(unit_graph.Visitor):
 
     def __init__(self, root_node: unit_graph.Node):
         self._root_node = root_node
+        # The nodes which terminate the expression: shifting a shifted (or a
+        # logarithmic) unit doesn't make the inner shift any less relevant.
+        self._terminating_nodes = [root_node]
+        while isinstance(root_node, (unit_graph.Shift, unit_graph.Logarithm)):
+            if isinstance(root_node, unit_graph.Shift):
+                root_node = root_node.unit
+            else:
+                root_node = root_node.term
+            self._terminating_nodes.append(root_node)
 
     if typing.TYPE_CHECKING:
 
@@ -45,7 +75,7 @@ class SplitExpr(unit_graph.Visitor):
             t1 = unit_graph.Identifier(name="value")
         # Looking at UDUNITS2, the shift is completely ignored in conversions
         # unless it is the terminating operation.
-        if node is self._root_node:
+        if any(node is terminating for terminating in self._terminating_nodes):
             return unit_graph.Shift(t1, node.shift_from), d1
         else:
             return t1, d1
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 41b0b34..eca888b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -379,9 +379,9 @@ class Unit(UnitInterface):
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            from ._expr.split import SplitExpr, without_nested_shifts
 
-            definition = self._expanded_expr()
+            definition = without_nested_shifts(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
@@ -422,9 +422,10 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
+        from ._expr.split import SplitExpr, without_nested_shifts
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
+        definition = without_nested_shifts(self._definition)
+        _, d = SplitExpr(definition).visit(definition)
         r = DimensionalityCounter().visit(d)
 
         result = {}
-- 
2.43.0


From aa09161f6c367679fc2a1a9e61cc86ec535ebc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 10/23] fix: count dimensionless basis units as one in
 conversions

Converting between radian and a plain number left the unit in the
conversion expression.
---
 pyudunits2/_unit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index eca888b..13a17a5 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -221,6 +221,12 @@ class Converter:
         else:
             convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))
 
+        # Dimensionless basis units (such as radian) don't need to cancel out
+        # for the units to be convertible. They are worth 1.
+        convert_expr = convert_expr.subs(
+            {symbol: 1 for symbol in convert_expr.free_symbols - {orig_qty}}
+        )
+
         fn = sympy.lambdify(
             orig_qty,
             convert_expr,
-- 
2.43.0


From 74d5cd15627340bdba19816b6264b5e7425ce110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 11/23] fix: form the plural of names with a y after a
 consonant

The UDUNITS-2 rule turns it into ies, such that henry can be referred to
as henries. A single letter always just takes an s.
---
 pyudunits2/_udunits2_xml_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..84d1191 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -88,7 +88,12 @@ class UDUNITS2XMLParser:
             # In the UDUNITS2 XML files, things like meters aren't defined.
             # You have to interpret a name as trivially plural iff there is
             # not a noplural tag.
-            if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
+            if len(singular_name) < 2:
+                plural_name = singular_name + "s"
+            elif singular_name.endswith("y") and singular_name[-2] not in "aeiou":
+                # For example century -> centuries.
+                plural_name = singular_name[:-1] + "ies"
+            elif singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
                 plural_name = singular_name + "es"
             else:
                 plural_name = singular_name + "s"
-- 
2.43.0


From 499b0589fd4b4342fbfe43a570a5ea92782b7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 12/23] fix: scale prefixed units by the value of the prefix

Looking up a unit which is spelled like its prefix (such as mm) referred
to the unit twice, and resulted in meter squared.
---
 pyudunits2/_unit_system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index d623f63..c2e12c7 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -231,14 +231,14 @@ class UnitSystem:
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
                         refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_name) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
+                                # By value, since a unit may be spelled the same.
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_name) :]
                                 ),
@@ -255,14 +255,14 @@ class UnitSystem:
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
                         refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_symbol) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
+                                # By value, since a unit may be spelled the same.
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_symbol) :]
                                 ),
-- 
2.43.0


From 2d95f708c57140ceb0a5a6456877dee4d6ade4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 13/23] fix: accept the empty text as the dimensionless unit
 one

It parses, but could not be turned into a unit.
---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 13a17a5..cc930ec 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -337,6 +337,9 @@ class Unit(UnitInterface):
         if isinstance(definition, NormalisedNode):
             # If it has already been normalised, pull out the definition.
             definition = definition.unit_expr
+        elif definition == unit_graph.Unhandled(""):
+            # An empty definition is dimensionless.
+            definition = unit_graph.Number(1, raw_content="")
         else:
             # If not already normalised, make sure we can normalise the
             # definition without issue, but continue to use the un-normalised
-- 
2.43.0


From e1bc67d58995f65f10d1ff156d77ef692c0a2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 14/23] fix: allow a basis unit which only has a symbol

The reference falls back to the first symbol, but the absence of a name
was not handled.
---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 84d1191..a23f6c9 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -218,7 +218,7 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = name is not None and name.singular == "second"
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index cc930ec..44cb5b0 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -565,7 +565,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = names.name.singular if names.name is not None else names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 0e1d144fa8d56e3ee397f30872a3b59093d0145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 15/23] fix: treat log as the decimal logarithm

UDUNITS-2 reads log(re ...) as lg(re ...); it was converted as ln.
---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..657adc9 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # Not documented by udunits2, but the same as lg.
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From 381afe1fbf89a7f7efd9595419a7ee5771f40c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 16/23] fix: convert arrays of integers in floating point

---
 pyudunits2/_unit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 44cb5b0..44e8df6 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -241,6 +241,10 @@ class Converter:
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
+        dtype = getattr(values, "dtype", None)
+        if getattr(dtype, "kind", None) in ("b", "i", "u"):
+            # The fixed size integers of numpy would wrap around.
+            values = values.astype(float)
         return self._converter(values)
 
 
-- 
2.43.0


From d9bb33ea9c13e12d2e675cddd3a03dd6045a8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 17/23] fix: read the tags of unit databases without a
 namespace

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index a23f6c9..8b7395b 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,7 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        _, _, tag_name = element.tag.rpartition("}")
 
         text = (element.text or "").strip()
         children = []
-- 
2.43.0


From b2423d02ec483540440f31b1d154c49869eca7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 18/23] fix: skip comments in unit databases

---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 8b7395b..1200bff 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -141,7 +141,9 @@ class UDUNITS2XMLParser:
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
         with path.open("rt") as fh:
-            tree = etree.parse(fh)
+            tree = etree.parse(
+                fh, parser=etree.XMLParser(remove_comments=True, remove_pis=True)
+            )
         root = tree.getroot()
 
         [unit_system] = root.xpath('//*[local-name()="unit-system"]')
-- 
2.43.0


From 93537be2462d519116d347369169f219d770d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 19/23] fix: raise SyntaxError for numbers which are out of
 range

---
 pyudunits2/_grammar/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 57cace6..e2338bf 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -32,6 +32,15 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(exponent, raw_content=normd)
 
 
+def handle_number(number_type, string):
+    try:
+        value = number_type(string)
+    except (ValueError, ArithmeticError):
+        # Python limits the digits of an int, and the exponent of a Decimal.
+        raise SyntaxError(f"Number out of range '{string}'") from None
+    return graph.Number(value=value, raw_content=string)
+
+
 class UnitParseVisitor(udunits2ParserVisitor):
     """
     A visitor which converts the parse tree into an abstract expression graph.
@@ -46,20 +55,18 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "DATE": str,
         "DIVIDE": "/",  # Drop context, such as " per ".
         "E_POWER": str,
-        "FLOAT": lambda c: graph.Number(
-            value=Decimal(c), raw_content=c
-        ),  # Preserve precision as decimal.
+        "FLOAT": lambda c: handle_number(Decimal, c),  # Preserve precision as decimal.
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-        "INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "INT": lambda c: handle_number(int, c),
         "LOG": lambda c: c.split("(")[0].strip(),
         "MULTIPLY": None,
         "OPEN_PAREN": None,
         "PERIOD": str,
         "RAISE": None,
         "TIMESTAMP": str,
-        "SIGNED_INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "SIGNED_INT": lambda c: handle_number(int, c),
         "SHIFT_OP": None,
         "WS": None,
         "UNICODE_EXPONENT": handle_UNICODE_EXPONENT,
-- 
2.43.0


From 74c2e434004fa6506df71d2f9258440df95311bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 20/23] fix: raise SyntaxError for units which are nested too
 deeply

---
 pyudunits2/_grammar/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index e2338bf..6945195 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -236,9 +236,12 @@ def parse(unit_str: str) -> graph.Node:
     parser.removeErrorListeners()
     parser.addErrorListener(SyntaxErrorRaiser(unit_str))
 
-    # Get the top level concept.
-    tree = parser.unit_spec()
-
-    visitor = UnitParseVisitor()
-    # Return the graph representation.
-    return visitor.visit(tree)
+    try:
+        # Get the top level concept.
+        tree = parser.unit_spec()
+
+        visitor = UnitParseVisitor()
+        # Return the graph representation.
+        return visitor.visit(tree)
+    except RecursionError:
+        raise SyntaxError("The unit is nested too deeply") from None
-- 
2.43.0


From 6c66a0139be0598e07c1c7fc746a954a862aee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 21/23] fix: give reference-date units a text

---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 44e8df6..13b42ca 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -495,6 +495,9 @@ class DateUnit(UnitInterface):
         self._unit = unit
         self._reference_date = reference_date
 
+    def __str__(self):
+        return f"{self._unit} since {self.reference_date}"
+
     def is_convertible_to(self, other: UnitInterface) -> bool:
         # TODO: We can start to do better now that we have rich dates.
         return False
-- 
2.43.0


From 95985655a1bb799f4fcef8c2b93120acb33a3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:53 +0000
Subject: [PATCH 22/23] fix: read unit databases in their declared encoding

Opening the file as text decoded it with the encoding of the locale, so that
the shipped database could not be loaded (or lost its symbols) where that is
not UTF-8, nor any database in another encoding.
---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 1200bff..2e47222 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -140,7 +140,7 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        with path.open("rb") as fh:
             tree = etree.parse(
                 fh, parser=etree.XMLParser(remove_comments=True, remove_pis=True)
             )
-- 
2.43.0


From 3fdf3fc1220457fda025d9204a3105ffdb188afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:14 +0000
Subject: [PATCH 23/23] fix: convert units whatever the name of a basis unit

A dimensionless basis unit named value (or to_value) was taken for the value
to convert.
---
 pyudunits2/_unit.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 13b42ca..79602dc 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -195,6 +195,11 @@ class Converter:
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
 
+        def without_units(expr, keep=frozenset()):
+            # The units cancel out, apart from dimensionless basis units (such
+            # as radian), which are worth 1.
+            return expr.subs({symbol: 1 for symbol in expr.free_symbols - keep})
+
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
@@ -203,6 +208,10 @@ class Converter:
         orig_qty = sympy.symbols("value")
         to_value = sympy.symbols("to_value")
 
+        # Units must not be mistaken for one of the above, whatever their name.
+        d1, d2 = without_units(d1), without_units(d2)
+        t1, t2 = without_units(t1, {orig_qty}), without_units(t2, {orig_qty})
+
         # The t1 definition is the inverse of what we express. For example, lg(re value) means
         # we must 10^value to get the base unit scale value.
         t1 = t1.subs(orig_qty, to_symbol)
@@ -221,12 +230,6 @@ class Converter:
         else:
             convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))
 
-        # Dimensionless basis units (such as radian) don't need to cancel out
-        # for the units to be convertible. They are worth 1.
-        convert_expr = convert_expr.subs(
-            {symbol: 1 for symbol in convert_expr.free_symbols - {orig_qty}}
-        )
-
         fn = sympy.lambdify(
             orig_qty,
             convert_expr,
-- 
2.43.0


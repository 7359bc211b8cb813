From 1191cf180cee66526c4fc8794680dcb851ebaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:27 +0000
Subject: [PATCH 01/27] fix: give signed INTEGER fields a C type of their
 encoded width

---
 asn1_parser/generators/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..c735540 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,7 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type in ["uint", "int"]:
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From b68b7cdbb7307f0c1366b32588c8ef7685861ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:27 +0000
Subject: [PATCH 02/27] fix: encode fields of a BOOLEAN simple definition as 1
 bit bitfields

---
 asn1_parser/generators/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index c735540..5cb7ea5 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -77,6 +77,11 @@ class Generator:
                     # TODO specify correctly (smallest uint)
                     # if not matching get something big
                     valid_c_type = "unsigned long long"
+            elif c_type == TypeEnum.A_BOOL:
+                # Same encoding as the BOOLEAN fields below
+                bit_length = " : 1"
+                valid_c_type = "uint8_t"
+                is_stdint_needed = True
         elif valid_c_type == "BOOLEAN":
             # Note: booleans are encoded as uint8_t bitfilds of 1 bit
             bit_length = " : 1"
-- 
2.43.0


From a8a0e67775028ecd1b594f3a59860a85889a3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 03/27] fix: include the header files of imported modules in
 generated C code

---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From 5514cc9bd8d1be3f890cf3338c072828b5b37e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 04/27] fix: keep the header include of a C file when a later
 type has no values

---
 asn1_parser/c_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..ccc3539 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,9 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        # prevent overriding with an empty include
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From 3791255c0088f73dfd5978fda3be0786df7d0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 05/27] fix: do not turn COSMOS booleans without a value into
 ID items

---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 98d34af3db9936c2cf81c32fd932561fbc645d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 06/27] fix: generate COSMOS items for an APID without a value

---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..ec728dc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From b0b5ba2472039776ca1d7ba26e71292af8867896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 07/27] fix: do not add inherited COSMOS component values to
 the model

---
 asn1_parser/generators/cosmos/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ec728dc..56243f4 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,8 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    # copy(): do not modify the model
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From d5d5509377e173aa7defdf6e13752dd45fbdbc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:05 +0000
Subject: [PATCH 08/27] fix: reject circular imports and recursive types
 instead of looping forever

---
 .../asn1/validation/asn1_bundle_validator.py    |  8 ++++++++
 asn1_parser/generators/cfs/module_sorter.py     | 17 +++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 97e948c..bd0cefa 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -11,6 +11,7 @@ from asn1_parser.cli.cli_arg_parser import (
     GenerateCCommandConfig,
     GenerateCFSCommandConfig,
 )
+from asn1_parser.generators.cfs.module_sorter import ModuleSorter
 from asn1_parser.utils.array import flatten
 
 
@@ -35,6 +36,13 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_bundle_for_circular_dependencies(bundle)
+
+    @staticmethod
+    def _check_bundle_for_circular_dependencies(bundle: ASN1Bundle) -> None:
+        # both sorts raise an ASN1ConsistencyError for circular dependencies
+        for module in bundle.get_modules_ordered():
+            ModuleSorter.get_definitions_sorted_by_dependency(module)
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index 0bf9274..9af62dc 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -40,6 +40,7 @@ class ModuleSorter:
             Definitions
         ] = asn1_module.get_definitions().copy()
         while len(not_yet_defined) > 0:
+            number_not_yet_defined = len(not_yet_defined)
             # copy(): do not modify something we iterate on
             for definition in not_yet_defined.copy():
                 if isinstance(definition, (Sequence, Choice)):
@@ -73,6 +74,9 @@ class ModuleSorter:
                     raise NotImplementedError(
                         f"{definition} (of type {type(definition)})"
                     )
+            if len(not_yet_defined) == number_not_yet_defined:
+                names = [d.get_type_name() for d in not_yet_defined]
+                ModuleSorter._raise_circular("type definitions", names)
 
         return already_defined
 
@@ -87,6 +91,7 @@ class ModuleSorter:
         ]
         import_names: List[str] = ModuleSorter._get_import_names(module_list)
         while len(module_list):
+            number_of_modules = len(module_list)
             for module_index, module_name in enumerate(module_names):
                 if module_name not in import_names:
                     module_to_reorder = module_list[module_index]
@@ -97,8 +102,20 @@ class ModuleSorter:
                     # Regenerate import_list, to omit
                     # the file that we just reordered
                     import_names = ModuleSorter._get_import_names(module_list)
+            if len(module_list) == number_of_modules:
+                ModuleSorter._raise_circular("imports", module_names)
         return module_order
 
+    @staticmethod
+    def _raise_circular(what: str, names: List[str]) -> None:
+        # avoid circular import
+        # pylint: disable=import-outside-toplevel
+        from asn1_parser.asn1.validation.asn1_bundle_validator import (
+            ASN1ConsistencyError,
+        )
+
+        raise ASN1ConsistencyError(f"Circular {what}: {', '.join(names)}")
+
     @staticmethod
     def _get_import_names(module_list: List[Asn1Module]) -> List[str]:
         import_list: Dict[Asn1Module, List[str]] = {}
-- 
2.43.0


From 4aa7cd827fa34490863f1f536e1b552ae43ff99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:59 +0000
Subject: [PATCH 09/27] fix: reject negative and repeated positions of
 enumerated items

---
 asn1_parser/asn1/grammar.py                          |  9 +++++++--
 asn1_parser/asn1/grammar_elements/enumerated_item.py | 10 +++++++---
 asn1_parser/asn1/processor.py                        |  6 ++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/asn1_parser/asn1/grammar.py b/asn1_parser/asn1/grammar.py
index 6079e7b..b3f1dc8 100644
--- a/asn1_parser/asn1/grammar.py
+++ b/asn1_parser/asn1/grammar.py
@@ -44,11 +44,16 @@ Enumerated:
 ;
 
 EnumeratedItemNotLast:
-  key=NameLower ('('pos=INT')')? (',') (comment=Asn1Comment)?
+  key=NameLower ('('pos=EnumeratedPosition')')? (',') (comment=Asn1Comment)?
 ;
 
 EnumeratedItemLast:
-  key=NameLower ('('pos=INT')')? (comment=Asn1Comment)?
+  key=NameLower ('('pos=EnumeratedPosition')')? (comment=Asn1Comment)?
+;
+
+// A rule of its own: the pos of an item is None (not 0) when it is not given
+EnumeratedPosition:
+  INT
 ;
 
 Asn1Type[noskipws]:
diff --git a/asn1_parser/asn1/grammar_elements/enumerated_item.py b/asn1_parser/asn1/grammar_elements/enumerated_item.py
index 3b4fa8a..d9d0e14 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated_item.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated_item.py
@@ -1,4 +1,4 @@
-from typing import Tuple, Any
+from typing import Any, Optional, Tuple
 from asn1_parser.asn1.grammar_elements.asn1_comment import Asn1Comment
 from asn1_parser.log.logger import Logger
 
@@ -7,10 +7,11 @@ class EnumeratedItem:
     _logger = Logger(__name__)
 
     def __init__(
-        self, key: str, pos: int, comment: Asn1Comment, parent: Any
+        self, key: str, pos: Optional[int], comment: Asn1Comment, parent: Any
     ) -> None:
         self._key = key
-        self._pos = pos
+        self._is_pos_given = pos is not None
+        self._pos = pos or 0
         self._comment = comment
         EnumeratedItem._logger.debug(f"comment: {self._comment}")
         self._parent = parent
@@ -24,6 +25,9 @@ class EnumeratedItem:
     def get_pos(self) -> int:
         return self._pos
 
+    def is_pos_given(self) -> bool:
+        return self._is_pos_given
+
     def get_comment(self) -> Asn1Comment:
         return self._comment
 
diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..adcff08 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,13 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
+    if any(e.get_pos() < 0 for e in model.get_enum()):
+        raise IndexError(
+            "Some indices are not present, multiple times or out of bounds"
+        )
     if pos_sum == 0:
+        if len([e for e in model.get_enum() if e.is_pos_given()]) > 1:
+            raise IndexError("index '0' is defined multiple times")
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From ea70285a6fdf834a095a521f3e4229438327ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:59 +0000
Subject: [PATCH 10/27] fix: encode types with the single value 0 with 1 bit

---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..1e5522c 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin. There are no 0 bit fields.
+        return max(1, last_value.bit_length())
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..b314c05 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,8 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin. There are no 0 bit fields.
+        bitsize = max(1, end.bit_length())
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From dd01330f0bfd6ce25aab23035407a1f2ad35fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:12 +0000
Subject: [PATCH 11/27] fix: reject unsigned INTEGER ranges which do not fit
 into 64 bits

---
 asn1_parser/utils/size.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index b314c05..6c74b3c 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -42,6 +42,8 @@ def get_bit_size(
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
         # int.bit_length() is a Python builtin. There are no 0 bit fields.
         bitsize = max(1, end.bit_length())
+        if bitsize > 64:
+            raise ValueError(f"{end} is out of stdint definition.")
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From bf6eee90da756b3d6aa6456a53c77b9c592b6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:36 +0000
Subject: [PATCH 12/27] fix: reject simple definitions which use an undefined
 type

---
 asn1_parser/asn1/processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index adcff08..5ad968d 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -65,9 +65,11 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        key_type_pair_list: List[Union[KeyTypePair, SimpleDefinition]] = []
         if isinstance(definition, (Sequence, Choice)):
             key_type_pair_list = definition.get_children()
+        elif isinstance(definition, SimpleDefinition):
+            key_type_pair_list = [definition]
         else:
             pass
 
-- 
2.43.0


From 8af8d4aed9d872d00fe0c8016694c91b5a863d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:43 +0000
Subject: [PATCH 13/27] fix: keep ASN.1 comments inside of the generated C
 comments

---
 asn1_parser/c_printer.py                   |  9 ++++++-
 asn1_parser/generators/binary/generator.py |  6 ++++-
 asn1_parser/generators/c/generator.py      |  6 ++++-
 asn1_parser/generators/cfs/generator.py    |  6 ++++-
 asn1_parser/generators/generator.py        | 28 +++++++++++++++++-----
 5 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/asn1_parser/c_printer.py b/asn1_parser/c_printer.py
index e1f7ecb..daea5fa 100644
--- a/asn1_parser/c_printer.py
+++ b/asn1_parser/c_printer.py
@@ -1,4 +1,5 @@
 import os
+import re
 from enum import Enum
 from typing import Dict, List, Optional
 
@@ -43,10 +44,16 @@ class CPrinter:
         comment: str = cls.ASN1_HEADER_COMMENT
 
         if file_documentation:
-            comment += "\n\n" + file_documentation
+            comment += "\n\n" + cls.comment_text(file_documentation)
 
         return str(cgen.Comment("\n" + comment + "\n", skip_space=True)) + "\n"
 
+    @classmethod
+    def comment_text(cls, text: str) -> str:
+        # A "*/" would end a C block comment, a backslash at the end would
+        # extend a C line comment to the next line.
+        return re.sub(r"[\\\s]*\\[\\\s]*$", "", text.replace("*/", "* /"))
+
     @classmethod
     def asn1_to_c_style_naming(cls, name: str) -> str:
         if name in ["IA5String", "NumericString"]:
diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..1f74bed 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -90,7 +90,11 @@ class BinaryGenerator(Generator):
             comment = module.get_comment_import()
             if comment is not None:
                 module_cdata.add_include(
-                    str(cgen.LineComment(comment.get_comment()))
+                    str(
+                        cgen.LineComment(
+                            CPrinter.comment_text(comment.get_comment())
+                        )
+                    )
                 )
 
             simple_definition_list_imported: List[SimpleDefinition] = []
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..720c24a 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -45,7 +45,11 @@ class CGenerator(Generator):
             comment = module.get_comment_import()
             if comment is not None:
                 module_cdata.add_include(
-                    str(cgen.LineComment(comment.get_comment()))
+                    str(
+                        cgen.LineComment(
+                            CPrinter.comment_text(comment.get_comment())
+                        )
+                    )
                 )
 
             simple_definition_list_imported: List[SimpleDefinition] = []
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index b981955..8e02093 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -64,7 +64,11 @@ class CFSGenerator(Generator):
             comment = module.get_comment_import()
             if comment is not None:
                 module_cdata.add_include(
-                    str(cgen.LineComment(comment.get_comment()))
+                    str(
+                        cgen.LineComment(
+                            CPrinter.comment_text(comment.get_comment())
+                        )
+                    )
                 )
 
             simple_definition_list_imported: List[SimpleDefinition] = []
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 5cb7ea5..59af602 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -107,7 +107,11 @@ class Generator:
 
         if definition.get_comment() and definition.get_comment().get_comment():
             comment_str += str(
-                cgen.Comment(definition.get_comment().get_comment())
+                cgen.Comment(
+                    CPrinter.comment_text(
+                        definition.get_comment().get_comment()
+                    )
+                )
             )
             comment_str += "\n"
 
@@ -127,7 +131,9 @@ class Generator:
                     seq_comment = (
                         seq_comment + seq_item.get_comment().get_comment()
                     )
-                sequence_list.append(cgen.LineComment(seq_comment))
+                sequence_list.append(
+                    cgen.LineComment(CPrinter.comment_text(seq_comment))
+                )
 
             (
                 bit_length,
@@ -220,7 +226,11 @@ class Generator:
 
         if definition.get_comment() and definition.get_comment().get_comment():
             data_str += str(
-                cgen.Comment(definition.get_comment().get_comment())
+                cgen.Comment(
+                    CPrinter.comment_text(
+                        definition.get_comment().get_comment()
+                    )
+                )
             )
             data_str += "\n"
         # map Enumerated to c enum
@@ -241,7 +251,7 @@ class Generator:
                         + enum_item.get_comment().get_comment()
                     )
                 enum_item_comment = "     " + str(
-                    cgen.LineComment(enum_item_comment)
+                    cgen.LineComment(CPrinter.comment_text(enum_item_comment))
                 )
             data_str += (
                 cls._C_SPACES
@@ -269,7 +279,11 @@ class Generator:
 
         if definition.get_comment() and definition.get_comment().get_comment():
             data_str += str(
-                cgen.Comment(definition.get_comment().get_comment())
+                cgen.Comment(
+                    CPrinter.comment_text(
+                        definition.get_comment().get_comment()
+                    )
+                )
             )
             data_str += "\n"
         # map Choice to c union
@@ -292,7 +306,9 @@ class Generator:
                     choice_comment = (
                         choice_comment + choice_item.get_comment().get_comment()
                     )
-                choice_comment = "     " + str(cgen.LineComment(choice_comment))
+                choice_comment = "     " + str(
+                    cgen.LineComment(CPrinter.comment_text(choice_comment))
+                )
 
             if (
                 choice_item.get_asn_type().get_type_name()
-- 
2.43.0


From aa5a9b501b2461f99955f5c8e5fbda8c89d585c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:55 +0000
Subject: [PATCH 14/27] fix: keep ASN.1 comments inside of the quoted COSMOS
 descriptions

---
 asn1_parser/generators/cosmos/templates.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 3463b45..7ca24be 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -32,12 +32,18 @@ FMT_LIMITS = (
 FMT_UNITS = 2 * INDENT + "UNITS {unit} {unit}\n"
 
 
+def _to_quotable_text(comment: str) -> str:
+    # a quote or a backslash at the end would end or extend a quoted string
+    return comment.replace('"', "'").rstrip("\\")
+
+
 def cosmos_telemetry(
     target_name: str,
     target_comment: str,
     pkt_name: str,
     telemetry: List[TelemetryEntry],
 ) -> str:
+    target_comment = _to_quotable_text(target_comment)
     telemetry_pkt: str = (
         f'TELEMETRY {target_name} {pkt_name} BIG_ENDIAN "{target_comment}"\n'
     )
@@ -83,7 +89,7 @@ def cosmos_telemetry(
             bitsize=bitsize,
             cos_type=cos_type,
             specific_value=specific_value,
-            comment=comment,
+            comment=_to_quotable_text(comment),
             endianness="LITTLE_ENDIAN" if is_little_endian else "",
         ).replace(" \n", "\n")
 
-- 
2.43.0


From 0dafb7ff117dac75503198fa6868eea3b40bfe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:27 +0000
Subject: [PATCH 15/27] fix: give COSMOS states to items of BOOLEAN simple
 definitions

---
 asn1_parser/generators/cosmos/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 56243f4..02b1b0a 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -187,6 +187,8 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        if c_type is TypeEnum.A_BOOL:
+                            state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
                         # if it is an enumerated do not start a recursion but
                         # resolve the data
-- 
2.43.0


From 0616222aad30d02e95a15eb73e827ac109d0e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:27 +0000
Subject: [PATCH 16/27] fix: keep the inner dimensions of arrays of arrays and
 strings

---
 asn1_parser/asn1/grammar_elements/array.py       | 13 ++++++++++++-
 asn1_parser/asn1/grammar_elements/asn1_string.py |  5 ++++-
 asn1_parser/generators/cosmos/generator.py       |  5 ++++-
 asn1_parser/generators/generator.py              | 14 ++++++--------
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/array.py b/asn1_parser/asn1/grammar_elements/array.py
index 716a506..cba2309 100644
--- a/asn1_parser/asn1/grammar_elements/array.py
+++ b/asn1_parser/asn1/grammar_elements/array.py
@@ -1,4 +1,4 @@
-from typing import Any
+from typing import Any, List
 
 from asn1_parser.asn1.grammar_elements.asn1_type import Asn1Type
 
@@ -15,6 +15,17 @@ class Array:
     def get_length(self) -> int:
         return self._length
 
+    def get_dimensions(self) -> List[int]:
+        """
+        Returns the lengths of this array and of the arrays or strings it is
+        made of, the outermost first.
+        """
+        dimensions: List[int] = [self.get_length()]
+        inner_type = self.get_asn_type().get_type()
+        if inner_type is not None:
+            dimensions.extend(inner_type.get_dimensions())
+        return dimensions
+
     def get_asn_type(self) -> Asn1Type:
         return self._asn_type
 
diff --git a/asn1_parser/asn1/grammar_elements/asn1_string.py b/asn1_parser/asn1/grammar_elements/asn1_string.py
index 13ffa4e..31b42a7 100644
--- a/asn1_parser/asn1/grammar_elements/asn1_string.py
+++ b/asn1_parser/asn1/grammar_elements/asn1_string.py
@@ -1,4 +1,4 @@
-from typing import Any
+from typing import Any, List
 
 
 class Asn1String:
@@ -16,6 +16,9 @@ class Asn1String:
         """
         return self._length
 
+    def get_dimensions(self) -> List[int]:
+        return [self.get_length()]
+
     def get_type_name(self) -> str:
         return self._type_name
 
diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 02b1b0a..6f98acc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -1,3 +1,4 @@
+import math
 import os
 import pathlib
 from typing import List, Optional, Any
@@ -219,7 +220,9 @@ class COSMOSGenerator:
 
                 is_array = isinstance(seq_type, Array)
                 if is_array:
-                    specific_value = str(seq_type.get_length() * bitsize)
+                    specific_value = str(
+                        math.prod(seq_type.get_dimensions()) * bitsize
+                    )
                 elif (
                     seq_item.get_key() == ASN1_KEY_CCSDS_APID
                     and specific_value != ""
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 59af602..31cafd6 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -176,15 +176,13 @@ class Generator:
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
 
-                sequence_list.append(
-                    cgen.ArrayOf(
-                        cgen.Value(
-                            struct_c_type,
-                            seq_key,
-                        ),
-                        seq_item_type.get_length(),
-                    )
+                array_declaration: Any = cgen.Value(
+                    struct_c_type,
+                    seq_key,
                 )
+                for length in seq_item_type.get_dimensions():
+                    array_declaration = cgen.ArrayOf(array_declaration, length)
+                sequence_list.append(array_declaration)
             else:
                 sequence_list.append(
                     cgen.Value(
-- 
2.43.0


From a169731fcdbaa2eabe03bb7a0819e17c75dd4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:40 +0000
Subject: [PATCH 17/27] fix: report arrays of bitfields instead of generating
 invalid C

---
 asn1_parser/generators/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 31cafd6..f6f3798 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -175,6 +175,11 @@ class Generator:
             seq_item_type = seq_item.get_asn_type().get_type()
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
+                if bit_length:
+                    raise NotImplementedError(
+                        f"'{seq_item.get_key()}' is an array of C bitfields. "
+                        "Bitfields cannot be array elements."
+                    )
 
                 array_declaration: Any = cgen.Value(
                     struct_c_type,
-- 
2.43.0


From a486b30ff2954ed6036f3cce09a8fcf375de9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:04 +0000
Subject: [PATCH 18/27] fix: generate one line per alternative of a CHOICE

---
 asn1_parser/generators/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index f6f3798..ff82e67 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -327,6 +327,7 @@ class Generator:
                 + CPrinter.asn1_to_c_style_naming(choice_item.get_key())
                 + ";"
                 + choice_comment
+                + "\n"
             )
         data_str += (
             "} "
-- 
2.43.0


From 85b9568f3cf95e01fc9c5bd6f3d7628c22e75e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:50 +0000
Subject: [PATCH 19/27] fix: combine all WITH COMPONENTS values of a sequence
 into one initialiser

---
 asn1_parser/generators/binary/generator.py |  7 ++--
 asn1_parser/generators/c/generator.py      | 39 ++++++++++------------
 asn1_parser/generators/cfs/generator.py    | 13 ++++----
 asn1_parser/generators/generator.py        | 17 ++++++----
 4 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 1f74bed..50a7886 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -172,7 +172,7 @@ class BinaryGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         if not module:
@@ -205,7 +205,10 @@ class BinaryGenerator(Generator):
                         )
                 definitions[definition.get_type_name()] = seq_specifications
 
-        bin_data_list.extend(cls._values_to_bytes_list(seq_item, definitions))
+        for seq_item in seq_items:
+            bin_data_list.extend(
+                cls._values_to_bytes_list(seq_item, definitions)
+            )
 
         cdata.add_binary_init(
             lowerize(definition_type_name_c),
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 720c24a..97d772e 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -126,7 +126,7 @@ class CGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         if not module:
@@ -135,7 +135,7 @@ class CGenerator(Generator):
         cdata: CData = CData.create_empty()
 
         cdata.add_init(
-            cls._process_start_with_component(definition_type_name_c, seq_item)
+            cls._process_start_with_component(definition_type_name_c, seq_items)
         )
         cdata.add_init_predef(
             definition_type_name_c
@@ -152,28 +152,25 @@ class CGenerator(Generator):
     def _process_start_with_component(
         cls,
         seq_name: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
     ) -> str:
-        seq_key: str = seq_item.get_key()
-        with_components: WithComponents = seq_item.get_with_components()
-
         shift_level: int = 1
-        return (
-            seq_name
-            + " "
-            + lowerize(seq_name)
-            + " = {\n"
-            + (shift_level * cls._C_SPACES)
-            + "."
-            + CPrinter.asn1_to_c_style_naming(seq_key)
-            + " = {\n"
-            + cls._process_with_components(
-                with_components=with_components, shift_level=shift_level + 1
+        init_str: str = seq_name + " " + lowerize(seq_name) + " = {\n"
+        for seq_item in seq_items:
+            seq_key: str = seq_item.get_key()
+            with_components: WithComponents = seq_item.get_with_components()
+            init_str += (
+                (shift_level * cls._C_SPACES)
+                + "."
+                + CPrinter.asn1_to_c_style_naming(seq_key)
+                + " = {\n"
+                + cls._process_with_components(
+                    with_components=with_components, shift_level=shift_level + 1
+                )
+                + (shift_level * cls._C_SPACES)
+                + "},\n"
             )
-            + (shift_level * cls._C_SPACES)
-            + "},\n"
-            + "};\n"
-        )
+        return init_str + "};\n"
 
     @classmethod
     def _process_with_components(
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index 8e02093..80f8574 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -266,16 +266,17 @@ class CFSGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         cdata: CData = CData.create_empty()
 
-        cdata.extend_with_define_list(
-            cls._process_with_components(
-                definition_type_name_c,
-                seq_item.get_with_components(),
+        for seq_item in seq_items:
+            cdata.extend_with_define_list(
+                cls._process_with_components(
+                    definition_type_name_c,
+                    seq_item.get_with_components(),
+                )
             )
-        )
 
         return cdata
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index ff82e67..711fcd0 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -117,6 +117,7 @@ class Generator:
 
         # map Sequence to c struct
         sequence_list: List[Any] = []
+        with_components_items: List[KeyTypePair] = []
         for seq_item in definition.get_children():
             if seq_item.get_comment():
                 seq_comment: str = ""
@@ -200,13 +201,15 @@ class Generator:
             )
             # WITH COMPONENTS
             if seq_item.get_with_components():
-                cdata.extend_with_cdata(
-                    cls._with_components_handling(
-                        definition_type_name_c=definition_type_name_c,
-                        seq_item=seq_item,
-                        module=module,
-                    )
+                with_components_items.append(seq_item)
+        if with_components_items:
+            cdata.extend_with_cdata(
+                cls._with_components_handling(
+                    definition_type_name_c=definition_type_name_c,
+                    seq_items=with_components_items,
+                    module=module,
                 )
+            )
         cdata.add_data(
             comment_str
             + str(
@@ -345,7 +348,7 @@ class Generator:
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         raise NotImplementedError(
-- 
2.43.0


From a528bf5e50d5f977fd22f6403c0a88fe21bfb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:06 +0000
Subject: [PATCH 20/27] fix: find imported sequences when generating binary
 files

---
 asn1_parser/generators/binary/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 50a7886..434af1b 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -25,6 +25,7 @@ from asn1_parser.containers.sequence_specification_container import (
 )
 from asn1_parser.generators.cfs.module_sorter import ModuleSorter
 from asn1_parser.generators.generator import Generator
+from asn1_parser.utils.array import flatten
 from asn1_parser.utils.size import TypeEnum, bit_to_bytes
 
 from asn1_parser.utils.string import lowerize
@@ -183,7 +184,14 @@ class BinaryGenerator(Generator):
 
         # get sequences with their defined keys and types
         definitions: Dict[str, Dict[str, SequenceSpecificationContainer]] = {}
-        for definition in module.get_definitions():
+        modules: List[Asn1Module] = [module]
+        for known_module in modules:
+            modules.extend(
+                imported_module
+                for imported_module in known_module.get_imported_modules()
+                if imported_module not in modules
+            )
+        for definition in flatten([m.get_definitions() for m in modules]):
             # only sequences can have WITH COMPONENTS
             # ignore other ASN.1 definitions
             if isinstance(definition, Sequence):
-- 
2.43.0


From 1f7d28010a5584eaaf1e06b61923b1b6319ce38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 21/27] fix: write binary values in the order of the C struct
 and only complete ones

---
 asn1_parser/generators/binary/generator.py | 68 +++++++++++++++++-----
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 434af1b..8dd5c74 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -199,20 +199,30 @@ class BinaryGenerator(Generator):
                     str, SequenceSpecificationContainer
                 ] = {}
                 for sequence in definition.get_children():
-                    if sequence.get_with_components() is None:
-                        seq_specifications[
-                            sequence.get_key()
-                        ] = SequenceSpecificationContainer(
-                            # None if a WITH COMPONENTS otherwise TypeEnum
-                            c_type=sequence.get_asn_type().get_c_type(),
-                            # needed for correct (u)int assignement
-                            bitsize=sequence.get_size_bits(),
-                            # ASN.1 type, either simple definition or own
-                            # definition (Sequence, Choice, ...)
-                            seq_type=sequence.get_asn_type().get_type_name(),
-                        )
+                    seq_specifications[
+                        sequence.get_key()
+                    ] = SequenceSpecificationContainer(
+                        # None if a WITH COMPONENTS otherwise TypeEnum
+                        c_type=sequence.get_asn_type().get_c_type(),
+                        # needed for correct (u)int assignement
+                        bitsize=sequence.get_size_bits(),
+                        # ASN.1 type, either simple definition or own
+                        # definition (Sequence, Choice, ...)
+                        seq_type=sequence.get_asn_type().get_type_name(),
+                    )
                 definitions[definition.get_type_name()] = seq_specifications
 
+        cls._check_values_complete(
+            definition_type_name_c,
+            [seq_item.get_key() for seq_item in seq_items],
+            [
+                key
+                for type_name, keys in definitions.items()
+                if CPrinter.asn1_to_c_style_naming(type_name)
+                == definition_type_name_c
+                for key in keys
+            ],
+        )
         for seq_item in seq_items:
             bin_data_list.extend(
                 cls._values_to_bytes_list(seq_item, definitions)
@@ -224,6 +234,32 @@ class BinaryGenerator(Generator):
         )
         return cdata
 
+    @classmethod
+    def _check_values_complete(
+        cls, type_name: str, given_keys: List[str], defined_keys: List[str]
+    ) -> None:
+        missing = [key for key in defined_keys if key not in given_keys]
+        if missing:
+            raise NotImplementedError(
+                f"Binary files with only a part of the values of '{type_name}' "
+                f"are not supported, missing: {', '.join(missing)}."
+            )
+
+    @classmethod
+    def _get_components_ordered(
+        cls,
+        with_components: WithComponents,
+        asn_type_name: str,
+        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
+    ) -> List[ComponentsItem]:
+        # the values have the order of the C struct in the binary file
+        components: List[ComponentsItem] = with_components.get_components()
+        defined_keys: List[str] = list(definitions[asn_type_name])
+        cls._check_values_complete(
+            asn_type_name, [c.get_key() for c in components], defined_keys
+        )
+        return sorted(components, key=lambda c: defined_keys.index(c.get_key()))
+
     @classmethod
     def _values_to_bytes_list(
         cls,
@@ -240,7 +276,9 @@ class BinaryGenerator(Generator):
             )
         asn_type_name: str = asn_type.get_type_name()
 
-        for component in with_component.get_components():
+        for component in cls._get_components_ordered(
+            with_component, asn_type_name, definitions
+        ):
             bin_data = cls._component_to_bytes(
                 component,
                 asn_type_name,
@@ -270,7 +308,9 @@ class BinaryGenerator(Generator):
 
         if isinstance(value, WithComponents):
             inner_asn_type_name: str = key.get_seq_type()
-            for inner_component in value.get_components():
+            for inner_component in cls._get_components_ordered(
+                value, inner_asn_type_name, definitions
+            ):
                 bin_data = cls._component_to_bytes(
                     inner_component,
                     inner_asn_type_name,
-- 
2.43.0


From a18cb5d7001999e85bd12c0ab6e4010cd4b4c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 22/27] fix: write no files when one of the modules cannot be
 generated

---
 asn1_parser/generators/binary/generator.py | 14 +++++++++-----
 asn1_parser/generators/c/generator.py      | 14 +++++++++-----
 asn1_parser/generators/cfs/generator.py    | 17 ++++++++++-------
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 8dd5c74..43c2720 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 import struct
 
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import cgen
 
@@ -77,11 +77,8 @@ class BinaryGenerator(Generator):
         cls, config: GenerateBinaryCommandConfig, bundle: ASN1Bundle
     ) -> None:
         cls.endianness = config.endianness
-        output_folder = config.output_dir
-        if not os.path.isdir(output_folder):
-            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
-
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        all_cdata: List[Tuple[Asn1Module, CData]] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -159,7 +156,14 @@ class BinaryGenerator(Generator):
             file_documentation = comment and comment.get_comment()
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
+            all_cdata.append((module, module_cdata))
+
+        # write the files only when all modules could be generated
+        output_folder = config.output_dir
+        if not os.path.isdir(output_folder):
+            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
+        for module, module_cdata in all_cdata:
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 97d772e..5dbd66b 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -1,7 +1,7 @@
 import os
 import pathlib
 
-from typing import List, Optional, Union
+from typing import List, Optional, Tuple, Union
 
 import cgen
 
@@ -31,11 +31,8 @@ class CGenerator(Generator):
     def generate_c(
         cls, config: GenerateCCommandConfig, bundle: ASN1Bundle
     ) -> None:
-        output_folder = config.output_dir
-        if not os.path.isdir(output_folder):
-            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
-
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        all_cdata: List[Tuple[Asn1Module, CData]] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -112,7 +109,14 @@ class CGenerator(Generator):
             file_documentation = comment and comment.get_comment()
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
+            all_cdata.append((module, module_cdata))
+
+        # write the files only when all modules could be generated
+        output_folder = config.output_dir
+        if not os.path.isdir(output_folder):
+            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
+        for module, module_cdata in all_cdata:
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index 80f8574..83b614b 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -1,6 +1,6 @@
 import os
 import pathlib
-from typing import List, Optional, Union
+from typing import List, Optional, Tuple, Union
 
 import cgen
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
@@ -50,11 +50,8 @@ class CFSGenerator(Generator):
     def generate_cfs(
         cls, config: GenerateCFSCommandConfig, bundle: ASN1Bundle
     ) -> None:
-        output_folder = config.output_dir
-        if not os.path.isdir(output_folder):
-            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
-
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        all_cdata: List[Tuple[Asn1Module, CData]] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -145,13 +142,19 @@ class CFSGenerator(Generator):
                         + "implemented."
                     )
 
-            c_printer: CPrinter = CPrinter()
-
             comment = module.get_comment()
             file_documentation = comment and comment.get_comment()
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
+            all_cdata.append((module, module_cdata))
+
+        # write the files only when all modules could be generated
+        output_folder = config.output_dir
+        if not os.path.isdir(output_folder):
+            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
+        c_printer: CPrinter = CPrinter()
+        for module, module_cdata in all_cdata:
             # generate one xx_msg.h file per module
             filename_msg = cls.get_msg_filename(module)
             c_printer.print_to_file(
-- 
2.43.0


From c0b7edb8e6670cbf29d6a9f8b78dcc874e17187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 23/27] fix: look into each imported module only once when
 searching a type for COSMOS

---
 asn1_parser/generators/cosmos/generator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 6f98acc..9acc1c8 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -264,14 +264,19 @@ class COSMOSGenerator:
         if asn1_model is not None:
             module_definitions = asn1_model.get_definitions()
 
-        # search for the definition in imported modules
+        # search for the definition in imported modules, looking into each
+        # module only once: there can be very many ways through the imports
         imported_definitions: List[Definitions] = []
         if asn1_model is not None:
+            modules: List[Asn1Module] = asn1_model.get_imported_modules().copy()
+            for imported_module in modules:
+                modules.extend(
+                    module
+                    for module in imported_module.get_imported_modules()
+                    if module not in modules
+                )
             imported_definitions = flatten(
-                [
-                    cls._get_definitions_recurs(type_name, module)
-                    for module in asn1_model.get_imported_modules()
-                ]
+                [module.get_definitions() for module in modules]
             )
 
         # filter by name
-- 
2.43.0


From 6f36c18692fdcfcc091decf917c2be9f88ef1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 24/27] fix: refuse modules of the same name in generate-cosmos

---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..08cef45 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -163,6 +164,7 @@ class ASN1BundleBuilder:
     def _validate_unique_module_names(
         module_list: List[Asn1Module],
         config: Union[
+            GenerateCosmosCommandConfig,
             GenerateCFSCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
-- 
2.43.0


From e5b5ec04d9d6921c0fed825f10d5c63adc8063fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:21 +0000
Subject: [PATCH 25/27] fix: generate code for items of a simple string
 definition

---
 asn1_parser/generators/cosmos/generator.py |  3 +++
 asn1_parser/generators/generator.py        | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9acc1c8..6f2f5f8 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -188,6 +188,9 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        simple_type = inner_definition.get_asn_type().get_type()
+                        if isinstance(simple_type, Asn1String):
+                            end = simple_type.get_length()
                         if c_type is TypeEnum.A_BOOL:
                             state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 711fcd0..9b6e4b4 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -42,7 +42,10 @@ class Generator:
         is_stdbool_needed = False
         is_stdint_needed = False
 
-        if valid_c_type in ["INTEGER", "REAL"] or isinstance(
+        if isinstance(definition.get_asn_type().get_type(), Asn1String):
+            # char: the length becomes a dimension of the sequence item
+            pass
+        elif valid_c_type in ["INTEGER", "REAL"] or isinstance(
             definition, SimpleDefinition
         ):
             c_type: Optional[TypeEnum] = definition.get_asn_type().get_c_type()
@@ -174,8 +177,15 @@ class Generator:
                 seq_key += bit_length
 
             seq_item_type = seq_item.get_asn_type().get_type()
+            dimensions: List[int] = []
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
+                dimensions.extend(seq_item_type.get_dimensions())
+            if len(simple_definition) > 0:
+                simple_type = simple_definition[0].get_asn_type().get_type()
+                if isinstance(simple_type, Asn1String):
+                    dimensions.extend(simple_type.get_dimensions())
+            if dimensions:
                 if bit_length:
                     raise NotImplementedError(
                         f"'{seq_item.get_key()}' is an array of C bitfields. "
@@ -186,7 +196,7 @@ class Generator:
                     struct_c_type,
                     seq_key,
                 )
-                for length in seq_item_type.get_dimensions():
+                for length in dimensions:
                     array_declaration = cgen.ArrayOf(array_declaration, length)
                 sequence_list.append(array_declaration)
             else:
-- 
2.43.0


From 47756b4b76dbaa3513b254744d1216679f6ccc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 26/27] fix: reject keys which are used several times in one
 type

A SEQUENCE, CHOICE or ENUMERATED with two items of the same name was accepted
and gave C code which does not compile and COSMOS packets with items of the
same name.
---
 .../asn1/validation/asn1_bundle_validator.py  | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index bd0cefa..e65aed2 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -2,7 +2,10 @@ from typing import List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
+from asn1_parser.asn1.grammar_elements.sequence import Sequence
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -36,6 +39,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_bundle_for_duplicate_keys(bundle)
         ASN1BundleValidator._check_bundle_for_circular_dependencies(bundle)
 
     @staticmethod
@@ -109,6 +113,23 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_bundle_for_duplicate_keys(bundle: ASN1Bundle) -> None:
+        for definition in flatten(
+            [module.get_definitions() for module in bundle.get_modules()]
+        ):
+            keys: List[str] = []
+            if isinstance(definition, (Sequence, Choice)):
+                keys = [child.get_key() for child in definition.get_children()]
+            elif isinstance(definition, Enumerated):
+                keys = [item.get_key() for item in definition.get_enum()]
+            for key in keys:
+                if keys.count(key) > 1:
+                    raise ASN1ConsistencyError(
+                        f"The key '{key}' is used multiple times in "
+                        f"'{definition.get_type_name()}'"
+                    )
+
     @staticmethod
     def check_missing_modules(
         config: Union[
-- 
2.43.0


From d8a87243edc86458d18e37f2b6f74ae23832c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:25 +0000
Subject: [PATCH 27/27] fix: reject keys which are listed several times in WITH
 COMPONENTS

The values contradict each other: C code had both, COSMOS none of them.
---
 asn1_parser/asn1/processor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 5ad968d..6b8d2db 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -122,6 +122,14 @@ def _check_with_component(
         if len(sequence) == 1:
             seq: List[KeyTypePair] = sequence[0].get_children()
             allowed_keys: List[str] = [s.get_key() for s in seq]
+            given_keys: List[str] = [
+                c.get_key() for c in with_component.get_components()
+            ]
+            if len(given_keys) != len(set(given_keys)):
+                raise ASN1ConsistencyError(
+                    f"a key is given multiple times in WITH COMPONENTS of "
+                    f"'{def_type_name}'"
+                )
             for component in with_component.get_components():
                 # go through all components and check whether they are defined
                 # or not
-- 
2.43.0


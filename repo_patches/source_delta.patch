From 2cc75a15e9034594764d11ff0f467270c1ac9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 01/54] fix: C writer declares structs before they are used as
 members

A struct that was listed in the protocol after the struct containing it
produced a header that did not compile.
---
 beschi/writers/c.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..603752c 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -243,6 +243,20 @@ class CWriter(Writer):
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
+    # C needs a struct's definition before it can be a member of another one, so
+    #   dependencies go first no matter how the protocol file is laid out
+    def get_ordered_structs(self) -> list[tuple[str,Struct]]:
+        ordered: dict[str,Struct] = {}
+        def visit(sname: str):
+            if sname in ordered: return
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    visit(var.vartype)
+            ordered[sname] = self.protocol.structs[sname]
+        for sname in self.protocol.structs:
+            visit(sname)
+        return list(ordered.items())
+
     def gen_enum(self, ename: str, edata: Enum):
         self.write_line(f"typedef enum {self.prefix}{ename} {{")
         self.indent_level += 1
@@ -440,7 +454,7 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
+        for sname, sdata in self.get_ordered_structs():
             self.gen_struct(sname, sdata)
 
         for mname, mdata in self.protocol.messages.items():
-- 
2.43.0


From d17bb3481b297883147903c8c947ca27cb62e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/54] fix: C element lengths of string lists use the string
 size type

The member was declared with the list size type but allocated, read and
written as the string size type, so protocols where the two differ either
did not compile or corrupted memory.
---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 603752c..8c8abc1 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -276,7 +276,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From d56d413e29648f746e44f0f04b341c883bdcc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 03/54] fix: C _Create initializes the length members too

Only the data members were copied from the default, leaving every _len and
_els_len uninitialized: writing or destroying a created message read garbage.
---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 8c8abc1..2a9427b 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -352,9 +352,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From d1d7465ffe4bf9cdef2d7d37545ef740f87fb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 04/54] fix: C _Destroy and _Cleanup no longer free the default
 string

A message from _Create (or a copy of the default) holds the constant empty
string until it is assigned; destroying it passed a literal to free().
---
 beschi/writers/c.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 2a9427b..a19ac6d 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -210,7 +210,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = {self.prefix}EmptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -239,7 +239,12 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
+            # the default value is not ours to free
+            self.write_line(f"if ({accessor}{var.name} != {self.prefix}EmptyString) {{")
+            self.indent_level += 1
             self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            self.indent_level -= 1
+            self.write_line("}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
@@ -257,6 +262,14 @@ class CWriter(Writer):
             visit(sname)
         return list(ordered.items())
 
+    def get_nested_members(self, st: Struct) -> list[Variable]:
+        members: list[Variable] = []
+        for var in st.members:
+            members.append(var)
+            if var.vartype in self.protocol.structs:
+                members += self.get_nested_members(self.protocol.structs[var.vartype])
+        return members
+
     def gen_enum(self, ename: str, edata: Enum):
         self.write_line(f"typedef enum {self.prefix}{ename} {{")
         self.indent_level += 1
@@ -738,6 +751,10 @@ class CWriter(Writer):
         self.write_line("}")
         self.write_line()
 
+        if any(var.vartype == "string" for m in self.protocol.messages for var in self.get_nested_members(self.protocol.messages[m])):
+            self.write_line(f"static char {self.prefix}EmptyString[1] = {{ '\\0' }};")
+            self.write_line()
+
         for ename, edata in self.protocol.enums.items():
             self.gen_enum_implementation(ename, edata)
 
-- 
2.43.0


From fa1df4d4c56debb56e784d21f8dbe8aafb95baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 05/54] fix: C header includes string.h, whose functions it
 uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..9599859 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -10,6 +10,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <string.h>
 
 typedef uint8_t beschi_err_t;
 #define BESCHI_ERR_OK  0
-- 
2.43.0


From a46e805d2fabb18ff53d108d5cd9f032e5f90cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 06/54] fix: C reading leaves a destroyable message when it
 fails halfway

FromBytes left the members it had not reached yet (and list elements beyond
the failing one) uninitialized, so releasing the partial message - which
ProcessRawBytes puts in its list - freed garbage pointers. The second
allocation of a string list was not checked at all, a failed growth of the
message list lost the list, and NULL from a zero-sized allocation, which the
C standard allows, was reported as a failure.
---
 beschi/writers/c.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index a19ac6d..a8d63f8 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,15 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    # an allocator is allowed to return NULL when asked for nothing, so that's only a failure if there are elements
+    def alloc_check_return(self, var: Variable, accessor: str, allocated: str):
+        self.write_line(f"if ({accessor}{allocated} == NULL && {accessor}{var.name}_len > 0) {{")
+        self.indent_level += 1
+        self.write_line(f"{accessor}{var.name}_len = 0;")
+        self.write_line(f"return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;")
+        self.indent_level -= 1
+        self.write_line("}")
+
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
@@ -76,10 +85,17 @@ class CWriter(Writer):
             else:
                 pref = self.prefix
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            self.alloc_check_return(var, accessor, var.name)
+            if not var.is_simple(True):
+                # so that the list can be safely destroyed if reading stops halfway
+                self.write_line(f"if ({accessor}{var.name}_len > 0) {{")
+                self.indent_level += 1
+                self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
+                self.indent_level -= 1
+                self.write_line("}")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.alloc_check_return(var, accessor, f"{var.name}_els_len")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -389,6 +405,9 @@ class CWriter(Writer):
 
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
+        if not sdata.is_simple():
+            # so that it can be safely destroyed if reading stops halfway
+            self.write_line("memset(dst, 0, sizeof(*dst));")
         if sdata.is_message:
             self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
         if len(sdata.members) > 0:
@@ -561,9 +580,9 @@ class CWriter(Writer):
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
         self.write_line("size_t currCapacity = 8;")
+        self.write_line("*len = 0;")
         self.write_line(f"*msgListDst = (void**){self.prefix.upper()}MALLOC(sizeof(void*) * currCapacity);")
         self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
-        self.write_line("*len = 0;")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
@@ -574,12 +593,13 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-        self.write_line(f"{self.prefix}ReadUInt8(r, &msgType);")
+        self.write_line(f"err = {self.prefix}ReadUInt8(r, &msgType);")
         self.err_check_return()
         self.write_line()
         self.write_line("void* out;")
-- 
2.43.0


From 273014ef54d67689d5b42cb062af56b8063fb5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 07/54] fix: C PackMessages and UnpackMessages honor the
 position and size of the buffer

The header was written to and compared at the start of the buffer no matter
where the DataAccess stood, without checking that four bytes were available,
and a terminator that did not fit was dropped silently.
---
 beschi/writers/c.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index a8d63f8..0eb0633 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -702,7 +702,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -728,9 +733,7 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
-        self.write_line()
-        self.write_line(f"return {self.prefix.upper()}ERR_OK;")
+        self.write_line(f"return {self.prefix}WriteUInt8(w, 0);")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
@@ -738,7 +741,12 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From 58b1c22d5a9cdba16d766f9afa8bc27bfb362fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:47 +0000
Subject: [PATCH 08/54] fix: Rust lists of bytes and bools compile

---
 beschi/writers/rust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..e0a8e57 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,8 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            by_value = var.vartype in self.protocol.enums or var.vartype in ("byte", "bool")
+            inner = Variable(self.protocol, f"{'*' if by_value else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From c55fddc881a20ce5e08877751240b08ae201fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:47 +0000
Subject: [PATCH 09/54] fix: Rust enum members may be followed by other members

---
 beschi/writers/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index e0a8e57..379dc02 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -192,7 +192,7 @@ class RustWriter(Writer):
                 self.write_line(f"pub {var.name}: {self.type_mapping[var.vartype]},")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
-                self.write_line(f"pub {var.name}: {var.vartype}")
+                self.write_line(f"pub {var.name}: {var.vartype},")
             else:
                 self.write_line(f"pub {var.name}: {var.vartype},")
         self.indent_level -= 1
-- 
2.43.0


From dc61091cc9ca29b7303d7291a232b0cab28ea4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 10/54] fix: C# GetSizeInBytes counts the UTF-8 bytes of string
 members

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From 6a6b0715bfbc72c44dbe5dad6cb055793f2a443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 11/54] fix: C# list reading compiles with a uint64 list size

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..21de8f2 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 8a21d564f11b0c1c472bc335a693baf583fc9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 12/54] fix: C# reports a truncated string instead of returning
 part of it

---
 beschi/writers/csharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 21de8f2..fd15401 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -66,6 +66,12 @@ class CSharpWriter(Writer):
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ({var_clean}_Buffer.Length < (int){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From a5200f5f6efff04ac540f3818f844262e76ac1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 13/54] fix: TypeScript reads and writes stay within a DataView
 that starts inside its buffer

---
 beschi/writers/boilerplate/TypeScript.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..afc66f3 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (len < 0 || this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("Offset is outside the bounds of the DataView");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
@@ -173,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -191,8 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
-  da.currentOffset += 4;
+  const headerBuffer = new Uint8Array(4);
+  for (let i = 0; i < 4; i++) {
+    headerBuffer[i] = da.getByte();
+  }
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
     throw new Error("Packed message buffer has invalid header.");
-- 
2.43.0


From 88bbd3000d9dc9b3dd4bd000e96871a854bb4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 14/54] fix: TypeScript keeps a leading U+FEFF when reading
 strings

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index afc66f3..cbcd806 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From ca4058b486386f0471fbaf5a6893926cc7f16a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 15/54] fix: TypeScript supports 64-bit list and string sizes

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index cbcd806..f094347 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = Number(this.get{# STRING_SIZE_TYPE #}());
     if (len < 0 || this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("Offset is outside the bounds of the DataView");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_SIZE_CAST #}(strBuffer.byteLength));
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..5f052ea 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -51,12 +51,18 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
+            list_size_type = self.type_mapping[self.protocol.list_size_type]
+            read_length = f"da.get{self.base_serializers[self.protocol.list_size_type]}()"
+            if list_size_type == "bigint":
+                # array lengths and indices are always numbers
+                list_size_type = "number"
+                read_length = f"Number({read_length})"
+            self.write_line(f"const {var_clean}_Length = {read_length};")
             if self.is_assembly_script:
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {list_size_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +132,10 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                length = f"{accessor}{var.name}.length"
+                if self.type_mapping[self.protocol.list_size_type] == "bigint":
+                    length = f"BigInt({length})"
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({length});")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -403,6 +412,7 @@ class TypeScriptWriter(Writer):
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
+            ("{# STRING_SIZE_CAST #}", "BigInt" if self.type_mapping[self.protocol.string_size_type] == "bigint" else "Number"),
         ])
 
         self.write_line("export enum MessageType {")
-- 
2.43.0


From 3cc8fb01b486d3cb12c5656e8b94d798ec8152fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 16/54] fix: TypeScript ignores --typescript-use-namespace if
 there is no namespace

---
 beschi/writers/typescript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 5f052ea..b71f80e 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -22,7 +22,7 @@ class TypeScriptWriter(Writer):
 
         self.embed_protocol = extra_args["embed_protocol"]
 
-        self.use_namespace = extra_args["typescript_use_namespace"]
+        self.use_namespace = extra_args["typescript_use_namespace"] and bool(self.protocol.namespace)
 
         for var_type in NUMERIC_TYPE_SIZES:
             if var_type == "bool":
-- 
2.43.0


From 94c183dbc32a753983485bd66a582243f54e2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 17/54] fix: Zig writes the enum and struct members of simple
 structs

---
 beschi/writers/zig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..8b8c607 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From e5b8683d50c9c581e6b43cba26a2da8ccb11253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 18/54] fix: Zig simple structs propagate errors of their
 struct members

---
 beschi/writers/zig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 8b8c607..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
-- 
2.43.0


From d820d3740daf9106b51e6d5387da64e1847b14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 19/54] fix: Zig structs without members compile

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..c59bb01 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -231,6 +231,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0


From 29c26f9ce286aa9d6ec685e1b9f3c0077163c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 20/54] fix: Zig writes string lengths with the string size
 type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 362736d0fa2011c95bbcfd6dfe20faf37b816fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 21/54] fix: Zig supports signed list and string sizes

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..6515dae 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - len_read.bytes_read) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 0a6f423fc4acae77ab51bdf1f71c283ad23ffc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 22/54] fix: Zig unpackMessages returns an error for short
 buffers and oversized counts

---
 beschi/writers/boilerplate/Zig.zig | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 6515dae..1b0b2ec 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,6 +263,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 4) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,7 +276,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From 5d470a148e0378cec1f74a7f28e87b6940a22392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:06 +0000
Subject: [PATCH 23/54] fix: Zig readers free what they allocated when they
 fail

---
 beschi/writers/boilerplate/Zig.zig | 26 ++++++++++++++++++++++++++
 beschi/writers/zig.py              |  6 ++++++
 2 files changed, 32 insertions(+)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 1b0b2ec..c902367 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -61,6 +61,31 @@ fn isValidEnum(comptime Te: type, comptime Ti: type, value: Ti) bool {
     return false;
 }
 
+fn freeValue(comptime T: type, allocator: std.mem.Allocator, value: T) void {
+    if (comptime (T == []u8 or T == []const u8)) {
+        allocator.free(value);
+    }
+    else if (comptime !typeIsSimple(T)) {
+        var to_free = value;
+        to_free.deinit(allocator);
+    }
+}
+
+fn freeList(comptime T: type, allocator: std.mem.Allocator, list: []T) void {
+    for (list) |item| {
+        freeValue(T, allocator, item);
+    }
+    allocator.free(list);
+}
+
+fn freeMessages(allocator: std.mem.Allocator, msg_list: []const Message) void {
+    for (msg_list) |msg| {
+        switch (msg) {
+            inline else => |inner| freeValue(@TypeOf(inner), allocator, inner),
+        }
+    }
+}
+
 pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct { value: T, bytes_read: usize } {
     comptime {
         const actual_type = switch (@typeInfo(T)) {
@@ -278,6 +303,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     }
     const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
     errdefer allocator.free(msg_list);
+    errdefer freeMessages(allocator, msg_list);
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index c59bb01..e89394c 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -56,6 +56,7 @@ class ZigWriter(Writer):
             if var.is_list:
                 self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"errdefer freeList({self.type_mapping[var.vartype]}, allocator, {accessor}_{var.name});")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
@@ -64,10 +65,13 @@ class ZigWriter(Writer):
             elif var.vartype == "string":
                 self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"errdefer allocator.free({accessor}_{var.name});")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             else:
                 self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                if not var.is_simple():
+                    self.write_line(f"errdefer freeValue({var.vartype}, allocator, {accessor}_{var.name});")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
             self.write_line()
@@ -359,6 +363,7 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer freeMessages(allocator, msg_list.items);")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -384,6 +389,7 @@ class ZigWriter(Writer):
                 self.write_line(f"const msg_read = try {mname}.fromBytes(local_offset, buffer);")
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
+                self.write_line(f"errdefer freeValue({mname}, allocator, msg_read.value);")
             self.write_line("local_offset += msg_read.bytes_read;")
             self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
-- 
2.43.0


From 3236414efeee8480bb1d05378ad43f78490f19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 24/54] fix: Go propagates errors when reading nested structs

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..4d3ccc1 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -112,7 +112,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 912d1edcbec244a56785890eba5178330f6511d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 25/54] fix: Go validates enums inside of simple structs

---
 beschi/writers/go.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4d3ccc1..b5d64e5 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -56,6 +56,9 @@ class GoWriter(Writer):
                     return True
         return False
 
+    def var_has_enums(self, var: Variable) -> bool:
+        return var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])
+
     def deserializer(self, var: Variable, accessor: str, by_ref: bool, declare_err: bool):
         if var.is_list:
             self.write_line(f"var {var.name}_Len {self.get_native_list_size()}")
@@ -105,7 +108,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and not self.var_has_enums(var):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From adb003a6d02c57102ef6fd3059daa2cb0b9a4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 26/54] fix: Go returns an error for truncated strings

---
 beschi/writers/boilerplate/Go.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..29a83b4 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,15 +7,19 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
-	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
+		return err
+	}
+	sbytes, err := io.ReadAll(io.LimitReader(data, int64(strLen)))
 	if err != nil {
-		panic(err)
+		return err
+	}
+	if uint64(len(sbytes)) != uint64(strLen) {
+		return io.ErrUnexpectedEOF
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
-- 
2.43.0


From 18a57160f309d8d39288e4765f8c3c3e2b5c0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 27/54] fix: Go UnpackMessages returns an error for short
 buffers

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 29a83b4..1102a51 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -59,7 +59,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From bb78420c775bacb698d3d9c5f7aa7560ad0f0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 28/54] fix: Go ProcessRawBytes reports read errors at message
 boundaries

---
 beschi/writers/go.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index b5d64e5..293d4a3 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -367,6 +367,11 @@ class GoWriter(Writer):
         self.write_line("break")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line("if err != nil {")
+        self.indent_level += 1
+        self.write_line("return nil, fmt.Errorf(\"could not read message type (%w)\", err)")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if msgType == 0 {")
         self.indent_level += 1
         self.write_line("return msgList, nil")
-- 
2.43.0


From d4dabd6db0e35e924560843999181616de44e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 29/54] fix: Rust reader survives string lengths near the end
 of the address space

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..7585489 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        self.current_position.checked_add(size).map_or(false, |end| end <= self.buffer.len())
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 673443801b399acc7dcd456e3da2e1fec6fa2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 30/54] fix: the check for circular references terminates on
 every protocol

---
 beschi/protocol.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..2c1a025 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,15 +239,15 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} is part of a circular reference")
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From 3482b435af746ee445e1d3bae839d01ed6cb36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 31/54] fix: duplicate enum names are rejected

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 2c1a025..50b75a5 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -184,6 +184,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From 162c216bb319a4ff163dd807190bf7194e067508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 32/54] fix: duplicate entry names are rejected in enums with
 explicit values

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 50b75a5..03861e9 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
-- 
2.43.0


From 4b1b97f18870678067c9dc636c6ab9d2fb34069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 33/54] fix: data members named after base types are rejected,
 as documented

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 03861e9..14b87e8 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,8 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From bda716ee2c119cfe747d93b5ea41fa6b844d3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 34/54] fix: --namespace is held to the same rule as the
 namespace of a protocol

---
 beschi/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..e9fab50 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if any(c.isspace() for c in args.namespace):
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From 89ac9c382964372e0a90b854a16d3359875b2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 35/54] fix: embedded protocols cannot end the comment they are
 in

---
 beschi/writer.py             | 7 +++++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..3ce5a11 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -76,6 +76,13 @@ class Writer:
         else:
             print("no file", filename)
 
+    # lines of the protocol file, safe to be put in a block comment
+    def get_embeddable_protocol(self) -> list[str]:
+        text = self.protocol.protocol_string
+        while "*/" in text or "/*" in text:
+            text = TextUtil.replace(text, [("*/", "* /"), ("/*", "/ *")])
+        return text.splitlines()
+
     # actually generate the code
     def generate(self) -> str:
         raise NotImplementedError(f"ERROR: 'generate' function needs to be implemented on {self.__class__.__name__}")
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 0eb0633..ec16e12 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -450,7 +450,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index fd15401..0cf41ba 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -263,7 +263,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 293d4a3..bd80996 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -315,7 +315,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 379dc02..0c94120 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -264,7 +264,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..2a505b5 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index b71f80e..8102029 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -398,7 +398,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 55f13265ba81e066530bc972ca48ddcf1d0a606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 36/54] fix: Go and Rust writers leave the protocol they are
 given unchanged

---
 beschi/writers/go.py   | 2 ++
 beschi/writers/rust.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bd80996..7a7f96f 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 
 from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES
 from ..writer import Writer, TextUtil
@@ -20,6 +21,7 @@ class GoWriter(Writer):
         self.rename = not extra_args["go_no_rename"]
 
         if self.rename:
+            p = copy.deepcopy(p)
             for _, e in p.enums.items():
                 new_vals: dict[str,int] = {}
                 for v, vi in e.values.items():
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 0c94120..8d0ac3b 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 
 from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES
 from ..writer import Writer, TextUtil
@@ -20,6 +21,7 @@ class RustWriter(Writer):
         rename = not extra_args["rust_no_rename"]
 
         if rename:
+            p = copy.deepcopy(p)
             for _, s in p.structs.items():
                 for var in s.members:
                     var.name = TextUtil.convert_to_lower_snake_case(var.name)
-- 
2.43.0


From 416038cbc7d4e2962435ff5b8625d696dd42a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 37/54] fix: TypeScript measures nested lists that share a
 member name

---
 beschi/writers/typescript.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 8102029..b648034 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -186,16 +186,20 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        # nested lists may have the same name, but must not share an index
+                        idx = f"{var.name}_i{accessor.count('[') or ''}"
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{idx}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{idx}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        # nested lists may have the same name, but must not share an index
+                        idx = f"{var_clean}_i{accessor.count('[') or ''}"
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{idx}].")
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
-- 
2.43.0


From 63f6b85a3f2c3b3f690e16dbc1b7e52b7007fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 38/54] fix: Rust list length locals cannot be confused with
 members

---
 beschi/writers/rust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 8d0ac3b..77eaeec 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -47,12 +47,12 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line(f"let _{var.name}_len = reader.read_{self.get_native_list_size()}()?;")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0.._{var.name}_len {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
-- 
2.43.0


From f6242822a7119178e6827639c3cc843aad7b2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 39/54] fix: C survives string and list lengths that wrap
 around

---
 beschi/writers/boilerplate/C.1.h | 2 +-
 beschi/writers/c.py              | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..5ab9247 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -128,7 +128,7 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)*len > (uint64_t)(r->bufferSize - r->position)) {
         return BESCHI_ERR_EOF;
     }
     *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index ec16e12..a4be43f 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -84,6 +84,14 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
+            if self.protocol.list_size_type not in ["byte", "uint16"]:
+                # a corrupt length must not wrap the size of the allocation around
+                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(SIZE_MAX / sizeof({pref}{self.type_mapping[var.vartype]}))) {{")
+                self.indent_level += 1
+                self.write_line(f"{accessor}{var.name}_len = 0;")
+                self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             self.alloc_check_return(var, accessor, var.name)
             if not var.is_simple(True):
-- 
2.43.0


From ddf5709ee42966dc1abff9219c13859d3902c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 40/54] fix: C# does not truncate the length of a string

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0cf41ba..d43073c 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -65,7 +65,7 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
-            self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes(checked((int){var_clean}_Length));")
             self.write_line(f"if ({var_clean}_Buffer.Length < (int){var_clean}_Length)")
             self.write_line("{")
             self.indent_level += 1
-- 
2.43.0


From 06a07ba4d281f1a8e44fc3e14c5ecbf2165aef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 41/54] fix: Go survives list lengths that announce more than
 there is

---
 beschi/writers/go.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 7a7f96f..1f99404 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -69,10 +69,12 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            # grows as it is read, because the announced length may be corrupt
+            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, 0)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
+            self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, *new({self.type_mapping[var.vartype]}))")
             if var.vartype in self.protocol.enums:
                 self.write_line(f"var _{var.name} {var.vartype}")
                 self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &_{var.name}); err != nil {{")
-- 
2.43.0


From b2b0b92ed6cbeea8ef5808e848ca3c2c21d5ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 42/54] fix: C survives lists of empty structs with any size
 type

---
 beschi/writers/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index a4be43f..41584a3 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -86,7 +86,8 @@ class CWriter(Writer):
                 pref = self.prefix
             if self.protocol.list_size_type not in ["byte", "uint16"]:
                 # a corrupt length must not wrap the size of the allocation around
-                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(SIZE_MAX / sizeof({pref}{self.type_mapping[var.vartype]}))) {{")
+                el_size = f"sizeof({pref}{self.type_mapping[var.vartype]})"
+                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(SIZE_MAX / ({el_size} ? {el_size} : 1))) {{")
                 self.indent_level += 1
                 self.write_line(f"{accessor}{var.name}_len = 0;")
                 self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
-- 
2.43.0


From 8cce86cd22065b5f0ed26a4dfdeaf9027e3cf045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 43/54] fix: C length check compiles without warnings for
 unsigned size types

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 41584a3..1df1ee5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -84,7 +84,7 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
-            if self.protocol.list_size_type not in ["byte", "uint16"]:
+            if self.protocol.list_size_type in ["uint64", "int16", "int32", "int64"]:
                 # a corrupt length must not wrap the size of the allocation around
                 el_size = f"sizeof({pref}{self.type_mapping[var.vartype]})"
                 self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(SIZE_MAX / ({el_size} ? {el_size} : 1))) {{")
-- 
2.43.0


From 52c5fb76e1977794b1270425381d33867a583b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:14 +0000
Subject: [PATCH 44/54] fix: C structs without members are standard C

---
 beschi/writers/c.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1df1ee5..7165335 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -242,6 +242,8 @@ class CWriter(Writer):
             else:
                 self.write_line(f".{var.name} = {{")
                 self.indent_level += 1
+                if len(self.protocol.structs[var.vartype].members) == 0:
+                    self.write_line("._empty = 0,")
                 self.gen_default(self.protocol.structs[var.vartype].members)
                 self.indent_level -= 1
                 self.write_line("},")
@@ -310,6 +312,9 @@ class CWriter(Writer):
         self.indent_level += 1
         if sdata.is_message:
             self.write_line(f"{self.prefix}MessageType _mt;")
+        elif len(sdata.members) == 0:
+            # C does not have structs without members
+            self.write_line("uint8_t _empty;")
         for var in sdata.members:
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
@@ -432,7 +437,8 @@ class CWriter(Writer):
         else:
             self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_WriteBytes({self.prefix}DataAccess* w, const {self.prefix}{sname}* src) {{")
         self.indent_level += 1
-        self.write_line(f"{self.prefix}err_t err;")
+        if sdata.is_message or len(sdata.members) > 0:
+            self.write_line(f"{self.prefix}err_t err;")
         if sdata.is_message:
             self.write_line("if (tag) {")
             self.indent_level += 1
-- 
2.43.0


From 2b34f0600d2947fcb017934dfcbd2ddc874a528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 45/54] fix: empty names of members and enum values are refused

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 14b87e8..57d1cfb 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -207,6 +207,8 @@ class Protocol():
             if e.name in self.messages:
                 raise ValueError(f"Enum name cannot shadow message: '{e.name}'")
             for v in e.values.keys():
+                if len(v) == 0:
+                    raise ValueError(f"Enum value name cannot be empty! (in enum '{e.name}')")
                 if v in self.structs:
                     raise ValueError(f"Enum value name cannot shadow struct: '{e.name}.{v}'")
                 if v in self.messages:
@@ -227,6 +229,8 @@ class Protocol():
             if s.is_message and s.name in self.structs:
                 raise ValueError(f"Message name cannot shadow struct: '{s.name}'")
             for var in s.members:
+                if len(var.name) == 0:
+                    raise ValueError(f"Member name cannot be empty! (in '{s.name}')")
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
                 if var.name in RESERVED_WORDS:
-- 
2.43.0


From f009892fd8b6660cf94bd92c3bbe36b0cdc59bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 46/54] fix: a namespace that is not a string is refused

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 57d1cfb..e55dfa9 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -134,6 +134,8 @@ class Protocol():
 
         if "meta" in protocol_data:
             if "namespace" in protocol_data["meta"]:
+                if not type(protocol_data["meta"]["namespace"]) is str:
+                    raise ValueError(f"Namespace is not a string: '{protocol_data['meta']['namespace']}'")
                 if _contains_whitespace(protocol_data["meta"]["namespace"]):
                     raise ValueError(f"Namespace cannot contain whitespace: '{protocol_data['meta']['namespace']}'")
                 self.namespace = protocol_data["meta"]["namespace"]
-- 
2.43.0


From eb5864badf8fae6cce94636e55918e221815b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 47/54] fix: protocols without messages compile in Rust and Zig

---
 beschi/writers/boilerplate/Zig.zig | 10 +++++-----
 beschi/writers/rust.py             |  9 ++++++---
 beschi/writers/zig.py              |  4 ++++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index c902367..d05cd1d 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -80,8 +80,10 @@ fn freeList(comptime T: type, allocator: std.mem.Allocator, list: []T) void {
 
 fn freeMessages(allocator: std.mem.Allocator, msg_list: []const Message) void {
     for (msg_list) |msg| {
-        switch (msg) {
-            inline else => |inner| freeValue(@TypeOf(inner), allocator, inner),
+        if (comptime std.meta.fields(Message).len > 0) {
+            switch (msg) {
+                inline else => |inner| freeValue(@TypeOf(inner), allocator, inner),
+            }
         }
     }
 }
@@ -255,9 +257,7 @@ pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usiz
 }
 
 pub fn writeBytes(m: *const Message, offset: usize, buffer: []u8, tag: bool) usize {
-    switch (m.*) {
-        inline else => |inner| return inner.writeBytes(offset, buffer, tag),
-    }
+    return m.writeBytes(offset, buffer, tag);
 }
 
 pub fn getPackedSize(msg_list: []const Message) usize {
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 77eaeec..54d6db8 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -297,11 +297,14 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
+        # a reference always counts as inhabited, so without messages there
+        #    has to be a match on the (empty) enum itself
+        match_self = "match self {" if len(self.protocol.messages) > 0 else "match *self {"
         self.write_line("impl MessageCodec for Message {")
         self.indent_level += 1
         self.write_line("fn get_message_type(&self) -> MessageType {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(match_self)
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(_) => MessageType::{mname},")
@@ -312,7 +315,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn get_size_in_bytes(&self) -> usize {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(match_self)
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.get_size_in_bytes(),")
@@ -338,7 +341,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn write_bytes(&self, writer: &mut Vec<u8>, tag: bool) {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(match_self)
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.write_bytes(writer, tag),")
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index e89394c..952b069 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -346,6 +346,10 @@ class ZigWriter(Writer):
 
         self.write_line("pub fn writeBytes(self: @This(), offset: usize, buffer: []u8, tag: bool) usize {")
         self.indent_level += 1
+        if len(self.protocol.messages) == 0:
+            self.write_line("_ = offset;")
+            self.write_line("_ = buffer;")
+            self.write_line("_ = tag;")
         self.write_line("return switch (self) {")
         self.indent_level += 1
         for mname in self.protocol.messages:
-- 
2.43.0


From eb87013bc009374c1a9160c1ac1e5682302ae4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 48/54] fix: output that cannot be encoded does not truncate an
 existing file

---
 beschi/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index e9fab50..c5696b9 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -96,6 +96,8 @@ def main():
         print(output)
     else:
         # if there's any problem with creating/writing to this file, just let
-        #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        #    the regular exceptions bubble out (but find out about text that
+        #    cannot be encoded before touching a file that may be there already)
+        output.encode("utf-8")
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
-- 
2.43.0


From 244fd443d2499e68e92b8159316d8b24abbeffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 49/54] fix: C: namespaces containing BESCHI in upper case
 compile

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 7165335..bf39f78 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -57,7 +57,7 @@ class CWriter(Writer):
         self.subs: list[tuple[str,str]] = []
         self.prefix = "beschi_"
         if self.protocol.namespace != None:
-            self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
+            self.subs = [("BESCHI", self.protocol.namespace.upper()), ("beschi", self.protocol.namespace)]
             self.prefix = f"{self.protocol.namespace}_"
 
     def err_check_return(self):
-- 
2.43.0


From b0afcd6cf9b8bab3c181bb4733bcf3952a8e06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 50/54] fix: AssemblyScript: Message.fromBytes passes its
 accessor to the function taking one

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..d6e61ee 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -239,7 +239,7 @@ export abstract class Message {
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
-- 
2.43.0


From d4c66fb6a8441f720737a43423953bbe1b37e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 51/54] fix: AssemblyScript: all declared enum values are
 recognised, and only those

---
 beschi/writers/typescript.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index b648034..8b5fb60 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -48,6 +48,11 @@ class TypeScriptWriter(Writer):
 
         self.is_assembly_script = False
 
+    # condition for the value just read not being one of those in its enum
+    def undeclared(self, var: Variable) -> str:
+        e = self.protocol.enums[var.vartype]
+        return " && ".join(f"_{var.name} != {v}" for v in e.values.values())
+
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
@@ -74,11 +79,11 @@ class TypeScriptWriter(Writer):
                     self.indent_level -= 1
                     self.write_line("}")
                 else:
-                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                    self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}();")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                    self.write_line(f"if ({self.undeclared(var)}) {{")
                     self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                    self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                     self.indent_level -= 1
                     self.write_line("}")
                 self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
@@ -101,11 +106,11 @@ class TypeScriptWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("}")
             else:
-                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}();")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                self.write_line(f"if ({self.undeclared(var)}) {{")
                 self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                 self.indent_level -= 1
                 self.write_line("}")
             self.write_line(f"{accessor}{var.name} = _{var.name};")
@@ -228,7 +233,12 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            # has to differ from all declared values, and fit the i32 that enums are
+            values = set(edata.values.values())
+            unknown = max(values) + 1
+            if unknown > NUMERIC_TYPE_RANGES["int32"][1]:
+                unknown = next(v for v in range(len(values) + 1) if v not in values)
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From 75d8f0a95ec5e41a3f86756d8140fece348bf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 52/54] fix: AssemblyScript: packs of no or one small message
 are not too short

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index d6e61ee..6905c71 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -276,7 +276,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 8) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
-- 
2.43.0


From c34135ff7caf5045d6d50ee9308ddddb77e61418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 53/54] fix: AssemblyScript: packs are unpacked from where the
 DataView begins

---
 beschi/writers/boilerplate/AssemblyScript.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 6905c71..4b47b0e 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -291,8 +291,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
-  const msgList = ProcessRawBytes(dv, msgCount);
+  const msgList = ProcessRawBytesDA(da, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
   }
-- 
2.43.0


From 63f779cce361d3fb9926261c58e7b86c1608126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 54/54] fix: AssemblyScript: negative string lengths are an
 error

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 4b47b0e..359c2a7 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,7 +113,7 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if (len < 0 || this.currentOffset + len > (this.data.byteLength as u32)) {
         this.hasError = true;
         return "";
     }
-- 
2.43.0


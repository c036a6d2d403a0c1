From 6fcf2364e10f3db688f0d3c81d5de32613dc33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 01/61] fix: include string.h in generated C headers, which use
 memcpy and memcmp

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..9599859 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -10,6 +10,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <string.h>
 
 typedef uint8_t beschi_err_t;
 #define BESCHI_ERR_OK  0
-- 
2.43.0


From 63c2155a9bceb2ff200c5bbfd5b5a9fff0ee0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 02/61] fix: do not substitute twice in C when the namespace
 contains BESCHI

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..133c137 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -57,7 +57,7 @@ class CWriter(Writer):
         self.subs: list[tuple[str,str]] = []
         self.prefix = "beschi_"
         if self.protocol.namespace != None:
-            self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
+            self.subs = [("BESCHI", self.protocol.namespace.upper()), ("beschi", self.protocol.namespace)]
             self.prefix = f"{self.protocol.namespace}_"
 
     def err_check_return(self):
-- 
2.43.0


From fd5d21b22e87d78d846e344c30d8f5ff98fc23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 03/61] fix: C lists of strings store element lengths in
 string_size_type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 133c137..f876400 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From 0a794e9c22a590cab8057c5e1a99634aae60761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 04/61] fix: declare C structs before the structs that contain
 them

---
 beschi/writers/c.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index f876400..7ac7aba 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -440,8 +440,18 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        # C needs a struct to be declared before it can be used as a member
+        declared: set[str] = set()
+        def declare_struct(sname: str):
+            if sname in declared:
+                return
+            declared.add(sname)
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    declare_struct(var.vartype)
+            self.gen_struct(sname, self.protocol.structs[sname])
+        for sname in self.protocol.structs:
+            declare_struct(sname)
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From dc24d2825966cf96417ab50516d13c22f19e2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 05/61] fix: structs without members in C99

---
 beschi/writers/c.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 7ac7aba..5ce3670 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -217,6 +217,8 @@ class CWriter(Writer):
             else:
                 self.write_line(f".{var.name} = {{")
                 self.indent_level += 1
+                if len(self.protocol.structs[var.vartype].members) == 0:
+                    self.write_line("._empty = 0,")
                 self.gen_default(self.protocol.structs[var.vartype].members)
                 self.indent_level -= 1
                 self.write_line("},")
@@ -258,6 +260,9 @@ class CWriter(Writer):
         self.indent_level += 1
         if sdata.is_message:
             self.write_line(f"{self.prefix}MessageType _mt;")
+        elif len(sdata.members) == 0:
+            # standard C does not allow structs without members
+            self.write_line("uint8_t _empty;")
         for var in sdata.members:
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
-- 
2.43.0


From a9fea5cbb2c13715c3e3ca7859d266091fc56d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 06/61] fix: C _Create initializes the length members too

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 5ce3670..b3fede8 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -343,9 +343,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From bd967108d4ca3797a91da60a40929fd77fc6661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 07/61] fix: C Cleanup/Destroy do not free the constant behind
 default strings

---
 beschi/writers/boilerplate/C.0.h | 2 ++
 beschi/writers/boilerplate/C.1.h | 2 ++
 beschi/writers/c.py              | 5 +++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 9599859..57531f2 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -31,6 +31,8 @@ typedef struct {
     size_t position;
 } beschi_DataAccess;
 
+extern const char beschi_EmptyString[1];
+
 bool beschi_IsFinished(const beschi_DataAccess *r);
 beschi_err_t beschi_ReadUInt8(beschi_DataAccess *r, uint8_t *ui8);
 beschi_err_t beschi_ReadBool(beschi_DataAccess *r, bool *b);
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..8099681 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,8 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+const char beschi_EmptyString[1] = "";
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index b3fede8..8fdf03a 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -210,7 +210,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = (char*){self.prefix}EmptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -241,7 +241,8 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            # the default value is a constant that was never allocated
+            self.write_line(f"if ({accessor}{var.name} != (char*){self.prefix}EmptyString) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
-- 
2.43.0


From 0d10e5dcad4386c6443a546af1080f9620406acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 08/61] fix: C FromBytes leaves a message that can be cleaned
 up when it fails

---
 beschi/writers/c.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 8fdf03a..650eeb0 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,15 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    # allocating an empty list is allowed to give NULL
+    def alloc_check_return(self, var: Variable, accessor: str, allocated: str):
+        self.write_line(f"if ({accessor}{allocated} == NULL && {accessor}{var.name}_len > 0) {{")
+        self.indent_level += 1
+        self.write_line(f"{accessor}{var.name}_len = 0;")
+        self.write_line(f"return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;")
+        self.indent_level -= 1
+        self.write_line("}")
+
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
@@ -75,11 +84,15 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
-            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            list_size = f"sizeof({pref}{self.type_mapping[var.vartype]}) * (size_t){accessor}{var.name}_len"
+            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC({list_size});")
+            self.alloc_check_return(var, accessor, var.name)
+            if not var.is_simple(True):
+                # so that a partially read list can be cleaned up
+                self.write_line(f"if ({accessor}{var.name} != NULL) {{ memset((void*){accessor}{var.name}, 0, {list_size}); }}")
             if var.vartype == "string":
-                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * (size_t){accessor}{var.name}_len);")
+                self.alloc_check_return(var, accessor, f"{var.name}_els_len")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -369,7 +382,8 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
         if sdata.is_message:
-            self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
+            # start from a state that can be cleaned up if reading fails
+            self.write_line(f"*dst = {self.prefix}{sname}_default;")
         if len(sdata.members) > 0:
             self.write_line(f"{self.prefix}err_t err;")
         [self.deserializer(mem, "dst->") for mem in sdata.members]
-- 
2.43.0


From 41315f55dbbc258741e7a491e79719fd7f7973ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 09/61] fix: C ProcessRawBytes neither hands out a partially
 read message nor loses the list on failure

---
 beschi/writers/c.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 650eeb0..0e99987 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -564,9 +564,9 @@ class CWriter(Writer):
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
         self.write_line("size_t currCapacity = 8;")
+        self.write_line("*len = 0;")
         self.write_line(f"*msgListDst = (void**){self.prefix.upper()}MALLOC(sizeof(void*) * currCapacity);")
         self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
-        self.write_line("*len = 0;")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
@@ -577,12 +577,13 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** biggerList = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (biggerList == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = biggerList;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-        self.write_line(f"{self.prefix}ReadUInt8(r, &msgType);")
+        self.write_line(f"err = {self.prefix}ReadUInt8(r, &msgType);")
         self.err_check_return()
         self.write_line()
         self.write_line("void* out;")
@@ -597,9 +598,14 @@ class CWriter(Writer):
             self.write_line(f"out = {self.prefix.upper()}MALLOC(sizeof({self.prefix}{msg_type}));")
             self.write_line(f"if (out == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             self.write_line(f"err = {self.prefix}{msg_type}_FromBytes(r, ({self.prefix}{msg_type}*)out);")
+            self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
+            self.indent_level += 1
+            self.write_line(f"{self.prefix}{msg_type}_Destroy(({self.prefix}{msg_type}*)out);")
+            self.write_line("return err;")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line("(*msgListDst)[*len] = out;")
             self.write_line("*len += 1;")
-            self.err_check_return()
             self.write_line("break;")
             self.indent_level -= 1
         self.write_line("default:")
-- 
2.43.0


From 779f9352ce45bd43d073575d3c4475e4173ab902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 10/61] fix: C PackMessages writes its header at the writer's
 position, within bounds

---
 beschi/writers/c.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 0e99987..8f25a9c 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -691,7 +691,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -717,7 +722,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
-- 
2.43.0


From ce030adf607f2b87c93aa0d881626df02f995f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/61] fix: C UnpackMessages reads its header at the reader's
 position, within bounds, and releases the list on failure

---
 beschi/writers/c.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 8f25a9c..b8871db 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -733,7 +733,14 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("*msgListOut = NULL;")
+        self.write_line("*len = 0;")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
@@ -744,12 +751,16 @@ class CWriter(Writer):
         self.err_check_return()
         # doing things a little backwards here to let ProcessRawBytes allocate an empty array
         self.write_line(f"err = {self.prefix}ProcessRawBytes(r, (int32_t)msgCount, msgListOut, len);")
-        self.err_check_return()
-        self.write_line("if (len == 0) {")
+        self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
         self.indent_level += 1
-        self.write_line(f"{self.prefix.upper()}FREE(*msgListOut);")
+        self.write_line("if (*msgListOut != NULL) {")
+        self.indent_level += 1
+        self.write_line(f"{self.prefix}DestroyMessageList(*msgListOut, *len);")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("*msgListOut = NULL;")
-        self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
+        self.write_line("*len = 0;")
+        self.write_line("return err;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("if (*len != (size_t)msgCount) {")
-- 
2.43.0


From 8df0d4886ba30cad32f1739825d32c1234136da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 12/61] fix: TypeScript strings and packed messages stay within
 a DataView that has a byte offset

---
 beschi/writers/boilerplate/TypeScript.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..c1d34af 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("String extends past the end of the data");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
@@ -173,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -191,7 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
+  if (da.currentOffset + 4 > da.data.byteLength) {
+    throw new RangeError("Packed message buffer is too short.");
+  }
+  const headerBuffer = new Uint8Array(da.data.buffer, da.data.byteOffset + da.currentOffset, 4);
   da.currentOffset += 4;
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
-- 
2.43.0


From 4bf19117a3e1759296c52092eaa3a92c84ef16ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 13/61] fix: TypeScript does not drop a leading U+FEFF when
 reading strings

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index c1d34af..8ccf3a3 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From 05cfc78e2657ba11afb9caf5ca171a3f69ef5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 14/61] fix: TypeScript size calculation of nested lists with
 the same member name

---
 beschi/writers/typescript.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..f193b89 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -158,7 +158,7 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"if (!{accessor}{var.name}.writeBytes(da)) {{ return false; }};")
 
-    def gen_measurement(self, st: Struct, accessor: str = "") -> tuple[list[str], int]:
+    def gen_measurement(self, st: Struct, accessor: str = "", depth: int = 0) -> tuple[list[str], int]:
         lines: list[str] = []
         accum = 0
 
@@ -177,16 +177,16 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        lines.append(f"for (let {var.name}_i{depth}=0; {var.name}_i{depth} < {accessor}{var.name}.length; {var.name}_i{depth}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i{depth}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i{depth}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        lines.append(f"for (let {var_clean}_i{depth}=0; {var_clean}_i{depth} < {accessor}{var.name}.length; {var_clean}_i{depth}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i{depth}].", depth + 1)
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
@@ -202,7 +202,7 @@ class TypeScriptWriter(Writer):
                         else:
                             lines.append(f"size += String.UTF8.encode({accessor}{var.name}, false).byteLength;")
                     else:
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.", depth)
                         if clines[0] == size_init:
                             clines = clines[1:]
                         lines += clines
-- 
2.43.0


From 0f04022b51ba91a6b57e1ff2cce59eeb00b2f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 15/61] fix: TypeScript list and string sizes of 64 bits

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 8ccf3a3..c54976b 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = Number(this.get{# STRING_SIZE_TYPE #}());
     if (this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("String extends past the end of the data");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# TO_STRING_SIZE_TYPE #}(strBuffer.byteLength));
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index f193b89..b4c0eb9 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -48,15 +48,22 @@ class TypeScriptWriter(Writer):
 
         self.is_assembly_script = False
 
+    # lengths are plain numbers, which 64-bit setters do not take
+    def to_size_type(self, size_type: str) -> str:
+        return "BigInt" if self.type_mapping[size_type] == "bigint" else "Number"
+
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-            if self.is_assembly_script:
+            if not self.is_assembly_script:
+                self.write_line(f"const {var_clean}_Length = Number(da.get{self.base_serializers[self.protocol.list_size_type]}());")
+            else:
+                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            index_type = self.type_mapping[self.protocol.list_size_type] if self.is_assembly_script else "number"
+            self.write_line(f"for (let i{idx}: {index_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +133,7 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({self.to_size_type(self.protocol.list_size_type)}({accessor}{var.name}.length));")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -402,6 +409,7 @@ class TypeScriptWriter(Writer):
 
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
+            ("{# TO_STRING_SIZE_TYPE #}", self.to_size_type(self.protocol.string_size_type)),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
         ])
 
-- 
2.43.0


From 7a71e543639375674b4f3f108e834af066fca70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 16/61] fix: Go reports failures and undeclared enum values
 inside nested structs

---
 beschi/writers/go.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..8edf1aa 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,14 +105,18 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and var.vartype not in self.protocol.structs:
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From d41066f8a0dc13ed23196d3bbba568d8a5bcc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 17/61] fix: Go readString reports truncated data instead of
 panicking

---
 beschi/writers/boilerplate/Go.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..da99b5a 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -8,14 +8,15 @@ import (
 
 func readString(data io.Reader, str *string) error {
 	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
+	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+		return err
+	}
 	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return err
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
-- 
2.43.0


From e58c649226313b8945745d02847c505c1d79d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 18/61] fix: Go UnpackMessages reports a truncated header
 instead of panicking, and reads its count as unsigned

---
 beschi/writers/boilerplate/Go.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index da99b5a..5e9b5c1 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -54,14 +54,13 @@ func PackMessages(msgList []Message, data io.Writer) {
 
 func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
 	}
-	var msgCount int32
+	var msgCount uint32
 	if err := binary.Read(data, binary.LittleEndian, &msgCount); err != nil {
 		return nil, fmt.Errorf("could not read message count (%w)", err)
 	}
-- 
2.43.0


From ccf87c15444df294c6460c055ad52fa821a373c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 19/61] fix: Go ProcessRawBytes reports errors of its reader

---
 beschi/writers/go.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8edf1aa..35ea788 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -364,6 +364,11 @@ class GoWriter(Writer):
         self.write_line("break")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line("if err != nil {")
+        self.indent_level += 1
+        self.write_line("return nil, err")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if msgType == 0 {")
         self.indent_level += 1
         self.write_line("return msgList, nil")
-- 
2.43.0


From f740af8e5a7fcf53d96a7df0b117cc3f27ba2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 20/61] fix: C# size of strings is their UTF-8 size

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From b9649891eb538b9c67c7ec053883059830d45e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 21/61] fix: C# list sizes of uint64

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..21de8f2 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From b3309005422636a5d7179ee2b4297f275c3ab2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 22/61] fix: C# reports truncated strings

---
 beschi/writers/csharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 21de8f2..402a6c6 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -66,6 +66,12 @@ class CSharpWriter(Writer):
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ({var_clean}_Buffer.Length != (int){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From ec35cf26e4b73084e6c4f740ab8541ccd05bd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 23/61] fix: C# locals for list elements do not clash with
 members named el

---
 beschi/writers/csharp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 402a6c6..d7076fc 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -58,9 +58,9 @@ class CSharpWriter(Writer):
                 self.write_line("}")
                 self.write_line(f"{accessor}{var.name}.Add(({var.vartype})_{var.name});")
             else:
-                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} _el", var.vartype)
+                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} {var.name}_Element", var.vartype)
                 self.deserializer(inner, "")
-                self.write_line(f"{accessor}{var.name}.Add(_el);")
+                self.write_line(f"{accessor}{var.name}.Add({var.name}_Element);")
             self.indent_level -= 1
             self.write_line("}")
         elif var.vartype == "string":
@@ -91,10 +91,10 @@ class CSharpWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"bw.Write(({self.get_native_list_size()}){accessor}{var.name}.Count);")
-            self.write_line(f"foreach ({self.type_mapping[var.vartype]} el in {accessor}{var.name})")
+            self.write_line(f"foreach ({self.type_mapping[var.vartype]} {var.name}_Element in {accessor}{var.name})")
             self.write_line("{")
             self.indent_level += 1
-            inner = Variable(self.protocol, "el", var.vartype)
+            inner = Variable(self.protocol, f"{var.name}_Element", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 0c82105b21c2cdee11daa0bae27841f682d9ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 24/61] fix: Rust lists of byte and bool

---
 beschi/writers/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..8783e03 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,7 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums or var.vartype in ['byte', 'bool'] else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 4278fbf6b30371ddae3da1cbd3bc5d99b9d334b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 25/61] fix: Rust list lengths do not shadow a member called
 like the list with _len

---
 beschi/writers/rust.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 8783e03..e45f7e4 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -45,12 +45,11 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0..reader.read_{self.get_native_list_size()}()? {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
-- 
2.43.0


From 391d89b5a3ce6b54d983b62ec6b90f1c4ee72e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 26/61] fix: Rust members named reader

---
 beschi/writers/rust.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index e45f7e4..9739004 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -49,7 +49,7 @@ class RustWriter(Writer):
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..reader.read_{self.get_native_list_size()}()? {{")
+            self.write_line(f"for _ in 0.._reader.read_{self.get_native_list_size()}()? {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
@@ -58,19 +58,19 @@ class RustWriter(Writer):
             self.write_line("}")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             if var.vartype == "byte":
-                self.write_line(f"let {var.name} = reader.take_byte()?;")
+                self.write_line(f"let {var.name} = _reader.take_byte()?;")
             elif var.vartype == "bool":
-                self.write_line(f"let {var.name} = reader.take_byte()? > 0;")
+                self.write_line(f"let {var.name} = _reader.take_byte()? > 0;")
             else:
-                self.write_line(f"let {var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
+                self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[var.vartype]}()?;")
         elif var.vartype == "string":
-            self.write_line(f"let {var.name} = reader.read_string()?;")
+            self.write_line(f"let {var.name} = _reader.read_string()?;")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let {var.name} = reader.read_{self.type_mapping[e.encoding]}()?;")
+            self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[e.encoding]}()?;")
             self.write_line(f"let {var.name} = {var.vartype}::try_from({var.name})?;")
         else:
-            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(reader)?;")
+            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(_reader)?;")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -222,7 +222,7 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
-        self.write_line(f"fn from_bytes({'_' if len(sdata.members) == 0 else ''}reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
+        self.write_line(f"fn from_bytes(_reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
         self.indent_level += 1
         [self.deserializer(mem, "") for mem in sdata.members]
         varnames = [mem.name for mem in sdata.members]
-- 
2.43.0


From e5b4052d908e8186214c5142b963e921f3937c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 27/61] fix: Zig strings are written with the string size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 2b5260b421b21cdb8c88cbf6c9b6a1723ae40e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 28/61] fix: Zig simple structs containing enums or other
 simple structs

---
 beschi/writers/zig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From e209213a66208a9d65f187f3d0a9e29be4d49dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 29/61] fix: Zig signed list and string sizes

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..6515dae 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - len_read.bytes_read) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 1d3e43df189cca3517432df25a628b7c1953d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 30/61] fix: Zig structs without members

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..c59bb01 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -231,6 +231,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0


From b10a999ff306ba3202ba780de48e1948097fc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 31/61] fix: Zig fromBytes releases the members it has read
 when it fails

---
 beschi/writers/zig.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index c59bb01..086ec9e 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -70,6 +70,17 @@ class ZigWriter(Writer):
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
+            if not var.is_simple():
+                self.write_line("errdefer {")
+                self.indent_level += 1
+                if not var.is_list and var.vartype in self.protocol.structs:
+                    self.write_line(f"var {accessor}_{var.name}_partial = {accessor}_{var.name};")
+                    self.destructor(Variable(self.protocol, f"{var.name}_partial", var.vartype), f"{accessor}_")
+                else:
+                    self.destructor(var, f"{accessor}_")
+                self.indent_level -= 1
+                self.write_line("}")
+
             self.write_line()
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
-- 
2.43.0


From 6f895fb9456478f5cae841d3fa79204fbd4b81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 32/61] fix: Zig processRawBytes and unpackMessages release the
 messages they have read when they fail

---
 beschi/writers/boilerplate/Zig.zig |  5 ++++-
 beschi/writers/zig.py              | 23 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 6515dae..ec063c6 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -274,7 +274,10 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
         return allocator.alloc(Message, 0);
     }
     const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
-    errdefer allocator.free(msg_list);
+    errdefer {
+        for (msg_list) |*msg| deinitMessage(allocator, msg);
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 086ec9e..b8a6017 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -366,10 +366,29 @@ class ZigWriter(Writer):
         self.write_line("};")
         self.write_line()
 
+        deinit_messages = [mname for mname, mdata in self.protocol.messages.items() if not mdata.is_simple()]
+        self.write_line("fn deinitMessage(allocator: std.mem.Allocator, msg: *Message) void {")
+        self.indent_level += 1
+        if len(deinit_messages) == 0:
+            self.write_line("_ = allocator;")
+        self.write_line("switch (msg.*) {")
+        self.indent_level += 1
+        for mname in self.protocol.messages:
+            if mname in deinit_messages:
+                self.write_line(f".{mname} => |*m| m.deinit(allocator),")
+            else:
+                self.write_line(f".{mname} => {{}},")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line()
+
         self.write_line("pub fn processRawBytes(allocator: std.mem.Allocator, buffer: []const u8, max: i32) ![]Message {")
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer for (msg_list.items) |*msg| deinitMessage(allocator, msg);")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -396,7 +415,9 @@ class ZigWriter(Writer):
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"var msg = Message{{ .{mname} = msg_read.value }};")
+            self.write_line("errdefer deinitMessage(allocator, &msg);")
+            self.write_line("try msg_list.append(msg);")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From c4460a69d91723438668b6b8aa917478301200be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 33/61] fix: Zig unpackMessages reports a truncated header and
 oversized counts

---
 beschi/writers/boilerplate/Zig.zig | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index ec063c6..bb85d06 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,6 +263,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 4) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,7 +276,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse std.math.maxInt(i32));
     errdefer {
         for (msg_list) |*msg| deinitMessage(allocator, msg);
         allocator.free(msg_list);
-- 
2.43.0


From 77f8f3a2a51513be677c2626f410798de02bc529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 34/61] fix: cycle check visits each struct once, so it
 terminates on cycles it is not part of and on shared structs

---
 beschi/protocol.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..2f1cc64 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,17 +239,15 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered: set[str] = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
-                for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
-                    if cvar.vartype not in self.structs: continue
-                    frontier.append(cvar.vartype)
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} contains itself")
+                if new_type in encountered: continue
+                encountered.add(new_type)
+                frontier += [m.vartype for m in self.structs[new_type].members if m.vartype in self.structs]
 
         [check_for_cycles(s) for s in self.structs.values()]
         [check_for_cycles(m) for m in self.messages.values()]
-- 
2.43.0


From 118df51b02717911b0eb8650880af3e2c246c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 35/61] fix: two enums with the same name are rejected instead
 of the last one silently winning

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 2f1cc64..1dd87da 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -184,6 +184,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From 4634247bf2042a4429fbf7cd6e6f53ae61e0f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 36/61] fix: enum entries given as tables must have distinct
 names

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 1dd87da..b530067 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
-- 
2.43.0


From 88a6ce2361b0eda5b2fec50198f7f53b3c3bfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 37/61] fix: member names that are reserved words, and empty
 member and enum value names, are rejected as documented

---
 beschi/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index b530067..a53269b 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -211,6 +211,8 @@ class Protocol():
                     raise ValueError(f"Enum value name cannot shadow struct: '{e.name}.{v}'")
                 if v in self.messages:
                     raise ValueError(f"Enum value name cannot shadow message: '{e.name}.{v}'")
+                if len(v) == 0:
+                    raise ValueError(f"Enum value name cannot be empty! (enum: {e.name})")
                 if _contains_whitespace(v):
                     raise ValueError(f"Enum value name cannot contain whitespace: '{e.name}.{v}'")
 
@@ -227,8 +229,12 @@ class Protocol():
             if s.is_message and s.name in self.structs:
                 raise ValueError(f"Message name cannot shadow struct: '{s.name}'")
             for var in s.members:
+                if len(var.name) == 0:
+                    raise ValueError(f"Member name cannot be empty! (definition: {s.name})")
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From 5ce8096fad7a75e48aeca3558dc230052bee442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 38/61] fix: a namespace given on the command line cannot
 contain whitespace either

---
 beschi/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..e9fab50 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if any(c.isspace() for c in args.namespace):
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From 0d3d5b77f2a25515a414151cb07344a1a561c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 39/61] fix: output files are UTF-8 whatever the locale, so
 embedding a protocol cannot fail halfway

---
 beschi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index e9fab50..018b15e 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -97,5 +97,5 @@ def main():
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
-- 
2.43.0


From cd7bb84f9103d7db61181efb5b4374d192203295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 40/61] fix: embedded protocol text cannot end or nest the
 comment it is embedded in

---
 beschi/writer.py             | 4 ++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..bdd33c6 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -76,6 +76,10 @@ class Writer:
         else:
             print("no file", filename)
 
+    # lines of the protocol, changed where they would start or end a block comment
+    def protocol_lines_for_comment(self) -> list[str]:
+        return [l.replace("*/", "* /").replace("/*", "/ *") for l in self.protocol.protocol_string.splitlines()]
+
     # actually generate the code
     def generate(self) -> str:
         raise NotImplementedError(f"ERROR: 'generate' function needs to be implemented on {self.__class__.__name__}")
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index b8871db..33a4cc5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -424,7 +424,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index d7076fc..722dda1 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -263,7 +263,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 35ea788..8cb878c 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -312,7 +312,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 9739004..9abade4 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -262,7 +262,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..2e13c9d 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index b4c0eb9..46dff46 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -396,7 +396,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 03673a9d04329654126a11a07067346d32d98cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 41/61] fix: Go package is the namespace as given under
 --go-no-rename

---
 beschi/writers/go.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8cb878c..2ec2838 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -325,6 +325,8 @@ class GoWriter(Writer):
             subs.append(("Beschi", self.protocol.namespace))
             if self.rename:
                 subs.append(("beschi", TextUtil.convert_to_lower_snake_case(self.protocol.namespace)))
+            else:
+                subs.append(("beschi", self.protocol.namespace))
 
         self.add_boilerplate(subs)
         self.write_line()
-- 
2.43.0


From 2020cc9dac718daefc623ce6bef03c158b31047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 42/61] fix: --typescript-use-namespace without a namespace
 does not wrap the code in 'namespace None'

---
 beschi/writers/typescript.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 46dff46..1c8196d 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -403,7 +403,7 @@ class TypeScriptWriter(Writer):
             self.write_line()
             self.write_line()
 
-        if self.use_namespace:
+        if self.use_namespace and self.protocol.namespace:
             self.write_line(f"namespace {self.protocol.namespace} {{")
             self.indent_level += 1
 
@@ -516,7 +516,7 @@ class TypeScriptWriter(Writer):
             self.write_line("]);")
             self.write_line()
 
-        if self.use_namespace:
+        if self.use_namespace and self.protocol.namespace:
             self.indent_level -= 1
             self.write_line("}")
 
-- 
2.43.0


From 2af07c35eb0e8a7107dc89b40ff1528e905095dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 43/61] fix: a namespace that is not a string is rejected
 instead of being written into the code

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index a53269b..2f4bdba 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -134,6 +134,8 @@ class Protocol():
 
         if "meta" in protocol_data:
             if "namespace" in protocol_data["meta"]:
+                if not type(protocol_data["meta"]["namespace"]) is str:
+                    raise TypeError(f"Namespace is not a string: {protocol_data['meta']['namespace']}")
                 if _contains_whitespace(protocol_data["meta"]["namespace"]):
                     raise ValueError(f"Namespace cannot contain whitespace: '{protocol_data['meta']['namespace']}'")
                 self.namespace = protocol_data["meta"]["namespace"]
-- 
2.43.0


From 3d15fcfdd17e2aa17aa928f5132c932792f97540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 44/61] fix: text that cannot be encoded does not leave a
 truncated output file

---
 beschi/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/cli.py b/beschi/cli.py
index 018b15e..1a185fa 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -95,6 +95,7 @@ def main():
     if args.output == None:
         print(output)
     else:
+        output.encode("utf-8") # if this fails, it does so before the file is touched
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
         with open(args.output, "w", encoding="utf-8") as output_file:
-- 
2.43.0


From beeb69ec3a7d13a45035259c1ef9171566269657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 45/61] fix: Rust code for a protocol without messages compiles

---
 beschi/writers/rust.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 9abade4..e43892c 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -293,11 +293,13 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
+        # a reference is never considered empty, even to an enum without variants
+        this = "self" if len(self.protocol.messages) > 0 else "*self"
         self.write_line("impl MessageCodec for Message {")
         self.indent_level += 1
         self.write_line("fn get_message_type(&self) -> MessageType {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {this} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(_) => MessageType::{mname},")
@@ -308,7 +310,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn get_size_in_bytes(&self) -> usize {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {this} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.get_size_in_bytes(),")
@@ -334,7 +336,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn write_bytes(&self, writer: &mut Vec<u8>, tag: bool) {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {this} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.write_bytes(writer, tag),")
-- 
2.43.0


From f8502a109a98486f86662a3022cbedf63f29df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 46/61] fix: Zig code for a protocol without messages compiles

---
 beschi/writers/boilerplate/Zig.zig |  4 +---
 beschi/writers/zig.py              | 32 +++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index bb85d06..ff2ba64 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -230,9 +230,7 @@ pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usiz
 }
 
 pub fn writeBytes(m: *const Message, offset: usize, buffer: []u8, tag: bool) usize {
-    switch (m.*) {
-        inline else => |inner| return inner.writeBytes(offset, buffer, tag),
-    }
+    return m.writeBytes(offset, buffer, tag);
 }
 
 pub fn getPackedSize(msg_list: []const Message) usize {
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index b8a6017..508fce8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -341,24 +341,32 @@ class ZigWriter(Writer):
 
         self.write_line("pub fn getSizeInBytes(self: @This()) usize {")
         self.indent_level += 1
-        self.write_line("return switch (self) {")
-        self.indent_level += 1
-        for mname in self.protocol.messages:
-            self.write_line(f".{mname} => self.{mname}.getSizeInBytes(),")
-        self.indent_level -= 1
-        self.write_line("};")
+        if len(self.protocol.messages) == 0:
+            self.write_line("_ = self;")
+            self.write_line("unreachable;")
+        else:
+            self.write_line("return switch (self) {")
+            self.indent_level += 1
+            for mname in self.protocol.messages:
+                self.write_line(f".{mname} => self.{mname}.getSizeInBytes(),")
+            self.indent_level -= 1
+            self.write_line("};")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
 
         self.write_line("pub fn writeBytes(self: @This(), offset: usize, buffer: []u8, tag: bool) usize {")
         self.indent_level += 1
-        self.write_line("return switch (self) {")
-        self.indent_level += 1
-        for mname in self.protocol.messages:
-            self.write_line(f".{mname} => self.{mname}.writeBytes(offset, buffer, tag),")
-        self.indent_level -= 1
-        self.write_line("};")
+        if len(self.protocol.messages) == 0:
+            self.write_line("_ = .{ self, offset, buffer, tag };")
+            self.write_line("unreachable;")
+        else:
+            self.write_line("return switch (self) {")
+            self.indent_level += 1
+            for mname in self.protocol.messages:
+                self.write_line(f".{mname} => self.{mname}.writeBytes(offset, buffer, tag),")
+            self.indent_level -= 1
+            self.write_line("};")
         self.indent_level -= 1
         self.write_line("}")
 
-- 
2.43.0


From f3fa4465e0317aeb6a257f8bd36d633eb44964c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 47/61] fix: a byte order mark in an embedded protocol does not
 break Go code

---
 beschi/writers/go.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 2ec2838..8889094 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -312,7 +312,8 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(l) for l in self.protocol_lines_for_comment()]
+            # Go does not allow byte order marks within a file, not even in comments
+            [self.write_line(l.replace("\ufeff", "")) for l in self.protocol_lines_for_comment()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 910d9cc6c53bf2ee70ab5b6e1dea55b5ac0b79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 48/61] fix: C rejects list and string lengths beyond the end
 of the buffer before computing with them

---
 beschi/writers/boilerplate/C.1.h |  2 +-
 beschi/writers/c.py              | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index 8099681..ec8c80e 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -130,7 +130,7 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)*len > (uint64_t)(r->bufferSize - r->position)) {
         return BESCHI_ERR_EOF;
     }
     *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 33a4cc5..68b1dce 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,21 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    # a list cannot have more elements than there are bytes left (unless its elements take no space)
+    def list_length_check_return(self, var: Variable, accessor: str):
+        length = f"{accessor}{var.name}_len"
+        if not var.is_simple(True) or self.protocol.get_size_of(var.vartype) > 0:
+            self.write_line(f"if ((uint64_t){length} > (uint64_t)(r->bufferSize - r->position)) {{")
+        elif self.protocol.list_size_type.startswith("int"):
+            self.write_line(f"if ({length} < 0) {{")
+        else:
+            return
+        self.indent_level += 1
+        self.write_line(f"{length} = 0;")
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+
     # allocating an empty list is allowed to give NULL
     def alloc_check_return(self, var: Variable, accessor: str, allocated: str):
         self.write_line(f"if ({accessor}{allocated} == NULL && {accessor}{var.name}_len > 0) {{")
@@ -80,6 +95,7 @@ class CWriter(Writer):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
+            self.list_length_check_return(var, accessor)
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                 pref = ""
             else:
-- 
2.43.0


From 49c33f2d1761f0d8f567d33425bb0675df86b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 49/61] fix: Go takes no allocation on the word of a length
 prefix and rejects negative lengths

---
 beschi/writers/boilerplate/Go.go | 15 +++++++++++----
 beschi/writers/go.py             | 12 ++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 5e9b5c1..0ccf56b 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,14 +7,21 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
 		return err
 	}
-	sbytes := make([]byte, len)
-	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+	if int64(strLen) < 0 {
+		return fmt.Errorf("invalid string length %d", strLen)
+	}
+	// the length is not trusted with an allocation until the bytes are there
+	sbytes, err := io.ReadAll(io.LimitReader(data, int64(strLen)))
+	if err != nil {
 		return err
 	}
+	if int64(len(sbytes)) != int64(strLen) {
+		return io.ErrUnexpectedEOF
+	}
 	*str = string(sbytes)
 	return nil
 }
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8889094..f72cffb 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,7 +64,14 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_Len < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"invalid length %d for {accessor}.{var.name}\", {var.name}_Len)")
+                self.indent_level -= 1
+                self.write_line("}")
+            # the length is not trusted with an allocation; elements are added as they are read
+            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, 0)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
@@ -80,8 +87,9 @@ class GoWriter(Writer):
                 self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"enum %d out of range for {var.vartype}\", _{var.name})")
                 self.indent_level -= 1
                 self.write_line("}")
-                self.write_line(f"{accessor}.{var.name}[i{idx}] = _{var.name}")
+                self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, _{var.name})")
             else:
+                self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, *new({self.type_mapping[var.vartype]}))")
                 inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
                 self.deserializer(inner, accessor, by_ref, declare_err)
             self.indent_level -= 1
-- 
2.43.0


From 94d4d921634265c6543a585ebb5b2e565486c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 50/61] fix: C# rejects string lengths it cannot hold and
 negative list lengths

---
 beschi/writers/csharp.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 722dda1..51aa4a6 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -38,10 +38,20 @@ class CSharpWriter(Writer):
             "double": "ReadDouble",
         }
 
+    def length_check(self, kind: str, length: str, size_type: str):
+        if size_type.startswith("int"):
+            self.write_line(f"if ({length} < 0)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line(f"throw new DataReadErrorException(String.Format(\"Invalid {kind} length {{0}}\", {length}));")
+            self.indent_level -= 1
+            self.write_line("}")
+
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_"), (" ", "_")])
         if var.is_list:
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
+            self.length_check("list", f"{var_clean}_Length", self.protocol.list_size_type)
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
@@ -65,6 +75,14 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
+            self.length_check("string", f"{var_clean}_Length", self.protocol.string_size_type)
+            if NUMERIC_TYPE_SIZES[self.protocol.string_size_type] >= 4:
+                self.write_line(f"if ((ulong){var_clean}_Length > (ulong)(br.BaseStream.CanSeek ? br.BaseStream.Length - br.BaseStream.Position : int.MaxValue))")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line("throw new System.IO.EndOfStreamException();")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
             self.write_line(f"if ({var_clean}_Buffer.Length != (int){var_clean}_Length)")
             self.write_line("{")
-- 
2.43.0


From 5041bc033e41df7caaf7b02ccbe198b767f4caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 51/61] fix: Rust rejects negative list lengths, and lengths
 whose end overflows

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 beschi/writers/rust.py             | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..a9cf224 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        size <= self.buffer.len().saturating_sub(self.current_position)
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index e43892c..bbb3f6c 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -49,7 +49,10 @@ class RustWriter(Writer):
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0.._reader.read_{self.get_native_list_size()}()? {{")
+            read_length = f"_reader.read_{self.get_native_list_size()}()"
+            if self.protocol.list_size_type.startswith("int"):
+                read_length += f".and_then(|n| if n < 0 {{ Err({self.prefix}Error::InvalidData) }} else {{ Ok(n) }})"
+            self.write_line(f"for _ in 0..{read_length}? {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
-- 
2.43.0


From f8e96a2941097a5b45eda177b5ca0815a721e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 52/61] fix: AssemblyScript reads every declared enum value,
 and undeclared ones as _Unknown

---
 beschi/writers/typescript.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 1c8196d..e662fe1 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -75,11 +75,11 @@ class TypeScriptWriter(Writer):
                     self.indent_level -= 1
                     self.write_line("}")
                 else:
-                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                    self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}() as i32;")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                    self.write_line(f"if ({' && '.join(f'_{var.name} != {v}' for v in e.values.values())}) {{")
                     self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                    self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                     self.indent_level -= 1
                     self.write_line("}")
                 self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
@@ -102,11 +102,11 @@ class TypeScriptWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("}")
             else:
-                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}() as i32;")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                self.write_line(f"if ({' && '.join(f'_{var.name} != {v}' for v in e.values.values())}) {{")
                 self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                 self.indent_level -= 1
                 self.write_line("}")
             self.write_line(f"{accessor}{var.name} = _{var.name};")
@@ -222,7 +222,11 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            # a number that none of the values has
+            unknown = max(edata.values.values()) + 1
+            while unknown > NUMERIC_TYPE_RANGES["int32"][1] or unknown in edata.values.values():
+                unknown -= 1
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From cee7fbc05c43fe0406bf21509297afd79ad76a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 53/61] fix: AssemblyScript unpacks empty containers and from
 views with an offset

---
 beschi/writers/boilerplate/AssemblyScript.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..2cf27f1 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -276,7 +276,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 8) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
@@ -291,7 +291,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
+  const dv = new DataView(data.buffer, data.byteOffset + da.currentOffset, data.byteLength - da.currentOffset);
   const msgList = ProcessRawBytes(dv, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
-- 
2.43.0


From ae9d7dca46390351450908d8b3ee57d7b7a4bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 54/61] fix: AssemblyScript rejects lengths it cannot hold
 instead of aborting, and compiles with 64-bit size types

---
 beschi/writers/boilerplate/AssemblyScript.ts |  4 ++--
 beschi/writers/typescript.py                 | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 2cf27f1..58ada2e 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,11 +113,11 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if ((len as u64) > (this.data.byteLength as u64) - (this.currentOffset as u64)) {
         this.hasError = true;
         return "";
     }
-    const strBuffer = new Uint8Array(len);
+    const strBuffer = new Uint8Array(len as i32);
     for (let i = 0; i < strBuffer.byteLength; i++) {
         strBuffer[i] = this.getByte();
     }
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index e662fe1..7a313d2 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -58,11 +58,13 @@ class TypeScriptWriter(Writer):
             if not self.is_assembly_script:
                 self.write_line(f"const {var_clean}_Length = Number(da.get{self.base_serializers[self.protocol.list_size_type]}());")
             else:
-                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-                self.write_line("if (da.hasError) { return null; }")
-            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
+                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}() as i64;")
+                self.write_line(f"if (da.hasError || {var_clean}_Length < 0) {{ return null; }}")
+            # AssemblyScript would abort on a length it cannot allocate; its arrays grow as elements are set
+            initial_length = "0" if self.is_assembly_script else f"{var_clean}_Length"
+            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({initial_length});")
             idx = self.indent_level
-            index_type = self.type_mapping[self.protocol.list_size_type] if self.is_assembly_script else "number"
+            index_type = "i32" if self.is_assembly_script else "number"
             self.write_line(f"for (let i{idx}: {index_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 40be253d58ccd25cbf299199092fc94058ccfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:48 +0000
Subject: [PATCH 55/61] fix: AssemblyScript's Message.fromBytesDA reads through
 the DataAccess it is given

---
 beschi/writers/boilerplate/AssemblyScript.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 58ada2e..c390738 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -235,11 +235,11 @@ export abstract class Message {
 
   static fromBytes(data: DataView): Message | null {
     const da = new DataAccess(data);
-    return this.fromBytesDA(da);
+    return Message.fromBytesDA(da);
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
-- 
2.43.0


From 5eb8b3c8a79053d562031d4c0c7657b178beebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:18 +0000
Subject: [PATCH 56/61] fix: Swift reads strings and packed messages from a
 slice of a Data

---
 beschi/writers/boilerplate/Swift.0.swift | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 1fb74e7..50a0cb2 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -140,7 +140,8 @@ class DataReader {
         if (self.data.count < self.currentOffset + stringLength) {
             throw DataReaderError.EOF
         }
-        let stringData = self.data[self.currentOffset..<(self.currentOffset+stringLength)]
+        let stringStart = self.data.startIndex + self.currentOffset
+        let stringData = self.data[stringStart..<(stringStart+stringLength)]
         guard
             let ret = String(data: stringData, encoding: String.Encoding.utf8)
         else {
@@ -248,7 +249,7 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
-        let headerBytes = dataReader.data[dataReader.currentOffset..<dataReader.currentOffset+4];
+        let headerBytes = data[data.startIndex..<data.startIndex+4];
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
         else {
@@ -262,7 +263,7 @@ public class Message {
         if msgCount == 0 {
             return [Message]()
         }
-        let listData = data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
+        let listData = data.subdata(in: (data.startIndex + dataReader.currentOffset)..<data.endIndex)
         let msgList: [Message] = try ProcessRawBytes(listData, max: Int(msgCount))
         if msgList.count == 0 {
             throw DataReaderError.InvalidData
-- 
2.43.0


From c4a1ddde4127f798f52cb6fabae91c93d82cc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:18 +0000
Subject: [PATCH 57/61] fix: Swift throws on packed data shorter than its
 header

---
 beschi/writers/boilerplate/Swift.0.swift | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 50a0cb2..c727bd4 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -249,6 +249,9 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
+        if data.count < 4 {
+            throw DataReaderError.EOF
+        }
         let headerBytes = data[data.startIndex..<data.startIndex+4];
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
-- 
2.43.0


From 07854c657aa7be727bdd706bcc163bc20364b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:18 +0000
Subject: [PATCH 58/61] fix: Swift throws on a negative or huge string length

---
 beschi/writers/boilerplate/Swift.0.swift | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index c727bd4..6bcafa3 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -136,8 +136,11 @@ class DataReader {
     }
 
     func GetString() throws -> String {
-        let stringLength = try Int(self.Get{# STRING_SIZE_TYPE #}())
-        if (self.data.count < self.currentOffset + stringLength) {
+        guard
+            let stringLength = try Int(exactly: self.Get{# STRING_SIZE_TYPE #}()),
+            stringLength >= 0,
+            stringLength <= self.data.count - self.currentOffset
+        else {
             throw DataReaderError.EOF
         }
         let stringStart = self.data.startIndex + self.currentOffset
-- 
2.43.0


From c2743d8f18523f21557c04265d7860d8727909e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:18 +0000
Subject: [PATCH 59/61] fix: Swift throws on a negative list length

---
 beschi/writers/swift.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 2e13c9d..f138872 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -43,6 +43,12 @@ class SwiftWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_Length = try dataReader.Get{self.get_native_list_size()}()")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_Length < 0 {{")
+                self.indent_level += 1
+                self.write_line("throw DataReaderError.InvalidData")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = []")
             self.write_line(f"for _ in 0..<{var.name}_Length {{")
             self.indent_level += 1
-- 
2.43.0


From 74672261a66a0dd9ec4901fbc59e1bc8b6446609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 60/61] fix: Swift code builds for an enum member named like
 another with Read after it

---
 beschi/writers/swift.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index f138872..2531a58 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -54,8 +54,7 @@ class SwiftWriter(Writer):
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
-                self.write_line(f"let _{var.name}Read = try dataReader.Get{self.type_mapping[e.encoding]}()")
-                self.write_line(f"guard let _{var.name}_el = {var.vartype}(rawValue: _{var.name}Read) else {{")
+                self.write_line(f"guard let _{var.name}_el = try {var.vartype}(rawValue: dataReader.Get{self.type_mapping[e.encoding]}()) else {{")
                 self.indent_level += 1
                 self.write_line("throw DataReaderError.InvalidData")
                 self.indent_level -= 1
@@ -70,8 +69,7 @@ class SwiftWriter(Writer):
             self.write_line(f"{accessor}{var.name} = try dataReader.Get{self.type_mapping[var.vartype]}()")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let _{var.name}Read = try dataReader.Get{self.type_mapping[e.encoding]}()")
-            self.write_line(f"guard let _{var.name} = {var.vartype}(rawValue: _{var.name}Read) else {{")
+            self.write_line(f"guard let _{var.name} = try {var.vartype}(rawValue: dataReader.Get{self.type_mapping[e.encoding]}()) else {{")
             self.indent_level += 1
             self.write_line("throw DataReaderError.InvalidData")
             self.indent_level -= 1
-- 
2.43.0


From 8b7d495c5314010580567dd2c2f092ff2b58a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 61/61] fix: Swift code builds when the namespace has the name
 of a message

---
 beschi/writers/swift.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 2531a58..01c4d9e 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -289,16 +289,13 @@ class SwiftWriter(Writer):
         self.write_line("let dr = DataReader(fromData: data)")
         self.write_line("while !dr.IsFinished() && (max < 0 || msgList.count < max) {")
         self.indent_level += 1
-        accessor = ""
-        if self.protocol.namespace != None:
-            accessor = f"{self.protocol.namespace}."
         self.write_line(f"let msgTypeByte = try dr.GetUInt8()")
         self.write_line("if msgTypeByte == 0 {")
         self.indent_level += 1
         self.write_line("return msgList")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"guard let msgType = {accessor}MessageType(rawValue: msgTypeByte)")
+        self.write_line(f"guard let msgType = MessageType(rawValue: msgTypeByte)")
         self.write_line("else {")
         self.indent_level += 1
         self.write_line("throw DataReaderError.InvalidData")
@@ -307,12 +304,12 @@ class SwiftWriter(Writer):
         self.write_line("switch msgType {")
         self.indent_level += 1
         for msg_type in self.protocol.messages:
-            self.write_line(f"case {accessor}MessageType.{msg_type}Type:")
+            self.write_line(f"case MessageType.{msg_type}Type:")
             self.indent_level += 1
             self.write_line(f"msgList.append(try {msg_type}.FromBytes(dataReader: dr))")
             self.indent_level -= 1
         if len(self.protocol.messages) == 0:
-            self.write_line(f"case {accessor}MessageType.__NullMessage:")
+            self.write_line(f"case MessageType.__NullMessage:")
             self.indent_level += 1
             self.write_line(f"break")
             self.indent_level -= 1
-- 
2.43.0


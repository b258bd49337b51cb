From 46a55b5b397aeec674ee034a582084fb11134776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:03 +0000
Subject: [PATCH 01/45] fix: bitstring ~ returns a new value instead of
 inverting its operand

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..bcaf0a7 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From e80a9608d5e8ad35106baed70ae8c06e881c4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:16 +0000
Subject: [PATCH 02/45] fix: bitstring.signed no longer inverts the bit string
 it reads

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index bcaf0a7..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From eab34fb34eedcece434694045f02a7517c3ae6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:27 +0000
Subject: [PATCH 03/45] fix: bitstring truth is its value on Python 3 as well

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From 4460688483338a287b1cea5949c83ed5286dd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/45] fix: bitstring(2**32) gets 64 bits instead of losing
 its top bit

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..d978a83 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From 49e40c412b142a9d88c384638b908df1855cfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 05/45] fix: bitstring built from a bytearray reads it as
 little-endian bytes

---
 cmdis/bitstring.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d978a83..0464a7a 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
             # Little endian byte array.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 270f9b78b303564c05559fd1f586dd5756a0f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:59 +0000
Subject: [PATCH 06/45] fix: bitstring accepts empty text and empty sequences

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 0464a7a..11f1ceb 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array.
             self._width = len(val) * 8
@@ -49,7 +49,7 @@ class bitstring(object):
             # Iterable.
             # TODO support iterables of '0','1' as well as ints
             self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 2e5119aa3312eda94b3043adc0c7218ea7771008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:10 +0000
Subject: [PATCH 07/45] fix: bitstring != and > and >= work with unrelated
 types

---
 cmdis/bitstring.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 11f1ceb..f68adf1 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -180,10 +181,12 @@ class bitstring(object):
         return self.__eq__(other) or self.__lt__(other)
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From 7c0eeca5e3a5976d72ec505c1c9cff17b61f224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 08/45] fix: appending a bitstring to itself in place doubles
 it

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index f68adf1..5d3b303 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -479,9 +479,9 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            self._value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From d02998d2456b7511ad9e5a38f4688a0b292c1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:31 +0000
Subject: [PATCH 09/45] fix: bitstring slice assignment from itself, of wide
 integers and to empty slices

---
 cmdis/bitstring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 5d3b303..53f2715 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -263,15 +263,15 @@ class bitstring(object):
             start, stop, step = key.indices(self._width)
             if step != 1:
                 raise ValueError("cannot set slice with step != 1")
+            size = max(stop - start, 0)
             if isinstance(value, six.integer_types):
-                value = bitstring(value)
+                value = bitstring(value, size)
             elif isinstance(value, six.string_types):
                 value = bitstring(value)
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
-            mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            mask = (((1 << size) - 1) << start)
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From f93e6c0c0862cadbb9e98617a5f424152c368598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 10/45] fix: assigning to a bit below the first raises
 IndexError

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 53f2715..9540c6c 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -276,7 +276,7 @@ class bitstring(object):
 
         if not isinstance(key, six.integer_types):
             raise TypeError("index must be an integer")
-        if key >= self._width:
+        if not -self._width <= key < self._width:
             raise IndexError("index out of range")
         if isinstance(value, bitstring):
             if value.width != 1:
-- 
2.43.0


From c490e44e0af1ca10f3e8a269ab2cda54df01a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 11/45] fix: ASR by 0 returns its operand instead of an
 undefined name

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From c175dd297f79d6d27b3e1e6b1073b803bee808b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 12/45] fix: undefined instructions raise
 UndefinedInstructionError and leave the decoder tree alone

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..4329047 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -171,7 +171,7 @@ class DecoderTree(object):
         for k, subdecoders in children.items():
             children[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=dict(children))
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 84f35b359754805624d927d32da9dc28b52e371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 13/45] fix: decoding fewer than two bytes raises
 UndefinedInstructionError

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 4329047..024c35c 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From bf48289738c53a4a9cb4c254a07f36014bf3634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:04 +0000
Subject: [PATCH 14/45] fix: encoding patterns keep the character after a
 fixed-value field

---
 cmdis/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 024c35c..bb35a40 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -381,7 +381,9 @@ def parse_spec(spec):
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
+                # Back up to handle this character in the default state.
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 0f24104f6d49fb8cca8f1d5c5c5fcf65de64bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 15/45] fix: mvn.w uses its own fields when executed

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..d7f6a58 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From e27f6c93361c1ef954e6915d4d6bc62789121632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:39 +0000
Subject: [PATCH 16/45] fix: push.w decodes its register list

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index d7f6a58..e1272eb 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 5ba263f5bffb1be1a1d4ea047d25b19185f9bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 17/45] fix: register cmp and cmn compare with Rm

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e1272eb..c805948 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From 28d7412ec200bf4155820c783e1993b9682c7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 18/45] fix: blx lr reads its target before it writes lr

---
 cmdis/instructions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c805948..16dbf7a 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,17 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From b154f688bec016e6682b54240af1fa9940dc83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:14 +0000
Subject: [PATCH 19/45] fix: add and mov to pc and ldr.w to pc branch instead
 of also adding the size

---
 cmdis/instructions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 16dbf7a..00d53a3 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -73,6 +73,9 @@ class AddSub(DataProcessing):
             result, carry, overflow = AddWithCarry(cpu.r[self.n],
                 self.imm32 if hasattr(self, 'imm32') else cpu.r[self.m],
                 cpu.apsr.c if self.use_carry else bit0)
+        if self.d == 15: # pc
+            cpu.pc = result & ~1
+            return
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, overflow)
         super(AddSub, self)._eval(cpu)
@@ -366,6 +369,9 @@ class Move(DataProcessing):
             result = self.imm32
         if self.negate:
             result = ~result
+        if self.d == 15: # pc
+            cpu.pc = result & ~1
+            return
         cpu.r[self.d] = result
         self._set_flags(cpu, result, cpu.apsr.c, None)
         cpu.pc += self.size
@@ -630,6 +636,9 @@ class Load(Instruction):
             data = data.sign_extend(32)
         else:
             data = data.zero_extend(32)
+        if self.t == 15: # pc
+            cpu.pc = data & ~1
+            return
         cpu.r[self.t] = data
         cpu.pc += self.size
 
-- 
2.43.0


From 6027d945adc498ce9e3716e2e5a57506ae37da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 20/45] fix: byte and halfword register loads to pc are not
 loads

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 00d53a3..411a001 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -691,6 +691,8 @@ def ldr_str_reg_t2(i, Rn, Rt, imm2, Rm):
     i.m = Rm.unsigned
     if i.n == 15:
         raise DecodeError()
+    if i.t == 15 and isinstance(i, Load) and i.memsize != 32:
+        raise DecodeError() # preload hints
     i.index = True
     i.add = True
     i.wback = False
-- 
2.43.0


From 60474007802a71863b6c402a41fcddaa9be21495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 21/45] fix: adr labels are relative to the aligned pc, may be
 negative, and label addresses wrap

---
 cmdis/formatter.py    | 9 ++++++---
 cmdis/instructions.py | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..84760df 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -80,15 +80,18 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, alignment=1):
         self._offset = offset
+        self._alignment = alignment
 
     def format(self, formatter):
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        address = formatter.instruction.address
+        target = ((address + 4) & ~(self._alignment - 1)) + self._offset
+        comment = "0x%x" % (target & 0xffffffff)
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (target - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 411a001..eac7169 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -270,14 +270,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, alignment=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, alignment=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From 4756c61ef046ef350a64fd40ab7b1b8ab0d425ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:50 +0000
Subject: [PATCH 22/45] fix: movs.w with a rotated immediate sets the carry
 flag

---
 cmdis/instructions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index eac7169..96c643f 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -362,10 +362,13 @@ class Move(DataProcessing):
         self.negate = False
 
     def _eval(self, cpu):
+        carry = cpu.apsr.c
         if hasattr(self, 'm'):
             result = cpu.r[self.m]
             if self.m == 15: # pc
                 self.setflags = SetFlags.Never
+        elif hasattr(self, 'imm12'):
+            result, carry = ThumbExpandImm_C(self.imm12, carry)
         else:
             result = self.imm32
         if self.negate:
@@ -374,7 +377,7 @@ class Move(DataProcessing):
             cpu.pc = result & ~1
             return
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, carry, None)
         cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -412,7 +415,8 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    i.imm12 = im % imm3 % imm8
+    i.imm32 = ThumbExpandImm(i.imm12)
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From 9172b59d7e4e354eaa2a0cb3a461eabfd903e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:00 +0000
Subject: [PATCH 23/45] fix: mrs reads the flags from xpsr

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 96c643f..3545703 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -954,9 +954,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From c07a671148d1edba74e209e08df33f2e6d50d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:14 +0000
Subject: [PATCH 24/45] fix: ipsr is the low nine bits of xpsr

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..bab1a17 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From 867edddc5d31b49e835f113beb6ac9677bfaf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 25/45] fix: handler mode is privileged

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index bab1a17..1566aa1 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -196,7 +196,7 @@ class CpuModel(object):
 
     @property
     def is_privileged(self):
-        return self.control[self.nPRIV] == '0'
+        return self._mode == CpuMode.Handler or self.control[self.nPRIV] == '0'
 
     @property
     def xpsr(self):
-- 
2.43.0


From efae6ef338db617de70b6a174bab22ea04b01694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:37 +0000
Subject: [PATCH 26/45] fix: cps has no effect when unprivileged

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 3545703..0e82a32 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -914,8 +914,9 @@ def ldm_t2(i, W, Rn, P, M, reglist):
 
 class ChangeProcessorState(Instruction):
     def _eval(self, cpu):
-        # TODO if privileged
-        if self.enable:
+        if not cpu.is_privileged:
+            pass
+        elif self.enable:
             if self.affectPri:
                 cpu.write_register(CORE_REGISTER['primask'], 0)
             if self.affectFault:
-- 
2.43.0


From 7fc59bb88807bda64e02860eea57f28e60ebc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 27/45] fix: register views check their bounds once and reject
 negative indexes

---
 cmdis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 1566aa1..cd9cca3 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From cacd2db1d6ba9699143914558b9e6f8ea9dbb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 28/45] fix: registers always read as 32 bits

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index cd9cca3..88dabb4 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -225,7 +225,7 @@ class CpuModel(object):
     def read_register(self, reg):
         reg = register_name_to_index(reg)
         if self._delegate is not None:
-            return bitstring(self._delegate.read_register(reg))
+            return bitstring(self._delegate.read_register(reg), 32)
 
     def write_register(self, reg, value):
         reg = register_name_to_index(reg)
-- 
2.43.0


From 247e23b8c950143aae630ca264c8b3a4ff3f0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 29/45] fix: simulated stack pointer follows CONTROL bit 1

---
 cmdis/mock_cpu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..8215cc3 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
@@ -57,6 +57,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
                 (reg == CORE_REGISTER['psp'] and spsel == 1):
             self._regs[CORE_REGISTER['sp']] = value
+        elif reg == CORE_REGISTER['control']:
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 58f9c6dc122e5d4647b6d1714978a9fe2caea060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:10 +0000
Subject: [PATCH 30/45] fix: simulated memory accesses stay within their region

---
 cmdis/mock_cpu.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 8215cc3..6416df6 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -60,14 +60,14 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif reg == CORE_REGISTER['control']:
             self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
-    def _find_mem(self, addr):
+    def _find_mem(self, addr, length=1):
         for m in self._mem:
-            if m.start <= addr <= m.end:
+            if m.start <= addr and addr + length - 1 <= m.end:
                 return m, addr - m.start
         return None, 0
 
     def read_memory(self, addr, size=32):
-        mem, offset = self._find_mem(addr)
+        mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
                 return mem.data[offset:offset+1]
@@ -78,7 +78,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return 0
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
+        mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
                 mem.data[offset:offset+1] = [value]
@@ -90,6 +90,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
+            data = data[:len(mem.data) - offset]
             mem.data[offset:offset+len(data)] = data
 
     def read_memory_block(self, addr, length):
-- 
2.43.0


From 7de8e691818d20a642cd7c528f4b2f4a55a5f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 31/45] fix: simulated byte accesses read and write one integer

---
 cmdis/mock_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6416df6..fc4b051 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -70,7 +70,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
-                return mem.data[offset:offset+1]
+                return mem.data[offset]
             elif size == 16:
                 return bytes_to_le16(mem.data[offset:offset+2])
             elif size == 32:
@@ -81,7 +81,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
-                mem.data[offset:offset+1] = [value]
+                mem.data[offset] = value & 0xff
             elif size == 16:
                 mem.data[offset:offset+2] = le16_to_bytes(value)
             elif size == 32:
-- 
2.43.0


From 5bc766bbdecf58b31cb2347af95324dd57265bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:32 +0000
Subject: [PATCH 32/45] fix: msr to all flag bits prints its mask suffix

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 84760df..8ecc66c 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -151,7 +151,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -174,7 +174,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 1cacf241b06d189776803bd91777ed608f7b10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:44 +0000
Subject: [PATCH 33/45] fix: bit field helpers accept lsb 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..de6c8cc 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From b327aeaf0d6da2dbc28aa7985ce6a9fe9624361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 34/45] fix: byteListToU32leList divides its length as an
 integer

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index de6c8cc..66df0ad 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -49,7 +49,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From fee8ef53a6d64a9e7705ab68223fc0771ca7a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 35/45] fix: import struct for the float conversions

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 66df0ad..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From 89442a615570c97760096b05ba2e16237d6b02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 36/45] fix: console writes accept halfword and word values
 above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..1a3b5ba 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From f42a3da8aec091af53e83e451c0f992af540fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:23 +0000
Subject: [PATCH 37/45] fix: console reset command takes one argument list

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 1a3b5ba..abf9db1 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 22a79ca426b45df39fc45561e46ed14c1e644834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:34 +0000
Subject: [PATCH 38/45] fix: simulator starts without a binary file

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index abf9db1..ed7ecc7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From 1a2ca7faa2ff6b5ecc78f8fb0fee28eab671967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 39/45] fix: console disassembly of undefined code prints
 nothing instead of failing

---
 cmdis/__main__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ed7ecc7..7827713 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -623,9 +623,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
-            text = text[:-1]
-        print text
+        if text:
+            print text.rstrip('\n')
 
 
 def main():
-- 
2.43.0


From d0f8ac0be6f826c2be3390a0064e4e076b55d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 40/45] fix: an empty line repeats the whole last command line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 7827713..51e893f 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From 32c9e92b7805112bf97d7bd002f50ea6ef699614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:10 +0000
Subject: [PATCH 41/45] fix: console reports unknown registers instead of
 writing to them

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 51e893f..1ab94f1 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -408,6 +408,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From f4d8878b175df5b309cf0b21fecdb4ba04762c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:24 +0000
Subject: [PATCH 42/45] fix: bad command options are reported instead of ending
 the console

---
 cmdis/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 1ab94f1..db30c9c 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -173,7 +173,10 @@ def cmdoptions(opts):
         for opt in opts:
             parser.add_option(opt)
         def foo(inst, args):
-            namespace, other_args = parser.parse_args(args)
+            try:
+                namespace, other_args = parser.parse_args(args)
+            except SystemExit:
+                raise ToolError("invalid command options")
             return fn(inst, namespace, other_args)
         return foo
     return process_opts
-- 
2.43.0


From ce2d24edbb84206d16bcdf88686b0084c5008a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 43/45] fix: console step decodes only the instruction it
 executes

---
 cmdis/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index db30c9c..92c1e10 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -508,15 +508,13 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
+            # Only use the first instruction.
+            i = next(dis.disasm(code, pc), None)
 
-            if not len(ilist):
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From fae71c323dd68ddb7e193a8410ef283e5bd5d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 44/45] fix: console rejects a dereference without closing
 bracket

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 92c1e10..1c898ce 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -563,6 +563,8 @@ class SimTool(object):
         arg = arg.lower().replace('_', '')
         deref = (arg[0] == '[')
         if deref:
+            if arg[-1] != ']':
+                raise ValueError("missing closing bracket")
             arg = arg[1:-1]
             offset = 0
             if ',' in arg:
-- 
2.43.0


From 069e6e599f68ad0f5df34a738b5f2c036c056262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 45/45] fix: halfword and word dumps label their lines with
 byte addresses

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 1c898ce..6d3f8a2 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


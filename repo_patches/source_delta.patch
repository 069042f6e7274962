From c8c6c81cfe235a6d1443b344147ac6466cb81cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 01/58] fix: bit queue loses and repeats bits of the chunks
 that span two words

---
 semantic_codec/architecture/bits.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..c8cc598 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,16 +18,18 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            w = BitQueue.WORD_SIZE - self._eq_bit
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, from_bit + w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            # The bits that did not fit in the word go to the next one. A value has no bits after the last of a word
+            last = min(from_bit + self.word_size, BitQueue.WORD_SIZE) - 1
+            if from_bit + w <= last:
+                self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
+                                                            from_bit + w, last, 0)
+            self._eq_bit -= BitQueue.WORD_SIZE
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +57,13 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            # The remaining bits are in the next word. The ones that do not fit in the value are discarded
+            to_bit += w
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            fit = min(w, BitQueue.WORD_SIZE - to_bit)
+            if fit > 0:
+                value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + fit - 1, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From a2bed09fd2f01f7b750e5cf0d08f63cf826270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 02/58] fix: deinterleaving drops the last chunks, and fails
 when the last packets are lost

---
 semantic_codec/interleaver/interleaver2d.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..4011485 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,25 +195,20 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if p in packets and packets[p] is not None]
+    if not received:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    # The last packets of the order may be lost, or may have one chunk less than the first ones
+    while not all(queue.empty() for queue in received):
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
                 errors.append((data._eq_word, data._eq_bit))
-            else:
+            elif not packets[p].empty():
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
 
-- 
2.43.0


From c08a2d9f67818891247460fa27f4dbfde8ffd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 03/58] fix: corruption prediction stops when the first lost
 packet ends, missing errors of the others

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..d09874a 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -245,7 +245,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while b and min(b) < total_bits:
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From b527dbd7719e5a2f73ee818765f414293ffbf076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 04/58] fix: corrupting three or more bits misses most of their
 combinations

---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index d09874a..df383b2 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if Bits.is_on(i, j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From f239a1d90f804c79915bbdf86a840abc97fbdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 05/58] fix: the percent of instructions to corrupt is never
 validated

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index df383b2..6661d3b 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if err_percent < 0 or err_percent > 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-- 
2.43.0


From 22f79b6056f740baae0521d7ff1a20e33462f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 06/58] fix: random corruption never ends when the program has
 address gaps or too few instructions

---
 semantic_codec/corruption/corruption.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 6661d3b..cb05753 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -160,21 +160,14 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
-
-    while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
-            a = random.randint(1, max_amount)
-            for r in corrupt_bits(31, 0, a, program[p][0].encoding):
-                if _encoding_not_in_list(r, program[p]):
-                    program[p].append(CAPSInstruction(r, program[p][0].address))
-            corrupted_amount -= 1
+    # Only the instructions that are not corrupted yet can be chosen
+    addresses = [p for p in program if len(program[p]) == 1]
+
+    for p in random.sample(addresses, min(corrupted_amount, len(addresses))):
+        a = random.randint(1, max_amount)
+        for r in corrupt_bits(31, 0, a, program[p][0].encoding):
+            if _encoding_not_in_list(r, program[p]):
+                program[p].append(CAPSInstruction(r, program[p][0].address))
 
 
 def _encoding_not_in_list(encoding, instructions):
-- 
2.43.0


From 18a12de3b5546ec10276bcd323721e472297c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 07/58] fix: packet corruption repeats candidates when two lost
 chunks share a bit

---
 semantic_codec/corruption/corruptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..b44ae5f 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,12 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                if not c_inst in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From bdfe1d8eb312bf5a57029211731ff25833f970bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 08/58] fix: packet corruption fails when the lost packets
 carry no data

---
 semantic_codec/corruption/corruptors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index b44ae5f..9483de2 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -85,15 +85,15 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
-        current = e[0]
+        k, tuples, e = 0, [], errors[0] if errors else None
+        current = e[0] if errors else None
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
         progress_bar = TextProgressBar(iteration=0, total=len(errors),
                                        prefix='Corrupting:',
                                        decimals=0, bar_length=50, print_dist=4)
 
-        while k <= len(errors):
+        while errors and k <= len(errors):
             if current != e[0] or k == len(errors):
                 if len(tuples) != 0 and current < len(addresses):
                     address = addresses[current]
-- 
2.43.0


From 54ceda7c3c73a7afad4d489d34917f0381445aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 09/58] fix: recovery discards push and pop instructions, they
 have no register score

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..cef0f95 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -109,7 +109,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
     # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -123,7 +123,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     hi = max(pc, po, pr)
     # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From ef85022d218a8308ba7afffa1f5fe1b52e152c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 10/58] fix: recovery discards the true instruction when
 another candidate has all its registers placed

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index cef0f95..2474e3a 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -121,9 +121,9 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
-    # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
+    # An instruction has only one conditional and one opcode. Having all the addresses left for them makes it certain.
+    # It may use several registers: that one of them belongs here says nothing about the others
+    hi = max(pc, po)
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From a3edb579e37fd371d765c45e49c04812a70ab209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 11/58] fix: counting rules ignore an address whose only valid
 candidate is not listed first

---
 .../metadata/probabilistic_rules/counting_rules.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..d93e854 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -28,9 +28,10 @@ class CountingRule(Rule):
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
                 # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 28bd3f48aa9ff5919706e354e802aec0b41185d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 12/58] fix: the solution has too few bits when the number of
 candidates is not a power of two

---
 semantic_codec/solution/solution_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..b2abae5 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -251,7 +251,8 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            # Enough bits to tell all candidates apart
+            size = (ln - 1).bit_length() if ln > 1 else 0
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 2bd9c6f97fd6750ec61f3b898d7acd7004525736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 13/58] fix: the number of solutions adds the combinations of
 independent addresses

---
 semantic_codec/solution/solution_quality.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..d7ef1f4 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,9 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
-- 
2.43.0


From 540f468f65c784f679734781c5d665e51d20b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 14/58] fix: evaluating the quality of a solution leaves it
 without solution count

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d7ef1f4..386c55d 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -81,7 +81,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From e1e9fbb805b493c6c73327ec2e49e49c8a93e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 15/58] fix: the quality of a solution cannot be evaluated when
 an address has no candidates

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 386c55d..cf5cdb0 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -110,8 +110,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From 3604b14ddb6be9f88b45144d8ac4850d6f1025d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 16/58] fix: the control flow graph loses forward branches, the
 return of calls, and the condition of jump targets

---
 semantic_codec/static_analysis/cfg.py | 46 ++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..e06d35a 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -12,6 +12,8 @@ class ARMControlFlowGraph(digraph):
         self._instructions = instructions
         self._root_node = CFGBlock([], kind=CFGBlock.ROOT)
         self._pending_jumps = {}
+        # Conditional nodes that receive the control on behalf of the block they guard
+        self._guards = {}
         self._has_computed_dominators = False
         self._has_computed_dominance_frontier = False
         self._last_idx = 0
@@ -91,7 +93,13 @@ class ARMControlFlowGraph(digraph):
                 self.add_edge((i, up))
             self.add_edge((up, split))
 
-        self.add_edge((branch, split))
+        self._add_multiple_edges(self._entry(split), [branch])
+
+    def _entry(self, block):
+        """
+        The node that receives the control that goes to a block: its conditional, if it has one
+        """
+        return self._guards[block] if block in self._guards else block
 
     def _branch_conditional(self, inst, cb, last_conditional):
         """
@@ -105,12 +113,13 @@ class ARMControlFlowGraph(digraph):
         if inst.conditional_field != (AOpType.COND_ALWAYS):
             # Create the new conditional field
             new_cond = self._add_node(CFGBlock([], kind=CFGBlock.COND))
+            self._guards[b] = new_cond
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
 
             # if the last block is a branch, we cannot receive control from it
             # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            if cb is not None:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
@@ -125,12 +134,15 @@ class ARMControlFlowGraph(digraph):
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
             # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            if cb is not None:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(b, self._pending_jumps[inst])
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -152,6 +164,7 @@ class ARMControlFlowGraph(digraph):
     def _branch_instruction(self, cb, branch, inst, end):
         """
         Creates a branch in the CFG due to a branching instruction
+        :return The block from which the control goes to the next instruction, None if it doesn't
         """
         # ----------------------------
         # Third case, the BRANCHES
@@ -163,6 +176,11 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(branch, self._pending_jumps[inst])
+
+        # The control only comes back from a branch with link
+        cb = None
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
@@ -187,10 +205,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge(branch, to_node)
+                self._add_pending_jump(instruction_to_branch, branch)
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
@@ -257,11 +272,19 @@ class ARMControlFlowGraph(digraph):
         cb = self._add_node(self.root_node)  # Make ROOT the current block
         end = self._add_node(CFGBlock([], kind=CFGBlock.END))
 
+        # Instructions that receive the control from a branch
+        targets = set()
+        for inst in self._instructions[:count]:
+            if not inst.is_undefined and inst.is_branch:
+                targets.add(inst.branch_to(self._instructions))
+
         for i in range(0, count):
             inst = self._instructions[i]
             if inst.is_undefined:
                 continue  # Ignore undefined instructions
-            if inst.conditional_field == last_cond_field:
+            # A conditional instruction that can be jumped to, or that branches, needs its own conditional node
+            own_cond = inst.conditional_field != AOpType.COND_ALWAYS and (inst.is_branch or inst in targets)
+            if inst.conditional_field == last_cond_field and not own_cond:
                 last_cond_field = inst.conditional_field
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
@@ -281,10 +304,11 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    cb = self._branch_instruction(None, cb, inst, end)
+                    last_cond_field = None
 
-        if not r.has_edge((cb, end)):
-            r.add_edge((cb, end))
+        # The last block, and the last conditional when it is not met, go to the end
+        self._add_multiple_edges(end, [n for n in (cb, last_cond_node) if n is not None])
         return self
 
 
-- 
2.43.0


From 80c9df6b88cd1565d19838f279bd36f9bda541dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 17/58] fix: returns and writes to the PC are taken for
 branches with link

---
 semantic_codec/architecture/instruction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/instruction.py b/semantic_codec/architecture/instruction.py
index 4870905..d4e51b6 100644
--- a/semantic_codec/architecture/instruction.py
+++ b/semantic_codec/architecture/instruction.py
@@ -204,7 +204,10 @@ class Instruction(object):
 
     @property
     def is_branch_with_link(self):
-        return self.is_branch and (self.encoding & Bits.on(24))
+        # BL, BLX (immediate) and BLX (register); bit 24 says nothing in the other instructions that write the PC
+        return self.is_branch and (self.encoding & 0x0f000000 == 0x0b000000 or
+                                   self.encoding & 0xfe000000 == 0xfa000000 or
+                                   self.encoding & 0x0ffffff0 == 0x012fff30)
 
     def branch_to(self, instructions):
         """
-- 
2.43.0


From d6f1e2b6264d1e92b866abe6fed31cb6eb13a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 18/58] fix: wrong dominators, the blocks are numbered by depth
 and not in the order of the search

---
 semantic_codec/static_analysis/dominators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..9088481 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -13,7 +13,8 @@ def dominator_tree_dfs(graph, node, visited, index=0):
     for n in node.successors:
         if n not in visited:
             n.dom_parent = node
-            result.extend(dominator_tree_dfs(graph, n, visited, index + 1))
+            # The index is the position in the search, not the depth
+            result.extend(dominator_tree_dfs(graph, n, visited, index + len(result)))
 
     return result
 
-- 
2.43.0


From 95487e11b98fc2b47dfc33845957caff8e840ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 19/58] fix: dominators and dominance frontiers fail when an
 unreachable block goes into a reachable one

---
 semantic_codec/static_analysis/dominators.py | 2 ++
 semantic_codec/static_analysis/ssa.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index 9088481..54a369b 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -30,6 +30,8 @@ def build_dominator_tree(graph, root):
         w = vertex[i]
         p = w.dom_parent
         for v in w.predecessors:
+            if v.dom_idx < 0:
+                continue  # No path from the root goes through an unreachable node
             u = dominator_eval(v)
             if u.dom_semi_idx < w.dom_semi_idx:
                 w.dom_semi = u.dom_semi
diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..05c827b 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -17,6 +17,8 @@ def build_dominance_frontier(graph):
     for n in graph:
         if len(n.predecessors) > 0:
             for p in n.predecessors:
+                if p.dom_idx < 0:
+                    continue  # Unreachable from the root
                 runner = p
                 while runner != n.idom:
                     if n not in runner.dom_frontier:
-- 
2.43.0


From 8960f993483ad6832ca5938c360cc7fc5c375b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 20/58] fix: computing the dominators a second time keeps the
 results of the first

---
 semantic_codec/static_analysis/cfg.py        | 8 ++++++++
 semantic_codec/static_analysis/dominators.py | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index e06d35a..30e5061 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -359,6 +359,14 @@ class CFGBlock(object):
         self.phi_functions = {}
 
         # Data relative to the Dominator tree
+        self.reset_dominators()
+
+    def reset_dominators(self):
+        """
+        Forgets the dominators computed before, if any
+        """
+        self.successors = []
+        self.predecessors = []
         self.dom_idx = -1
         # Parent in the DFS tree needed to find the dominator
         self.dom_parent = None
diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index 54a369b..9e9ad5c 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -24,6 +24,8 @@ def build_dominator_tree(graph, root):
     Builds the Lengauer Tarjan dominator tree algorithm
     """
     # Initialization
+    for n in graph:
+        n.reset_dominators()
     vertex = dominator_tree_dfs(graph, root, [])
 
     for i in range(len(vertex) - 1, 0, -1):
-- 
2.43.0


From 45eed2c01579c9f708c4030d9b3f0720d640dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 21/58] fix: dominators of a program of more than a thousand
 blocks exceed the recursion limit

---
 semantic_codec/static_analysis/dominators.py | 33 ++++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index 9e9ad5c..852607f 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -1,20 +1,27 @@
 from pygraph.classes.digraph import digraph
 
 
-def dominator_tree_dfs(graph, node, visited, index=0):
+def dominator_tree_dfs(graph, node):
     """
-    Makes the lengauer tarjan dominator tree algorithm Deep First Search
+    Makes the lengauer tarjan dominator tree algorithm Deep First Search. It does not recurse: graphs are as deep
+    as programs are long.
     """
-    result = [node]
-    node.dom_idx = index
-    node.predecessors = graph.incidents(node)
-    node.successors = graph.neighbors(node)
-    visited.append(node)
-    for n in node.successors:
-        if n not in visited:
-            n.dom_parent = node
-            # The index is the position in the search, not the depth
-            result.extend(dominator_tree_dfs(graph, n, visited, index + len(result)))
+    result = []
+    # The path from the root to the current node, with the successors that remain to be visited
+    path = []
+    parent = None
+    while node is not None or path:
+        if node is not None:
+            node.dom_idx = len(result)
+            node.dom_parent = parent
+            node.predecessors = graph.incidents(node)
+            node.successors = graph.neighbors(node)
+            result.append(node)
+            path.append((node, iter(node.successors)))
+        parent, remaining = path[-1]
+        node = next((n for n in remaining if n.dom_idx < 0), None)
+        if node is None:
+            path.pop()
 
     return result
 
@@ -26,7 +33,7 @@ def build_dominator_tree(graph, root):
     # Initialization
     for n in graph:
         n.reset_dominators()
-    vertex = dominator_tree_dfs(graph, root, [])
+    vertex = dominator_tree_dfs(graph, root)
 
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
-- 
2.43.0


From d77e2ce4f187e53a7eed6d4fcfc1e7b41e886db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 22/58] fix: the SSA names of a block remain visible in the
 blocks it does not dominate

---
 semantic_codec/static_analysis/ssa.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 05c827b..f4d9633 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -197,16 +197,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
-        # Roll back the indexing
+        # Roll back the indexing: the names given in this node are not visible outside the nodes it dominates
         for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+            stack[phi[0]].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From b04bb7cccace0106eb8177490b6b375d28718dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 23/58] fix: the SSA form of instructions with floating point
 or system registers cannot be built

---
 semantic_codec/static_analysis/ssa.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index f4d9633..25ab501 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -1,6 +1,7 @@
+from collections import defaultdict
+
 from pygraph.classes.digraph import digraph
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.static_analysis.cfg import CFGBlock
 from semantic_codec.static_analysis.dominators import build_dominator_tree
 
@@ -161,11 +162,9 @@ class SSAFormBuilder(object):
         """
         Rename the variables in the SSA
         """
-        counter = {}
-        stack = {}
-        for v in range(0, AReg.STORAGE_COUNT):
-            counter[v] = 0
-            stack[v] = [0]
+        # Any storage, the coprocessors and the floating point unit have registers of their own
+        counter = defaultdict(int)
+        stack = defaultdict(lambda: [0])
 
         self._rename_node(self._root, counter, stack)
 
-- 
2.43.0


From 08001d6adc4e6e70b5405785f478096e706c78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 24/58] fix: the SSA form of a program of more than a thousand
 blocks exceeds the recursion limit

---
 semantic_codec/static_analysis/ssa.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 25ab501..7e6d43b 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -166,7 +166,17 @@ class SSAFormBuilder(object):
         counter = defaultdict(int)
         stack = defaultdict(lambda: [0])
 
-        self._rename_node(self._root, counter, stack)
+        # Preorder walk of the dominator tree, a node is left once all the nodes it dominates are renamed. It does not
+        # recurse because the tree is as deep as the program is long
+        walk = [(self._root, False)]
+        while len(walk) > 0:
+            node, leave = walk.pop()
+            if leave:
+                self._roll_back_node(node, stack)
+            else:
+                self._rename_node(node, counter, stack)
+                walk.append((node, True))
+                walk.extend((s, False) for s in reversed(node.dom_successors))
 
     def _rename_node(self, n, counter, stack):
         """
@@ -195,11 +205,11 @@ class SSAFormBuilder(object):
                 var = phi[0]
                 val.append((var, stack[var][0]))
 
-        # Continue the renaming process in the successors
-        for s in n.dom_successors:
-            self._rename_node(s, counter, stack)
-
-        # Roll back the indexing: the names given in this node are not visible outside the nodes it dominates
+    @staticmethod
+    def _roll_back_node(n, stack):
+        """
+        Roll back the indexing: the names given in this node are not visible outside the nodes it dominates
+        """
         for phi in n.phi_functions:
             stack[phi[0]].pop(0)
         for inst in n.instructions:
-- 
2.43.0


From 9c991c45f776c258ac6ee3347a8344c1945f83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 25/58] fix: branch targets in the upper half of the memory are
 negative, and operands of PC arithmetic are taken for targets

---
 semantic_codec/architecture/capstone_instruction.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..949beb2 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRBT, ARM_OP_IMM, ARM_INS_MOV
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -170,10 +170,13 @@ class CAPSInstruction(Instruction):
         """
         if self.is_branch:
             if self._jumping_address is None:
-                for op in self._cap.operands:
-                    if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
-                        break
+                # An immediate is only an address in a branch or when moved to the PC, any other is an operand
+                if self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
+                    for op in self._cap.operands:
+                        if op.type == ARM_OP_IMM:
+                            # Capstone gives a signed number, addresses are not
+                            self._jumping_address = op.value.imm & 0xffffffff
+                            break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
                 #if Bits.is_on(address, 23):
-- 
2.43.0


From b8bbff90a82604ec2af09467d481708032097537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 26/58] fix: R0 is not among the registers used when it is the
 base or the index of a memory access

---
 semantic_codec/architecture/capstone_instruction.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 949beb2..ffcd9e5 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -68,12 +68,10 @@ class CAPSInstruction(Instruction):
                 if not register in result:
                     result.append(register)
             if i.type == ARM_OP_MEM:
-                register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
-                    result.append(register)
-                register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
-                    result.append(register)
+                for r in (i.value.mem.base, i.value.mem.index):
+                    # Zero is no register for capstone, but R0 for us
+                    if r != 0 and not AReg.CAPSTONE_REGS[r] in result:
+                        result.append(AReg.CAPSTONE_REGS[r])
 
         return result
 
-- 
2.43.0


From 93d679e4e67c2a1e5495afab25ce31ab773f0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 27/58] fix: stores are taken for memory reads

---
 semantic_codec/architecture/capstone_instruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index ffcd9e5..f7e0e36 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,8 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM, ARM_INS_MOV
+    ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
+    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -130,7 +131,8 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return self._cap.id in [ARM_INS_STR, ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB,
+                                ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT]
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From 3e25142b91b39adce95ced20fb02fc82ec2a923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 28/58] fix: a source register that is also the destination is
 not among the registers read

---
 .../architecture/capstone_instruction.py           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index f7e0e36..80cc920 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -60,7 +60,14 @@ class CAPSInstruction(Instruction):
         if self.is_push_pop:
             result.append(AReg.SP)
 
-        for i in self._cap.operands:
+        return self._operand_registers(self._cap.operands, result)
+
+    @staticmethod
+    def _operand_registers(operands, result):
+        """
+        Appends to the result the registers in the operands that are not there yet
+        """
+        for i in operands:
             if i.type == ARM_OP_REG:
                 if i.value.reg not in AReg.CAPSTONE_REGS:
                     register = AReg.STORAGE_COUNT + i.value.reg
@@ -96,8 +103,11 @@ class CAPSInstruction(Instruction):
 
         if self.is_a('pop'):
             result = []
-        else:
+        elif self.is_a('push'):
             result = self.registers_used()[1:]
+        else:
+            # The destination is read too if it is also a source
+            result = self._operand_registers(self._cap.operands[1:], [])
 
         if self.is_push_pop and not AReg.SP in result:
             result.append(AReg.SP)
-- 
2.43.0


From 10fbc6aac4287acc5a2ec8f328e6d89e36a2ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 29/58] fix: comparisons and branches to a register are said to
 write their first operand

---
 semantic_codec/architecture/capstone_instruction.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 80cc920..0b80d26 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -3,7 +3,8 @@ import struct
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
-    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV
+    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV, ARM_INS_CMP, ARM_INS_CMN, \
+    ARM_INS_TST, ARM_INS_TEQ
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -83,6 +84,12 @@ class CAPSInstruction(Instruction):
 
         return result
 
+    def _has_no_destination(self):
+        """
+        Comparisons and branches to a register read their first operand, they don't write it
+        """
+        return self.opcode_field in [ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ, ARM_INS_BX, ARM_INS_BLX]
+
     def registers_written(self):
         """
         Returns registers written
@@ -90,7 +97,7 @@ class CAPSInstruction(Instruction):
         """
         if self.is_a('pop'):
             return self.registers_used()
-        elif self.is_a('push'):
+        elif self.is_a('push') or self._has_no_destination():
             return []
         else:
             return self.registers_used()[:1]
@@ -105,6 +112,8 @@ class CAPSInstruction(Instruction):
             result = []
         elif self.is_a('push'):
             result = self.registers_used()[1:]
+        elif self._has_no_destination():
+            result = self.registers_used()
         else:
             # The destination is read too if it is also a source
             result = self._operand_registers(self._cap.operands[1:], [])
-- 
2.43.0


From 2bfe10da3c18e4d4d3668a8f63a8d29cef3bd98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 30/58] fix: storing the PC is taken for a branch

---
 semantic_codec/architecture/capstone_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 0b80d26..2c0ae70 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -166,7 +166,7 @@ class CAPSInstruction(Instruction):
         Return if the instruction is a branching instruction
         """
         return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX] or \
-               AReg.PC in self.registers_written()
+               (AReg.PC in self.registers_written() and not self._writes_to_memory())
 
     @property
     def is_push_pop(self):
-- 
2.43.0


From 4970918006a53f9b7b834aab1e8b880ec05d43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 31/58] fix: the registers loaded by a load multiple are said
 to be read, loading the PC is not a branch

---
 semantic_codec/architecture/capstone_instruction.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 2c0ae70..ff7d00d 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -4,7 +4,7 @@ from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MOD
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV, ARM_INS_CMP, ARM_INS_CMN, \
-    ARM_INS_TST, ARM_INS_TEQ
+    ARM_INS_TST, ARM_INS_TEQ, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -90,6 +90,9 @@ class CAPSInstruction(Instruction):
         """
         return self.opcode_field in [ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ, ARM_INS_BX, ARM_INS_BLX]
 
+    def _is_load_multiple(self):
+        return self.opcode_field in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB]
+
     def registers_written(self):
         """
         Returns registers written
@@ -99,6 +102,10 @@ class CAPSInstruction(Instruction):
             return self.registers_used()
         elif self.is_a('push') or self._has_no_destination():
             return []
+        elif self._is_load_multiple():
+            # The base is only written when it is written back
+            written = self._cap.operands if self._cap.writeback else self._cap.operands[1:]
+            return self._operand_registers(written, [])
         else:
             return self.registers_used()[:1]
 
@@ -114,6 +121,8 @@ class CAPSInstruction(Instruction):
             result = self.registers_used()[1:]
         elif self._has_no_destination():
             result = self.registers_used()
+        elif self._is_load_multiple():
+            result = self._operand_registers(self._cap.operands[:1], [])
         else:
             # The destination is read too if it is also a source
             result = self._operand_registers(self._cap.operands[1:], [])
-- 
2.43.0


From 4c2678784440d02409b709556522b019d4593982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 32/58] fix: operations with carry are said to modify the flags
 when they don't

---
 semantic_codec/architecture/capstone_instruction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index ff7d00d..bafa6a5 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -4,9 +4,11 @@ from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MOD
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV, ARM_INS_CMP, ARM_INS_CMN, \
-    ARM_INS_TST, ARM_INS_TEQ, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB
+    ARM_INS_TST, ARM_INS_TEQ, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, \
+    ARM_INS_ADC, ARM_INS_SBC, ARM_INS_RSC
 
 from semantic_codec.architecture.arm_constants import AReg
+from semantic_codec.architecture.bits import Bits
 from semantic_codec.architecture.instruction import Instruction
 
 class CAPSInstruction(Instruction):
@@ -217,6 +219,9 @@ class CAPSInstruction(Instruction):
         return None
 
     def modifies_flags(self):
+        # Capstone says that the operations with carry always update the flags, the S bit tells
+        if self.opcode_field in [ARM_INS_ADC, ARM_INS_SBC, ARM_INS_RSC]:
+            return Bits.is_on(self.encoding, 20)
         return self._cap.update_flags
         #return AReg.CPSR in self.storages_written()
 
-- 
2.43.0


From a916416415140cd4b502febf5f13339918a2dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 33/58] fix: the register that holds a shift amount is not
 among the registers used

---
 semantic_codec/architecture/capstone_instruction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index bafa6a5..f7b6346 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -5,7 +5,7 @@ from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, AR
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_INS_MOV, ARM_INS_CMP, ARM_INS_CMN, \
     ARM_INS_TST, ARM_INS_TEQ, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, \
-    ARM_INS_ADC, ARM_INS_SBC, ARM_INS_RSC
+    ARM_INS_ADC, ARM_INS_SBC, ARM_INS_RSC, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, ARM_SFT_ROR_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.bits import Bits
@@ -78,6 +78,11 @@ class CAPSInstruction(Instruction):
                     register = AReg.CAPSTONE_REGS[i.value.reg]
                 if not register in result:
                     result.append(register)
+                # The register may be shifted by another
+                if i.shift.type in [ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, ARM_SFT_ROR_REG]:
+                    register = AReg.CAPSTONE_REGS[i.shift.value]
+                    if not register in result:
+                        result.append(register)
             if i.type == ARM_OP_MEM:
                 for r in (i.value.mem.base, i.value.mem.index):
                     # Zero is no register for capstone, but R0 for us
-- 
2.43.0


From 1a1eaa71de677588486c86b946c674a8ee29b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 34/58] fix: the target of a jump to a rotated immediate
 ignores the rotation

---
 semantic_codec/architecture/capstone_instruction.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index f7b6346..1af272f 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -207,11 +207,12 @@ class CAPSInstruction(Instruction):
             if self._jumping_address is None:
                 # An immediate is only an address in a branch or when moved to the PC, any other is an operand
                 if self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
-                    for op in self._cap.operands:
-                        if op.type == ARM_OP_IMM:
-                            # Capstone gives a signed number, addresses are not
-                            self._jumping_address = op.value.imm & 0xffffffff
-                            break
+                    # A second immediate is the rotation of the first
+                    imm = [op.value.imm & 0xffffffff for op in self._cap.operands if op.type == ARM_OP_IMM]
+                    if imm:
+                        # Capstone gives a signed number, addresses are not
+                        rotation = imm[1] if len(imm) > 1 else 0
+                        self._jumping_address = (imm[0] >> rotation | imm[0] << (32 - rotation)) & 0xffffffff
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
                 #if Bits.is_on(address, 23):
-- 
2.43.0


From 0283d6a2eb9febdf724b46f7b9b01ae6b597aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 35/58] fix: the final address of a function with a gap is not
 that of its last instruction

---
 semantic_codec/architecture/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/functions.py b/semantic_codec/architecture/functions.py
index 76a92e7..eb31547 100644
--- a/semantic_codec/architecture/functions.py
+++ b/semantic_codec/architecture/functions.py
@@ -16,7 +16,7 @@ class ElfFunction(object):
 
     def final_addr(self):
         if len(self.instructions) > 0:
-            return self.instructions[0].address + self.length_in_bytes() - 4
+            return self.instructions[-1].address
         else:
             return 0
 
-- 
2.43.0


From a2ab0588393cd37df5006b615ff8458f3b13e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 36/58] fix: the Blaum matrix repeats packets inside of a
 burst, negative differences are reflected

---
 semantic_codec/interleaver/interleaver2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index 4011485..9e58b79 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -159,7 +159,7 @@ def build_2d_interleave_matrix_blaum(message_size, packet_size, data_width=-1, d
     m = round(message_size / packet_size)
     b = round(sqrt(2 * m - 1))
 
-    return [[int(abs(fmod(x - y * b, m))) for x in range(data_width)] for y in range(data_height)]
+    return [[(x - y * b) % m for x in range(data_width)] for y in range(data_height)]
 
 
 def interleave(data, interleave_order, word_size=8):
-- 
2.43.0


From 50c1739f916fbb8f5b1444171a467897e7ea5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 37/58] fix: the recovery fails when every address has a single
 candidate left

---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From 00fbcef2c1e4c3b237a3bd5093551917c547f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 38/58] fix: a function without instructions takes the place of
 the one at address 0

---
 semantic_codec/metadata/probabilistic_rules/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index adbe6a9..685ee7c 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -29,7 +29,9 @@ def from_functions_to_list_and_addr(functions):
     fns = {}
 
     for f in functions:
-        fns[f.start_addr()] = (f.start_addr(), f.final_addr())
+        # A function without instructions has no address
+        if f.instructions:
+            fns[f.start_addr()] = (f.start_addr(), f.final_addr())
         for inst in f.instructions:
             result.append(inst)
 
-- 
2.43.0


From 672841ba9d16942f72ecd9b116fda26d60014677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 39/58] fix: graphs in dot format cannot be read, and lose
 edges between nodes with a dash in their names

---
 libs/dot/dotio.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index fbd31bd..a5b99f3 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -54,7 +54,8 @@ def read(string):
     @return: Graph
     """
 
-    dotG = pydot.graph_from_dot_data(string)
+    # A list, the text can have several graphs
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     if (dotG.get_type() == "graph"):
         G = graph()
@@ -145,10 +146,10 @@ def write(G, weighted=False):
     #  our own set to keep track of what's been added or not.
     seen_edges = set([])
     for edge_from, edge_to in G.edges():
-        if (str(edge_from) + "-" + str(edge_to)) in seen_edges:
+        if (str(edge_from), str(edge_to)) in seen_edges:
             continue
 
-        if (not directed) and (str(edge_to) + "-" + str(edge_from)) in seen_edges:
+        if (not directed) and (str(edge_to), str(edge_from)) in seen_edges:
             continue
 
         attr_list = {}
@@ -168,7 +169,7 @@ def write(G, weighted=False):
 
         dotG.add_edge(newEdge)
 
-        seen_edges.add(str(edge_from) + "-" + str(edge_to))
+        seen_edges.add((str(edge_from), str(edge_to)))
 
     return dotG.to_string()
 
@@ -185,7 +186,8 @@ def read_hypergraph(string):
     @return: Hypergraph
     """
     hgr = hypergraph()
-    dotG = pydot.graph_from_dot_data(string)
+    # A list, the text can have several graphs
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     # Read the hypernode nodes...
     # Note 1: We need to assume that all of the nodes are listed since we need to know if they
-- 
2.43.0


From 65add9642c61cc29ac551b589b24bc3e5e546c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 40/58] fix: the compressors keep the first of the listed bits

---
 semantic_codec/compressor/shiftcompressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..010b67c 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
@@ -53,7 +53,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             if len(r) > 2:
                 continue
-- 
2.43.0


From 04a49883f1967f116f31de6e5b13a01a9497dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 41/58] fix: another candidate with the same text is taken for
 the true instruction

---
 semantic_codec/solution/solution_builders.py | 3 ++-
 semantic_codec/solution/solution_quality.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index b2abae5..fa9bca8 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -171,7 +171,8 @@ class AbstractForwardConstraintSolutionBuilder(object):
 
     def _find_address_correct_index(self, pa, ori, ln):
         index = 0
-        while index < ln and str(pa[index]) != str(ori):
+        # Different instructions may have the same text
+        while index < ln and pa[index].encoding != ori.encoding:
             index += 1
         if index == ln:
             raise RuntimeError('Impossible')
diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index cf5cdb0..fcea567 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -104,7 +104,7 @@ class SolutionQuality(object):
 
             i = 0
             ln = len(v)
-            while i < ln and str(v[i]) != str(self._original_program[k]):
+            while i < ln and v[i].encoding != self._original_program[k].encoding:
                 i += 1
 
             if not ln in self._highest_depth_bin:
-- 
2.43.0


From ec8664f61afe9c1f47dcd1e80e2c58d54c24a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 42/58] fix: solving the constraints failed when a candidate
 has two registers too many

---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index fa9bca8..ea11073 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break  # It can only be hidden once
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From b03fb96ec71f14ec7bb34f43c30432bd33458398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:05 +0000
Subject: [PATCH 43/58] fix: recovery divided by zero when no candidate decodes
 where a function ends

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 2474e3a..0576b47 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
-- 
2.43.0


From dbbc612c63f87fc329977ca053b9c355a43ea6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:12 +0000
Subject: [PATCH 44/58] fix: recovery failed when the addresses of a function
 are not contiguous

---
 semantic_codec/metadata/recuperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 0576b47..2c23ec7 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -296,6 +296,8 @@ class ProbabilisticRecuperator(Recuperator):
                 cb2, tb2 = 0, 0
                 p2 = 0
                 for a in range(last_addr, addr, -4):
+                    if a not in self._program:
+                        continue
                     cb2 = cb1
                     tb2 = tb1
                     for i in self._program[a]:
-- 
2.43.0


From bbf8a9b40af19cbcd95b97587158a3a5045a308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 45/58] fix: the push and pop term of the recovery was never
 used

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 2c23ec7..fa2cebb 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -328,7 +328,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From 88ee4305774dddf39e0218139587a6d891282324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 46/58] fix: a register was taken as not written when one
 address of its range does not write it

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index fa2cebb..5936d1c 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -478,7 +478,7 @@ class ProbabilisticRecuperator(Recuperator):
                             count += 1
                 if t > 0:
                     p *= 1 - count / t
-                    if p == 1:
+                    if p == 0:
                         break
 
             prd = min(p, prd)
-- 
2.43.0


From 1316e40ade9ba4092a27bc6910f716f7404869fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 47/58] fix: candidates that do not decode counted as
 neighbours with another condition

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 5936d1c..bcb02ab 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -406,7 +406,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -427,7 +427,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From 96f15f18bec01441f32f1d144529bd02e67d873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 48/58] fix: the recovery never saw that the previous
 instruction modifies the flags

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index bcb02ab..b31896c 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -368,7 +368,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = bool(i.modifies_flags())
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From dc7bc9f2954484ffafa6ae02c0c353ecf2d87e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 49/58] fix: a pop was never taken as having the registers of
 the push of its function

---
 semantic_codec/metadata/recuperator.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b31896c..c98a9ab 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -250,13 +250,17 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
                     if not reg_equals_inst:
                         a = True
-                        pop_reg_read = i.registers_written()
-                        for r in pop_reg_read:
-                            if not (r in push_reg_readed or r is AReg.PC):
+                        # A push has no registers written: the ones it reads are the ones that the pop writes
+                        if opcode == 'push':
+                            push_reg, pop_reg = i.registers_read(), push_reg_readed
+                        else:
+                            push_reg, pop_reg = push_reg_readed, i.registers_written()
+                        for r in pop_reg:
+                            if not (r in push_reg or r is AReg.PC):
                                 a = False
                                 break
-                        for r in push_reg_readed:
-                            if not (r in pop_reg_read or r is AReg.LR or r is AReg.SP):
+                        for r in push_reg:
+                            if not (r in pop_reg or r is AReg.LR or r is AReg.SP):
                                 a = False
                                 break
                         if a:
-- 
2.43.0


From 427cb80b55427171b8e3b7ad78ce9f64ef3eb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 50/58] fix: one instruction more than the percentage is
 corrupted for some program lengths

---
 semantic_codec/corruption/corruption.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index cb05753..a05b41d 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -154,11 +154,10 @@ def corrupt_program(program, err_percent, max_amount):
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-    err_percent /= 100
 
     len_program = len(program)
 
-    corrupted_amount = math.ceil(max(1, len_program * err_percent))
+    corrupted_amount = math.ceil(max(1, len_program * err_percent / 100))
 
     # Only the instructions that are not corrupted yet can be chosen
     addresses = [p for p in program if len(program[p]) == 1]
-- 
2.43.0


From 70ca750da92c485a3e877e8060896b7c0b5a31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 51/58] fix: rank the candidates of an address by score also
 when one of them encodes to zero

---
 semantic_codec/solution/solution_quality.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index fcea567..6ec3968 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -1,4 +1,3 @@
-import sys
 from math import log
 
 from semantic_codec.metadata.recuperator import probabilistic_rules
@@ -93,11 +92,8 @@ class SolutionQuality(object):
                 continue
             addr = self._original_program[k].address
             v = self._program[addr]
-            min_encoding = sys.maxsize
-            for inst in v:
-                if inst.encoding < min_encoding:
-                    min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            # Equal scores are ordered by encoding, the smallest first
+            v.sort(key=lambda x: (x.score(), -x.encoding), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From 03f1fbc46d9eac853a4fa1c62ecf49623d8eff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 52/58] fix: forget the names of the previous renaming when the
 SSA form is computed again

---
 semantic_codec/static_analysis/ssa.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 7e6d43b..e1508eb 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -114,6 +114,8 @@ class SSAFormBuilder(object):
         build_dominator_tree(self._graph, self._root)
         # Compute dominance frontiers
         build_dominance_frontier(self._graph)
+        # The program may have been renamed before
+        self._reset_names()
         # Find global names tpo minimize phi function emplacement
         global_vars = place_phi_nodes(self._graph)
         # Rename the variables into their SSA form
@@ -124,6 +126,16 @@ class SSAFormBuilder(object):
         # build the value dependency graph
         return self._build_value_dependency_graph()
 
+    def _reset_names(self):
+        """
+        Forgets the names and the phi functions of a previous renaming, if any
+        """
+        for n in self._graph:
+            n.phi_functions = {}
+            for inst in n.instructions:
+                inst.ssa_read.clear()
+                inst.ssa_written.clear()
+
     def _build_value_dependency_graph(self):
         d = digraph()
         for n in self._graph:
-- 
2.43.0


From 2b6a4cf7341a9c0391a3eb19b1c3a05c6e650f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 53/58] fix: the distance rule looks for the write one
 instruction too near

---
 semantic_codec/metadata/probabilistic_rules/distance_rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index da06ebe..bd90c05 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -91,8 +91,9 @@ class RegisterReadDistance(RegisterDistanceRule):
 
             # We are going backwards, so in fact prev_max is < than prev
             # Go backwards searching for registers writting to the registers we read_instructions from
-            prev_pos = position - INST_SIZE * min_d # Position of the first previous instruction
-            prev_pos_max = position - INST_SIZE * max_d # Position of the last previous instruction (going backwards)
+            # A distance is the number of instructions between the write and the read
+            prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
+            prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
             register_score = [EPSILON] * AReg.STORAGE_COUNT
 
             candidate_score = 0
-- 
2.43.0


From 9af41b6a331dea875ec385db6aad69b2a91ff847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 54/58] fix: the distance rule counts only the last storage an
 instruction writes, and fails on those outside the table

---
 .../probabilistic_rules/distance_rule.py      | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index bd90c05..ff04774 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -1,6 +1,6 @@
 import sys
+from collections import defaultdict
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.arm_instruction import ARMInstruction
 from semantic_codec.metadata.probabilistic_rules.rules import Rule
 
@@ -94,7 +94,8 @@ class RegisterReadDistance(RegisterDistanceRule):
             # A distance is the number of instructions between the write and the read
             prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
             prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
-            register_score = [EPSILON] * AReg.STORAGE_COUNT
+            # Any storage, the coprocessors and the floating point unit have registers of their own
+            register_score = defaultdict(lambda: EPSILON)
 
             candidate_score = 0
 
@@ -109,26 +110,17 @@ class RegisterReadDistance(RegisterDistanceRule):
                         # Can't analyze undefined instructions
                         continue
 
-                    c_reg_score = [EPSILON] * AReg.STORAGE_COUNT
                     prev_w = prev_c.storages_written()
                     # Find the score this previous candidate contributes to the candidate being evaluated
                     for w in prev_w:
                         if w in storages:
-                            c_reg_score[w] += 1 / (len(prev_w) * self.candidate_count(prev_candidates))
-                    try:
-                        register_score[w] = max(register_score[w], c_reg_score[w])
-                    except UnboundLocalError:
-                        print("What??")
-                    except IndexError:
-                        print("W:"+str(w))
+                            w_score = EPSILON + 1 / (len(prev_w) * self.candidate_count(prev_candidates))
+                            register_score[w] = max(register_score[w], w_score)
 
                 # Find the score of the candidate so far
                 s = 0
                 for r in storages:
-                    try:
-                        s += register_score[r]
-                    except IndexError:
-                        print("R:"+str(r))
+                    s += register_score[r]
 
                 candidate_score = max(s / len(storages), candidate_score)
 
-- 
2.43.0


From 365a3526ddb744dfa63a0a8951321d3e25b1b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 55/58] fix: storing the packets of a program fails when the
 last packet is not full

---
 store_packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store_packets.py b/store_packets.py
index a9a7b76..fa0fc7c 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -42,7 +42,8 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    # Total bytes in data divided by packet_size, the last packet may not be full
+    packet_count = -(-len(original_program) * 4 // packet_size)
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From 5487aa544caa4f5dbda12c6c07859e6fecd1e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 56/58] fix: the legacy recovery discards the last candidate of
 an address, which the rules did not score

---
 semantic_codec/metadata/recuperator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index c98a9ab..39c1e44 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -41,13 +41,15 @@ class Recuperator(object):
                      RegisterReadDistance(self._program, collector=self._collector)]
 
             for pos, instructions in self._program.items():
-                if len(instructions) > 1:
+                # The last candidate that remains is certain, the rules have nothing to tell about it
+                undecided = sum(1 for inst in instructions if not inst.ignore) > 1
+                if undecided:
                     for r in rules:
                         r.current_pass = i
                         r.recover(pos)
                 # Find the mean value of scores:
                 # k = len(instructions)
-                if self.passes > 1 and len(instructions) > 1:
+                if self.passes > 1 and undecided:
                     # k = 0
                     for inst in instructions:
                         for v in inst.scores_by_rule.values():
-- 
2.43.0


From c61c2cecb3cd5a165cc84f272d74d68329dfd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 57/58] fix: an instruction without registers is not impossible
 for the register count rule

---
 semantic_codec/metadata/probabilistic_rules/counting_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index d93e854..5a05b65 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -118,7 +118,8 @@ class RegisterCount(CountingRule):
         return collector.storage_count
 
     def extra_score(self, c):
-        if c.is_branch:
+        # Most branches and some other instructions use no registers, which does not make them impossible
+        if c.is_branch or not c.registers_used():
             return 0.000001
         else:
             return 0.0
-- 
2.43.0


From 8052ae4a6466f017a89b963e2e7c08baada82dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 58/58] fix: the control flow rule gives negative scores, that
 the sum of the scores cancels

---
 semantic_codec/metadata/probabilistic_rules/rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index 685ee7c..ff88db1 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -157,6 +157,8 @@ class ControlFlowBehavior(Rule):
             for i in range(0, COND_TYPES):
                 conditional_score[i] += self._model.both_conditionals_are_equals * post_cond_count[i] / t_post
 
+        # An unlikely conditional is still possible
+        conditional_score = [max(s, EPSILON) for s in conditional_score]
 
 
         i, new_score = 0, []
-- 
2.43.0


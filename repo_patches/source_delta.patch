From 40b1206d8930429e7f3998f7240d90eda81880ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 01/57] fix: exchange and compare the terminate bit correctly

Both parties waited for the other one when the terminate signal is secret, and
the comparison was inverted (equal colour bits mean the wire carries 0).
---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From bee2e90bd7ceec2ea5c1b1f44e34b9ab299e6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 02/57] fix: report public output bits that are 1 to the
 evaluator

A public output bit equal to 1 below the top bit of the output mask was
reported as 0 to its owner.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From ee76e873a9e94befc3c95bdcacc89fa684738c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/57] fix: propagate failures of garbling and evaluation

A connection that breaks while tables are exchanged was reported as success.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..b3d39ed 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From 755470adf06c8bd62bdb4e82256631246dc508af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/57] fix: initialise the evaluator's garbled table ids

A stale id in fresh memory can match a gate whose table was not sent, which
desynchronises the evaluator.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index b3d39ed..97c06c7 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -481,6 +481,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..b6333c9 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From f67b85d071cf4ca87d80b2b7249387b951daace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/57] fix: propagate failures of the plaintext evaluation

A run that could not be carried out (no map file) was reported as a success
with an all-zero result.
---
 scd/scd_evaluator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..8132072 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -291,9 +291,11 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
 
   OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                       outputs_str);
-- 
2.43.0


From 678f026ec5ad10a4201430e7bee5e193fb60572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 06/57] fix: release memory with the function matching its
 allocation

---
 crypto/BN.cpp                            | 4 ++--
 garbled_circuit/garbled_circuit_util.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index e912451..c5add05 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -35,6 +35,8 @@
 
 #include "garbled_circuit/garbled_circuit_util.h"
 
+#include <cstdlib>
+
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -55,9 +57,10 @@ uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
 }
 
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
-  delete[] garbled_circuit->garbledGates;
+  // garbledGates and outputs come from posix_memalign
+  free(garbled_circuit->garbledGates);
   if (garbled_circuit->outputs != nullptr) {
-    delete[] garbled_circuit->outputs;
+    free(garbled_circuit->outputs);
   }
   if (garbled_circuit->I != nullptr) {
     delete[] garbled_circuit->I;
-- 
2.43.0


From 7a29f60b3c472ca9551ed885a5e0284524742f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/57] fix: reject malformed hexadecimal strings in Str2Block

Only the prefix before the first bad character was parsed, so a mistyped value
was silently replaced by another one.
---
 util/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..6c11c9e 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -160,6 +160,12 @@ int Str2Block(const string &s, block* v) {
   boost::erase_all(v_str, "\t");
   boost::erase_all(v_str, "_");
 
+  if (v_str.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+    LOG(ERROR) << "Can not parse hex string to 128-bit block: " << v_str
+               << endl;
+    return FAILURE;
+  }
+
   if (v_str.length() > sizeof(block) * 2) {
     LOG(ERROR) << "Can not parse hex string to 128-bit block: " << v_str << endl
                << "string (len = " << v_str.length() << ") is longer than "
-- 
2.43.0


From d50ea4bd82d3a2b5fb4450a29a625976c850b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 08/57] fix: keep merge-sort's indices local to each recursion

The recursive calls overwrote the caller's midpoint, so the result was not
sorted.
---
 a23/merge-sort/merge-sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/merge-sort/merge-sort.c b/a23/merge-sort/merge-sort.c
index 5d4a97b..869dcce 100644
--- a/a23/merge-sort/merge-sort.c
+++ b/a23/merge-sort/merge-sort.c
@@ -3,8 +3,8 @@
 #define O_SIZE 32 // size of output array
 
 int __attribute__((aligned(256))) b[G_SIZE]; // temporary array for mergesort
-int i, j, k, m;
 void mergesort(int* array, int l, int r) {
+  int i, j, k, m;
   if (r > l) {
     m = (r + l) / 2;
     mergesort(array, l, m);
-- 
2.43.0


From 16a63c24d6af9926ebc2d19dff92f6938c44e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 09/57] fix: draw wire labels from a cryptographic generator

RandomBlock was a linear congruential generator: its low bits alternate, so the
colour bits told the evaluator the garbler's inputs, and the global key, which
is sent to the evaluator, gave away every later label.
---
 util/util.cpp | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 6c11c9e..5704e5c 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -36,6 +36,7 @@
 #include "util/util.h"
 
 #include <boost/algorithm/string.hpp>
+#include <openssl/rand.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdint.h>
@@ -51,43 +52,18 @@
 
 using std::ifstream;
 
-static block cur_seed;
-
 void SrandSSE(unsigned int seed) {
-  cur_seed = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+  // adds to the entropy pool, does not make RandomBlock predictable
+  RAND_seed(&seed, sizeof(seed));
 }
 
 block RandomBlock() {
-
-  block cur_seed_split;
-  block multiplier;
-  block adder;
-  block mod_mask;
-  //block sra_mask;
-  //block sseresult;
-
-  static const unsigned int mult[4] = { 214013, 17405, 214013, 69069 };
-  static const unsigned int gadd[4] = { 2531011, 10395331, 13737667, 1 };
-  static const unsigned int mask[4] = { 0xFFFFFFFF, 0, 0xFFFFFFFF, 0 };
-  //static const unsigned int masklo[4] = { 0x00007FFF, 0x00007FFF, 0x00007FFF,
-  //  0x00007FFF };
-
-  adder = _mm_load_si128((block *) gadd);
-  multiplier = _mm_load_si128((block *) mult);
-  mod_mask = _mm_load_si128((block *) mask);
-  //sra_mask = _mm_load_si128((block *) masklo);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_mul_epu32(cur_seed, multiplier);
-  multiplier = _mm_shuffle_epi32(multiplier, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed_split = _mm_mul_epu32(cur_seed_split, multiplier);
-  cur_seed = _mm_and_si128(cur_seed, mod_mask);
-  cur_seed_split = _mm_and_si128(cur_seed_split, mod_mask);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed_split, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_or_si128(cur_seed, cur_seed_split);
-  cur_seed = _mm_add_epi32(cur_seed, adder);
-
-  return cur_seed;
-
+  unsigned char random_byte[sizeof(block)];
+  if (RAND_bytes(random_byte, sizeof(block)) != 1) {
+    LOG(ERROR) << "no randomness available" << endl;
+    abort();
+  }
+  return _mm_loadu_si128((block *) random_byte);
 }
 /**
  * \brief constant v value based on gate Type
-- 
2.43.0


From 877b1492eaa649c2452e567c1e6d649d638ed92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 10/57] fix: drive constant outputs and terminate with a gate

'assign o[0] = 1'b0' made the constant's marker (-2) an output wire index, which
indexed in front of the wire arrays when translating and evaluating.
---
 scd/parse_netlist.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..aba3e7b 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -335,8 +335,18 @@ int ParseNetlist(const string &filename,
     } else if(is_right_assignmnet) {
       const auto assign_pair = read_circuit_string->assignment_list_string.back();
       read_circuit_string->assignment_list_string.pop_back();
-      read_circuit_string->assignment_list_string.push_back(
-          std::make_pair(assign_pair.first, str));
+      if(!str.compare("1'b0") || !str.compare("1'b1")) {
+        // a constant is not a wire: outputs need a gate that drives them
+        ReadGateString g;
+        g.type = str.compare("1'b0") ? XNORGATE : XORGATE;
+        g.input[0] = "1'b0";
+        g.input[1] = "1'b0";
+        g.output = assign_pair.first;
+        read_circuit_string->gate_list_string.push_back(g);
+      } else {
+        read_circuit_string->assignment_list_string.push_back(
+            std::make_pair(assign_pair.first, str));
+      }
       is_right_assignmnet = false;
     } else if(!str.compare("AND")) {
       gate_type = ANDGATE;
-- 
2.43.0


From 6b7e3592f41cee0b2eab482b5ecaf33a945f0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 11/57] fix: reject malformed hexadecimal inputs, inits and
 masks

BN_hex2bn stops at the first non-hexadecimal character; its result was
ignored, so 0x1F was read as 0 and the run reported success.
---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 ++--
 garbled_circuit/garbled_circuit_util.cpp     |  4 ++--
 scd/scd_evaluator.cpp                        | 12 ++++++------
 util/util.cpp                                | 13 +++++++++++++
 util/util.h                                  |  1 +
 6 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 97c06c7..efd8a62 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1034,7 +1034,7 @@ int GarbleTransferOutput(const GarbledCircuit& garbled_circuit,
                          OutputMode output_mode, BIGNUM* output_bn,
                          int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
@@ -1075,7 +1075,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
                            OutputMode output_mode, BIGNUM* output_bn,
                            int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index b6333c9..a25b150 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1100,7 +1100,7 @@ int GarbleTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                const string& output_mask, BIGNUM* output_bn,
                                int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
@@ -1147,7 +1147,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                  const string& output_mask, BIGNUM* output_bn,
                                  int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index c5add05..041a67c 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -73,8 +73,8 @@ void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
                       uint64_t clock_cycles, BIGNUM** init, BIGNUM** input) {
-  BN_hex2bn(init, init_str.c_str());
-  BN_hex2bn(input, input_str.c_str());
+  CHECK(Hex2BN(init_str, init));
+  CHECK(Hex2BN(input_str, input));
 
   return SUCCESS;
 }
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 8132072..f958ddd 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -264,12 +264,12 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   BIGNUM* g_input = BN_new();
   BIGNUM* e_input = BN_new();
 
-  BN_hex2bn(&p_init, p_init_str.c_str());
-  BN_hex2bn(&g_init, g_init_str.c_str());
-  BN_hex2bn(&e_init, e_init_str.c_str());
-  BN_hex2bn(&p_input, p_input_str.c_str());
-  BN_hex2bn(&g_input, g_input_str.c_str());
-  BN_hex2bn(&e_input, e_input_str.c_str());
+  CHECK(Hex2BN(p_init_str, &p_init));
+  CHECK(Hex2BN(g_init_str, &g_init));
+  CHECK(Hex2BN(e_init_str, &e_init));
+  CHECK(Hex2BN(p_input_str, &p_input));
+  CHECK(Hex2BN(g_input_str, &g_input));
+  CHECK(Hex2BN(e_input_str, &e_input));
 
   LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
             << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
diff --git a/util/util.cpp b/util/util.cpp
index 5704e5c..5f094ad 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -169,6 +169,19 @@ int Str2Block(const string &s, block* v) {
   return SUCCESS;
 }
 
+int Hex2BN(const string &hex_str, BIGNUM** v) {
+  if (hex_str.empty()) {
+    BN_zero(*v);
+    return SUCCESS;
+  }
+  if (hex_str.find_first_not_of("0123456789abcdefABCDEF") != string::npos
+      || BN_hex2bn(v, hex_str.c_str()) != (int) hex_str.length()) {
+    LOG(ERROR) << "Can not parse hex string: " << hex_str << endl;
+    return FAILURE;
+  }
+  return SUCCESS;
+}
+
 string to_string_hex(uint64_t v, int pad /* = 0 */) {
   std::stringstream stream;
   stream << std::hex << std::setw(pad) << std::setfill('0') << v;
diff --git a/util/util.h b/util/util.h
index 6876ef5..85e9e46 100644
--- a/util/util.h
+++ b/util/util.h
@@ -34,6 +34,7 @@ void SrandSSE(unsigned int seed);
 unsigned short Type2V(int gateType);
 bool GateOperator(int gateType, bool input0, bool input1 = false);
 int Str2Block(const string &s, block* v);
+int Hex2BN(const string &hex_str, BIGNUM** v);
 string to_string_hex(uint64_t v, int pad = 0);
 int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         uint64_t clock_cycles, OutputMode output_mode,
-- 
2.43.0


From a402f280e501ba7c20248f473d036ccfed2a9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 12/57] fix: keep bit-string lengths beyond 16 bits in hex and
 binary conversions

Lengths were kept in uint16_t (and the number of outputs in uint8_t), so
longer strings were silently truncated.
---
 util/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 5f094ad..95b459d 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -253,8 +253,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	uint64_t no_of_outputs = output.size();
+	uint64_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -262,7 +262,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	uint64_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -300,7 +300,7 @@ int64_t bin2dec(string bin, bool s){
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	uint64_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -328,7 +328,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	uint64_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From e8352233a859452f8ab1ed29ea5068a74fc3965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 13/57] fix: refuse incomplete circuit files

The state of the stream was never checked, so a truncated file was run
with uninitialised gates and reported success.
---
 scd/scd.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..0c11920 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -55,6 +55,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
       >> garbled_circuit->g_input_size >> garbled_circuit->e_input_size
       >> garbled_circuit->dff_size >> garbled_circuit->output_size
       >> garbled_circuit->terminate_id >> garbled_circuit->gate_size;
+  if (!f) {
+    LOG(ERROR) << "can't read the header of " << file_name << endl;
+    return FAILURE;
+  }
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -113,6 +117,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   for (uint64_t i = 0; i < garbled_circuit->dff_size; i++) {
     f >> garbled_circuit->I[i];
   }
+  if (!f) {
+    LOG(ERROR) << file_name << " is incomplete" << endl;
+    return FAILURE;
+  }
 
   f.close();
 
-- 
2.43.0


From 2e1d64b374969febd4e26544ab2621c79b177314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 14/57] fix: bound the batches of the extended oblivious
 transfer

The columns of the transfer matrix were hidden by adding an RSA_BITS-bit
number. With more transfers than that, the top of both columns was visible
and gave the receiver's choice bits beyond about the 1024th to the sender.
---
 crypto/OT_extension.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..b9d8681 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -19,6 +19,7 @@
 #include "crypto/OT_extension.h"
 
 #include <openssl/evp.h>
+#include <algorithm>
 #include <iostream>
 #include <cstring>
 #include "crypto/OT.h"
@@ -31,6 +32,10 @@ using std::endl;
 
 #define SEC_K_BIT ((uint32_t)128)
 
+// The base OT hides a message of one bit per transfer with an RSA_BITS-bit
+// number, so that the number of transfers in a batch has to stay well below.
+#define OT_EXT_BATCH ((uint32_t)(RSA_BITS - 2 * SEC_K_BIT))
+
 const EVP_MD *md = nullptr;
 int HashInit() {
   if (md == nullptr) {
@@ -128,8 +133,8 @@ int SwitchRowColumnBNPair(const BIGNUM* const * const * v, uint32_t v_len,
   return SUCCESS;
 }
 
-int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
-                uint32_t m_len, int connfd) {
+static int OTExtSendBatchBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
+                            uint32_t m_len, int connfd) {
 
   // 0. generate random k-bit s
   BIGNUM* S = BN_new();
@@ -178,8 +183,19 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   BN_free(S);
   return SUCCESS;
 }
-int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
-                int connfd, BIGNUM** m) {
+
+int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
+                uint32_t m_len, int connfd) {
+  for (uint32_t i = 0; i < m_len; i += OT_EXT_BATCH) {
+    uint32_t len = std::min(OT_EXT_BATCH, m_len - i);
+    CHECK(OTExtSendBatchBN(m + i, m_bitlen, len, connfd));
+  }
+  return SUCCESS;
+}
+
+static int OTExtRecvBatchBN(const BIGNUM *sel, uint32_t sel_bias,
+                            uint32_t m_bitlen, uint32_t m_len, int connfd,
+                            BIGNUM** m) {
 
   // 0.generate m_len random k-bits T ([0]) and T^r ([1])
   BIGNUM*** T = new BIGNUM**[m_len];
@@ -189,7 +205,7 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
       T[i][j] = BN_new();
     }
     BN_rand(T[i][0], SEC_K_BIT, -1, 0);
-    int sel_bit = BN_is_bit_set(sel, i);
+    int sel_bit = BN_is_bit_set(sel, sel_bias + i);
     if (sel_bit == 1) {
       BN_CHECK(BN_copy(T[i][1], T[i][0]));
       BN_CHECK(BN_invert(T[i][1], SEC_K_BIT));
@@ -212,7 +228,7 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
     CHECK(HashBN(h, m_bitlen, i, T[i][0]));
 
     m[i] = BN_new();
-    if (BN_is_bit_set(sel, i) == 0) {
+    if (BN_is_bit_set(sel, sel_bias + i) == 0) {
       BN_CHECK(BN_xor(m[i], m_bitlen, y0, h));
 
     } else {
@@ -242,6 +258,15 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
   return SUCCESS;
 }
 
+int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
+                int connfd, BIGNUM** m) {
+  for (uint32_t i = 0; i < m_len; i += OT_EXT_BATCH) {
+    uint32_t len = std::min(OT_EXT_BATCH, m_len - i);
+    CHECK(OTExtRecvBatchBN(sel, i, m_bitlen, len, connfd, m + i));
+  }
+  return SUCCESS;
+}
+
 int OTExtSend(const block* const * m, uint32_t m_len, int connfd) {
   BIGNUM*** bn_m = new BIGNUM**[m_len];
   for (uint32_t i = 0; i < m_len; i++) {
-- 
2.43.0


From 0a89fbadb5ca54bf0ae9cb4e9cdb18060dc97730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 15/57] fix: do not send uninitialised padding bytes with
 garbled tables

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 garbled_circuit/garbled_circuit_util.h       | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index efd8a62..9d608cb 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -177,9 +177,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index a25b150..f691348 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 9ef97f7..4b877c8 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -65,6 +65,7 @@ typedef struct BlockPair {
 typedef struct GarbledTable {
   block row[2];
   uint32_t gid;
+  uint32_t reserved[3];  // explicit padding, sent (as zero) along with the table
 } GarbleTable;
 
 /**
-- 
2.43.0


From 994bcd5fd5672b402ee38a981add853286588cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 16/57] fix: receive all choices before answering in the base
 oblivious transfer

---
 crypto/OT.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..e313486 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -65,19 +65,22 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
   }
 
   // 4. receive v from Bob (receiver) and send m0' and m1' to Bob
-  BIGNUM *v = BN_new();
+  // Bob sends all of v before he reads, so all of v is received before sending.
+  BIGNUM **v = new BIGNUM*[m_len];
+  for (uint32_t i = 0; i < m_len; i++) {
+    v[i] = BN_new();
+    CHECK(RecvBN(connfd, v[i]));
+  }
   BIGNUM *temp = BN_new();
   BIGNUM *k0 = BN_new();
   BIGNUM *k1 = BN_new();
   BIGNUM *m0 = BN_new();
   BIGNUM *m1 = BN_new();
   for (uint32_t i = 0; i < m_len; i++) {
-    CHECK(RecvBN(connfd, v));
-
-    BN_CHECK(BN_sub(temp, v, x[i][0]));  // temp = v - x0
+    BN_CHECK(BN_sub(temp, v[i], x[i][0]));  // temp = v - x0
     BN_CHECK(BN_mod_exp(k0, temp, rsa_d, rsa_n, ctx));  // k0 = (v - x0)^d mod N
 
-    BN_CHECK(BN_sub(temp, v, x[i][1]));  // temp = v - x1
+    BN_CHECK(BN_sub(temp, v[i], x[i][1]));  // temp = v - x1
     BN_CHECK(BN_mod_exp(k1, temp, rsa_d, rsa_n, ctx));  // k1 = (v - x0)^d mod N
 
     BN_CHECK(BN_add(k0, k0, m[i][0]));
@@ -87,7 +90,10 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
   }
 
   RSA_free(rsa);
-  BN_free(v);
+  for (uint32_t i = 0; i < m_len; i++) {
+    BN_free(v[i]);
+  }
+  delete[] v;
   BN_free(temp);
   BN_free(k0);
   BN_free(k1);
-- 
2.43.0


From b3ca44ddca8291da2003e0eea53fbaf28d924203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 17/57] fix: resolve assignments whatever their order in the
 netlist

---
 scd/parse_netlist.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index aba3e7b..bb17a58 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -553,18 +553,29 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // An assignment may be written before the one it depends on, so go over the
+  // unresolved ones again as long as that resolves any of them.
+  auto pending = read_circuit_string.assignment_list_string;
+  while (pending.size() > 0) {
+    decltype(pending) unresolved;
+    for (const auto& assign_pair : pending) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
+      } else {
+        unresolved.push_back(assign_pair);
+      }
+    }
+    if (unresolved.size() == pending.size()) {
+      for (const auto& assign_pair : unresolved) {
+        LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+            << assign_pair.second
+            << " which were mentioned in an assignment statement" << endl;
+      }
+      break;
     }
+    pending.swap(unresolved);
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From 60490c20284affb82dd22646f35261331acff02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 18/57] fix: pad every bit of messages in the extended
 oblivious transfer

---
 crypto/OT_extension.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index b9d8681..157c96f 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -87,7 +87,10 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
 
-  BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
+  BN_CHECK(BN_bin2bn(md_value, (bits + 7) / 8, r));
+  if ((uint32_t) BN_num_bits(r) > bits) {
+    BN_CHECK(BN_mask_bits(r, bits));
+  }
 
   return SUCCESS;
 }
-- 
2.43.0


From 6e6876d9e7f502459bfb0632de8b42f76640af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:15 +0000
Subject: [PATCH 19/57] fix: compare all 128 bits of labels in CmpBlock

---
 crypto/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.h b/crypto/block.h
index 46df18b..32bec7d 100644
--- a/crypto/block.h
+++ b/crypto/block.h
@@ -68,7 +68,7 @@ typedef __m128i block;
 #define get_LSB(x) (*((unsigned short *)&x)&1)
 #define XorBlock(x,y) _mm_xor_si128((x),(y))
 #define ZeroBlock() _mm_setzero_si128()
-#define CmpBlock(X, Y) (_mm_extract_epi16((_mm_cmpeq_epi64((X), (Y))),0)==0xffff)
+#define CmpBlock(X, Y) (_mm_movemask_epi8(_mm_cmpeq_epi8((X), (Y))) == 0xffff)
 #define MakeBlock(X,Y) _mm_set_epi64((__m64)(X), (__m64)(Y))
 #define DoubleBlock(B) _mm_slli_epi64(B,1)
 
-- 
2.43.0


From 67de89b22ad21106db13b1ff3aac49d50b94bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:20 +0000
Subject: [PATCH 20/57] fix: compare words as unsigned in the native build of
 a23 compare

The processor build compares multi-word unsigned numbers; the other branch
compared each word as signed.
---
 a23/compare/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index 48012fe..c7f5a29 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -26,7 +26,7 @@ static int compare_array(const int *g, const int *e, int *o) {
 static int compare_array(const int *g, const int *e, int *o) {
   int greater = 0;
   for(int i = 0; i < G_SIZE;i++) {
-    greater = (g[i] == e[i])?greater:(g[i] < e[i]);
+    greater = (g[i] == e[i])?greater:((uint)g[i] < (uint)e[i]);
   }
   return greater;
 }
-- 
2.43.0


From bc4a8880afaa820a92f39e00466efd8ceb3c5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:20 +0000
Subject: [PATCH 21/57] fix: make room for t[8] and z[2] in the computed a23
 S-box

Elements beyond the end of both arrays were written and read.
---
 a23/aes/aes.c   | 2 +-
 a23/sbox/sbox.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/aes/aes.c b/a23/aes/aes.c
index 54af8d0..ba121a4 100644
--- a/a23/aes/aes.c
+++ b/a23/aes/aes.c
@@ -99,7 +99,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
diff --git a/a23/sbox/sbox.c b/a23/sbox/sbox.c
index 847aaba..551c25a 100644
--- a/a23/sbox/sbox.c
+++ b/a23/sbox/sbox.c
@@ -26,7 +26,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
-- 
2.43.0


From 437cbea714bf75d05d9f4810cdf8ef064582e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 22/57] fix: report failure from the plaintext evaluator
 program

An unreadable circuit, invalid inputs or options printed an empty line and
exited with success.
---
 scd/scd_evaluator_main.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..ab995b1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,11 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  CHECK(
+      EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str));
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From dbf3d527ce81c6a17298649153f5287f34281c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 23/57] fix: SHIFT_LEFT shifted right and SHIFT_RIGHT left

---
 circuit_synthesis/syn_lib/SHIFT_LEFT.v  | 2 +-
 circuit_synthesis/syn_lib/SHIFT_RIGHT.v | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/syn_lib/SHIFT_LEFT.v b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
index e3f0c7c..15c6615 100644
--- a/circuit_synthesis/syn_lib/SHIFT_LEFT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
@@ -25,7 +25,7 @@ module SHIFT_LEFT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
index 391c130..58cbff5 100644
--- a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
@@ -25,7 +25,7 @@ module SHIFT_RIGHT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
     end
   endgenerate
 
-- 
2.43.0


From 56f0b059067832e36cbcaab57ea553a3f0dc2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 24/57] fix: non_secret_test adds when sel is set, as its
 comment says (MUX gives B when S)

---
 circuit_synthesis/non_secret_test/non_secret_test.v | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/non_secret_test/non_secret_test.v b/circuit_synthesis/non_secret_test/non_secret_test.v
index e27f9d7..52bf79f 100644
--- a/circuit_synthesis/non_secret_test/non_secret_test.v
+++ b/circuit_synthesis/non_secret_test/non_secret_test.v
@@ -60,8 +60,8 @@ module non_secret_test
   )
   _MUX 
   (
-    .A(o_add),
-    .B(o_sub),
+    .A(o_sub),
+    .B(o_add),
     .S(sel),
     .O(o)
   );
-- 
2.43.0


From a817019ab441c0a4d74820ba8e6e0fc77073492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 25/57] fix: first_nns circuits kept the farther candidate,
 first_nns_seq measured an undeclared wire

---
 circuit_synthesis/knns/first_nns_comb.v       |  8 ++++----
 circuit_synthesis/knns/first_nns_seq.v        | 10 +++++-----
 circuit_synthesis/knns_td/first_nns_comb_td.v |  8 ++++----
 circuit_synthesis/knns_td/first_nns_seq_td.v  |  8 ++++----
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/circuit_synthesis/knns/first_nns_comb.v b/circuit_synthesis/knns/first_nns_comb.v
index 6748ba6..c227465 100644
--- a/circuit_synthesis/knns/first_nns_comb.v
+++ b/circuit_synthesis/knns/first_nns_comb.v
@@ -86,8 +86,8 @@ module first_nns_comb
 		)
 		MUX_1
 		(
-			.A(DBi[i]),
-			.B(min_val[i-1]),
+			.A(min_val[i-1]),
+			.B(DBi[i]),
 			.S(gt_dist[i]),
 			.O(min_val[i])
 		);
@@ -98,8 +98,8 @@ module first_nns_comb
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 35cc565..3addc5e 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -45,7 +45,7 @@ module first_nns_seq
 	)
 	COUNT_
 	(
-		.A(g_input ^ DBi),
+		.A(g_input ^ e_input),
 		.S(dist)
 	);
 
@@ -67,8 +67,8 @@ module first_nns_seq
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -79,8 +79,8 @@ module first_nns_seq
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
diff --git a/circuit_synthesis/knns_td/first_nns_comb_td.v b/circuit_synthesis/knns_td/first_nns_comb_td.v
index afde135..4566afe 100644
--- a/circuit_synthesis/knns_td/first_nns_comb_td.v
+++ b/circuit_synthesis/knns_td/first_nns_comb_td.v
@@ -100,8 +100,8 @@ module first_nns_comb_td
 		MUX_1
 		(
 			//.A(DBi[i]),
-			.A({x1[i], y1[i]}),
-			.B({min_val_x[i-1], min_val_y[i-1]}),
+			.A({min_val_x[i-1], min_val_y[i-1]}),
+			.B({x1[i], y1[i]}),
 			.S(gt_dist[i]),
 			.O({min_val_x[i], min_val_y[i]})
 		);
@@ -112,8 +112,8 @@ module first_nns_comb_td
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns_td/first_nns_seq_td.v b/circuit_synthesis/knns_td/first_nns_seq_td.v
index 8dbec88..b7f182d 100644
--- a/circuit_synthesis/knns_td/first_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/first_nns_seq_td.v
@@ -75,8 +75,8 @@ module first_nns_seq_td
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -87,8 +87,8 @@ module first_nns_seq_td
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
-- 
2.43.0


From bc3366ee67415e0987ac3dcb67365ead978571c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 26/57] fix: k_nns_seq_td and knns_seq never drove their output

---
 circuit_synthesis/knns_td/k_nns_seq_td.v | 2 +-
 circuit_synthesis/knns_td/knns_seq_td.v  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/knns_td/k_nns_seq_td.v b/circuit_synthesis/knns_td/k_nns_seq_td.v
index af5c338..62094ae 100644
--- a/circuit_synthesis/knns_td/k_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/k_nns_seq_td.v
@@ -36,7 +36,7 @@ module k_nns_seq_td
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
diff --git a/circuit_synthesis/knns_td/knns_seq_td.v b/circuit_synthesis/knns_td/knns_seq_td.v
index 593f794..69735ed 100644
--- a/circuit_synthesis/knns_td/knns_seq_td.v
+++ b/circuit_synthesis/knns_td/knns_seq_td.v
@@ -36,7 +36,7 @@ module knns_seq
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
-- 
2.43.0


From 8d80c8c31421c5e72c2071d9a84e62c31dc09922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 27/57] fix: modmult reduces by comparing z with n and takes a
 step in the start cycle

---
 circuit_synthesis/rsa/modmult.v | 34 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 22ff7e0..1ab0c0f 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -58,11 +58,8 @@ module modmult
 	);*/
 
 
-	//assign zin[0] 	= (start)?0:zreg;
-	//assign xin 		= (start)?x:xreg;
-
-	assign zin[0] 	= zreg;
-	assign xin 		= xreg;
+	assign zin[0] 	= (start)?0:zreg;
+	assign xin 		= (start)?x:xreg;
 
 
 	genvar g;
@@ -101,11 +98,6 @@ module modmult
 				zreg <= 0;
 				xreg <= 0;
 			end
-			else if(start)
-			begin
-				zreg <= 0;
-				xreg <= x;
-			end
 			else
 			begin
 				zreg <= zout[N/CC-1];
@@ -154,7 +146,7 @@ module modmult_step
 	wire 	[N+1:0]	w1, w2, w3;
 
 
-	wire c1, c2, c2p;
+	wire c1, c2p;
 
 
 	assign y_ext = {2'b0, y};
@@ -177,8 +169,8 @@ module modmult_step
 	)
 	MUX_1
 	(
-		.A(y_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(y_ext),
 		.S(xregN_1),
 		.O(w1)
 	);	
@@ -189,8 +181,8 @@ module modmult_step
 	)
 	MUX_2
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c1),
 		.O(w2)
 	);	
@@ -202,8 +194,8 @@ module modmult_step
 	)
 	MUX_3
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c2p),
 		.O(w3)
 	);	
@@ -254,13 +246,11 @@ module modmult_step
 	)
 	COMP_2
 	(
-		.A(n_ext),
-		.B(z3), 
-		.O(c2)
+		.A(z3),
+		.B(n_ext), 
+		.O(c2p)
 	);
 
-	assign c2p = ~c2;
-
 	SUB 
 	#(
 		.N(N+2)
-- 
2.43.0


From 42d01902a006dbc27fe1b45a7e855ab90b219f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 28/57] fix: modexp_1_N drives its output, and for exponents
 whose only one is the last bit

---
 circuit_synthesis/rsa/modexp_1_N.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/rsa/modexp_1_N.v b/circuit_synthesis/rsa/modexp_1_N.v
index d44786a..dfed6ca 100644
--- a/circuit_synthesis/rsa/modexp_1_N.v
+++ b/circuit_synthesis/rsa/modexp_1_N.v
@@ -44,7 +44,7 @@ module modexp_1_N
 	assign cin[0] = creg;
 	assign ein = (init)?ereg:e;
 	
-	assign c = (ein[N-N/CC])?cout2[N/CC-1]:cout1[N/CC-1];
+	assign o = (keep_2[N/CC-1])?cout2[N/CC-1]:(keep_1[N/CC-1])?cout1[N/CC-1]:g_input;
 	
 	generate 
 	for(i=0;i<N/CC;i=i+1)
-- 
2.43.0


From c3b062840c06a07b6aa01a5100ab6d2a37871f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 29/57] fix: modexp_2N_NN selected the wrong operands and took
 partial products

---
 circuit_synthesis/rsa/modexp_2N_NN.v | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index f27d0ff..f83fdf3 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -62,8 +62,8 @@ module modexp_2N_NN
   )
   MUX_4
   (
-    .A(mod_mult_o),
-    .B(creg),
+    .A(creg),
+    .B(mod_mult_o),
     .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
     .O(w1)
   );  
@@ -76,8 +76,8 @@ module modexp_2N_NN
   )
   MUX_6
   (
-    .A({ein[N-2:0], 1'b0}),
-    .B(ereg),
+    .A(ereg),
+    .B({ein[N-2:0], 1'b0}),
     .S(mul_pow),
     .O(w2)
   );  
@@ -104,11 +104,10 @@ module modexp_2N_NN
       if(start_in[CC/(2*N)-1])
         mul_pow <= ~mul_pow;
 
-      ereg <= ereg_next;
-      creg <= creg_next;
-    
       if(start_in[CC/(2*N)-1])
       begin
+        ereg <= ereg_next;
+        creg <= creg_next;
         if(ein[N-1] & mul_pow)
         begin
           first_one <= 1;
@@ -126,8 +125,8 @@ module modexp_2N_NN
   )
   MUX_9
   (
-    .A(mreg),
-    .B(w3),
+    .A(w3),
+    .B(mreg),
     .S(mul_pow),
     .O(y)
   );  
-- 
2.43.0


From 7e38de221fc4bca5db667589af0fd7e34bae38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 30/57] fix: sha3_seq began with a round without its constant

---
 circuit_synthesis/sha3/sha3_seq.v | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/sha3/sha3_seq.v b/circuit_synthesis/sha3/sha3_seq.v
index 1b9d9c6..c22dd3a 100644
--- a/circuit_synthesis/sha3/sha3_seq.v
+++ b/circuit_synthesis/sha3/sha3_seq.v
@@ -33,7 +33,6 @@ module sha3_seq
   input   [287:0]   e_init;
   output  [1599:0]	o;
   
-	reg 							init;
   reg		[CC-1:0]		rc_i; /* select round constant */
 	reg		[24-1:0]		rc_j[24/CC-1:0]; /* select round constant */
 	wire	[63:0]			rc[24/CC-1:0]; /* round constant */
@@ -46,14 +45,12 @@ module sha3_seq
 	begin
 		if (rst) 	
 		begin
-			init <= 0;
-			rc_i <= 0;
+			rc_i <= 1;
 			round_reg <= {e_init, g_init};
 		end
 		else     
 		begin
-			init <= 1;
-			rc_i <= {rc_i[CC-2:0], ~init};
+			rc_i <= {rc_i[CC-2:0], 1'b0};
 			round_reg <= round_out[24/CC-1];
 		end
     end
-- 
2.43.0


From 4da9c2b54b65c6f12db3ed5edcf170ac369d50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 31/57] fix: stable_match never marked a woman as matched,
 never freed her former man, and waited for ever for woman 0

---
 circuit_synthesis/stable_match/stable_match.v | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/circuit_synthesis/stable_match/stable_match.v b/circuit_synthesis/stable_match/stable_match.v
index 0da0b19..2f3d166 100644
--- a/circuit_synthesis/stable_match/stable_match.v
+++ b/circuit_synthesis/stable_match/stable_match.v
@@ -335,6 +335,7 @@ module stable_match_core
   input mIsMatch_rdata;
 
   reg [2:0] nState;
+  wire [logW-1:0] wIndex_next;
 
   wire [logKm:0] pc_mIndex;
   wire [logM-1:0] m_assigned;
@@ -362,9 +363,11 @@ module stable_match_core
     (wIsMatch_rdata!=0 && better);
   assign mIsMatch_raddr = mIndex;
 
+  assign wIndex_next = wIndex + 1;
+
   assign wIsMatch_addr = w;
   assign wIsMatch_wdata = 1'b1;
-  assign wIsMatch_wen = state==state_do_proposal && wIsMatch_rdata;
+  assign wIsMatch_wen = state==state_do_proposal;
 
   assign matchListMatrix_addr = w;
   assign matchListMatrix_wdata = m;
@@ -385,7 +388,7 @@ module stable_match_core
           nState = state_select_m;
       end
       state_wait_w: begin
-        if (wIndex + 1 == w) begin
+        if (wIndex_next == w) begin
           nState=state_do_proposal;
         end else begin
           nState=state_wait_w;
@@ -630,10 +633,13 @@ module MIsMatch
       for (k=0;k<M;k=k+1) begin :always_line
         mIsMatch[k] <= 1'b0;
       end
-    end else if (wen1) begin
-      mIsMatch[waddr1] <= wdata1;
-    end else if (wen2) begin
-      mIsMatch[waddr2] <= wdata2;
+    end else begin
+      if (wen1) begin
+        mIsMatch[waddr1] <= wdata1;
+      end
+      if (wen2) begin
+        mIsMatch[waddr2] <= wdata2;
+      end
     end
   end
 
-- 
2.43.0


From 493f50428ed110a3bac02ab91df595e6a78aa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 32/57] fix: CORDIC shifts negative coordinates arithmetically

---
 circuit_synthesis/cordic/barrel_shifter_left.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/cordic/barrel_shifter_left.v b/circuit_synthesis/cordic/barrel_shifter_left.v
index 7f179c5..c65701e 100644
--- a/circuit_synthesis/cordic/barrel_shifter_left.v
+++ b/circuit_synthesis/cordic/barrel_shifter_left.v
@@ -26,7 +26,7 @@ module barrel_shifter_left
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift[i])?($signed(ai[i])>>>2**i):$signed(ai[i]);
     end
   endgenerate
 
-- 
2.43.0


From 2812bcd08107d357e6394cda37960016e4fd9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 33/57] fix: CORDIC vectoring turns towards the x axis

---
 circuit_synthesis/cordic/cordic.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/cordic/cordic.v b/circuit_synthesis/cordic/cordic.v
index 19b4186..14a8b89 100644
--- a/circuit_synthesis/cordic/cordic.v
+++ b/circuit_synthesis/cordic/cordic.v
@@ -73,7 +73,7 @@ module cordic
     if(DIR==`DIR_ROT) begin :ROT
       assign di = zi[L-1];
     end else begin :VEC// if(DIR==`DIR_VEC)
-      assign di = xi[L-1]&yi[L-1];
+      assign di = ~(xi[L-1]^yi[L-1]);
     end
   endgenerate
   
-- 
2.43.0


From a7ab140cf106a6a65363a8681eb2e37b991b66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 34/57] fix: CORDIC 32-bit linear table was unreachable and
 twice too large

---
 circuit_synthesis/cordic/alpha_table.v | 70 +++++++++++++-------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/circuit_synthesis/cordic/alpha_table.v b/circuit_synthesis/cordic/alpha_table.v
index 4a7a93b..c784db5 100644
--- a/circuit_synthesis/cordic/alpha_table.v
+++ b/circuit_synthesis/cordic/alpha_table.v
@@ -87,8 +87,9 @@ module alpha_table
           endcase
         end
       end
-      end else if (L==32) begin:L_32
-      always @(*) begin
+    end else if (L==32) begin:L_32
+      if(MOD == `MOD_CIR) begin:CIR
+        always @(*) begin
           case(iter)
           00:  alphai = 32'h3243F6A8;
           01:  alphai = 32'h1DAC6705;
@@ -128,38 +129,38 @@ module alpha_table
       end else if (MOD == `MOD_LIN) begin:LIN
         always @(*) begin
           case(iter)
-          00:  alphai = 32'h80000000;
-          01:  alphai = 32'h40000000;
-          02:  alphai = 32'h20000000;
-          03:  alphai = 32'h10000000;
-          04:  alphai = 32'h08000000;
-          05:  alphai = 32'h04000000;
-          06:  alphai = 32'h02000000;
-          07:  alphai = 32'h01000000;
-          08:  alphai = 32'h00800000;
-          09:  alphai = 32'h00400000;
-          10:  alphai = 32'h00200000;
-          11:  alphai = 32'h00100000;
-          12:  alphai = 32'h00080000;
-          13:  alphai = 32'h00040000;
-          14:  alphai = 32'h00020000;
-          15:  alphai = 32'h00010000;
-          16:  alphai = 32'h00008000;
-          17:  alphai = 32'h00004000;
-          18:  alphai = 32'h00002000;
-          19:  alphai = 32'h00001000;
-          20:  alphai = 32'h00000800;
-          21:  alphai = 32'h00000400;
-          22:  alphai = 32'h00000200;
-          23:  alphai = 32'h00000100;
-          24:  alphai = 32'h00000080;
-          25:  alphai = 32'h00000040;
-          26:  alphai = 32'h00000020;
-          27:  alphai = 32'h00000010;
-          28:  alphai = 32'h00000008;
-          29:  alphai = 32'h00000004;
-          30:  alphai = 32'h00000002;
-          31:  alphai = 32'h00000001;
+          00:  alphai = 32'h40000000;
+          01:  alphai = 32'h20000000;
+          02:  alphai = 32'h10000000;
+          03:  alphai = 32'h08000000;
+          04:  alphai = 32'h04000000;
+          05:  alphai = 32'h02000000;
+          06:  alphai = 32'h01000000;
+          07:  alphai = 32'h00800000;
+          08:  alphai = 32'h00400000;
+          09:  alphai = 32'h00200000;
+          10:  alphai = 32'h00100000;
+          11:  alphai = 32'h00080000;
+          12:  alphai = 32'h00040000;
+          13:  alphai = 32'h00020000;
+          14:  alphai = 32'h00010000;
+          15:  alphai = 32'h00008000;
+          16:  alphai = 32'h00004000;
+          17:  alphai = 32'h00002000;
+          18:  alphai = 32'h00001000;
+          19:  alphai = 32'h00000800;
+          20:  alphai = 32'h00000400;
+          21:  alphai = 32'h00000200;
+          22:  alphai = 32'h00000100;
+          23:  alphai = 32'h00000080;
+          24:  alphai = 32'h00000040;
+          25:  alphai = 32'h00000020;
+          26:  alphai = 32'h00000010;
+          27:  alphai = 32'h00000008;
+          28:  alphai = 32'h00000004;
+          29:  alphai = 32'h00000002;
+          30:  alphai = 32'h00000001;
+          31:  alphai = 32'h00000000;
           default: alphai = 32'b0;
           endcase
         end
@@ -203,6 +204,7 @@ module alpha_table
           endcase
         end
       end
+    end
   endgenerate
 
 
-- 
2.43.0


From 4a6ce2aca83c45461014e0b7c58d344ce057aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 35/57] fix: mips: LB and LH extend the sign bit of the byte or
 half word they load

---
 circuit_synthesis/mips/Data_Mem.v | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuit_synthesis/mips/Data_Mem.v b/circuit_synthesis/mips/Data_Mem.v
index ee8177b..22a25bb 100644
--- a/circuit_synthesis/mips/Data_Mem.v
+++ b/circuit_synthesis/mips/Data_Mem.v
@@ -113,7 +113,7 @@ module Data_Mem
             if(addr[1]==1'b0)
                 data_out <= {{16{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:0]};
             else if (addr[1]==1'b1)
-                data_out <= {{16{memory[addr[L+1:2]][16]}}, memory[addr[L+1:2]][31:16]};
+                data_out <= {{16{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:16]};
         end
         `MEM_READ8  :
         begin
@@ -131,11 +131,11 @@ module Data_Mem
             if(addr[1:0]==2'b00)
                 data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][7:0]};
             else if(addr[1:0]==2'b01)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][15:8]};
+                data_out <= {{24{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:8]};
             else if(addr[1:0]==2'b10)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][23:16]};
+                data_out <= {{24{memory[addr[L+1:2]][23]}}, memory[addr[L+1:2]][23:16]};
             else if(addr[1:0]==2'b11)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][31:24]};
+                data_out <= {{24{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:24]};
         end
         default:
             data_out <= 32'b0;
-- 
2.43.0


From 57d7d2bfe5505cb8eb4d49e3a9aace564445fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:42 +0000
Subject: [PATCH 36/57] fix: mips: SLTIU compares with the sign-extended
 immediate

---
 circuit_synthesis/mips/Control.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/mips/Control.v b/circuit_synthesis/mips/Control.v
index 8883dd3..f407e45 100644
--- a/circuit_synthesis/mips/Control.v
+++ b/circuit_synthesis/mips/Control.v
@@ -577,7 +577,7 @@ module Control
 				$display("SLTIU");
 				rs_index<=r1;
 				rd_index<=r2;
-				b_source_out<=`B_FROM_IMM;
+				b_source_out<=`B_FROM_SIGNED_IMM;
 				alu_func<=`ALU_LESS_THAN;
 			end
 			3'b100://ANDI
-- 
2.43.0


From 58f6ebcf389929a67283c74196d027e730aa00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:04 +0000
Subject: [PATCH 37/57] fix: a23: MLA adds its accumulate register to the
 product

---
 circuit_synthesis/a23/a23_decode.v | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/circuit_synthesis/a23/a23_decode.v b/circuit_synthesis/a23/a23_decode.v
index bdfb192..485d2d4 100644
--- a/circuit_synthesis/a23/a23_decode.v
+++ b/circuit_synthesis/a23/a23_decode.v
@@ -109,8 +109,8 @@ localparam [4:0] RST_WAIT1      = 5'd0,
                  //MTRANS5_ABORT  = 5'd15,
                  MULT_PROC1     = 5'd16,  // first cycle, save pre fetch instruction
                  MULT_PROC2     = 5'd17,  // do multiplication
-                 MULT_STORE     = 5'd19;  // save RdLo
-                 //MULT_ACCUMU    = 5'd20;  // Accumulate add lower 32 bits
+                 MULT_STORE     = 5'd19,  // save RdLo
+                 MULT_ACCUMU    = 5'd20;  // Accumulate add lower 32 bits
                  //SWAP_WRITE     = 5'd22,
                  //SWAP_WAIT1     = 5'd23,
                  //SWAP_WAIT2     = 5'd24,
@@ -239,7 +239,7 @@ assign use_saved_current_instruction = ( control_state == MEM_WAIT1     ||
                                          control_state == MTRANS_EXEC4  ||
                                          control_state == MULT_PROC1    ||
                                          control_state == MULT_PROC2    ||
-                                         //control_state == MULT_ACCUMU   ||
+                                         control_state == MULT_ACCUMU   ||
                                          control_state == MULT_STORE    );
 
 assign use_pre_fetch_instruction = control_state == PRE_FETCH_EXEC;
@@ -803,6 +803,14 @@ always @(*)
     end 
 
 
+    // Add the accumulate register to the product
+    if ( control_state == MULT_ACCUMU ) begin
+        pc_wen_nxt              = 1'd0;  // hold current PC value
+        address_sel_nxt         = 4'd3;  // pc  (not pc + 4)
+        multiply_function_nxt   = o_multiply_function;
+    end
+
+
     // Save RdLo
     // always last cycle of all multiply or multiply accumulate operations
     if ( control_state == MULT_STORE ) begin
@@ -874,7 +882,9 @@ assign instruction_valid = (control_state == EXECUTE || control_state == PRE_FET
         control_state_nxt = MULT_PROC2;
     end else if ( control_state == MULT_PROC2 ) begin
         if ( i_multiply_done )
-            control_state_nxt = MULT_STORE;
+            control_state_nxt = o_multiply_function[1] ? MULT_ACCUMU : MULT_STORE;
+    end else if ( control_state == MULT_ACCUMU ) begin
+        control_state_nxt = MULT_STORE;
     end else if ( instruction_valid ) begin
         control_state_nxt = EXECUTE;
 
-- 
2.43.0


From da709b9d4e583dc36b0727edc78c90cd53cf58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 38/57] fix: a23: a conditional write to the pc that does not
 execute is no jump

---
 circuit_synthesis/a23/a23_execute.v | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/a23/a23_execute.v b/circuit_synthesis/a23/a23_execute.v
index fab593a..33b1dbe 100644
--- a/circuit_synthesis/a23/a23_execute.v
+++ b/circuit_synthesis/a23/a23_execute.v
@@ -190,7 +190,8 @@ assign barrel_shift_in = i_barrel_shift_data_sel == 2'd0 ? i_imm32       :
 
 // If rd is the pc, then seperate the address bits from the status bits for
 // generating the next address to fetch
-assign alu_out_pc_filtered = pc_wen && i_pc_sel == 2'd1 ? pcf(alu_out) : alu_out;
+// A write to the pc that does not execute continues at the next instruction
+assign alu_out_pc_filtered = pc_wen && i_pc_sel == 2'd1 ? (execute ? pcf(alu_out) : pc_minus4) : alu_out;
 
 
 assign branch_address_nxt = (!execute) ? pc_minus4 : alu_out_pc_filtered;
@@ -215,7 +216,6 @@ assign branch_pc_nxt = (!execute) ? pc_minus4 : alu_out;
 // If current instruction does not execute because it does not meet the condition
 // then PC advances to next instruction
 assign pc_nxt = i_pc_sel == 2'd0 ? pc_plus4              :
-                i_pc_sel == 2'd1 ? alu_out               :
                                    branch_pc_nxt         ;
 
 
-- 
2.43.0


From e3a655da21e202c23d6edc0f85ff0f1b8dd5e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 39/57] fix: a23: ADCS, SBCS and RSCS set the negative, zero
 and overflow flags

---
 circuit_synthesis/a23/a23_alu.v | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/circuit_synthesis/a23/a23_alu.v b/circuit_synthesis/a23/a23_alu.v
index a54d5a5..1d21e2e 100644
--- a/circuit_synthesis/a23/a23_alu.v
+++ b/circuit_synthesis/a23/a23_alu.v
@@ -141,13 +141,7 @@ assign o_out = out_sel == 4'd0 ? b_not            :
                out_sel == 4'd7 ? or_out           :
                                  and_out          ;
 
-wire only_carry;
-// activate for adc
-assign only_carry = (out_sel == 4'd1)  && (cin_sel == 2'd2);
-
-assign o_flags = only_carry ?
-                 {1'b0, 1'b0, carry_out, 1'b0}:
-                 {
+assign o_flags = {
                  o_out[31],      // negative
                  |o_out == 1'd0,  // zero
                  carry_out,       // carry
-- 
2.43.0


From f151e625973f762a535bc4666293c8d11337025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 40/57] fix: a23: shifts by immediate 32, RRX and register
 shifts by 32 and more

---
 circuit_synthesis/a23/a23_barrel_shift.v | 25 ++++++++++++++++--------
 circuit_synthesis/a23/a23_decode.v       |  5 ++++-
 circuit_synthesis/a23/a23_execute.v      |  6 +++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/circuit_synthesis/a23/a23_barrel_shift.v b/circuit_synthesis/a23/a23_barrel_shift.v
index 215c33b..aa01281 100644
--- a/circuit_synthesis/a23/a23_barrel_shift.v
+++ b/circuit_synthesis/a23/a23_barrel_shift.v
@@ -44,6 +44,7 @@ module a23_barrel_shift (
 input       [31:0]          i_in,
 input                       i_carry_in,
 input       [7:0]           i_shift_amount,     // uses 8 LSBs of Rs, or a 5 bit immediate constant
+input                       i_shift_imm_zero,   // high when immediate shift value of zero selected
 input       [1:0]           i_function,
 
 output      [31:0]          o_out,
@@ -106,8 +107,10 @@ wire [32:0] ror_out;
 wire [32:0] lsl_out_struct;
 lsl_struct #(.CTRL(5)) u_lsl_struct(i_in, i_shift_amount[4:0], lsl_out_struct);
 
-assign lsl_out[32] = i_shift_amount == 5'd0  ? i_carry_in: lsl_out_struct[32];
-assign lsl_out[31:0] = lsl_out_struct[31:0];
+assign lsl_out = i_shift_amount == 8'd0       ? {i_carry_in, i_in     } :
+                 i_shift_amount[7:5] == 3'd0  ? lsl_out_struct         :
+                 i_shift_amount == 8'd32      ? {i_in[0], 32'd0       } :
+                                                {1'd0,    32'd0       } ;  // > 32
 
 // The form of the shift field which might be expected to correspond to LSR #0 is used
 // to encode LSR #32, which has a zero result with bit 31 of Rm as the carry output. 
@@ -153,8 +156,11 @@ assign lsl_out[31:0] = lsl_out_struct[31:0];
 wire [32:0] lsr_out_struct;
 lsr_struct #(.CTRL(5)) u_lsr_struct(i_in, i_shift_amount[4:0], lsr_out_struct);
 
-assign lsr_out[32] = i_shift_amount == 5'd0  ? i_carry_in: lsr_out_struct[32];
-assign lsr_out[31:0] = lsr_out_struct[31:0];
+assign lsr_out = i_shift_imm_zero             ? {i_in[31], 32'd0      } :
+                 i_shift_amount == 8'd0       ? {i_carry_in, i_in     } :
+                 i_shift_amount[7:5] == 3'd0  ? lsr_out_struct         :
+                 i_shift_amount == 8'd32      ? {i_in[31], 32'd0      } :
+                                                {1'd0,     32'd0      } ;  // > 32
 
 
 // The form of the shift field which might be expected to give ASR #0 is used to encode
@@ -202,8 +208,10 @@ assign lsr_out[31:0] = lsr_out_struct[31:0];
 wire [32:0] asr_out_struct;
 asr_struct #(.CTRL(5)) u_asr_struct(i_in, i_shift_amount[4:0], asr_out_struct);
 
-assign asr_out[32] = i_shift_amount == 5'd0  ? i_carry_in: asr_out_struct[32];
-assign asr_out[31:0] = asr_out_struct[31:0];
+assign asr_out = i_shift_imm_zero             ? {33{i_in[31]}}         :
+                 i_shift_amount == 8'd0       ? {i_carry_in, i_in     } :
+                 i_shift_amount[7:5] == 3'd0  ? asr_out_struct         :
+                                                {33{i_in[31]}}         ;  // >= 32
 
                                           // carry out, < ------- out --------->
 // assign ror_out = i_shift_imm_zero              ? {i_in[ 0], i_carry_in,  i_in[31: 1]} :  // RXR, (ROR w/ imm 0)
@@ -245,8 +253,9 @@ wire [32:0] ror_out_struct;
 ror_struct #(.CTRL(5)) u_ror_struct(i_in, i_shift_amount[4:0], ror_out_struct);
 
 
-assign ror_out[32] = i_shift_amount == 5'd0  ? i_carry_in: ror_out_struct[32];
-assign ror_out[31:0] = ror_out_struct[31:0];
+assign ror_out = i_shift_imm_zero             ? {i_in[0], i_carry_in, i_in[31:1]} :  // RRX (ROR w/ imm 0)
+                 i_shift_amount == 8'd0       ? {i_carry_in, i_in     } :
+                                                ror_out_struct         ;
 
  
 assign {o_carry_out, o_out} = i_function == LSL ? lsl_out :
diff --git a/circuit_synthesis/a23/a23_decode.v b/circuit_synthesis/a23/a23_decode.v
index 485d2d4..fb4092b 100644
--- a/circuit_synthesis/a23/a23_decode.v
+++ b/circuit_synthesis/a23/a23_decode.v
@@ -504,6 +504,7 @@ always @(*)
                 alu_out_sel_nxt  = 4'd1; // Add
                 alu_cin_sel_nxt  = 2'd1; // cin = 1
                 alu_not_sel_nxt  = 1'd1; // invert B
+                use_carry_in_nxt = shift_extend;
             end
 
             // SBC (Subtract with Carry) subtracts the value of its
@@ -522,6 +523,7 @@ always @(*)
                 alu_cin_sel_nxt  = 2'd1; // cin = 1
                 alu_not_sel_nxt  = 1'd1; // invert B
                 alu_swap_sel_nxt = 1'd1; // swap A and B
+                use_carry_in_nxt = shift_extend;
                 end
 
             if ( opcode == RSC ) begin // Reverse Subtract with carry
@@ -604,9 +606,10 @@ always @(*)
             if ( instruction[25] && itype ==  TRANS )
                 barrel_shift_data_sel_nxt = 2'd2; // Shift value from Rm register
 
-            if ( itype == TRANS && instruction[25] && shift_imm != 5'd0 ) begin
+            if ( itype == TRANS && instruction[25] ) begin
                 barrel_shift_function_nxt   = instruction[6:5];
                 barrel_shift_amount_sel_nxt = 2'd2; // imm_shift_amount
+                use_carry_in_nxt            = 1'd1;
             end
         end
 
diff --git a/circuit_synthesis/a23/a23_execute.v b/circuit_synthesis/a23/a23_execute.v
index 33b1dbe..9537fc6 100644
--- a/circuit_synthesis/a23/a23_execute.v
+++ b/circuit_synthesis/a23/a23_execute.v
@@ -116,6 +116,7 @@ wire [31:0]         pc_nxt;
 wire [31:0]         branch_pc_nxt;
 wire                write_enable_nxt;
 wire [7:0]          shift_amount;
+wire                shift_imm_zero;
 wire [31:0]         barrel_shift_in;
 wire [31:0]         barrel_shift_out;
 wire                barrel_shift_carry;
@@ -171,12 +172,14 @@ assign rn_plus4      = rn        + 32'd4;
 // ========================================================
 // Barrel Shift Amount Select
 // ========================================================
-// An immediate shift value of 0 is translated into 32
 assign shift_amount = i_barrel_shift_amount_sel == 2'd0 ? 8'd0                           :
                       i_barrel_shift_amount_sel == 2'd1 ? rs[7:0]                        :
                       i_barrel_shift_amount_sel == 2'd2 ? {3'd0, i_imm_shift_amount    } :
                                                           {3'd0, i_read_data_alignment } ;
 
+// An immediate shift value of 0 is translated into 32 (into RRX for ROR)
+assign shift_imm_zero = i_barrel_shift_amount_sel == 2'd2 && i_imm_shift_amount == 5'd0;
+
 // ========================================================
 // Barrel Shift Data Select
 // ========================================================
@@ -310,6 +313,7 @@ a23_barrel_shift u_barrel_shift  (
     .i_in             ( barrel_shift_in           ),
     .i_carry_in       ( carry_in                  ),
     .i_shift_amount   ( shift_amount              ),
+    .i_shift_imm_zero ( shift_imm_zero            ),
     .i_function       ( i_barrel_shift_function   ),
     .o_out            ( barrel_shift_out          ),
     .o_carry_out      ( barrel_shift_carry        )
-- 
2.43.0


From 5b111cf71270cfd75e79d0d2a8bfd922d3186c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 41/57] fix: a23: ANDS and TST with an unshifted register keep
 the carry flag

---
 circuit_synthesis/a23/a23_decode.v | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit_synthesis/a23/a23_decode.v b/circuit_synthesis/a23/a23_decode.v
index fb4092b..8fd4c26 100644
--- a/circuit_synthesis/a23/a23_decode.v
+++ b/circuit_synthesis/a23/a23_decode.v
@@ -537,6 +537,7 @@ always @(*)
             if ( opcode == AND || opcode == TST ) begin // Logical AND, Test  (using AND operator)
                 alu_out_sel_nxt  = 4'd8;  // AND
                 alu_cout_sel_nxt = 1'd1;  // i_barrel_shift_carry
+                use_carry_in_nxt = 1'd1;
                 end
 
             if ( opcode == EOR || opcode == TEQ ) begin // Logical Exclusive OR, Test Equivalence (using EOR operator)
-- 
2.43.0


From 06aecf5cec6f9cd8dd1bfe2f1f7874e757cce41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 42/57] fix: AES-192 key expansion does not read behind the
 24-byte key

---
 crypto/aes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/aes.h b/crypto/aes.h
index 7a9d586..87780a9 100644
--- a/crypto/aes.h
+++ b/crypto/aes.h
@@ -132,7 +132,7 @@ inline void AES128KeyExpansion(const unsigned char *userkey, void *key) {
 inline void AES192KeyExpansion(const unsigned char *userkey, void *key) {
   __m128i x0, x1, x2, x3, tmp, *kp = (__m128i *) key;
   kp[0] = x0 = _mm_loadu_si128((__m128i *) userkey);
-  tmp = x3 = _mm_loadu_si128((__m128i *) (userkey + 16));
+  tmp = x3 = _mm_loadl_epi64((__m128i *) (userkey + 16));
   x2 = _mm_setzero_si128();
   EXPAND192_STEP(1, 1);
   EXPAND192_STEP(4, 4);
-- 
2.43.0


From 6783f6c21ecf52d9196af948e36c24d79b2adbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 43/57] fix: skipping a long chain of gates does not overflow
 the stack

---
 garbled_circuit/garbled_circuit_util.cpp | 27 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 041a67c..08638b3 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -36,6 +36,7 @@
 #include "garbled_circuit/garbled_circuit_util.h"
 
 #include <cstdlib>
+#include <vector>
 
 #include "tcpip/tcpip.h"
 #include "util/common.h"
@@ -43,6 +44,7 @@
 #include "util/util.h"
 
 using std::endl;
+using std::vector;
 
 uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
   uint64_t num_of_non_xor = 0;
@@ -507,16 +509,23 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias) {
 
-  int64_t gid = wid - gate_bias;
-  if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
-      && fanout[gid] > 0) {
-    fanout[gid]--;
-    if (fanout[gid] == 0) {
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input0, gate_bias);
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input1, gate_bias);
+  vector<int64_t> pending;  // not recursive, chains of gates may be long
+  while (true) {
+    int64_t gid = wid - gate_bias;
+    if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
+        && fanout[gid] > 0) {
+      fanout[gid]--;
+      if (fanout[gid] == 0) {
+        pending.push_back(garbled_circuit.garbledGates[gid].input1);
+        wid = garbled_circuit.garbledGates[gid].input0;
+        continue;
+      }
+    }
+    if (pending.empty()) {
+      return;
     }
+    wid = pending.back();
+    pending.pop_back();
   }
 }
 
-- 
2.43.0


From 1705b2a55f25169d937a133c8d3e4df4f4d506fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 44/57] fix: the topological sort of a deep netlist does not
 overflow the stack

---
 scd/scheduling.cpp | 53 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..357a43b 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -342,37 +342,36 @@ int TopologicalSortVisit(const ReadCircuit &read_circuit, vector<Mark>* marks,
   int64_t init_input_size = read_circuit.get_init_input_size();
   int64_t init_input_dff_size = init_input_size + read_circuit.dff_size;
 
-  if (current_unmark_index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
-    return SUCCESS;
-  } else if (marks->at(current_unmark_index) == Mark::TempMarked) {
-    LOG(ERROR) << "There is a loop in the circuit." << endl;
-    loop->push_back(current_unmark_index);
-    return FAILURE;
-  } else if (marks->at(current_unmark_index) == Mark::UnMarked) {
-    marks->at(current_unmark_index) = Mark::TempMarked;
-
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[0],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
-    }
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[1],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
+  // Depth-first, but not recursive: chains of gates may be long.
+  vector<std::pair<int64_t, int> > path;  // gates and their next input
+  int64_t index = current_unmark_index;
+  while (true) {
+    if (index < 0) {
+      // CONSTANT or IV 2nd input (-1) are sorted.
+    } else if (marks->at(index) == Mark::TempMarked) {
+      LOG(ERROR) << "There is a loop in the circuit." << endl;
+      loop->push_back(index);
+      for (; !path.empty(); path.pop_back()) {
+        loop->push_back(path.back().first);
+      }
       return FAILURE;
+    } else if (marks->at(index) == Mark::UnMarked) {
+      marks->at(index) = Mark::TempMarked;
+      path.push_back(std::make_pair(index, 0));
     }
 
-    marks->at(current_unmark_index) = Mark::PerMarked;
-    sorted_list->push_back(current_unmark_index);
+    while (!path.empty() && path.back().second == 2) {
+      marks->at(path.back().first) = Mark::PerMarked;
+      sorted_list->push_back(path.back().first);
+      path.pop_back();
+    }
+    if (path.empty()) {
+      return SUCCESS;
+    }
+    index = read_circuit.gate_list[path.back().first - init_input_dff_size]
+        .input[path.back().second];
+    path.back().second++;
   }
-
-  return SUCCESS;
 }
 
 int TopologicalSort(const ReadCircuit &read_circuit,
-- 
2.43.0


From ca3b331f73cf36f67162814a98c90f3337eb58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 45/57] fix: a netlist cell with an unknown pin is refused

---
 scd/parse_netlist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index bb17a58..8517f17 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -408,6 +408,9 @@ int ParseNetlist(const string &filename,
       port_key = "";
     } else if (!str.compare(".RST")) {
       port_key = "";
+    } else if (gate_type != INVALGATE && str.at(0) == '.') {
+      LOG(ERROR) << "The pin name is not valid " << str << ": " << line << endl;
+      return FAILURE;
     } else if(port_key != "") {
       // fix Synopsys 2015 bug:
       // space after '['
-- 
2.43.0


From 7b9913b639b7d7b7b233821fff8750a43a5387e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 46/57] fix: malformed Bristol headers and gates are refused

---
 scd/parse_netlist.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 8517f17..84dadd5 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -473,6 +473,7 @@ int ParseBrisNetlist(const string &filename,
 
   fin >> read_circuit_string->g_input_size >> read_circuit_string->e_input_size
       >> read_circuit_string->output_size;
+  CHECK_EXPR_MSG(fin.good(), "The header is broken.");
 
   for (uint64_t gid = 0; gid < gate_size; gid++) {
     string g_type;
@@ -485,6 +486,11 @@ int ParseBrisNetlist(const string &filename,
     } else if (inpu_num == 2) {
       fin >> i1 >> o >> g_type;
     }
+    if (fin.fail() || output_num != 1
+        || inpu_num != ((g_type == "INV") ? 1u : 2u)) {
+      LOG(ERROR) << "Gate " << gid << " is broken." << endl;
+      return FAILURE;
+    }
 
     ReadGateString g;
     g.input[0] = GetBristWire(i0, wire_size, *read_circuit_string);
-- 
2.43.0


From f1de4411d8a0a63fa7790cacda439db5fdc92163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 47/57] fix: a netlist wire with more than one driver is
 refused

---
 scd/parse_netlist.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 84dadd5..68fc0c3 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -547,20 +547,25 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   AddWireArray(wire_name_table, "e_input", read_circuit->e_input_size,
                &wire_index);
 
+  wire_name_table.insert(pair<string, int64_t>("", ((uint64_t) - 1)));
+  wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
+  wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
+
   for (uint64_t i = 0; i < read_circuit->dff_size; i++) {
-    wire_name_table.insert(
-        pair<string, int64_t>(read_circuit_string.dff_list_string[i].output,
-                              wire_index++));  //DFF Qs
+    const string& output = read_circuit_string.dff_list_string[i].output;
+    CHECK_EXPR_MSG(
+        wire_name_table.insert(
+            pair<string, int64_t>(output, wire_index++)).second,  //DFF Qs
+        output + " has more than one driver.");
   }
 
   for (uint i = 0; i < read_circuit->gate_size; i++) {
-    wire_name_table.insert(
-        pair<string, int64_t>(read_circuit_string.gate_list_string[i].output,
-                              wire_index++));  // gates' output
+    const string& output = read_circuit_string.gate_list_string[i].output;
+    CHECK_EXPR_MSG(
+        wire_name_table.insert(
+            pair<string, int64_t>(output, wire_index++)).second,  // gates' output
+        output + " has more than one driver.");
   }
-  wire_name_table.insert(pair<string, int64_t>("", ((uint64_t) - 1)));
-  wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
-  wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
   // An assignment may be written before the one it depends on, so go over the
   // unresolved ones again as long as that resolves any of them.
-- 
2.43.0


From f9845507bc18a060f31569ca33733c00dffb7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 48/57] fix: init ports are refused outside of the initial
 values of flip-flops

---
 scd/parse_netlist.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 68fc0c3..6a04ee7 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -518,6 +518,33 @@ int ParseBrisNetlist(const string &filename,
   return SUCCESS;
 }
 
+// Init ports exist only as the initial values of flip-flops, and nothing else
+// can be the initial value of a flip-flop.
+int CheckInitWires(const ReadCircuit& read_circuit) {
+  int64_t init_size = (int64_t) (read_circuit.p_init_size
+      + read_circuit.g_init_size + read_circuit.e_init_size);
+  auto is_init = [init_size](int64_t wire) {
+    return wire >= 0 && wire < init_size;
+  };
+  const string msg = "Init ports can only be connected to I of flip-flops.";
+
+  for (const ReadGate& gate : read_circuit.gate_list) {
+    CHECK_EXPR_MSG(!is_init(gate.input[0]) && !is_init(gate.input[1]), msg);
+  }
+  for (const ReadGate& dff : read_circuit.dff_list) {
+    CHECK_EXPR_MSG(!is_init(dff.input[0]), msg);
+    CHECK_EXPR_MSG(dff.input[1] < init_size,
+                   "I of flip-flops can only be connected to init ports.");
+  }
+  for (int64_t output : read_circuit.output_list) {
+    CHECK_EXPR_MSG(!is_init(output), msg);
+  }
+  CHECK_EXPR_MSG(
+      read_circuit.terminate_id == 0 || !is_init(read_circuit.terminate_id),
+      msg);
+  return SUCCESS;
+}
+
 int IdAssignment(const ReadCircuitString& read_circuit_string,
                  ReadCircuit* read_circuit) {
   read_circuit->p_init_size = read_circuit_string.p_init_size;
@@ -668,5 +695,5 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
     read_circuit->terminate_id = wire_name_table["terminate"];
   }
 
-  return SUCCESS;
+  return CheckInitWires(*read_circuit);
 }
-- 
2.43.0


From 74f9b3f321b9c5e7f9b1b05285547a9f4feb7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 49/57] fix: circuit files with invalid wires, gates or sizes
 are refused

---
 scd/scd.cpp | 64 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 0c11920..c3ace7c 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -41,8 +41,58 @@
 #include <fstream>
 #include <iostream>
 #include <new>
+#include "util/common.h"
 #include "util/log.h"
 
+// Every wire that is read exists, gates read only constants, registers, inputs
+// and the gates before them, and init wires are read only by flip-flops' I.
+static bool IsValidCircuit(const GarbledCircuit& garbled_circuit) {
+  int64_t init_size = garbled_circuit.get_init_size();
+  int64_t wire_size = garbled_circuit.get_wire_size();
+  auto is_const = [](int64_t wire) {
+    return wire == CONST_ZERO || wire == CONST_ONE;
+  };
+  auto is_in = [](int64_t wire, int64_t lo, int64_t hi) {
+    return wire >= lo && wire < hi;
+  };
+
+  for (uint64_t i = 0; i < garbled_circuit.gate_size; i++) {
+    const GarbledGate& gate = garbled_circuit.garbledGates[i];
+    if (gate.type != ANDGATE && gate.type != ANDNGATE && gate.type != NANDGATE
+        && gate.type != NANDNGATE && gate.type != ORGATE
+        && gate.type != ORNGATE && gate.type != NORGATE
+        && gate.type != NORNGATE && gate.type != XORGATE
+        && gate.type != XNORGATE && gate.type != NOTGATE) {
+      return false;
+    }
+    if (!is_const(gate.input0)
+        && !is_in(gate.input0, init_size, gate.output)) {
+      return false;
+    }
+    if (gate.type != NOTGATE && !is_const(gate.input1)
+        && !is_in(gate.input1, init_size, gate.output)) {
+      return false;
+    }
+  }
+  for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    if (!is_in(garbled_circuit.outputs[i], init_size, wire_size)) {
+      return false;
+    }
+  }
+  for (uint64_t i = 0; i < garbled_circuit.dff_size; i++) {
+    if (!is_const(garbled_circuit.D[i])
+        && !is_in(garbled_circuit.D[i], init_size, wire_size)) {
+      return false;
+    }
+    if (!is_const(garbled_circuit.I[i])
+        && !is_in(garbled_circuit.I[i], 0, init_size)) {
+      return false;
+    }
+  }
+  return garbled_circuit.terminate_id == 0
+      || is_in(garbled_circuit.terminate_id, init_size, wire_size);
+}
+
 int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   std::ifstream f(file_name, std::ios::out);
   if (!f.is_open()) {
@@ -59,6 +109,16 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     LOG(ERROR) << "can't read the header of " << file_name << endl;
     return FAILURE;
   }
+  for (uint64_t size : { garbled_circuit->p_init_size,
+      garbled_circuit->g_init_size, garbled_circuit->e_init_size,
+      garbled_circuit->p_input_size, garbled_circuit->g_input_size,
+      garbled_circuit->e_input_size, garbled_circuit->dff_size,
+      garbled_circuit->output_size, garbled_circuit->gate_size }) {
+    if ((int64_t) size < 0) {
+      LOG(ERROR) << "negative size in the header of " << file_name << endl;
+      return FAILURE;
+    }
+  }
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -121,6 +181,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     LOG(ERROR) << file_name << " is incomplete" << endl;
     return FAILURE;
   }
+  if (!IsValidCircuit(*garbled_circuit)) {
+    LOG(ERROR) << file_name << " is not a valid circuit" << endl;
+    return FAILURE;
+  }
 
   f.close();
 
-- 
2.43.0


From 14bc6f75d17b742464ce723230a9cc377dd48530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:14 +0000
Subject: [PATCH 50/57] fix: gates that only feed unused gates are not garbled

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 9d608cb..79e06a7 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -299,7 +299,7 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
       GarbleEvalGateKnownValue(input0_value, input1_value, type,
                                &wires_val[output]);
 
-      if (!IsSecret(wires_val[output])) {
+      if (fanout[i] == 0 || !IsSecret(wires_val[output])) {
         fanout[i] = 0;
         if (IsSecret(input0_value)) {
           ReduceFanout(garbled_circuit, fanout, input0, gate_bias);
@@ -609,7 +609,7 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 
       GarbleEvalGateKnownValue(input0_value, input1_value, type,
                                &wires_val[output]);
-      if (!IsSecret(wires_val[output])) {
+      if (fanout[i] == 0 || !IsSecret(wires_val[output])) {
         fanout[i] = 0;
         if (IsSecret(input0_value)) {
           ReduceFanout(garbled_circuit, fanout, input0, gate_bias);
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index f691348..d276869 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -464,7 +464,7 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 
     GarbleEvalGateKnownValue(input0_value, input1_value, type,
                              &wires_val[output]);
-    if (!IsSecret(wires_val[output])) {
+    if (fanout[i] == 0 || !IsSecret(wires_val[output])) {
       fanout[i] = 0;
       if (IsSecret(input0_value)) {
         ReduceFanout(garbled_circuit, fanout, input0, gate_bias);
@@ -675,7 +675,7 @@ uint64_t EvaluateLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 
     GarbleEvalGateKnownValue(input0_value, input1_value, type,
                              &wires_val[output]);
-    if (!IsSecret(wires_val[output])) {
+    if (fanout[i] == 0 || !IsSecret(wires_val[output])) {
       fanout[i] = 0;
       if (IsSecret(input0_value)) {
         ReduceFanout(garbled_circuit, fanout, input0, gate_bias);
-- 
2.43.0


From e9bda0ecfe3880c686c53501da68d923edb25d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 51/57] Revert "fix: non_secret_test adds when sel is set, as
 its comment says (MUX gives B when S)"

This reverts commit 56f0b059067832e36cbcaab57ea553a3f0dc2a9d.
---
 circuit_synthesis/non_secret_test/non_secret_test.v | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/non_secret_test/non_secret_test.v b/circuit_synthesis/non_secret_test/non_secret_test.v
index 52bf79f..e27f9d7 100644
--- a/circuit_synthesis/non_secret_test/non_secret_test.v
+++ b/circuit_synthesis/non_secret_test/non_secret_test.v
@@ -60,8 +60,8 @@ module non_secret_test
   )
   _MUX 
   (
-    .A(o_sub),
-    .B(o_add),
+    .A(o_add),
+    .B(o_sub),
     .S(sel),
     .O(o)
   );
-- 
2.43.0


From 97dd1c1f861ca62ce5455bd69d51d0330ebd7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:58 +0000
Subject: [PATCH 52/57] fix: a build without logging reports failures too

Without ENABLE_LOG the CHECK macros dropped their checks, so that every failed
call was ignored: broken connections, malformed inputs and refused requests
ended in success, endless waits or crashes.
---
 util/log.cpp |  1 -
 util/log.h   | 18 +++++++-----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 1db94f2..eb4b164 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -40,7 +40,6 @@ bool dump_enabled = false;
 map<string, ofstream*> dump_map;
 ostream* log_map[2];  // ERROR, INFO
 DummyLog dummy_log;
-bool __dummy_expr__;
 
 DummyLog& DummyLogStream() {
   return dummy_log;
diff --git a/util/log.h b/util/log.h
index c884ef9..d8cc5b5 100644
--- a/util/log.h
+++ b/util/log.h
@@ -58,11 +58,16 @@ class DummyLog : public ostream {
 
 #ifdef ENABLE_LOG
 #define __FILENAME__ (strrchr(__FILE__, '/') ? strrchr(__FILE__, '/') + 1 : __FILE__)
+#define LOG(X) LogStream((X)) << __FILENAME__ << ":" <<  __LINE__ << " \033[" \
+  << LOG_COLOR(X) << "m" << #X << "\033[0m: "
+#else /* ENABLE_LOG */
+#define LOG(X) DummyLogStream()
+#endif /* ENABLE_LOG */
+
+// Failures are reported to the caller whether they are logged or not.
 #define CHECK_ALLOC(X) try { X; } catch (std::bad_alloc& e) { \
     LOG(ERROR) << e.what() << std::endl; \
     return FAILURE; }
-#define LOG(X) LogStream((X)) << __FILENAME__ << ":" <<  __LINE__ << " \033[" \
-  << LOG_COLOR(X) << "m" << #X << "\033[0m: "
 #define CHECK_EXPR(X) if((X)==false) { LOG(ERROR) << #X << " failed" \
   << std::endl; return FAILURE; }
 #define CHECK_EXPR_MSG(X, Y) if((X)==false) { LOG(ERROR) << (#X) << " failed: \"" \
@@ -71,15 +76,6 @@ class DummyLog : public ostream {
   << std::endl; return FAILURE; }
 #define BN_CHECK(X) if((X)==0) { LOG(ERROR) << #X << " failed" \
   << std::endl; return FAILURE; }
-#else /* ENABLE_LOG */
-extern bool __dummy_expr__;
-#define CHECK_ALLOC(X) X
-#define LOG(X) DummyLogStream()
-#define CHECK_EXPR(X) __dummy_expr__ = X
-#define CHECK_EXPR_MSG(X, Y) __dummy_expr__ = X
-#define CHECK(X) X
-#define BN_CHECK(X) X
-#endif /* ENABLE_LOG */
 
 void LogInitial(int argc, char *argv[]);
 void LogFinish();
-- 
2.43.0


From cfba160bf1110eff5e891702d91aa3f8083cb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:58 +0000
Subject: [PATCH 53/57] fix: the parties' memory dumps get files of their own
 in the given directory

The directory was read before the options were stored, and the main program
then replaced the parties' file name prefixes.
---
 garbled_circuit/garbled_circuit_main.cpp | 3 ++-
 util/log.cpp                             | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/garbled_circuit/garbled_circuit_main.cpp b/garbled_circuit/garbled_circuit_main.cpp
index f1c6087..b90fd1c 100644
--- a/garbled_circuit/garbled_circuit_main.cpp
+++ b/garbled_circuit/garbled_circuit_main.cpp
@@ -146,6 +146,7 @@ int main(int argc, char* argv[]) {
   string p_input_f_hex_str;
   string init_f_hex_str;
   string input_f_hex_str;
+  string dump_directory;  // LogInitial() uses it.
   int64_t terminate_period;
   uint64_t clock_cycles;
   string output_mask;
@@ -180,7 +181,7 @@ int main(int argc, char* argv[]) {
    "File or Hexadecimal input.")  //
   ("clock_cycles,c", po::value<uint64_t>(&clock_cycles)->default_value(1),
    "Number of clock cycles to evaluate the circuit.")  //
-  ("dump_directory", po::value<string>(&dump_prefix)->default_value(""),
+  ("dump_directory", po::value<string>(&dump_directory)->default_value(""),
    "Directory for dumping memory hex files.")  //
   ("disable_OT", "Disables Oblivious Transfer (OT) for transferring labels. "
    "WARNING: OT is crucial for GC security.")  //
diff --git a/util/log.cpp b/util/log.cpp
index eb4b164..0ec5e44 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -61,6 +61,7 @@ void LogInitial(int argc, char *argv[]) {
       .allow_unregistered().run();
 
   po::store(parsed, vm);
+  po::notify(vm);
 
   bool log_2_std = false;
   if (vm.count("log2std")) {
@@ -73,6 +74,8 @@ void LogInitial(int argc, char *argv[]) {
   }
 
   if (vm.count("dump_directory")) {
+    if (!dump_directory.empty() && dump_directory.back() != '/')
+      dump_directory += "/";
     if (vm.count("alice"))
       dump_directory += "alice-";
     else if (vm.count("bob"))
-- 
2.43.0


From fabcdafe5848f2094a8dce937d1850341a0fa900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:58 +0000
Subject: [PATCH 54/57] fix: the garbler dumps its output labels in the low
 memory mode too

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index d276869..8d06105 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -547,6 +547,7 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     output_labels[(i) * 2 + 0] = wires[garbled_circuit.outputs[i]].label0;
     output_labels[(i) * 2 + 1] = wires[garbled_circuit.outputs[i]].label1;
     output_vals[i] = wires_val[garbled_circuit.outputs[i]];
+    DUMP("output") << wires[garbled_circuit.outputs[i]].label0 << endl;
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
-- 
2.43.0


From c85c71a4a22de6485bf92902616fbcd37517426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:10 +0000
Subject: [PATCH 55/57] fix: connection functions that fail leave no descriptor
 open

ServerInit, ServerOpenSocket, ServerWaitForClient and ClientInit returned
without closing the sockets they had opened; the result of listen was not
looked at.
---
 tcpip/tcpip.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index bc975de..d84e662 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -48,6 +48,7 @@ int ServerOpenSocket(int port) {
   int enable = 1;
   if (setsockopt(listenfd, SOL_SOCKET, SO_REUSEADDR, &enable, sizeof(int)) < 0){
     LOG(ERROR) << strerror(errno) << endl;
+    close(listenfd);
     return FAILURE;
   }
   
@@ -58,9 +59,14 @@ int ServerOpenSocket(int port) {
   serv_addr.sin_port = htons(port);
   if (bind(listenfd, (struct sockaddr *) &serv_addr, sizeof(serv_addr)) < 0) {
     LOG(INFO) << strerror(errno) << endl;
+    close(listenfd);
+    return FAILURE;
+  }
+  if (listen(listenfd, 5) < 0) {
+    LOG(ERROR) << strerror(errno) << endl;
+    close(listenfd);
     return FAILURE;
   }
-  listen(listenfd, 5);
   return SUCCESS;
 }
 
@@ -77,6 +83,7 @@ int ServerWaitForClient() {
                           sizeof(int));
   if (result < 0) {
     LOG(ERROR) << strerror(errno) << endl;
+    close(connfd);
     return FAILURE;
   }
   return connfd;
@@ -86,8 +93,10 @@ int ServerInit(int port) {
   if (ServerOpenSocket(port) == FAILURE)
     return FAILURE;
   int connfd;
-  if ((connfd = ServerWaitForClient()) == FAILURE)
+  if ((connfd = ServerWaitForClient()) == FAILURE) {
+    close(listenfd);
     return FAILURE;
+  }
   return connfd;
 }
 
@@ -109,6 +118,7 @@ int ClientInit(const char* ip, int port) {
   server = gethostbyname(ip);
   if (server == NULL) {
     LOG(ERROR) << strerror(errno) << endl;
+    close(sockfd);
     return FAILURE;
   }
   bzero((char *) &serv_addr, sizeof(serv_addr));
@@ -118,6 +128,7 @@ int ClientInit(const char* ip, int port) {
   serv_addr.sin_port = htons(port);
   if (connect(sockfd, (struct sockaddr *) &serv_addr, sizeof(serv_addr)) < 0) {
     LOG(ERROR) << strerror(errno) << endl;
+    close(sockfd);
     return FAILURE;
   }
 
@@ -126,6 +137,7 @@ int ClientInit(const char* ip, int port) {
                           sizeof(int));
   if (result < 0) {
     LOG(ERROR) << strerror(errno) << endl;
+    close(sockfd);
     return FAILURE;
   }
   return sockfd;
-- 
2.43.0


From 9bd59a91ad2a40b8bd338fc0d86d0f551ec1778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:11 +0000
Subject: [PATCH 56/57] fix: port numbers beyond 65535 are refused

They were cut to sixteen bits, and another port was opened.
---
 tcpip/tcpip.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index d84e662..a9f70be 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -38,6 +38,10 @@ int listenfd = 0;
 int kSocketBuffSize = (1 << 15);
 
 int ServerOpenSocket(int port) {
+  if (port < 0 || port > UINT16_MAX) {
+    LOG(ERROR) << "no such port: " << port << endl;
+    return FAILURE;
+  }
   struct sockaddr_in serv_addr;
   listenfd = socket(AF_INET, SOCK_STREAM, 0);
   if (listenfd < 0) {
@@ -107,6 +111,10 @@ int ServerClose(int sock) {
 }
 
 int ClientInit(const char* ip, int port) {
+  if (port < 0 || port > UINT16_MAX) {
+    LOG(ERROR) << "no such port: " << port << endl;
+    return FAILURE;
+  }
   int sockfd;
   struct hostent *server;
   struct sockaddr_in serv_addr;
-- 
2.43.0


From bc62572329301d2a21dee41db0094a7bc53fcefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:11 +0000
Subject: [PATCH 57/57] fix: sending on a closed connection reports the failure

The process was ended by SIGPIPE before SendData could return FAILURE.
---
 tcpip/tcpip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index a9f70be..f5f9a7a 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -162,8 +162,8 @@ int SendData(int sock, const void *var, int len) {
 
   int remain_len = 0;
   do {
-    int len_ret = write(sock, (const char *) var + remain_len,
-                        len - remain_len);
+    int len_ret = send(sock, (const char *) var + remain_len,
+                       len - remain_len, MSG_NOSIGNAL);
     if (len_ret == FAILURE) {
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
-- 
2.43.0


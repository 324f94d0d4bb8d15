From 5eb58c34a109a5c956ad21f8d240b6c395b3761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/25] fix: exchange the terminate bit so both parties stop at
 the same cycle

Bob received twice where he should answer Alice, so any session with a
secret terminate signal dead-locked, and both sides took equal types (a
0 bit) for the signal being raised.
---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From 2f058ca0b68a92bc10d874b4f1583e7c384c4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/25] fix: Bob's output keeps a public 1 that belongs to him

A public output bit of value 1 was dropped from Bob's output unless the
mask was both too short for it and clear at it.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From af0d263c105b3626328e179dd48e6512ba8b3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 03/25] fix: a failed garbling or evaluation fails the session

GarbleBNHighMem and EvaluateBNHighMem ignored the result and went on with
half-filled output labels, so a session that broke down could report a
wrong output as a success.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..b3d39ed 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From ead2d80c7ac2110d7e15b3432b8b168729ec0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 04/25] fix: do not send uninitialised memory in garbled tables

GarbledTable has 12 bytes of padding after gid; the tables were allocated
uninitialised and sent whole, so stale heap contents reached Bob.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index b3d39ed..22f0802 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -177,9 +177,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..c25ac48 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 1e340153cc0f6ac3c1718f80d4af39f0897a0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 05/25] fix: Bob refuses more garbled tables than his buffer
 holds

The table count comes from the peer and was used unchecked as the length
of a read into a buffer of num_of_non_xor tables.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 ++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 22f0802..68c23e7 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -495,6 +495,8 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice announced more garbled tables than non-XOR gates.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index c25ac48..60f9c58 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -271,6 +271,8 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice announced more garbled tables than non-XOR gates.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
-- 
2.43.0


From df79a17b6212aec3683c5ad70c23f794fda7a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 06/25] fix: release BN buffers with delete[]

---
 crypto/BN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
-- 
2.43.0


From 9d2639510de72abbbc3b9078fd36d9de362eed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 07/25] fix: RecvBN rejects a bad length announced by the peer

A negative or huge length ended the process with an uncaught exception.
---
 crypto/BN.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 7b1bba8..e4b4300 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -127,8 +127,14 @@ int RecvBN(int connf, BIGNUM *bignum) {
   CHECK(RecvData(connf, bignum->d, bignum->dmax * sizeof(BN_ULONG)));*/
   int size;
   CHECK(RecvData(connf, &size, sizeof(int)));
-  unsigned char* bn_arr = new unsigned char[size];
-  CHECK(RecvData(connf, bn_arr, size));
+  CHECK_EXPR_MSG(size >= 0, "Negative length of a received BN.");
+  unsigned char* bn_arr = nullptr;
+  CHECK_ALLOC(bn_arr = new unsigned char[size]);
+  if (RecvData(connf, bn_arr, size) == FAILURE) {
+    LOG(ERROR) << "receiving BN failed" << endl;
+    delete[] bn_arr;
+    return FAILURE;
+  }
   BN_bin2bn(bn_arr, size, bignum);
   delete[] bn_arr;
   return SUCCESS;
-- 
2.43.0


From 3862b52c617c74ebf3765b1f56318fd614a05f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 08/25] fix: Bob's tables start without a gate id

EvalGate compares the gid of the next table; before the first table was
received in that slot it compared uninitialised memory, and a chance match
made Bob use garbage and fail the session.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 68c23e7..2548966 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -481,6 +481,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t) (-1);  // no table received yet.
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 60f9c58..5c3b5cd 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t) (-1);  // no table received yet.
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 41af8d7bb494ca2021fe97daadd459d0a74df90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 09/25] fix: draw wire labels and the free-XOR offset from a
 CSPRNG

RandomBlock was a linear congruential generator seeded with time(0). The
global key Alice sends in the clear is the output that follows the secret
offset R, so Bob could step the generator back by one and read R and with
it every input bit of Alice.
---
 util/util.cpp | 48 +++++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..646a659 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -36,6 +36,7 @@
 #include "util/util.h"
 
 #include <boost/algorithm/string.hpp>
+#include <openssl/rand.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdint.h>
@@ -45,50 +46,31 @@
 #include <cstdlib> 
 #include <vector>
 #include <fstream>
+#include <stdexcept>
 #include "crypto/aes.h"
 #include "util/common.h"
 #include "util/log.h"
 
 using std::ifstream;
 
-static block cur_seed;
-
+/*
+ * RandomBlock() draws from the cryptographic generator of OpenSSL, which seeds
+ * itself. The seed is only mixed in as additional entropy.
+ */
 void SrandSSE(unsigned int seed) {
-  cur_seed = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+  RAND_add(&seed, sizeof(seed), 0.0);
 }
 
 block RandomBlock() {
-
-  block cur_seed_split;
-  block multiplier;
-  block adder;
-  block mod_mask;
-  //block sra_mask;
-  //block sseresult;
-
-  static const unsigned int mult[4] = { 214013, 17405, 214013, 69069 };
-  static const unsigned int gadd[4] = { 2531011, 10395331, 13737667, 1 };
-  static const unsigned int mask[4] = { 0xFFFFFFFF, 0, 0xFFFFFFFF, 0 };
-  //static const unsigned int masklo[4] = { 0x00007FFF, 0x00007FFF, 0x00007FFF,
-  //  0x00007FFF };
-
-  adder = _mm_load_si128((block *) gadd);
-  multiplier = _mm_load_si128((block *) mult);
-  mod_mask = _mm_load_si128((block *) mask);
-  //sra_mask = _mm_load_si128((block *) masklo);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_mul_epu32(cur_seed, multiplier);
-  multiplier = _mm_shuffle_epi32(multiplier, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed_split = _mm_mul_epu32(cur_seed_split, multiplier);
-  cur_seed = _mm_and_si128(cur_seed, mod_mask);
-  cur_seed_split = _mm_and_si128(cur_seed_split, mod_mask);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed_split, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_or_si128(cur_seed, cur_seed_split);
-  cur_seed = _mm_add_epi32(cur_seed, adder);
-
-  return cur_seed;
-
+  block v;
+  if (RAND_bytes((unsigned char *) &v, sizeof(block)) != 1) {
+    // labels that can be guessed are worse than no labels at all.
+    LOG(ERROR) << "RAND_bytes failed" << endl;
+    throw std::runtime_error("No randomness is available for labels.");
+  }
+  return v;
 }
+
 /**
  * \brief constant v value based on gate Type
  *
-- 
2.43.0


From 90b7f636c13010d254ca1ef9f7e400a0c378b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 10/25] fix: checks keep failing when logging is compiled out

With ENABLE_LOG off, CHECK and its relatives evaluated their argument and
dropped the result, so every failed read, write or allocation went on as
if it had succeeded.
---
 util/log.cpp |  1 -
 util/log.h   | 12 ++++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 1db94f2..eb4b164 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -40,7 +40,6 @@ bool dump_enabled = false;
 map<string, ofstream*> dump_map;
 ostream* log_map[2];  // ERROR, INFO
 DummyLog dummy_log;
-bool __dummy_expr__;
 
 DummyLog& DummyLogStream() {
   return dummy_log;
diff --git a/util/log.h b/util/log.h
index c884ef9..4739a16 100644
--- a/util/log.h
+++ b/util/log.h
@@ -72,13 +72,13 @@ class DummyLog : public ostream {
 #define BN_CHECK(X) if((X)==0) { LOG(ERROR) << #X << " failed" \
   << std::endl; return FAILURE; }
 #else /* ENABLE_LOG */
-extern bool __dummy_expr__;
-#define CHECK_ALLOC(X) X
+#define CHECK_ALLOC(X) try { X; } catch (std::bad_alloc& e) { \
+    return FAILURE; }
 #define LOG(X) DummyLogStream()
-#define CHECK_EXPR(X) __dummy_expr__ = X
-#define CHECK_EXPR_MSG(X, Y) __dummy_expr__ = X
-#define CHECK(X) X
-#define BN_CHECK(X) X
+#define CHECK_EXPR(X) if((X)==false) { return FAILURE; }
+#define CHECK_EXPR_MSG(X, Y) if((X)==false) { return FAILURE; }
+#define CHECK(X) if((X)==FAILURE) { return FAILURE; }
+#define BN_CHECK(X) if((X)==0) { return FAILURE; }
 #endif /* ENABLE_LOG */
 
 void LogInitial(int argc, char *argv[]);
-- 
2.43.0


From eababefb195080959e70b78fc03e40a7def5be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 11/25] fix: OT extension fails when it gets no randomness

An unchecked BN_rand left S or T at zero: with S = 0 both messages are
masked alike, with T = 0 the selection bits can be read off.
---
 crypto/OT_extension.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..94f38c6 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -133,7 +133,7 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
 
   // 0. generate random k-bit s
   BIGNUM* S = BN_new();
-  BN_rand(S, SEC_K_BIT, -1, 0);
+  BN_CHECK(BN_rand(S, SEC_K_BIT, -1, 0));
 
   BIGNUM** Q = new BIGNUM*[SEC_K_BIT];
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
@@ -188,7 +188,7 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
     for (uint32_t j = 0; j < 2; j++) {
       T[i][j] = BN_new();
     }
-    BN_rand(T[i][0], SEC_K_BIT, -1, 0);
+    BN_CHECK(BN_rand(T[i][0], SEC_K_BIT, -1, 0));
     int sel_bit = BN_is_bit_set(sel, i);
     if (sel_bit == 1) {
       BN_CHECK(BN_copy(T[i][1], T[i][0]));
-- 
2.43.0


From 16d70c5a835c81676bd4a7f23e7c9949c6d0a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 12/25] fix: a failed listen() fails ServerOpenSocket

---
 tcpip/tcpip.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index bc975de..8acf287 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -60,7 +60,10 @@ int ServerOpenSocket(int port) {
     LOG(INFO) << strerror(errno) << endl;
     return FAILURE;
   }
-  listen(listenfd, 5);
+  if (listen(listenfd, 5) < 0) {
+    LOG(ERROR) << strerror(errno) << endl;
+    return FAILURE;
+  }
   return SUCCESS;
 }
 
-- 
2.43.0


From 701f1b53739a25ed2121ede574ccc2e401046d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 13/25] fix: run the OT extension in batches the base OT can
 hide

The columns of T have one bit per message, but the base OT masks a message
with a 1024-bit number. With more messages than that the upper bits of both
columns went out in the clear, and their difference is Bob's input.
---
 crypto/OT_extension.cpp | 42 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 94f38c6..5416516 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -19,6 +19,7 @@
 #include "crypto/OT_extension.h"
 
 #include <openssl/evp.h>
+#include <algorithm>
 #include <iostream>
 #include <cstring>
 #include "crypto/OT.h"
@@ -30,6 +31,13 @@
 using std::endl;
 
 #define SEC_K_BIT ((uint32_t)128)
+/*
+ * The columns of T are the messages of the base OT, which hides a message by
+ * adding a number of RSA_BITS bits to it. A column, i.e., the number of messages
+ * in a batch, has to be shorter than that number by the security parameter, or
+ * its top bits, and with them the selection of the receiver, show through.
+ */
+#define OT_EXT_BATCH ((uint32_t)(RSA_BITS - SEC_K_BIT))
 
 const EVP_MD *md = nullptr;
 int HashInit() {
@@ -128,8 +136,8 @@ int SwitchRowColumnBNPair(const BIGNUM* const * const * v, uint32_t v_len,
   return SUCCESS;
 }
 
-int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
-                uint32_t m_len, int connfd) {
+static int OTExtSendBNBatch(const BIGNUM* const * const * m, uint32_t m_bitlen,
+                            uint32_t m_len, int connfd) {
 
   // 0. generate random k-bit s
   BIGNUM* S = BN_new();
@@ -178,8 +186,8 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   BN_free(S);
   return SUCCESS;
 }
-int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
-                int connfd, BIGNUM** m) {
+static int OTExtRecvBNBatch(const BIGNUM *sel, uint32_t m_bitlen,
+                            uint32_t m_len, int connfd, BIGNUM** m) {
 
   // 0.generate m_len random k-bits T ([0]) and T^r ([1])
   BIGNUM*** T = new BIGNUM**[m_len];
@@ -242,6 +250,32 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
   return SUCCESS;
 }
 
+int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
+                uint32_t m_len, int connfd) {
+  uint32_t sent = 0;
+  do {
+    uint32_t batch_len = std::min(m_len - sent, OT_EXT_BATCH);
+    CHECK(OTExtSendBNBatch(m + sent, m_bitlen, batch_len, connfd));
+    sent += batch_len;
+  } while (sent < m_len);
+  return SUCCESS;
+}
+
+int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
+                int connfd, BIGNUM** m) {
+  uint32_t received = 0;
+  BIGNUM* batch_sel = BN_new();
+  do {
+    uint32_t batch_len = std::min(m_len - received, OT_EXT_BATCH);
+    BN_CHECK(BN_rshift(batch_sel, sel, received));
+    CHECK(
+        OTExtRecvBNBatch(batch_sel, m_bitlen, batch_len, connfd, m + received));
+    received += batch_len;
+  } while (received < m_len);
+  BN_free(batch_sel);
+  return SUCCESS;
+}
+
 int OTExtSend(const block* const * m, uint32_t m_len, int connfd) {
   BIGNUM*** bn_m = new BIGNUM**[m_len];
   for (uint32_t i = 0; i < m_len; i++) {
-- 
2.43.0


From 8482464d93d3369af3e0aeca579bf2bc1add604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 14/25] fix: ReadSCD rejects a truncated or inconsistent file

A file that was cut short, held something other than numbers or referred
to wires that do not exist was accepted; the garbler, the evaluator and
the plaintext evaluator then worked on uninitialised memory and reported
the result as a success.
---
 scd/scd.cpp | 79 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..7c41cc3 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -35,7 +35,9 @@
 
 #include "scd/scd.h"
 
+#include <cctype>
 #include <cerrno>
+#include <cstdint>
 #include <cstring>
 #include <cstdlib>
 #include <fstream>
@@ -43,6 +45,57 @@
 #include <new>
 #include "util/log.h"
 
+static bool IsGateType(int type) {
+  return type == ANDGATE || type == ANDNGATE || type == NANDGATE
+      || type == NANDNGATE || type == ORGATE || type == ORNGATE
+      || type == NORGATE || type == NORNGATE || type == XORGATE
+      || type == XNORGATE || type == NOTGATE;
+}
+
+/*
+ * Checks the references of a circuit. Gates are topologically sorted, and init
+ * wires can only initialize DFFs.
+ */
+static int CheckSCD(const GarbledCircuit& garbled_circuit) {
+  int64_t init_size = (int64_t) garbled_circuit.get_init_size();
+  int64_t gate_bias = (int64_t) garbled_circuit.get_gate_lo_index();
+  int64_t wire_size = (int64_t) garbled_circuit.get_wire_size();
+
+  auto is_value = [init_size](int64_t index, int64_t hi_index) {
+    return index == CONST_ZERO || index == CONST_ONE
+        || (index >= init_size && index < hi_index);
+  };
+
+  for (int64_t i = 0; i < (int64_t) garbled_circuit.gate_size; i++) {
+    const GarbledGate& gate = garbled_circuit.garbledGates[i];
+    CHECK_EXPR_MSG(IsGateType(gate.type),
+                   "Invalid type: gid = " + std::to_string(i));
+    CHECK_EXPR_MSG(is_value(gate.input0, gate_bias + i),
+                   "Invalid input0: gid = " + std::to_string(i));
+    CHECK_EXPR_MSG((gate.type == NOTGATE && gate.input1 == -1)
+                       || is_value(gate.input1, gate_bias + i),
+                   "Invalid input1: gid = " + std::to_string(i));
+  }
+  for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    CHECK_EXPR_MSG(garbled_circuit.outputs[i] >= init_size
+                       && garbled_circuit.outputs[i] < wire_size,
+                   "Invalid output: oid = " + std::to_string(i));
+  }
+  for (uint64_t i = 0; i < garbled_circuit.dff_size; i++) {
+    int64_t init = garbled_circuit.I[i];
+    CHECK_EXPR_MSG(is_value(garbled_circuit.D[i], wire_size),
+                   "Invalid D: did = " + std::to_string(i));
+    CHECK_EXPR_MSG(init == CONST_ZERO || init == CONST_ONE
+                       || (init >= 0 && init < init_size),
+                   "Invalid I: did = " + std::to_string(i));
+  }
+  CHECK_EXPR_MSG(garbled_circuit.terminate_id == 0
+                     || ((int64_t) garbled_circuit.terminate_id >= init_size
+                         && (int64_t) garbled_circuit.terminate_id < wire_size),
+                 "Invalid terminate signal.");
+  return SUCCESS;
+}
+
 int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   std::ifstream f(file_name, std::ios::out);
   if (!f.is_open()) {
@@ -55,6 +108,25 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
       >> garbled_circuit->g_input_size >> garbled_circuit->e_input_size
       >> garbled_circuit->dff_size >> garbled_circuit->output_size
       >> garbled_circuit->terminate_id >> garbled_circuit->gate_size;
+  CHECK_EXPR_MSG(f.good(), "The sizes are missing or broken: " + file_name);
+  for (uint64_t size : { garbled_circuit->p_init_size,
+      garbled_circuit->g_init_size, garbled_circuit->e_init_size,
+      garbled_circuit->p_input_size, garbled_circuit->g_input_size,
+      garbled_circuit->e_input_size, garbled_circuit->dff_size,
+      garbled_circuit->output_size, garbled_circuit->terminate_id,
+      garbled_circuit->gate_size }) {
+    CHECK_EXPR_MSG(size <= INT32_MAX, "Invalid size: " + std::to_string(size));
+  }
+  // do not allocate for more values than the file can hold.
+  std::streampos values_pos = f.tellg();
+  f.seekg(0, std::ios::end);
+  uint64_t values_len = (uint64_t) (f.tellg() - values_pos);
+  f.seekg(values_pos);
+  CHECK_EXPR_MSG(f.good()
+                     && 2 * (3 * garbled_circuit->gate_size
+                         + 2 * garbled_circuit->dff_size
+                         + garbled_circuit->output_size) <= values_len,
+                 "The file is too short: " + file_name);
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -113,9 +185,16 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   for (uint64_t i = 0; i < garbled_circuit->dff_size; i++) {
     f >> garbled_circuit->I[i];
   }
+  // Every value is followed by a white space; without it, the last one is cut.
+  CHECK_EXPR_MSG(f.good() && isspace(f.peek()),
+                 "The file is broken: " + file_name);
+  CHECK_EXPR_MSG((f >> std::ws).eof(),
+                 "There is data after the circuit: " + file_name);
 
   f.close();
 
+  CHECK(CheckSCD(*garbled_circuit));
+
   return SUCCESS;
 }
 
-- 
2.43.0


From 0efdf61aade16dbb037b1f21b0f14f7dd5bcbb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 15/25] fix: outputs may be constants

Assigning an output to 1'b0 or 1'b1 made SortNetlist index a table with a
negative number and wrote a wire that does not exist. Constants are kept
now as for D and I and understood by the garbler, the evaluator and the
plaintext evaluator. A constant terminate signal is refused.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 24 +++++++++++++++-----
 garbled_circuit/garbled_circuit_low_mem.cpp  | 22 +++++++++++++-----
 scd/parse_netlist.cpp                        |  3 ++-
 scd/scd.cpp                                  |  7 +++---
 scd/scd_evaluator.cpp                        | 11 ++++++++-
 scd/scheduling.cpp                           |  5 +++-
 6 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 2548966..c9af52b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -378,13 +378,19 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      int64_t wire_index = garbled_circuit.outputs[i];
+      if (wire_index == CONST_ZERO || wire_index == CONST_ONE) {
+        output_vals[cid * garbled_circuit.output_size + i] =
+            (wire_index == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 0] =
-          wires[garbled_circuit.outputs[i]].label0;
+          wires[wire_index].label0;
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 1] =
-          wires[garbled_circuit.outputs[i]].label1;
+          wires[wire_index].label1;
       output_vals[cid * garbled_circuit.output_size + i] =
-          wires_val[garbled_circuit.outputs[i]];
-      DUMP("output") << wires[garbled_circuit.outputs[i]].label0 << endl;
+          wires_val[wire_index];
+      DUMP("output") << wires[wire_index].label0 << endl;
     }
     garble_time += RDTSC - garble_start_time;
 
@@ -676,10 +682,16 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      int64_t wire_index = garbled_circuit.outputs[i];
+      if (wire_index == CONST_ZERO || wire_index == CONST_ONE) {
+        output_vals[cid * garbled_circuit.output_size + i] =
+            (wire_index == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[cid * garbled_circuit.output_size + i] =
-          wires[garbled_circuit.outputs[i]];
+          wires[wire_index];
       output_vals[cid * garbled_circuit.output_size + i] =
-          wires_val[garbled_circuit.outputs[i]];
+          wires_val[wire_index];
       DUMP("output") << output_labels[cid * garbled_circuit.output_size + i]
           << endl;
     }
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 5c3b5cd..0ac0c5f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -546,9 +546,14 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-    output_labels[(i) * 2 + 0] = wires[garbled_circuit.outputs[i]].label0;
-    output_labels[(i) * 2 + 1] = wires[garbled_circuit.outputs[i]].label1;
-    output_vals[i] = wires_val[garbled_circuit.outputs[i]];
+    int64_t wire_index = garbled_circuit.outputs[i];
+    if (wire_index == CONST_ZERO || wire_index == CONST_ONE) {
+      output_vals[i] = (wire_index == CONST_ONE) ? 1 : 0;
+      continue;
+    }
+    output_labels[(i) * 2 + 0] = wires[wire_index].label0;
+    output_labels[(i) * 2 + 1] = wires[wire_index].label1;
+    output_vals[i] = wires_val[wire_index];
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
@@ -741,9 +746,14 @@ uint64_t EvaluateLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-    output_labels[i] = wires[garbled_circuit.outputs[i]];
-    output_vals[i] = wires_val[garbled_circuit.outputs[i]];
-    DUMP("output") << wires[garbled_circuit.outputs[i]] << endl;
+    int64_t wire_index = garbled_circuit.outputs[i];
+    if (wire_index == CONST_ZERO || wire_index == CONST_ONE) {
+      output_vals[i] = (wire_index == CONST_ONE) ? 1 : 0;
+      continue;
+    }
+    output_labels[i] = wires[wire_index];
+    output_vals[i] = wires_val[wire_index];
+    DUMP("output") << wires[wire_index] << endl;
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..2e227a1 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -629,7 +629,8 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   }
 
   if (read_circuit_string.has_terminate) {
-    CHECK_EXPR(wire_name_table["terminate"] != 0);
+    // the terminate signal can be neither the first wire nor a constant.
+    CHECK_EXPR(wire_name_table["terminate"] > 0);
     read_circuit->terminate_id = wire_name_table["terminate"];
   }
 
diff --git a/scd/scd.cpp b/scd/scd.cpp
index 7c41cc3..77633d1 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -77,8 +77,7 @@ static int CheckSCD(const GarbledCircuit& garbled_circuit) {
                    "Invalid input1: gid = " + std::to_string(i));
   }
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-    CHECK_EXPR_MSG(garbled_circuit.outputs[i] >= init_size
-                       && garbled_circuit.outputs[i] < wire_size,
+    CHECK_EXPR_MSG(is_value(garbled_circuit.outputs[i], wire_size),
                    "Invalid output: oid = " + std::to_string(i));
   }
   for (uint64_t i = 0; i < garbled_circuit.dff_size; i++) {
@@ -236,10 +235,10 @@ int WriteSCD(const ReadCircuit& read_circuit, const string &file_name) {
   }
   f << endl;
   /*
-   * outputs : output wire index
+   * outputs : output wire index or constant value, as in I.
    */
   for (uint64_t i = 0; i < read_circuit.output_size; i++) {
-    f << read_circuit.output_list[i] << " ";
+    f << (int64_t) read_circuit.output_list[i] << " ";
   }
   f << endl;
   /*
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..8d4833a 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -188,7 +188,16 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-      if (wires[garbled_circuit.outputs[i]])
+      int64_t wire_index = garbled_circuit.outputs[i];
+      bool b;
+      if (wire_index == CONST_ZERO) {
+        b = false;
+      } else if (wire_index == CONST_ONE) {
+        b = true;
+      } else {
+        b = wires[wire_index];
+      }
+      if (b)
         BN_set_bit(*outputs, cid * garbled_circuit.output_size + i);
       else
         BN_clear_bit(*outputs, cid * garbled_circuit.output_size + i);
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..03c5451 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -488,7 +488,10 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
-    read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
+    if ((int64_t) read_circuit->output_list[i] > 0) {  // Constant values are negative
+      read_circuit->output_list[i] =
+          sorted_list_1[read_circuit->output_list[i]];
+    }
   }
 
   if (read_circuit->terminate_id != 0) {
-- 
2.43.0


From 0d1c3e70c3890322836c9f09355e581de72dd26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 16/25] fix: v2scd reports a file it could not write

---
 scd/scd.cpp        | 4 ++++
 scd/scheduling.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 77633d1..8813b33 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -265,6 +265,10 @@ int WriteSCD(const ReadCircuit& read_circuit, const string &file_name) {
   f << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << file_name << endl;
+    return FAILURE;
+  }
 
   return 0;
 }
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 03c5451..f0baafb 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -525,6 +525,10 @@ int WriteMapping(const ReadCircuitString& read_circuit_string,
   f << "terminate " << read_circuit.terminate_id << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << out_mapping_filename << endl;
+    return FAILURE;
+  }
 
   return SUCCESS;
 }
-- 
2.43.0


From f8832e1e3ce0f08a7768f5062c23cb91672ea63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 17/25] fix: the plaintext evaluator reports its failures

---
 scd/scd_evaluator.cpp      | 135 ++++++++++++++++++++++++-------------
 scd/scd_evaluator_main.cpp |  11 ++-
 2 files changed, 97 insertions(+), 49 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 8d4833a..243b96f 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -25,8 +25,58 @@
 
 /*--- Store internal values in csv file ---*/
 #include <boost/tokenizer.hpp>
+#include <cstdlib>
+#include <utility>
+#include <vector>
 using boost::char_separator;
 using boost::tokenizer;
+using std::pair;
+using std::vector;
+
+/*
+ * Read the (wire name, wire index) pairs of the map file, up to the terminate
+ * line that closes it.
+ */
+static int ReadMapping(const string& map_file_address, uint64_t wire_size,
+                       vector<pair<string, uint64_t>>* mapping) {
+  std::ifstream map_file(map_file_address);
+  if (!map_file.is_open()) {
+    LOG(ERROR) << "can't open " << map_file_address << endl;
+    return FAILURE;
+  }
+
+  char_separator<char> sep(" \t");
+  string buf;
+  while (getline(map_file, buf)) {
+    tokenizer<char_separator<char>> tok(buf, sep);
+    tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
+    if (tok_it == tok.end()) {
+      continue;
+    }
+    string wire_name(*tok_it);
+    if (!wire_name.compare("terminate")) {
+      return SUCCESS;
+    }
+    if (++tok_it == tok.end()) {
+      LOG(ERROR) << "no index for " << wire_name << " in " << map_file_address
+                 << endl;
+      return FAILURE;
+    }
+    string index_str(*tok_it);
+    char* end = nullptr;
+    unsigned long long index = strtoull(index_str.c_str(), &end, 10);
+    if (index_str[0] < '0' || index_str[0] > '9' || *end != '\0'
+        || index >= wire_size) {
+      LOG(ERROR) << "bad index for " << wire_name << " in "
+                 << map_file_address << ": " << index_str << endl;
+      return FAILURE;
+    }
+    mapping->push_back(std::make_pair(wire_name, (uint64_t) index));
+  }
+
+  LOG(ERROR) << map_file_address << " is not complete." << endl;
+  return FAILURE;
+}
 /*--- x ---*/
 
 int EvalauatePlaintext(const string& scd_file_address, // Store internal values in csv file 
@@ -52,22 +102,22 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
   BN_bin2bn(outputs_arr, (*clock_cycles) * garbled_circuit.output_size, *outputs);
 
 /*--- Store internal values in csv file ---*/
-  string map_file_address(scd_file_address+".map");
-	  std::ifstream map_file(map_file_address);
-	  if (!map_file.is_open()) {
-	    LOG(ERROR) << "can't open " << map_file_address << endl;
-	    return FAILURE;
-	  }
-
-    string sim_file_address(scd_file_address+".csv");
-    std::ofstream sim_file(sim_file_address);
+  vector<pair<string, uint64_t>> mapping;
+  string sim_file_address(scd_file_address+".csv");
+  std::ofstream sim_file;
+  if (ReadMapping(scd_file_address + ".map", garbled_circuit.get_wire_size(),
+                  &mapping) == SUCCESS) {
+    sim_file.open(sim_file_address);
     if (!sim_file.is_open()) {
       LOG(ERROR) << "can't open " << sim_file_address << endl;
-      return FAILURE;
-    }	 
-
-  char_separator<char> sep(" \t");
-	string buf("_");
+    }
+  }
+  if (!sim_file.is_open()) {
+    delete[] outputs_arr;
+    delete[] wires;
+    delete[] dff_latch;
+    return FAILURE;
+  }
   /*--- x ---*/
 
   for (uint64_t cid = 0; cid < (*clock_cycles); cid++) {  //for each clock cycle
@@ -222,42 +272,33 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
     }
 
   /*--- Store internal values in csv file ---*/
-	if (cid == 0){
-		sim_file << "cid, ";
-		while (getline(map_file, buf)){
-			tokenizer<char_separator<char>> tok(buf, sep);	
-			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
-			string wire_name(*(tok_it));
-			if(!wire_name.compare("terminate")) break;
-			sim_file << *tok_it << "\t";
-		}
-		sim_file << endl;
-		map_file.clear();
-		map_file.seekg(0, std::ios::beg);
-	}
-
-	sim_file << cid <<", ";
-	while (getline(map_file, buf)){
-		tokenizer<char_separator<char>> tok(buf, sep);	
-		tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
-		string wire_name(*(tok_it));
-		if(!wire_name.compare("terminate")) break;
-		string index(*(++tok_it));
-		sim_file << wires[atoi(index.c_str())] << ", ";
-	}
-	sim_file << endl;
-
-	map_file.clear();
-	map_file.seekg(0, std::ios::beg);	
+    if (cid == 0) {
+      sim_file << "cid, ";
+      for (uint64_t i = 0; i < mapping.size(); i++) {
+        sim_file << mapping[i].first << "\t";
+      }
+      sim_file << endl;
+    }
+
+    sim_file << cid << ", ";
+    for (uint64_t i = 0; i < mapping.size(); i++) {
+      sim_file << wires[mapping[i].second] << ", ";
+    }
+    sim_file << endl;
   }
 
-  map_file.close();
+  sim_file.close();
+  bool sim_file_failed = sim_file.fail();
+  if (sim_file_failed) {
+    LOG(ERROR) << "can't write " << sim_file_address << endl;
+  }
   /*--- x ---*/
 
+  delete[] outputs_arr;
   delete[] wires;
   delete[] dff_latch;
 
-  return SUCCESS;
+  return sim_file_failed ? FAILURE : SUCCESS;
 }
 
 int EvalauatePlaintextStr(const string& scd_file_address, // Store internal values in csv file 
@@ -300,9 +341,11 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
 
   OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                       outputs_str);
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..8a208f1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,14 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  if (EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str) == FAILURE) {
+    LOG(ERROR) << "plain-text evaluation failed." << endl;
+    LogFinish();
+    return FAILURE;
+  }
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From 4d772022753f9e5497fe637ceb43ef1852eaa4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 18/25] fix: unreadable or non-hexadecimal inputs fail

---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 +--
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 +--
 garbled_circuit/garbled_circuit_main.cpp     | 12 +++++---
 garbled_circuit/garbled_circuit_util.cpp     |  4 +--
 scd/scd_evaluator.cpp                        | 12 ++++----
 scd/scd_evaluator_main.cpp                   | 16 ++++++----
 util/util.cpp                                | 32 +++++++++++++++++---
 util/util.h                                  |  2 ++
 8 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index c9af52b..737ac4a 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1048,7 +1048,7 @@ int GarbleTransferOutput(const GarbledCircuit& garbled_circuit,
                          OutputMode output_mode, BIGNUM* output_bn,
                          int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
@@ -1089,7 +1089,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
                            OutputMode output_mode, BIGNUM* output_bn,
                            int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0ac0c5f..9217b2d 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1112,7 +1112,7 @@ int GarbleTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                const string& output_mask, BIGNUM* output_bn,
                                int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
@@ -1159,7 +1159,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                  const string& output_mask, BIGNUM* output_bn,
                                  int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
diff --git a/garbled_circuit/garbled_circuit_main.cpp b/garbled_circuit/garbled_circuit_main.cpp
index f1c6087..33a4e8a 100644
--- a/garbled_circuit/garbled_circuit_main.cpp
+++ b/garbled_circuit/garbled_circuit_main.cpp
@@ -253,10 +253,14 @@ int main(int argc, char* argv[]) {
   }
 
   // Transferring file in to hex
-  string p_init_str = ReadFileOrPassHex(p_init_f_hex_str);
-  string p_input_str = ReadFileOrPassHex(p_input_f_hex_str);
-  string init_str = ReadFileOrPassHex(init_f_hex_str);
-  string input_str = ReadFileOrPassHex(input_f_hex_str);
+  string p_init_str, p_input_str, init_str, input_str;
+  if (ReadFileOrPassHex(p_init_f_hex_str, &p_init_str) == FAILURE
+      || ReadFileOrPassHex(p_input_f_hex_str, &p_input_str) == FAILURE
+      || ReadFileOrPassHex(init_f_hex_str, &init_str) == FAILURE
+      || ReadFileOrPassHex(input_f_hex_str, &input_str) == FAILURE) {
+    LOG(ERROR) << "reading the inputs failed." << endl;
+    return FAILURE;
+  }
 
   if (vm.count("alice")) {
     // open the socket
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index e912451..27c96ee 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -70,8 +70,8 @@ void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
                       uint64_t clock_cycles, BIGNUM** init, BIGNUM** input) {
-  BN_hex2bn(init, init_str.c_str());
-  BN_hex2bn(input, input_str.c_str());
+  CHECK(Hex2BN(init_str, init));
+  CHECK(Hex2BN(input_str, input));
 
   return SUCCESS;
 }
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 243b96f..6e0ebe2 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -314,12 +314,12 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   BIGNUM* g_input = BN_new();
   BIGNUM* e_input = BN_new();
 
-  BN_hex2bn(&p_init, p_init_str.c_str());
-  BN_hex2bn(&g_init, g_init_str.c_str());
-  BN_hex2bn(&e_init, e_init_str.c_str());
-  BN_hex2bn(&p_input, p_input_str.c_str());
-  BN_hex2bn(&g_input, g_input_str.c_str());
-  BN_hex2bn(&e_input, e_input_str.c_str());
+  CHECK(Hex2BN(p_init_str, &p_init));
+  CHECK(Hex2BN(g_init_str, &g_init));
+  CHECK(Hex2BN(e_init_str, &e_init));
+  CHECK(Hex2BN(p_input_str, &p_input));
+  CHECK(Hex2BN(g_input_str, &g_input));
+  CHECK(Hex2BN(e_input_str, &e_input));
 
   LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
             << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 8a208f1..fbebcc2 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -114,12 +114,16 @@ int main(int argc, char*argv[]) {
     }
   }
 
-  string p_init_str = ReadFileOrPassHex(p_init_f_hex_str);
-  string g_init_str = ReadFileOrPassHex(g_init_f_hex_str);
-  string e_init_str = ReadFileOrPassHex(e_init_f_hex_str);
-  string p_input_str = ReadFileOrPassHex(p_input_f_hex_str);
-  string g_input_str = ReadFileOrPassHex(g_input_f_hex_str);
-  string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
+  string p_init_str, g_init_str, e_init_str, p_input_str, g_input_str, e_input_str;
+  if (ReadFileOrPassHex(p_init_f_hex_str, &p_init_str) == FAILURE
+      || ReadFileOrPassHex(g_init_f_hex_str, &g_init_str) == FAILURE
+      || ReadFileOrPassHex(e_init_f_hex_str, &e_init_str) == FAILURE
+      || ReadFileOrPassHex(p_input_f_hex_str, &p_input_str) == FAILURE
+      || ReadFileOrPassHex(g_input_f_hex_str, &g_input_str) == FAILURE
+      || ReadFileOrPassHex(e_input_f_hex_str, &e_input_str) == FAILURE) {
+    LOG(ERROR) << "reading the inputs failed." << endl;
+    return FAILURE;
+  }
 
   string output_str;
   if (EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
diff --git a/util/util.cpp b/util/util.cpp
index 646a659..c34131f 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -359,21 +359,45 @@ string formatGCOutputMask(uint16_t garbler_share, uint16_t evaluator_share, bool
 }
 
 string ReadFileOrPassHex(string file_hex_str) {  // file address of or a hex string
+  string hex_str = "";
+  ReadFileOrPassHex(file_hex_str, &hex_str);
+  return hex_str;
+}
 
+int ReadFileOrPassHex(const string& file_hex_str, string* hex_str) {
   ifstream fin;
   fin.open(file_hex_str);
   if (fin.is_open()) {
-    string hex_str = "";
+    (*hex_str) = "";
     string line;
     while (std::getline(fin, line)) {
-      hex_str = line + hex_str;
+      boost::trim(line);
+      (*hex_str) = line + (*hex_str);
+    }
+    if (fin.bad()) {
+      LOG(ERROR) << "can't read " << file_hex_str << endl;
+      return FAILURE;
     }
-    return hex_str;
   } else {
-    return file_hex_str;
+    (*hex_str) = file_hex_str;
   }
+  return SUCCESS;
 }
 
+/**
+ * \brief parse a whole hexadecimal string, the empty string is zero.
+ */
+int Hex2BN(const string& hex_str, BIGNUM** bn) {
+  if (hex_str.empty()) {
+    BN_zero(*bn);
+    return SUCCESS;
+  }
+  if (BN_hex2bn(bn, hex_str.c_str()) != (int) hex_str.length()) {
+    LOG(ERROR) << "not a hexadecimal number: " << hex_str << endl;
+    return FAILURE;
+  }
+  return SUCCESS;
+}
 
 bool icompare_pred(unsigned char a, unsigned char b) {
   return std::tolower(a) == std::tolower(b);
diff --git a/util/util.h b/util/util.h
index 6876ef5..26a9d25 100644
--- a/util/util.h
+++ b/util/util.h
@@ -52,6 +52,8 @@ string bin2hex(string);
 string formatGCOutputMask(uint16_t , uint16_t , bool );
 
 string ReadFileOrPassHex(string file_hex_str);
+int ReadFileOrPassHex(const string& file_hex_str, string* hex_str);
+int Hex2BN(const string& hex_str, BIGNUM** bn);
 bool icompare(std::string const& a, std::string const& b);
 
 #endif /* UTIL_UTIL_H_ */
-- 
2.43.0


From 8a258151c15ba7a0e33491d63986525b43f515c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 19/25] fix: the tail of a garbled table is zeroed

Value-initialisation does not have to reach padding bytes, and with gcc it
does not: name them.
---
 garbled_circuit/garbled_circuit_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 9ef97f7..928899d 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -65,6 +65,7 @@ typedef struct BlockPair {
 typedef struct GarbledTable {
   block row[2];
   uint32_t gid;
+  uint32_t reserved[3]; /**< always zero, the tables are sent whole. */
 } GarbleTable;
 
 /**
-- 
2.43.0


From a749cfb7d88ecd5d2742ee50d262bba5dafa2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 20/25] fix: a result that cannot be printed is a failure

---
 garbled_circuit/garbled_circuit_main.cpp | 2 ++
 scd/scd_evaluator_main.cpp               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_main.cpp b/garbled_circuit/garbled_circuit_main.cpp
index 33a4e8a..2953f8b 100644
--- a/garbled_circuit/garbled_circuit_main.cpp
+++ b/garbled_circuit/garbled_circuit_main.cpp
@@ -286,6 +286,7 @@ int main(int argc, char* argv[]) {
     LOG(INFO) << "Alice's output = " << output_str << endl;
     LOG(INFO) << "Total Alice time (cc) = " << delta_time << endl;
     std::cout << output_str << endl;
+    CHECK_EXPR_MSG(std::cout.good(), "Cannot print the output.");
 
     ServerClose(connfd);
   } else if (vm.count("bob")) {
@@ -323,6 +324,7 @@ int main(int argc, char* argv[]) {
     LOG(INFO) << "Bob's output = " << output_str << endl;
     LOG(INFO) << "Total Bob time (cc) = " << delta_time << endl;
     std::cout << output_str << endl;
+    CHECK_EXPR_MSG(std::cout.good(), "Cannot print the output.");
 
     ClientClose(connfd);
   }
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index fbebcc2..e7481be 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -136,6 +136,7 @@ int main(int argc, char*argv[]) {
   }
 
   std::cout << output_str << endl;
+  CHECK_EXPR_MSG(std::cout.good(), "Cannot print the output.");
 
   LogFinish();
   return SUCCESS;
-- 
2.43.0


From 3bcc1ffc7e800bfb5648ef0de7c5628c67324f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 21/25] fix: V2SCD runs out of stack on deep netlists

The topological sort walked a netlist recursively, one stack frame for
every gate on the way down, and crashed on a chain of some 100,000 gates
listed from its output back. It keeps its own stack now.
---
 scd/scheduling.cpp | 59 +++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index f0baafb..5351b93 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -19,6 +19,7 @@
 
 #include <string>
 #include <cstring>
+#include <utility>
 #include "scd/parse_netlist.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -342,37 +343,41 @@ int TopologicalSortVisit(const ReadCircuit &read_circuit, vector<Mark>* marks,
   int64_t init_input_size = read_circuit.get_init_input_size();
   int64_t init_input_dff_size = init_input_size + read_circuit.dff_size;
 
-  if (current_unmark_index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
-    return SUCCESS;
-  } else if (marks->at(current_unmark_index) == Mark::TempMarked) {
-    LOG(ERROR) << "There is a loop in the circuit." << endl;
-    loop->push_back(current_unmark_index);
-    return FAILURE;
-  } else if (marks->at(current_unmark_index) == Mark::UnMarked) {
-    marks->at(current_unmark_index) = Mark::TempMarked;
-
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[0],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
+  // The wires on the way down, each with the number of its inputs visited so
+  // far: a netlist can be far deeper than the call stack.
+  vector<std::pair<int64_t, int>> path;
+  int64_t visit_index = current_unmark_index;
+
+  while (true) {
+    // CONSTANT or IV 2nd input (-1) are sorted.
+    if (visit_index >= 0) {
+      if (marks->at(visit_index) == Mark::TempMarked) {
+        LOG(ERROR) << "There is a loop in the circuit." << endl;
+        loop->push_back(visit_index);
+        for (; !path.empty(); path.pop_back()) {
+          loop->push_back(path.back().first);
+        }
+        return FAILURE;
+      } else if (marks->at(visit_index) == Mark::UnMarked) {
+        marks->at(visit_index) = Mark::TempMarked;
+        path.push_back(std::make_pair(visit_index, 0));
+      }
     }
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[1],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
+
+    // Every input of the last wires on the path is sorted.
+    while (!path.empty() && path.back().second == 2) {
+      marks->at(path.back().first) = Mark::PerMarked;
+      sorted_list->push_back(path.back().first);
+      path.pop_back();
+    }
+    if (path.empty()) {
+      return SUCCESS;
     }
 
-    marks->at(current_unmark_index) = Mark::PerMarked;
-    sorted_list->push_back(current_unmark_index);
+    visit_index = read_circuit.gate_list[path.back().first
+        - init_input_dff_size].input[path.back().second];
+    path.back().second++;
   }
-
-  return SUCCESS;
 }
 
 int TopologicalSort(const ReadCircuit &read_circuit,
-- 
2.43.0


From 441f7955dcf0b69713d384e67090dedb8e069510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:04 +0000
Subject: [PATCH 22/25] fix: a long chain of gates that nothing uses overflows
 the stack

ReduceFanout followed the inputs of a gate that is no longer needed
recursively: either party crashed on a circuit in which a public value
makes some 500,000 gates in a row useless. It keeps its own stack now.
---
 garbled_circuit/garbled_circuit_util.cpp | 30 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 27c96ee..0e15433 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -35,6 +35,8 @@
 
 #include "garbled_circuit/garbled_circuit_util.h"
 
+#include <vector>
+
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -504,16 +506,26 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias) {
 
-  int64_t gid = wid - gate_bias;
-  if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
-      && fanout[gid] > 0) {
-    fanout[gid]--;
-    if (fanout[gid] == 0) {
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input0, gate_bias);
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input1, gate_bias);
+  // The wires still to be reduced: a chain of gates that nothing uses any more
+  // can be far longer than the call stack.
+  std::vector<int64_t> wires;
+
+  while (true) {
+    int64_t gid = wid - gate_bias;
+    if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
+        && fanout[gid] > 0) {
+      fanout[gid]--;
+      if (fanout[gid] == 0) {
+        wires.push_back(garbled_circuit.garbledGates[gid].input1);
+        wid = garbled_circuit.garbledGates[gid].input0;
+        continue;
+      }
+    }
+    if (wires.empty()) {
+      return;
     }
+    wid = wires.back();
+    wires.pop_back();
   }
 }
 
-- 
2.43.0


From d68c4ea3b87ea27bfea8e69b554edf0844ca1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 23/25] fix: an oversized RSA key of the peer keeps the OT
 receiver busy for ever

---
 crypto/OT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..fa48000 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -124,6 +124,9 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
   // 1. receive public portion of a rsa key from Alice (receiver)
   CHECK(RecvBN(connfd, rsa_n));
   CHECK(RecvBN(connfd, rsa_e));
+  // the time to compute v grows with the cube of these lengths.
+  CHECK_EXPR_MSG(BN_num_bits(rsa_n) <= RSA_BITS && BN_cmp(rsa_e, rsa_n) < 0,
+                 "receiver: Invalid RSA key");
 
   // 2. receive two random messages
   BIGNUM ***x = new BIGNUM**[m_len];
-- 
2.43.0


From cbeae62185fd5399204b7ba261459c16c64751b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:15 +0000
Subject: [PATCH 24/25] fix: sort references to the first gate of a netlist
 without inputs

Index 0 was taken for an input, which keeps its place; without inputs and
DFFs it is a gate, and what read it was connected to another gate.
---
 scd/scheduling.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 5351b93..7450a9f 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -464,11 +464,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -477,14 +477,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
@@ -493,7 +493,7 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
-    if ((int64_t) read_circuit->output_list[i] > 0) {  // Constant values are negative
+    if ((int64_t) read_circuit->output_list[i] >= 0) {  // Constant values are negative
       read_circuit->output_list[i] =
           sorted_list_1[read_circuit->output_list[i]];
     }
@@ -501,6 +501,8 @@ int SortNetlist(ReadCircuit *read_circuit,
 
   if (read_circuit->terminate_id != 0) {
     read_circuit->terminate_id = sorted_list_1[read_circuit->terminate_id];
+    CHECK_EXPR_MSG(read_circuit->terminate_id != 0,
+                   "the terminate signal can not be the first wire");
   }
 
   return SUCCESS;
-- 
2.43.0


From a38df7aa316f07c531bcc636b21cfa2fa983bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 25/25] fix: take assignments of a netlist in any order

An assignment that stood before the one that defines its source was
dropped, so that a valid netlist was refused.
---
 scd/parse_netlist.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 2e227a1..32cccd5 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -543,18 +543,29 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // An assignment can stand before the one that defines its source.
+  auto assignments = read_circuit_string.assignment_list_string;
+  bool is_progress = true;
+  while (is_progress) {
+    decltype(assignments) unresolved;
+    for (const auto& assign_pair : assignments) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] =
+            wire_name_table[assign_pair.first];
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] =
+            wire_name_table[assign_pair.second];
+      } else {
+        unresolved.push_back(assign_pair);
+      }
     }
+    is_progress = unresolved.size() < assignments.size();
+    assignments.swap(unresolved);
+  }
+  for (const auto& assign_pair : assignments) {
+    LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+               << assign_pair.second
+               << " which were mentioned in an assignment statement" << endl;
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


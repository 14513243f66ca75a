From 286536194358ab97e149c449a08f2ab87975fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 1/3] fix: do not truncate sponge block sizes for inputs of 4
 GiB and more

The remaining input length was cast to unsigned int before it was compared
with the space left in the block, so absorbing (or squeezing) close to or
more than 2^32 bytes overran the state or never terminated.
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..308e2ed 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..710c858 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0


From cee1637d60f0836f9217d596365435e356adae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 2/3] fix: fail key generation and signing when the random
 source fails

The result of rand_bytes was ignored, so an incomplete answer of the system
source silently produced keys and signatures from stale memory.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..3b6bb08 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@)) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho))) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From 3ac0b6e5725589dd27d418290c50b04682f7f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 3/3] fix: do not overflow the output offset of randombytes for
 requests above 2 GiB

---
 tools/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/rng.c b/tools/rng.c
index ce694fe..d99cb0e 100644
--- a/tools/rng.c
+++ b/tools/rng.c
@@ -88,7 +88,7 @@ void randombytes_init(unsigned char* entropy_input, unsigned char* personalizati
 
 int randombytes(unsigned char* x, unsigned long long xlen) {
   unsigned char block[16];
-  int i = 0;
+  size_t i = 0;
 
   while (xlen > 0) {
     // increment V
-- 
2.43.0


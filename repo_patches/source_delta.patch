From 53c0e35d40f4a6aafbbf8faf4c656c019bb8eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 01/24] fix: resume an incomplete send at the first unsent byte

After a partial or failed send(), the offset into the payload must be the
total number of bytes sent so far, not the result of the latest send().
---
 source/RKNetwork.c | 2 +-
 source/RKServer.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..b4a4669 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -35,7 +35,7 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
         sentSize = 0;
         totalSentSize = 0;
         while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..9053b3e 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -758,7 +758,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
         sentSize = 0;
         totalSentSize = 0;
         while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
-- 
2.43.0


From 4275cc19a05dd46ec708e0c26d5b5a9fa41e5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 02/24] fix: report an incomplete operator send as a negative
 result

RKOperatorSendPackets() returned RKResultTimeout (2) and
RKResultIncompleteSend (6), which callers that test for a negative result,
such as the beacon, take for a byte count.
---
 source/RKServer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 9053b3e..d19224a 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -765,7 +765,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
                 usleep(1000);
             } else if (sentSize < 0) {
                 pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
+                return -RKResultIncompleteSend;
             }
         }
         grandTotalSentSize += totalSentSize;
@@ -777,7 +777,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     pthread_mutex_unlock(&O->lock);
 
     if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
+        return -RKResultTimeout;
     }
 
     return grandTotalSentSize;
-- 
2.43.0


From 8bee0586b5cf902fbe1414757047e771810a48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 03/24] fix: do not deliver a message whose payload timed out

The receive loop gives up after timeoutSeconds * 100 attempts, but the
check that follows only rejected timeoutSeconds * 1000, so an incomplete
payload was handed to the receive handler.
---
 source/RKClient.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..303323f 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -360,7 +360,7 @@ void *theClient(void *in) {
                         #endif
                         // Add a NULL character to the end of payload
                         cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
+                        if (k != C->netDelimiter.size) {
                             break;
                         }
                         readOkay = true;
-- 
2.43.0


From 8c1cd6d0c945c7ecae9828ad3b73300d210d144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 04/24] fix: leave room to terminate a payload of the maximum
 size

A payload of exactly RKMaximumPacketSize bytes is accepted and then
terminated with a NUL character one byte past the buffer.
---
 source/RKClient.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 303323f..a25ce1b 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -33,7 +33,7 @@ void *theClient(void *in) {
 
     FILE *fid = NULL;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
         return (void *)RKResultErrorCreatingOperatorRoutine;
-- 
2.43.0


From 759b3ce3a4d2effae2d316be47b08ebcdf83e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 05/24] fix: resume a partly received header at the right byte

delimiter is a pointer to a 16-byte header, so delimiter + k skipped k
headers instead of k bytes and stored the rest of the header out of bounds.
---
 source/RKServer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index d19224a..979dacd 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -602,7 +602,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = read(O->sid, (void *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
-- 
2.43.0


From cb4302246fe28ac701a03da5dfb0fbbdae9bb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 06/24] fix: do not accept a user payload that timed out

The receive loop is bounded by the server's timeout, the check after it by
the operator's. With the default 5 and 30 seconds an incomplete payload was
returned as a complete one.
---
 source/RKServer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 979dacd..730a9ea 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -667,7 +667,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < delimiter->size) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
@@ -704,7 +704,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < blockLength) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
-- 
2.43.0


From ca0bf34ded7d60a10e9b5ce7f68adfdbd6b5b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 07/24] fix: do not line up more sweeps than the deck holds

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..bba718d 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -135,11 +135,11 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d\n", engine->name, V->inTheHoleCount);
+        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d   V->onDeckCount = %d\n", engine->name, V->inTheHoleCount, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
-- 
2.43.0


From 2d5042a203835f307e3744ff2de6d8fab901fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 08/24] fix: do not order a sector sweep to start and stop at
 once

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index bba718d..3caa138 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -712,8 +712,8 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
-                    action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
-                    action->value[0] = scan->azimuthSlew;
+                    action->mode[a] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
+                    action->value[a] = scan->azimuthSlew;
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for SEC sweep %d - EL %.1f° @ crossover AZ %.1f°\n", engine->name,
-- 
2.43.0


From 40cef3b70ac749a9ccf48769293b7619afd62273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 09/24] fix: release the configuration lock when a waveform is
 refused

---
 source/RKConfig.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..bb3a24a 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,6 +162,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
+                    newConfig->i = configId - configBufferDepth;
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveform = waveform;
@@ -173,6 +175,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
+                    newConfig->i = configId - configBufferDepth;
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveformDecimate = waveform;
-- 
2.43.0


From e7f1177fdefda6b9bb683977fbcaa480b366e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 10/24] fix: start a sweep without a waveform

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index bb3a24a..ff2fff9 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -89,7 +89,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform ? RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8) : "");
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
-- 
2.43.0


From 78342a0a4335dcc94cd4f765c8b5a6a0261e0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 11/24] fix: keep the log text of a long volume definition
 within its buffer

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index ff2fff9..900eeca 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -128,7 +128,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string) < 0 ? abort() : (void)0;
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
-- 
2.43.0


From 0f98698af04dbbb8547b33dc5233ae603d843c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 12/24] fix: pass the pulse repetition frequency as the type
 the configuration expects

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..02e0aed 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 6d75d71720b6bde68cb52b25be5638ba124dedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 13/24] fix: leave room for the mask key of a full web socket
 frame

---
 source/RKWebSocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..1aaf7f4 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -64,10 +64,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header can be up to 14 bytes, and the payload is terminated
+        if (r > RKWebSocketFrameSize - 16) {
+            r = RKWebSocketFrameSize - 16;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 16);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
-- 
2.43.0


From ae32ae0eb42cd5ebcddc5574e7bbd5171029bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 14/24] fix: unmask the payload of a masked web socket frame

---
 source/RKWebSocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 1aaf7f4..e3c483d 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -113,7 +113,8 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (int i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
-- 
2.43.0


From b0e21fcf9486726b1d0a3d8273f28bf5f478551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 15/24] fix: refuse a web socket payload when the queue is full

---
 source/RKWebSocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e3c483d..d68aedc 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -721,6 +721,10 @@ void RKWebSocketWait(RKWebSocket *W) {
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail) {
+        pthread_mutex_unlock(&W->lock);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
     W->payloadHead = k;
-- 
2.43.0


From 0be84fddfb482f06947bf86b38fb708dbd863f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 16/24] fix: wait for the whole header of a web socket frame
 and stay within the frame buffer

---
 source/RKWebSocket.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index d68aedc..9705dfc 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -122,18 +122,33 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+static size_t RKWebSocketFrameGetTargetSize(void *buf, const size_t available) {
+    uint64_t len;
     size_t r = sizeof(ws_frame_header);
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
+    if (available < r) {
+        return r;
+    }
     if (h->len == 127) {
-        r += 8 + ntohll(*(uint64_t *)xlen);
+        r += 8;
+        if (available < r) {
+            return r;
+        }
+        len = ntohll(*(uint64_t *)xlen);
     } else if (h->len == 126) {
-        r += 2 + ntohs(*(uint16_t *)xlen);
+        r += 2;
+        if (available < r) {
+            return r;
+        }
+        len = ntohs(*(uint16_t *)xlen);
     } else {
-        r += h->len;
+        len = h->len;
     }
-    return r;
+    if (len > RKWebSocketFrameSize) {
+        return RKWebSocketFrameSize;
+    }
+    return r + 4 * h->mask + len;
 }
 
 static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *message, const int len) {
@@ -332,6 +347,9 @@ void *transporter(void *in) {
 
         RKWebSocketConnect(W);
 
+        // A new connection starts with a new frame
+        origin = 0;
+
         // Run loop for read and write
         while (W->wantActive && W->connected) {
             //
@@ -415,7 +433,7 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, origin, RKWebSocketFrameSize - 1 - origin);
                     if (r <= 0) {
                         if (W->verbose) {
                             fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
@@ -423,12 +441,8 @@ void *transporter(void *in) {
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
+                    total = origin + r;
+                    targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, total);
                     if (total < targetFrameSize) {
                         origin += r;
                         continue;
-- 
2.43.0


From f43839a33c27462344961a008d5701e7f75bec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 17/24] fix: bound the search for a position by the position
 buffer

---
 source/RKPositionEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index 222f04f..113044c 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -197,12 +197,12 @@ static void *pulseTagger(void *_in) {
         // Search until the time just after the pulse was acquired.
         i = 0;
         hasSweepEnd = false;
-        while (engine->positionBuffer[j].timeDouble <= pulse->header.timeDouble && i < engine->radarDescription->pulseBufferDepth && engine->state & RKEngineStateWantActive) {
+        while (engine->positionBuffer[j].timeDouble <= pulse->header.timeDouble && i < engine->radarDescription->positionBufferDepth && engine->state & RKEngineStateWantActive) {
             hasSweepEnd |= engine->positionBuffer[j].flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete);
             j = RKNextModuloS(j, engine->radarDescription->positionBufferDepth);
             i++;
         }
-        if (i == engine->radarDescription->pulseBufferDepth) {
+        if (i == engine->radarDescription->positionBufferDepth) {
             if (engine->verbose > 2) {
                 RKLog("Could not find an appropriate position.  %.2f %s %.2f",
                       pulse->header.timeDouble,
-- 
2.43.0


From 505ec980164a6185431b59dea7dbf22e15dd39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 18/24] fix: do not take a pulse beyond the end of a sweep when
 boundary pulses are excluded

---
 source/RKMomentEngine.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..ea35842 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,10 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
+                    // The last pulse of a sweep has no other ray to go to.
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
-- 
2.43.0


From c6fe3fb79d2f35955a443be7b15b7e0f183f74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 19/24] fix: make room for the pulse that the longest ray
 shares with the next

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index ea35842..791d009 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -296,7 +296,7 @@ static void *momentEngineCore(void *in) {
     uint64_t tic = me->tic;
 
     RKModuloPath path;
-    RKPulse *S, *E, *pulses[RKMaximumPulsesPerRay];
+    RKPulse *S, *E, *pulses[RKMaximumPulsesPerRay + 1];
     RKMarker marker = RKMarkerNull;
     float deltaAzimuth, deltaElevation;
     char *string;
-- 
2.43.0


From 20567139d495b1f8afe15f79cfb8b980daee9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:55 +0000
Subject: [PATCH 20/24] fix: clear the display values of all gates of a skipped
 ray

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 791d009..a2586b0 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -156,7 +156,7 @@ static void zeroOutRay(RKRay *ray) {
         *f++ = NAN;
     }
     uint8_t *u = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
-    memset(u, 0, RKBaseProductCount * sizeof(uint8_t));
+    memset(u, 0, RKBaseProductCount * ray->header.capacity * sizeof(uint8_t));
 }
 
 int RKNoiseFromConfig(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
-- 
2.43.0


From b88e8bd73df17501b67932cde995412779301732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 21/24] fix: keep reading values of keys within the text and
 their buffers

---
 source/RKMisc.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..27b74da 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -205,10 +205,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     char *s, *e;
     size_t len;
     char quotedKey[256];
-    sprintf(quotedKey, "\"%s\"", key);
+    snprintf(quotedKey, sizeof(quotedKey), "\"%s\"", key);
     char *keyPosition = strcasestr(string, quotedKey);
     if (keyPosition == NULL) {
-        sprintf(quotedKey, "'%s'", key);
+        snprintf(quotedKey, sizeof(quotedKey), "'%s'", key);
         keyPosition = strcasestr(string, quotedKey);
     }
 
@@ -226,10 +226,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         if (*s == '[') {
             // Find the end of bracket, return the entire array
             e = s + 1;
-            while (*e != ']') {
+            while (*e != ']' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(sizeof(valueStrings[0]) - 1, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -240,10 +240,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '{') {
             // Find the end of curly bracket, return the entire dictionary
             e = s + 1;
-            while (*e != '}') {
+            while (*e != '}' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(sizeof(valueStrings[0]) - 1, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -254,10 +254,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '"') {
             // Find the end of double quote, return the entire string
             e = s + 1;
-            while (*e != '"') {
+            while (*e != '"' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(sizeof(valueStrings[0]) - 1, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -268,10 +268,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '\'') {
             // Find the end of single quote, return the entire string
             e = s + 1;
-            while (*e != '\'') {
+            while (*e != '\'' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(sizeof(valueStrings[0]) - 1, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -282,10 +282,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         }
         // Find end of the value
         e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
+        while (*e != ',' && *e != '}' && *e != ']' && *e != '\0') {
             e++;
         }
-        len = MIN(255, e - s);
+        len = MIN(sizeof(valueStrings[0]) - 1, e - s);
         if (len > 0) {
             strncpy(valueString, s, len);
             valueString[len] = '\0';
-- 
2.43.0


From 23cb94c2d07c640cf02cef3736468fbe28d91e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 22/24] fix: replace longer and shorter values of keys

---
 source/RKMisc.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 27b74da..701ef80 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -326,12 +326,14 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
             return;
         }
         if (e - s < k) {
-            // Need to add another character
+            // Need to make room for the additional characters
             l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
+            memmove(s + k, e, l + 1);
+            e = s + k;
         }
         memcpy(s, valueString, k);
+        // Clear the rest of a longer value
+        memset(s + k, ' ', e - s - k);
         //strncpy(s, valueString, k);
         //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
         s = strstr(e, key);
@@ -351,7 +353,7 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     if (s == NULL) {
         return;
     }
-    s += 6;
+    s += 4;
     //printf("Enum of %s found.  %s\n", key, s);
     while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
         s++;
@@ -374,12 +376,14 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     }
     //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
     if (e - s < k) {
-        // Need to add another character
+        // Need to make room for the additional characters
         l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
+        memmove(s + k, e, l + 1);
+        e = s + k;
     }
     memcpy(s, valueString, k);
+    // Clear the rest of a longer value
+    memset(s + k, ' ', e - s - k);
 }
 
 void RKReviseLogicalValues(char *string) {
-- 
2.43.0


From 38d14ed90cd6dfdab3ebf77adda2f754bba21db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 23/24] fix: revise logical values that follow each other

---
 source/RKMisc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 701ef80..fab21e7 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -393,14 +393,14 @@ void RKReviseLogicalValues(char *string) {
         sprintf(token, "true");
         memmove(token + 4, token + 6, strlen(token + 6));
         memset(token + 4 + strlen(token + 6), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 6, "\"true\"");
+        token = strcasestr(token + 4, "\"true\"");
     }
     token = strcasestr(string, "\"false\"");
     while (token) {
         sprintf(token, "false");
         memmove(token + 5, token + 7, strlen(token + 7));
         memset(token + 5 + strlen(token + 7), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 7, "\"false\"");
+        token = strcasestr(token + 5, "\"false\"");
     }
 }
 
-- 
2.43.0


From c87c1e7a79c0b3dd1d7459e4304e95eedbeb6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 24/24] fix: stop at the end of the text when a quote is not
 closed

---
 source/RKFoundation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..3771ba5 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2080,16 +2080,17 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
-        s = e + 1;
+        s = *e == '\0' ? e : e + 1;
         // Get the next string
         string = va_arg(args, char *);
     }
+    va_end(args);
 }
 
 void RKMakeJSONStringFromControls(char *string, RKControl *controls, uint32_t count) {
-- 
2.43.0


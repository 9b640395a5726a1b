From 50ee6bf3ae1c1b1bd69f7b7951dc2ba57f4cb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 01/18] hooks: cut points for deductive verification
 (OPENSKY_VERIF)

VERIF_CUT marks loop heads for which the verifier is given an inductive
invariant; it expands to nothing unless OPENSKY_VERIF is defined.
---
 src/core/beast.c          | 1 +
 src/radarcape/rc-parser.c | 4 ++++
 src/util/util.h           | 7 +++++++
 3 files changed, 12 insertions(+)

diff --git a/src/core/beast.c b/src/core/beast.c
index e34fe7a..43265d9 100644
--- a/src/core/beast.c
+++ b/src/core/beast.c
@@ -41,6 +41,7 @@ size_t BEAST_encode(uint8_t * __restrict out, const uint8_t * __restrict in,
 	/* first time: search for SYNC from input buffer up to len */
 	const uint8_t * sync = (uint8_t*)memchr(in, BEAST_SYNC, len);
 	while (true) {
+		VERIF_CUT(beast_encode);
 		if (unlikely(sync)) {
 			/* if SYNC found: copy up to (including) SYNC */
 			memcpy(ptr, in, sync + 1 - in);
diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..df24cf8 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -229,6 +229,7 @@ bool INPUT_getFrame(struct OPENSKY_RawFrame * raw,
 	raw->raw[0] = BEAST_SYNC;
 
 	while (true) {
+		VERIF_CUT(rc_frame);
 		/* synchronize */
 		uint8_t sync;
 		if (unlikely(!next(&sync)))
@@ -245,6 +246,7 @@ synchronize:
 		/* decode type */
 		uint8_t type;
 decode_frame:
+		VERIF_CUT(rc_decode);
 		if (unlikely(!next(&type)))
 			return false;
 		size_t payload_len;
@@ -314,6 +316,7 @@ static inline enum DECODE_STATUS decode(uint8_t * dst, size_t len,
 	uint8_t * rawPtr = raw->raw + raw->rawLen;
 
 	do {
+		VERIF_CUT(rc_copy);
 		if (unlikely(bufCur == bufEnd)) {
 			/* current buffer is empty: fill it again */
 			if (unlikely(!discardAndFill()))
@@ -410,6 +413,7 @@ static inline bool synchronize()
 	do {
 		uint8_t * sync;
 redo:
+		VERIF_CUT(rc_sync);
 		sync = memchr(bufCur, BEAST_SYNC, bufEnd - bufCur);
 		if (likely(sync)) {
 			/* found SYNC symbol, discard everything including the SYNC */
diff --git a/src/util/util.h b/src/util/util.h
index abbaae2..99cfd25 100644
--- a/src/util/util.h
+++ b/src/util/util.h
@@ -30,6 +30,13 @@ void UTIL_dropPrivileges();
 #define likely(x) __builtin_expect(!!(x),1)
 #define unlikely(x) __builtin_expect(!!(x),0)
 
+/** Cut points for deductive verification: they mark the head of a loop for
+ * which the verifier is given an inductive invariant. No code is generated
+ * unless built by the verifier, which defines OPENSKY_VERIF and the macro. */
+#ifndef OPENSKY_VERIF
+#define VERIF_CUT(id) ((void)0)
+#endif
+
 uint32_t UTIL_randInt(uint32_t n);
 
 void UTIL_waitSigInt();
-- 
2.43.0


From 6ff1814b96058ff7cbf2f7270a72824a30f98a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 02/18] hooks: cut points in the Trimble parser

---
 src/trimble/trimble_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..f963daf 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -92,6 +92,7 @@ size_t TRIMBLE_PARSER_getFrame(uint8_t * buf, size_t bufLen)
 	assert (bufLen > 1);
 
 	while (true) {
+		VERIF_CUT(tp_frame);
 		/* synchronize */
 		uint8_t bom;
 		if (unlikely(!next(&bom)))
@@ -106,6 +107,7 @@ synchronize:
 
 		/* decode frame */
 decode_frame:
+		VERIF_CUT(tp_decode);
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
@@ -147,6 +149,7 @@ static inline enum DECODE_STATUS decode(uint8_t * dst, size_t * len)
 	uint8_t * const dstStart = dst;
 
 	do {
+		VERIF_CUT(tp_copy);
 		if (unlikely(bufCur == bufEnd)) {
 			/* buffer is empty: fill it again */
 			if (unlikely(!discardAndFill()))
@@ -244,6 +247,7 @@ static inline bool synchronize()
 	do {
 		uint8_t * bom;
 redo:
+		VERIF_CUT(tp_sync);
 		bom = memchr(bufCur, BOM, bufEnd - bufCur);
 		if (likely(bom)) {
 			/* found BOM, discard everything including the BOM */
-- 
2.43.0


From 7dec87b952a294446c91662da7ff0486c056b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 03/18] fix: do not take an escaped BOM for the start of a
 Trimble packet

A BOM right after the first BOM is escaped payload of a packet whose start
was missed; it was taken as a packet of type 0x10. Resynchronize instead, as
synchronize() already does.
---
 src/trimble/trimble_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index f963daf..6eee8f9 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -111,9 +111,10 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == EOM || *buf == BOM)) {
+			/* neither an end of frame nor an escaped BOM starts a frame */
+			LOG_logf(LOG_LEVEL_WARN, PFX, "Out of Sync: got %s instead of "
+				"frame type, resynchronizing", *buf == EOM ? "EOM" : "BOM");
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 7751152436fa788e8298840d512ae1f23f7be133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 04/18] fix: do not forget an owed position report when the GPS
 connects

If the server asked for the position before the Trimble thread (re)connected
to its receiver, GPS_reset() dropped the request and the position was not
reported until the next login. Only withdraw the fix.
---
 src/trimble/trimble_recv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trimble/trimble_recv.c b/src/trimble/trimble_recv.c
index 29a4952..6dd4a7c 100644
--- a/src/trimble/trimble_recv.c
+++ b/src/trimble/trimble_recv.c
@@ -167,14 +167,16 @@ static void cleanupParser()
  * component */
 static void mainloop()
 {
-	GPS_reset();
+	/* no fix yet. Note: a position might have been requested already, thus
+	 * the request must not be reset here */
+	GPS_setHasFix(false);
 
 	while (true) {
 		TRIMBLE_PARSER_connect();
 
 		CLEANUP_PUSH(&cleanupParser, NULL);
 
-		GPS_reset();
+		GPS_setHasFix(false);
 
 		while (true) {
 			uint8_t buf[1024];
-- 
2.43.0


From a1526d5fd7c4027ccccd238614c0063336a138ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 05/18] hooks: cut point in the talkback loop

---
 src/core/tb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tb.c b/src/core/tb.c
index c3260e5..de695c9 100644
--- a/src/core/tb.c
+++ b/src/core/tb.c
@@ -117,6 +117,7 @@ static void mainloop()
 
 		while (true) {
 			while (bufLen >= 4) {
+				VERIF_CUT(tb_packet);
 				/* enough data to read header */
 				struct TB_Packet frame;
 				uint16_t * buf16 = (uint16_t*)buf;
-- 
2.43.0


From 42a390e4581f2ea83e3f689a52fdb6796b104a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 06/18] fix: forked upgrade process returned into the daemon's
 main loop

---
 src/radarcape/tb-misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..cd2dfe5 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -4,6 +4,7 @@
 #include <config.h>
 #endif
 #include <stdbool.h>
+#include <stdlib.h>
 #include <inttypes.h>
 #include <stdio.h>
 #include "tb-misc.h"
@@ -70,6 +71,8 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+	/* this is the forked child: it must not continue as a second daemon */
+	_Exit(EXIT_FAILURE);
 }
 #endif
 
-- 
2.43.0


From fb024b86524358f8be94b5d3b01fef835bfd51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 07/18] fix: overlong last argument left the logged command
 line unterminated

---
 src/util/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..da9a5a5 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -34,7 +34,7 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	if (!ptr || *arg)
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From 6c70081b85d9185e62c9355ef62c398137872ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 08/18] hooks: cut point in the send loop

---
 src/core/network.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..9772457 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,6 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
+		VERIF_CUT(net_send);
 		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
 		if (rc <= 0) {
 			/* report failure */
-- 
2.43.0


From edbe1a3bfc2452efd7db3fe2e86f515eac5d7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:31 +0000
Subject: [PATCH 09/18] fix: after a partial send the whole length was sent
 again, beyond the buffer

---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 9772457..67da4d6 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -369,7 +369,7 @@ static bool trySend(const void * buf, size_t len)
 
 	do {
 		VERIF_CUT(net_send);
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 5baaef471a6da57c032c865fe6c75e0d9f7abbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:31 +0000
Subject: [PATCH 10/18] fix: failure reported once more while disconnected
 aborted the daemon

---
 src/core/network.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 67da4d6..8a9dd20 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -308,8 +308,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
-		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
+		transState != TRANSIT_NONE && transState != (enum TRANSIT_STATE)by) {
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From ab5a8a21d851458dd15c38da624b323a79cfbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 11/18] fix: server sockets were leaked if stopped while
 reconnecting

---
 src/core/network.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 8a9dd20..8f59f7f 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock;
+static sock_t recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock;
+static sock_t sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
@@ -163,23 +163,27 @@ static bool checkCfg(const struct CFG_Section * sect)
 	return true;
 }
 
-static void cleanupMain()
+/** Shutdown and close a socket, if there is one
+ * @param sock pointer to socket
+ */
+static void closeSocket(sock_t * sock)
 {
-	if (connState == CONN_STATE_CONNECTED) {
-		switch (transState) {
-		case TRANSIT_NONE:
-		case TRANSIT_SEND:
-			SOCK_shutdown(recvsock, SHUT_RDWR);
-			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
-			break;
-		case TRANSIT_RECV:
-			SOCK_shutdown(sendsock, SHUT_RDWR);
-			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
-			break;
-		}
+	if (*sock != SOCK_INVALID) {
+		SOCK_shutdown(*sock, SHUT_RDWR);
+		SOCK_close(*sock);
+		*sock = SOCK_INVALID;
 	}
+}
+
+static void cleanupMain()
+{
+	/* the leader's socket is still connected, the follower's one may be stale
+	 * (not yet closed) or the same */
+	if (recvsock == sendsock)
+		sendsock = SOCK_INVALID;
+	closeSocket(&recvsock);
+	closeSocket(&sendsock);
+	transState = TRANSIT_NONE;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From e24ad4af3df3a0bef73b689bb56606ec2a695b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 12/18] fix: pointer beyond the processor table was formed for
 unknown packet types

---
 src/core/tb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/tb.c b/src/core/tb.c
index de695c9..0275626 100644
--- a/src/core/tb.c
+++ b/src/core/tb.c
@@ -161,9 +161,10 @@ static void mainloop()
 static void processPacket(const struct TB_Packet * packet)
 {
 	static const uint_fast32_t n_processors = ARRAY_SIZE(processors);
-	const struct PacketProcessor * processor = &processors[packet->type];
+	const struct PacketProcessor * processor = packet->type < n_processors ?
+		&processors[packet->type] : NULL;
 
-	if (packet->type >= n_processors || !processor->fn) {
+	if (!processor || !processor->fn) {
 		/* packet type unknown */
 		LOG_logf(LOG_LEVEL_WARN, PFX, "Unknown packet type (type=%"
 			PRIuFAST16 ", len=%" PRIuFAST16 ")", packet->type, packet->len);
-- 
2.43.0


From fe8e694aa1aa121c7c0e78195c2562fd16cfad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 13/18] fix: frame in use was lost if the thread was stopped

The cleanup routine runs after a non-local jump, where a modified automatic
variable which is not volatile is indeterminate: with optimisation the routine
saw the initial NULL instead of the current frame.
---
 src/core/recv.c  | 6 ++++--
 src/core/relay.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 8ac86f6..6ab3ca8 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -25,7 +25,7 @@ const struct Component RECV_comp = {
  * @param frame pointer to current pointer to frame. Must be done this way,
  *  since the argument is always the initial value.
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_abortFrame(*frame);
@@ -40,7 +40,9 @@ static void cleanupInput()
 /** Main loop: get a frame from the pool, fill it and buffer it */
 static void mainloop()
 {
-	struct OPENSKY_RawFrame * frame = NULL;
+	/* volatile: the cleanup routine must see the current value even if the
+	 * variable was changed after the routine was installed */
+	struct OPENSKY_RawFrame * volatile frame = NULL;
 	struct OPENSKY_DecodedFrame decoded;
 
 	CLEANUP_PUSH(&cleanup, &frame);
diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..e0c5dd3 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -45,7 +45,7 @@ const struct Component RELAY_comp = {
 /** Cleanup routine: put a frame back into the queue upon cancellation
  * @param frame pointer to frame
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_putFrame(*frame);
@@ -88,7 +88,9 @@ static void mainloop()
 		BUF_flushUnlessHistoryEnabled();
 
 		bool success;
-		const struct OPENSKY_RawFrame * frame = NULL;
+		/* volatile: the cleanup routine must see the current value even if the
+		 * variable was changed after the routine was installed */
+		const struct OPENSKY_RawFrame * volatile frame = NULL;
 		CLEANUP_PUSH(&cleanup, &frame);
 		do {
 			/* read a frame from the buffer */
-- 
2.43.0


From 6805313063db0b10edcde94219306a4c6eb335c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 14/18] fix: tail of a list was wrong after prepending several
 elements to an empty list

---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..10008c8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From c11af05528444f2374a3963944656007be729f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 15/18] fix: length of a list was wrong after splitting it
 while it was not counted

---
 src/util/list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index 10008c8..dfb2792 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,8 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	/* the length of the source must be known before elements are taken off */
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +541,8 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	/* the length of the source must be known before elements are taken off */
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 465f3965641c3e14f2d1bd130cbcd8f4a5af7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 16/18] fix: reverse iteration ignored the name of its iterator

---
 src/util/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/list.h b/src/util/list.h
index dfb2792..5a51d25 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -1586,7 +1586,7 @@ static inline struct LIST_LinkS * LIST_atSC(struct LIST_ListSC * list, size_t n)
  * @note you can use break inside the loop.
  * @note do not use unlink while iterating.
  */
-#define LIST_foreachRev(list, elem) \
+#define LIST_foreachRev(list, link) \
 	for (link = LIST_beginRev(list); link != LIST_end(list); \
 			link = LIST_prev(link))
 
@@ -1596,7 +1596,7 @@ static inline struct LIST_LinkS * LIST_atSC(struct LIST_ListSC * list, size_t n)
  * @param link iterator.
  * @note you can use break inside the loop.
  */
-#define LIST_foreachRevSafe(list, elem, n) \
+#define LIST_foreachRevSafe(list, link, n) \
 	for (link = LIST_beginRev(list), n = LIST_prev(link); \
 		link != LIST_end(list); link = n, n = LIST_prev(link))
 
-- 
2.43.0


From 0da114b466950668d9fab492709c2be8efc4169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:48 +0000
Subject: [PATCH 17/18] fix: daemon aborted if dynamic pools were configured to
 be empty

---
 src/core/buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..7592894 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,11 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From b2f855c804682ff560f361e86bc1a3773c6095a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:48 +0000
Subject: [PATCH 18/18] fix: division by zero in the garbage collector if its
 level was configured as zero

---
 src/core/buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index 7592894..9bdf7f1 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -191,6 +191,11 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
 	}
 
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.gcLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


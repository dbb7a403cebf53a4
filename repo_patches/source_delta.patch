From 3a0275ad70a09de5ff24ca131ee53de186b4ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 01/51] fix: buffer: correct zero DynamicBacklog and GCLevel

With History enabled, DynamicBacklog = 0 lets the buffer create an empty
dynamic pool upon overflow and abort; GCLevel = 0 divides by zero in the
garbage collector. Both are accepted by the configuration, so correct them
like a too small StaticBacklog.
---
 src/core/buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..9bdf7f1 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,16 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
+	}
+
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.gcLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From 9b9b02cfb6ce85e087769970f8fa121b26fe6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 02/51] fix: gps: do not repeat a deferred position sent by the
 login

---
 src/core/gps.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..486432e 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -158,6 +158,13 @@ bool GPS_sendPosition()
 		memcpy(&pos, &position, sizeof pos);
 		pthread_mutex_unlock(&posMutex);
 
-		return sendPosition(&pos);
+		bool rc = sendPosition(&pos);
+		if (rc) {
+			/* sent: an earlier deferred position is not needed anymore */
+			pthread_mutex_lock(&posMutex);
+			needPosition = false;
+			pthread_mutex_unlock(&posMutex);
+		}
+		return rc;
 	}
 }
-- 
2.43.0


From 833764db2436cdf7ce930ce5866a145ee58ab751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 03/51] fix: proc: terminate the printed command line if the
 last argument is truncated

---
 src/util/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..a7e20e7 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -34,7 +34,7 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	if (!ptr || (*arg && ptr == end))
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From 73584afd7051534ba35e92a0112a27be29264312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 04/51] fix: proc: report failure if forking or waiting for a
 program fails

---
 src/util/proc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index a7e20e7..d33f141 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -132,10 +132,14 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
-	if (!pid)
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	} else if (!pid)
 		PROC_execAndFinalize(argv);
 
 	int status;
-	waitpid(pid, &status, 0);
+	if (waitpid(pid, &status, 0) != pid)
+		return false;
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 76785cfd1a509c3cdee731f807493aebc7276545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 05/51] fix: network: send only the remaining bytes after a
 partial send

---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 4f31628216530d1ca540cf25c6ef40965c7e42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 06/51] fix: network: close the stale socket as well if stopped
 while sender and receiver are unsynchronized

---
 src/core/network.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..c83502b 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock;
+static sock_t recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock;
+static sock_t sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
@@ -165,21 +165,17 @@ static bool checkCfg(const struct CFG_Section * sect)
 
 static void cleanupMain()
 {
-	if (connState == CONN_STATE_CONNECTED) {
-		switch (transState) {
-		case TRANSIT_NONE:
-		case TRANSIT_SEND:
-			SOCK_shutdown(recvsock, SHUT_RDWR);
-			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
-			break;
-		case TRANSIT_RECV:
-			SOCK_shutdown(sendsock, SHUT_RDWR);
-			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
-			break;
-		}
+	/* note: while sender and receiver are not synchronized, there can be a stale
+	 * socket besides the one of the current connection */
+	if (recvsock != SOCK_INVALID) {
+		SOCK_shutdown(recvsock, SHUT_RDWR);
+		SOCK_close(recvsock);
+	}
+	if (sendsock != SOCK_INVALID && sendsock != recvsock) {
+		SOCK_shutdown(sendsock, SHUT_RDWR);
+		SOCK_close(sendsock);
 	}
+	recvsock = sendsock = SOCK_INVALID;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From 2c13c563572a6e53069afe15eb20b8ca59719655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 07/51] fix: network: do not continue receiving silently on
 another connection

---
 src/core/network.c | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index c83502b..695bfee 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -69,16 +69,6 @@ enum EMIT_BY {
 	EMIT_BY_SEND = TRANSIT_RECV
 };
 
-/** Action to be taken if sending/receiving fails -> it could be, that the
- * connection has already been reestablished. Try again in that case.
- */
-enum ACTION {
-	/** No action: just fail */
-	ACTION_NONE,
-	/** Retry */
-	ACTION_RETRY
-};
-
 /** Current connection state */
 static enum CONN_STATE connState;
 
@@ -99,7 +89,7 @@ static time_t onlineSince;
 
 static void mainloop();
 static sock_t tryConnect();
-static enum ACTION emitDisconnect(enum EMIT_BY by);
+static void emitDisconnect(enum EMIT_BY by);
 static bool trySend(const void * buf, size_t len);
 static void resetStats();
 
@@ -245,11 +235,9 @@ static inline void logDisconnect()
 /** Upon network failure: determine the actions to be taken, depending on
  * who has detected the failure and the current state
  * @param by failure was detected by sender or receiver
- * @return action to be taken by sender resp. receiver
  */
-static enum ACTION emitDisconnect(enum EMIT_BY by)
+static void emitDisconnect(enum EMIT_BY by)
 {
-	enum ACTION act;
 	CLEANUP_PUSH_LOCK(&mutex);
 
 	/* determine socket */
@@ -312,10 +300,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 		*mysock = SOCK_INVALID;
 		transState = TRANSIT_NONE;
 	}
-	act = connState == CONN_STATE_CONNECTED ? ACTION_RETRY : ACTION_NONE;
 	CLEANUP_POP();
-
-	return act;
 }
 
 /** Wait for reconnection */
@@ -404,17 +389,18 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* note: the connection could already have been reestablished, but the
+	 * caller must know that its data stream has been interrupted */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From f1127f45de6e6153c60c897f7989f48184a7e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 08/51] fix: network: do not abort if a second sender fails
 while disconnected

---
 src/core/network.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 695bfee..000b642 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -292,8 +292,7 @@ static void emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
-		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
+		transState != TRANSIT_NONE && transState != (enum TRANSIT_STATE)by) {
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From d6a9ad31ddc9c49937488a45c2adc570ac7153a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 09/51] fix: network: do not close the socket another thread is
 sending on

---
 src/core/network.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 000b642..1aec71d 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -316,7 +316,11 @@ void NET_waitConnected()
  */
 void NET_forceDisconnect()
 {
+	/* note: another thread could be sending (e.g. a position), do not close the
+	 * socket it uses */
+	CLEANUP_PUSH_LOCK(&sendMutex);
 	emitDisconnect(EMIT_BY_SEND);
+	CLEANUP_POP();
 }
 
 /** Check if the network is still connected.
@@ -325,16 +329,15 @@ void NET_forceDisconnect()
  */
 bool NET_checkConnected()
 {
+	bool emit;
+	CLEANUP_PUSH_LOCK(&sendMutex);
 	pthread_mutex_lock(&mutex);
-	bool emit = connState != CONN_STATE_CONNECTED ||
-		transState == TRANSIT_SEND;
+	emit = connState != CONN_STATE_CONNECTED || transState == TRANSIT_SEND;
 	pthread_mutex_unlock(&mutex);
-	if (emit) {
+	if (emit)
 		emitDisconnect(EMIT_BY_SEND);
-		return false;
-	} else {
-		return true;
-	}
+	CLEANUP_POP();
+	return !emit;
 }
 
 /** Send some data through the socket.
-- 
2.43.0


From ebec2b732ee486cb775948f4aa1f9763ed84ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 10/51] fix: mmap: accept empty files

---
 src/util/port/mmap-posix.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/port/mmap-posix.c b/src/util/port/mmap-posix.c
index e10595c..9a0a568 100644
--- a/src/util/port/mmap-posix.c
+++ b/src/util/port/mmap-posix.c
@@ -34,8 +34,11 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 		return NULL;
 	}
 
-	/* mmap input file and close file descriptor */
-	void * ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
+	/* mmap input file (an empty file cannot be mapped) and close file
+	 * descriptor */
+	void * ptr = NULL;
+	if (st.st_size != 0)
+		ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
 	close(fd);
 	if (ptr == MAP_FAILED) {
 		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
@@ -55,7 +58,8 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 void MMAP_close(struct MMAP * map)
 {
 	/* unmap file */
-	munmap(map->ptr, map->len);
+	if (map->len != 0)
+		munmap(map->ptr, map->len);
 
 	free(map);
 }
-- 
2.43.0


From fb08f0bbf44013fe5ca429ee97eee04b5a86c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 11/51] fix: cfgfile: do not lose the last character if the
 last line has no newline

---
 src/util/cfgfile.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..5f371d9 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,16 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Advance the parser beyond a line.
+ * @param n end of the line: its newline or the end-of-file
+ */
+static inline void advance(const char * n)
+{
+	const char * const end = bufferInput + bufferSize;
+	bufferInput = n == end ? end : n + 1;
+	bufferSize = end - bufferInput;
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -366,7 +376,7 @@ static enum SECTION_STATE parseSection()
 	/* get next newline or end-of-file */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +393,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -411,10 +420,9 @@ static void skipComment()
 	/* search for next newline */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 	++bufferLine;
 }
 
@@ -610,13 +618,12 @@ static bool parseOption()
 	const char * e = memchr(bufferInput, '=', bufferSize);
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 
 	/* sanity check */
 	if (unlikely(n < e)) {
-- 
2.43.0


From 61cd3f2b93835ee19e08e4e434ba5f4999b30156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 12/51] fix: cfgfile: do not crash if no '=' follows in the
 file

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 5f371d9..da70da9 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -626,7 +626,7 @@ static bool parseOption()
 	advance(n);
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(!e || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From 78b90cdbfcaa1e4dbd4e4a24da353b080fc84e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 13/51] fix: cfgfile: do not crash on empty values with a
 carriage return

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index da70da9..a49850e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -646,7 +646,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen != 0 && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From dcb0df68bd767b870f89a874ee26cf4367977415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 14/51] fix: cfgfile: fail if an option cannot be parsed and
 defaults should not be used

---
 src/util/cfgfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index a49850e..44a4f7e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -707,7 +707,8 @@ static bool readCfg()
 			if (sectionState == SECTION_STATE_NOSECTION && optWarnUnknownOption)
 				LOG_logf(LOG_LEVEL_WARN, PFX, "Line %" PRIuFAST32 ": "
 					"Unexpected option outside any section", bufferLine);
-			parseOption();
+			if (!parseOption() && !optOnErrorUseDefault)
+				return false;
 		}
 	}
 	return true;
-- 
2.43.0


From ac90a0f88c3294d54ec6695654f71ea9cf61e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 15/51] fix: cfgfile: do not take over numbers which are no
 numbers or out of range

---
 src/util/cfgfile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 44a4f7e..54f27e5 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -443,7 +443,16 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
+	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
+	if (errno == ERANGE || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
@@ -533,6 +542,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0


From 2b1b487cacb1b46b63b810f8369e7f39e32b87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 16/51] fix: cfgfile: terminate string options if a value is
 too long

---
 src/util/cfgfile.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 54f27e5..653e036 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -727,6 +727,17 @@ static bool readCfg()
 	return true;
 }
 
+/** Set a string, truncate it if it is too long.
+ * @param opt option to be assigned, its type must be string
+ * @param value value to be assigned
+ */
+static void setString(const struct CFG_Option * opt, const char * value)
+{
+	char * str = opt->var;
+	strncpy(str, value, opt->maxlen);
+	str[opt->maxlen - 1] = '\0';
+}
+
 /** Assign option from its default value.
  * @param opt option to be assigned
  */
@@ -745,7 +756,7 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 		break;
 	case CFG_VALUE_TYPE_STRING:
 		if (opt->def.string)
-			strncpy(opt->var, opt->def.string, opt->maxlen);
+			setString(opt, opt->def.string);
 		else
 			((char*)opt->var)[0] = '\0';
 		break;
@@ -838,7 +849,7 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
-		strncpy(opt->var, value, opt->maxlen);
+		setString(opt, value);
 	}
 }
 
-- 
2.43.0


From d0746950c084c0cb95d020c168dcae6b4ecc26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 17/51] fix: cfgfile: report failures when writing a
 configuration

---
 src/util/cfgfile.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 653e036..dcc70ef 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -908,12 +908,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const union CFG_Value * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
@@ -1002,7 +1004,9 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	/* note: buffered data could be written not until now */
+	if (fclose(file) != 0)
+		rc = false;
 
 	return rc;
 }
@@ -1024,7 +1028,9 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	/* note: buffered data could be written not until now */
+	if (fclose(file) != 0)
+		rc = false;
 
 	return rc;
 }
-- 
2.43.0


From 0b3016b6e6905ad1660eb9f539795be5445ea3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 18/51] fix: cfgfile: tell if not all files of a directory
 could be read, do not use an unterminated path

---
 src/util/cfgfile.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index dcc70ef..e737d7b 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -225,15 +225,16 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen + 1 > len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -242,10 +243,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	/* free filenames */
@@ -291,7 +294,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	struct dirent * ent;
 	while ((ent = readdir(dir)) != NULL) {
 		/* build filename */
@@ -301,9 +304,10 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen + 1 > len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -312,10 +316,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	closedir(dir);
-- 
2.43.0


From 028442f60fffe7255c30f1266ba809ff87048004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 19/51] fix: component: do not join a thread twice if its stop
 was deferred

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From 4efbbb4c2fcd73543449662c6781485e8e191a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 20/51] fix: component: do not overflow the list of components
 which could not be stopped

---
 src/util/component.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..b051bd8 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -340,10 +340,12 @@ static void stopUntil(struct ComponentLink * end)
 		ci = end;
 		LIST_foreachItemRev_continue(&components, ci, list) {
 			if (ci->state == COMPONENT_STATE_STARTED) {
-				size_t len = MIN(strlen(ci->comp->description), bend - buf);
+				size_t len = MIN(strlen(ci->comp->description),
+					(size_t)(bend - buf));
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
-				*(buf++) = ' ';
+				if (buf != bend)
+					*(buf++) = ' ';
 			}
 		}
 		if (buf != buffer)
-- 
2.43.0


From b1875ec6c1f7246317b3c81223a61323ae1a3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 21/51] fix: GPS reset must not drop a pending position request

A login without a valid position asks for it to be sent as soon as it is
known. The GPS receiver component resets the position whenever it
(re)connects, which also dropped this request, so that the position was
not sent until the next login.
---
 src/core/gps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 486432e..ba166af 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -39,8 +39,8 @@ static bool sendPosition(const struct GPS_Position * position);
 /** Reset current GPS position */
 void GPS_reset()
 {
+	/* note: a login still waiting for the position keeps waiting for it */
 	pthread_mutex_lock(&posMutex);
-	needPosition = false;
 	hasPosition = false;
 	hasFix = false;
 	pthread_mutex_unlock(&posMutex);
-- 
2.43.0


From 4bd78d6924c019578f384f80858b9ee7d5664bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 22/51] fix: device type can be reconfigured

OpenSky::configure() of the general purpose library is documented to set
or change the configuration, but aborted when called again.
---
 src/core/login.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/login.c b/src/core/login.c
index ea81b0d..c86254b 100644
--- a/src/core/login.c
+++ b/src/core/login.c
@@ -53,12 +53,11 @@ bool LOGIN_login()
 	return rc;
 }
 
-/** Set device type. Must be called once, before trying to login
+/** Set device type. Must be called at least once, before trying to login
  * @param type device type
  */
 void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE type)
 {
-	assert(deviceType == OPENSKY_DEVICE_TYPE_INVALID);
 	assert(type != OPENSKY_DEVICE_TYPE_INVALID);
 	deviceType = type;
 }
-- 
2.43.0


From 7bb5f5f12fbd2497f7aad8a8d1bb69c297bd8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 23/51] fix: missing serial number was not detected at startup

SERIAL_ETH_getSerial() does not return a bool anymore: its failure value
is not 0.
---
 src/radarcape/lib/opensky.cc | 2 +-
 src/radarcape/main.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..d2cfc56 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -83,7 +83,7 @@ void init()
 
 void configure()
 {
-	if (!SERIAL_ETH_getSerial(NULL)) {
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM) {
 		LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 	} else {
 		configured = true;
diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..4a96cb1 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 696568b5ca102d5476c57617226de6b1c4576937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 24/51] fix: list: tail of a single linked list after
 prepending to an empty list

LIST_concatenateUnshiftS() made the first instead of the last link of the
source the tail, so a following push lost all but the first link.
---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..10008c8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From bbe4e797f9c25951b39cebb2b885aaeff320fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 25/51] fix: list: unlinking the anchor must not change the
 list

The documentation promises that nothing happens. It was true for empty
lists only.
---
 src/util/list.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/list.h b/src/util/list.h
index 10008c8..4b974cb 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -79,9 +79,11 @@ static inline bool LIST_emptyD(const struct LIST_ListD * list)
 static inline struct LIST_LinkD * LIST_unlinkD(struct LIST_ListD * list,
 	struct LIST_LinkD * link)
 {
-	/* unlink by redirecting pointers of the previous and next link */
-	link->prev->next = link->next;
-	link->next->prev = link->prev;
+	if (likely(link != &list->anchor)) {
+		/* unlink by redirecting pointers of the previous and next link */
+		link->prev->next = link->next;
+		link->next->prev = link->prev;
+	}
 	return link;
 }
 
@@ -389,7 +391,7 @@ static inline size_t LIST_lengthDC(const struct LIST_ListDC * list)
 static inline struct LIST_LinkD * LIST_unlinkDC(struct LIST_ListDC * list,
 	struct LIST_LinkD * link)
 {
-	if (likely(list->tainted || list->length)) {
+	if (likely(link != &list->listD.anchor)) {
 		LIST_unlinkD(&list->listD, link);
 		--list->length;
 	}
-- 
2.43.0


From 1453b6a3bab152df4a788d1e21c21a78888fd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 26/51] fix: list: separation with eager counting of a lazily
 counted list

The stale length of the source list was used to calculate the new one.
---
 src/util/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index 4b974cb..ab4f301 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -496,6 +496,7 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -541,6 +542,7 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From a4a9c548cd6c429b2c55f1763f66f28a928f141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 27/51] fix: serial: close the socket used to get the MAC
 address

It leaked a file descriptor per attempt, also if the address could not be
obtained.
---
 src/util/serial_eth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..5714c97 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -75,6 +75,8 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
 
+	close(sock);
+
 	if (ret < 0) /* no such device */
 		return false;
 
-- 
2.43.0


From 75f17f3ba0204ae0132c4e0fbe52bac89d84a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 28/51] fix: serial: store a serial number which arrives when
 nobody waits for it

If the response arrived after the request was given up (e.g. lost
connection), the number was used, but never stored, so another one was
requested after the next start. Likewise, a further response changed the
number in use, but not the stored one.
---
 src/dump1090/req-serial.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..294d9f7 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -116,15 +116,6 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 					"failed");
 			}
 		}
-
-		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
-			(int32_t)serialNumber);
-
-		/* got a new serial number -> save it */
-		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
-			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
-				"refusing to work");
-		}
 	}
 	*serial = serialNumber;
 cleanup:
@@ -148,11 +139,25 @@ static bool sendSerialRequest()
  */
 static void serialResponse(const uint8_t * payload)
 {
-	pthread_mutex_lock(&serialMutex);
-	serialNumber = ENDEC_tou32(payload);
-	hasSerial = true;
-	pthread_cond_broadcast(&serialReqCond);
-	pthread_mutex_unlock(&serialMutex);
+	CLEANUP_PUSH_LOCK(&serialMutex);
+	/* ignore further responses: the number must not change any more */
+	if (!hasSerial) {
+		serialNumber = ENDEC_tou32(payload);
+		hasSerial = true;
+
+		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
+			(int32_t)serialNumber);
+
+		/* got a new serial number -> save it. This is done here because the
+		 * response could be late, i.e. nobody could be waiting for it. */
+		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
+			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
+				"refusing to work");
+		}
+
+		pthread_cond_broadcast(&serialReqCond);
+	}
+	CLEANUP_POP();
 }
 
 static void reg()
-- 
2.43.0


From 52e1510266ee26bd2c456017936bebc09b0e47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 29/51] fix: unmap the FPGA bitstream if programming fails

---
 src/radarcape/fpga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..22b7491 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -226,6 +226,7 @@ static bool program()
 		break;
 	}
 	if (try == retries) {
+		munmap(rfd, st.st_size);
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
 		return false;
-- 
2.43.0


From 9c9d72eca537ee1e5e1e7d3aff5e3b44c682c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 30/51] fix: wait for the FPGA to signal completion instead of
 waiting while it does

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 22b7491..f3a0d9e 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -212,7 +212,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From 763c527739b5dff073f1b70d5d5c66a25505a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 31/51] fix: FPGA file names of almost PATH_MAX characters
 overflow the buffer

---
 src/radarcape/fpga.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f3a0d9e..365ba71 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -13,6 +13,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <limits.h>
+#include <stdio.h>
 #include <string.h>
 #include <assert.h>
 #include "gpio.h"
@@ -169,9 +170,11 @@ static bool program()
 	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
 		strncpy(file, cfgFilename, sizeof file);
 	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+		int len = snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename);
+		if (len < 0 || (size_t)len >= sizeof file) {
+			LOG_log(LOG_LEVEL_ERROR, PFX, "FPGA.file is too long");
+			return false;
+		}
 	}
 
 	/* open input file */
-- 
2.43.0


From ddc1c6a4ee432633beb175286b9a9c8b0fea3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 32/51] fix: NETC_connect leaks its socket if it is cancelled
 while connecting

---
 src/util/net_common-posix.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..3e7ee4b 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket not handed over to the caller, yet */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -33,6 +35,8 @@ static void cleanup(struct Hosts * hosts)
 	if (hosts) {
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		free(hosts->shuffled);
 		free(hosts);
 	}
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -128,12 +133,15 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 			host->ai_protocol);
 		if (sock == SOCK_INVALID)
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
+		hosts->sock = sock;
 
 		/* connect socket */
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
-			SOCK_close(sock);
+			if (sock != SOCK_INVALID)
+				NOC_call(SOCK_close, sock);
+			hosts->sock = SOCK_INVALID;
 		} else {
 			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
 			break;
@@ -141,6 +149,8 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 	}
 	if (i == nHosts)
 		host = NULL;
+	/* the socket, if any, belongs to the caller now */
+	hosts->sock = SOCK_INVALID;
 cleanup:
 	CLEANUP_POP();
 
-- 
2.43.0


From a6a6beff58bd56bce38781afdd0e2c1b8a04f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 33/51] fix: feeder: accept user names of 40 characters

The packages and the protocol allow for 40 characters, but maxlen includes
the terminating NUL, such that names of exactly 40 characters were rejected.
---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index e48ef3c..5fc3b7a 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -63,7 +63,7 @@ static struct CFG_Section cfgDesc =
 			.name = "Username",
 			.type = CFG_VALUE_TYPE_STRING,
 			.var = &username,
-			.maxlen = OPENSKY_MAX_USERNAME,
+			.maxlen = sizeof(username),
 		}
 	}
 };
-- 
2.43.0


From d36de1d5f71b0415b617609869437f702120dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 34/51] fix: feeder: reject a position which is not a number

---
 src/dump1090/position.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..1561269 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -82,11 +82,11 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
-- 
2.43.0


From ee42a2f4e78e19311e2aeba7f890f972994a505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 35/51] fix: network: begin each connection with the login

A position is sent by another thread than frames and the login. If it was this
thread which noticed that the connection was lost, the relay was not told:
it continued to send on the new connection without logging in. Besides, the
position could have been sent before the login on a new connection.
---
 src/core/network.c | 54 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 1aec71d..6885c4c 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -75,6 +75,15 @@ static enum CONN_STATE connState;
 /** Current transition state */
 static enum TRANSIT_STATE transState;
 
+/** Number of the current connection (counted from 1) */
+static uint32_t connNumber;
+/** Number of the last connection the login was begun on, i.e. the last one on
+ * which a thread has sent something after having waited for it */
+static uint32_t loginConnNumber;
+/** Number of the connection the calling thread has waited for. It is 0 for
+ * threads which only send something from time to time (e.g. a position) */
+static __thread uint32_t myConnNumber;
+
 /** Configuration: host name*/
 static char cfgHost[NI_MAXHOST];
 /** Configuration: tcp port */
@@ -203,6 +212,7 @@ static void mainloop()
 		}
 
 		connState = CONN_STATE_CONNECTED;
+		++connNumber;
 		pthread_cond_broadcast(&cond);
 
 		onlineSince = time(NULL);
@@ -308,9 +318,21 @@ void NET_waitConnected()
 	CLEANUP_PUSH_LOCK(&mutex);
 	while (connState != CONN_STATE_CONNECTED)
 		pthread_cond_wait(&cond, &mutex);
+	myConnNumber = connNumber;
 	CLEANUP_POP();
 }
 
+/** Check if the calling thread has missed the loss of its connection, i.e. if
+ * another sender has noticed it and there is a new connection already.
+ * @note must be called with @mutex locked
+ * @return true if the thread must not send until it has waited for the
+ *  connection again
+ */
+static inline bool missedReconnect()
+{
+	return myConnNumber != connNumber && transState != TRANSIT_SEND;
+}
+
 /** Force a reconnection to the network.
  * Must only be called by the thread which normally calls @NET_send.
  */
@@ -318,8 +340,13 @@ void NET_forceDisconnect()
 {
 	/* note: another thread could be sending (e.g. a position), do not close the
 	 * socket it uses */
+	bool missed;
 	CLEANUP_PUSH_LOCK(&sendMutex);
-	emitDisconnect(EMIT_BY_SEND);
+	pthread_mutex_lock(&mutex);
+	missed = missedReconnect();
+	pthread_mutex_unlock(&mutex);
+	if (!missed)
+		emitDisconnect(EMIT_BY_SEND);
 	CLEANUP_POP();
 }
 
@@ -330,14 +357,16 @@ void NET_forceDisconnect()
 bool NET_checkConnected()
 {
 	bool emit;
+	bool missed;
 	CLEANUP_PUSH_LOCK(&sendMutex);
 	pthread_mutex_lock(&mutex);
 	emit = connState != CONN_STATE_CONNECTED || transState == TRANSIT_SEND;
+	missed = missedReconnect();
 	pthread_mutex_unlock(&mutex);
 	if (emit)
 		emitDisconnect(EMIT_BY_SEND);
 	CLEANUP_POP();
-	return !emit;
+	return !emit && !missed;
 }
 
 /** Send some data through the socket.
@@ -350,8 +379,21 @@ static bool trySend(const void * buf, size_t len)
 	const char * ptr = buf;
 	const char * end = ptr + len;
 
+	pthread_mutex_lock(&mutex);
+	const sock_t sock = sendsock;
+	/* a new connection must begin with the login:
+	 *  - if another sender has noticed the loss of the connection, the caller
+	 *    has to wait for the new one first, in order to log in again
+	 *  - all other senders have to wait until the login has begun
+	 */
+	const bool refuse = myConnNumber ? missedReconnect() :
+		loginConnNumber != connNumber;
+	pthread_mutex_unlock(&mutex);
+	if (refuse)
+		return false;
+
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
+		ssize_t rc = SOCK_sendCancelable(sock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
@@ -367,6 +409,12 @@ static bool trySend(const void * buf, size_t len)
 
 	stats.bytesSent += len;
 
+	if (myConnNumber) {
+		pthread_mutex_lock(&mutex);
+		loginConnNumber = myConnNumber;
+		pthread_mutex_unlock(&mutex);
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 1c660fe93c1265b12986cc30580e647f57fff3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 36/51] fix: dummy: initialize the last byte of generated
 frames

The last byte of the payload was never set, i.e. it was whatever was on
the stack.
---
 src/radarcape/dummy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/dummy.c b/src/radarcape/dummy.c
index 4761e89..7e5245e 100644
--- a/src/radarcape/dummy.c
+++ b/src/radarcape/dummy.c
@@ -86,7 +86,7 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 		mbuf[0] = (random() & 0xff) - 0x7f;
 		mbuf[1] = 0x8a;
 		uint_fast32_t i;
-		for (i = 2; i < 14; ++i)
+		for (i = 2; i < 15; ++i)
 			mbuf[i] = random() & 0xff;
 	}
 	ptr += BEAST_encode(ptr, mbuf, 15);
-- 
2.43.0


From 67eb3b42378a5d35ed14dd6375bfd03f276d0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 37/51] fix: network: reset the time online of the current
 connection, too

Upon a reset of the statistics, all counters are cleared, but the time the
current connection was online already was still reported (and counted)
afterwards.
---
 src/core/network.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/network.c b/src/core/network.c
index 6885c4c..cf18080 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -458,6 +458,9 @@ static void resetStats()
 {
 	pthread_mutex_lock(&mutex);
 	memset(&stats, 0, sizeof stats);
+	/* time online is counted from now on, too */
+	if (connState == CONN_STATE_CONNECTED)
+		onlineSince = time(NULL);
 	pthread_mutex_unlock(&mutex);
 }
 
-- 
2.43.0


From b0d301c19da944c677fdbfca8a924a0591721517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 38/51] fix: uart: open the line with the intended flags

The flags were given as file mode, i.e. they had no effect: the line could
become the controlling terminal, was inherited by child processes (e.g. the
reverse shell) and opening it waited for the carrier.
---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From e13108f875dfeb48caa61048caf4fa3e608c5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 39/51] fix: uart: fail if the device has gone

After a hangup (e.g. the adapter was unplugged), read() returns 0 and poll()
returns immediately: the receiving thread was busy forever and never
reconnected.
---
 src/radarcape/uart.c             | 25 ++++++++++++++-----------
 src/trimble/trimble_input_uart.c | 25 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 7b40940..086453d 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -116,21 +116,24 @@ static bool doConnect()
  */
 size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 {
+	bool hangup = false;
 	while (true) {
 		ssize_t rc = read(fd, buf, bufLen);
-		if (unlikely(rc == -1)) {
-			if (errno == EAGAIN) {
-				poll(&fds, 1, -1);
-			} else {
-				LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
-				closeUart();
-				return 0;
-			}
-		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
-		} else {
+		if (likely(rc > 0))
 			return rc;
+		if (unlikely(rc == -1 && errno != EAGAIN)) {
+			LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
+			closeUart();
+			return 0;
 		}
+		if (unlikely(hangup)) {
+			/* there will be no more input, polling returns immediately */
+			LOG_log(LOG_LEVEL_WARN, PFX, "UART was disconnected");
+			closeUart();
+			return 0;
+		}
+		if (poll(&fds, 1, -1) > 0)
+			hangup = (fds.revents & (POLLERR | POLLHUP | POLLNVAL)) != 0;
 	}
 }
 
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index feb36b8..f4e7116 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -136,21 +136,24 @@ static bool doConnect()
  */
 size_t TRIMBLE_INPUT_read(uint8_t * buf, size_t bufLen)
 {
+	bool hangup = false;
 	while (true) {
 		ssize_t rc = read(fd, buf, bufLen);
-		if (unlikely(rc == -1)) {
-			if (errno == EAGAIN) {
-				poll(&fds, 1, -1);
-			} else {
-				LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
-				closeUart();
-				return 0;
-			}
-		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
-		} else {
+		if (likely(rc > 0))
 			return rc;
+		if (unlikely(rc == -1 && errno != EAGAIN)) {
+			LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
+			closeUart();
+			return 0;
 		}
+		if (unlikely(hangup)) {
+			/* there will be no more input, polling returns immediately */
+			LOG_log(LOG_LEVEL_WARN, PFX, "UART was disconnected");
+			closeUart();
+			return 0;
+		}
+		if (poll(&fds, 1, -1) > 0)
+			hangup = (fds.revents & (POLLERR | POLLHUP | POLLNVAL)) != 0;
 	}
 }
 
-- 
2.43.0


From ab9d33d9e23d2f9bb44487bcd26137150c19a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 40/51] fix: radarcape: tell if the configuration could not be
 saved

---
 src/radarcape/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 4a96cb1..3919648 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,13 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool saved = CFG_write(savefile);
+		if (!saved)
+			LOG_logf(LOG_LEVEL_ERROR, PFX, "Could not write configuration "
+				"file '%s'", savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
-- 
2.43.0


From b6f5eb3e67e8b1831ab86eab46b133d0ea67525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 41/51] fix: radarcape: do not mix the configuration of the
 receiver upon connection with a reconfiguration

---
 src/radarcape/rc-parser.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..536922f 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -40,6 +40,12 @@ static uint8_t * bufEnd;
 
 static struct RC_PARSER_Statistics stats;
 
+#if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
+/** Mutex: the configuration is read and transmitted by the receiving thread
+ * (upon connection) and by others (upon reconfiguration), one after another */
+static pthread_mutex_t configMutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
 /** Radarcape options */
 enum RADARCAPE_OPTION {
 	/** Output Format: AVR */
@@ -153,8 +159,10 @@ static bool configure()
 {
 #if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
+	bool success;
+	CLEANUP_PUSH_LOCK(&configMutex);
 	/* setup ADSB */
-	return setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
+	success = setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
 		setOption(filterCfg->extSquitter ?
 			RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 			RADARCAPE_OPTION_FRAME_FILTER_ALL) &&
@@ -169,6 +177,8 @@ static bool configure()
 		setOption(RADARCAPE_OPTION_MODE_AC_DECODING_DISABLED) &&
 		setOption(RADARCAPE_OPTION_Y) &&
 		setOption(RADARCAPE_OPTION_R);
+	CLEANUP_POP();
+	return success;
 #else
 	return true;
 #endif
@@ -179,9 +189,11 @@ void INPUT_reconfigure()
 {
 #ifdef INPUT_RADARCAPE_UART
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
+	CLEANUP_PUSH_LOCK(&configMutex);
 	setOption(filterCfg->extSquitter ?
 		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 		RADARCAPE_OPTION_FRAME_FILTER_ALL);
+	CLEANUP_POP();
 #endif
 }
 
-- 
2.43.0


From fd2abe7362a0319ff5a39c0b6d90d2ffb0e4a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 42/51] fix: radarcape: do not write to a line which is closed
 meanwhile

---
 src/radarcape/uart.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 086453d..ec939c0 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -27,6 +27,9 @@ static const char PFX[] = "INPUT";
 
 /** file descriptor for UART */
 static int fd;
+/** Mutex: others than the receiving thread write as well, they must not use a
+ * file descriptor which is closed meanwhile */
+static pthread_mutex_t fdMutex = PTHREAD_MUTEX_INITIALIZER;
 /** poll set when waiting for data */
 static struct pollfd fds;
 
@@ -47,10 +50,12 @@ void RC_INPUT_init()
 /** Close connection */
 static void closeUart()
 {
+	CLEANUP_PUSH_LOCK(&fdMutex);
 	if (fd != -1) {
 		close(fd);
 		fd = -1;
 	}
+	CLEANUP_POP();
 }
 
 /** Disconnect Radarcape input */
@@ -74,12 +79,14 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
-	if (fd < 0) {
+	int line = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	if (line < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
-		fd = -1;
 		return false;
 	}
+	pthread_mutex_lock(&fdMutex);
+	fd = line;
+	pthread_mutex_unlock(&fdMutex);
 
 	/* set uart options */
 	struct termios t;
@@ -144,7 +151,10 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
  */
 size_t RC_INPUT_write(uint8_t * buf, size_t bufLen)
 {
-	ssize_t rc = write(fd, buf, bufLen);
+	ssize_t rc;
+	CLEANUP_PUSH_LOCK(&fdMutex);
+	rc = write(fd, buf, bufLen);
+	CLEANUP_POP();
 	if (unlikely(rc <= 0))
 		return 0;
 	return rc;
-- 
2.43.0


From 2f475d898cf4fa88f2e944fbb56c7e978b0fbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 43/51] fix: disconnect the input if it is stopped while
 connecting

---
 src/core/recv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 8ac86f6..5518fc7 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -45,10 +45,10 @@ static void mainloop()
 
 	CLEANUP_PUSH(&cleanup, &frame);
 	while (true) {
-		INPUT_connect();
-
 		CLEANUP_PUSH(&cleanupInput, NULL);
 
+		INPUT_connect();
+
 		FILTER_reset(); /* upon reconnection of the input: reset filter state */
 
 		frame = BUF_newFrame();
-- 
2.43.0


From 1e7fc37a76fa4dfce3328e0084b93671578ebca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 44/51] fix: do not leave a zombie process for each program
 executed in the background

---
 src/util/proc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index d33f141..0cb95dd 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -7,6 +7,7 @@
 #include <unistd.h>
 #include <stdbool.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -112,8 +113,15 @@ static inline void escape_cgroup()
  */
 void PROC_forkAndExec(char * const argv[])
 {
-	if (!PROC_fork())
-		return; /* parent */
+	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return;
+	} else if (pid) {
+		/* parent: the child exits upon daemonization, don't leave a zombie */
+		while (waitpid(pid, NULL, 0) == -1 && errno == EINTR) {}
+		return;
+	}
 	/* daemonize and chdir to root */
 	if (daemon(0, 1) < 0) {
 		_Exit(EXIT_FAILURE);
-- 
2.43.0


From 86a1f34df0f14fc44380bbe777628d038f6e8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 45/51] fix: do not go on as a second instance of the daemon
 after an upgrade

---
 src/radarcape/tb-misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..7bfdf46 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,8 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+	/* child: don't go on as second instance of the daemon */
+	_Exit(EXIT_SUCCESS);
 }
 #endif
 
-- 
2.43.0


From c4b7501464a7355117aec0c663b711402f618fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 46/51] fix: watchdog: fail if the pins are not accessible
 instead of crashing

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From d98c4371fc0517cfbd0947375216942ce2712f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 47/51] fix: debian: config loops forever if an invalid answer
 cannot be asked for again

A non-interactive installation without a position never finished.
---
 debian/opensky-feeder-donated.config | 9 ++++++++-
 debian/opensky-feeder.config         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 8110340..1c24fbf 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -32,10 +32,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# don't loop forever if the remaining questions cannot be asked
+	last unless $asked || $first;
+
 	$first = 0;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index d12b890..2c4305e 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -33,10 +33,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# don't loop forever if the remaining questions cannot be asked
+	last unless $asked || $first;
+
 	$first = 0;
 }
 
-- 
2.43.0


From 39f2ffd3360290ef787cc7c210399a0d2c48e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 48/51] fix: debian: config accepts serial numbers which the
 feeder refuses

---
 debian/opensky-feeder-donated.config | 2 +-
 debian/opensky-feeder.config         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 1c24fbf..d967fb0 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -21,7 +21,7 @@ while (1) {
 		check(critical => 'longitude', (\&notempty, \&rational, &gen_range(-180, 180))),
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index 2c4305e..1acebea 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -22,7 +22,7 @@ while (1) {
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'dump1090branch'),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
-- 
2.43.0


From 6c9c2f4de498e41e9a48d4e832badcd3be1dc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 49/51] fix: debian: config accepts numbers with leading zeros

The feeder reads them as octal numbers, i.e. it used another serial number
or port than the one which was entered.
---
 debian/opensky-feeder-donated.config | 3 ++-
 debian/opensky-feeder.config         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index d967fb0..be6b42f 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -71,7 +71,8 @@ sub rational {
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	# with leading zeros, the daemon would read it as an octal number
+	return 0 unless $val=~/^[+-]?(0|[1-9]\d*)$/;
 	return 1;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index 1acebea..bf04835 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -72,7 +72,8 @@ sub rational {
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	# with leading zeros, the daemon would read it as an octal number
+	return 0 unless $val=~/^[+-]?(0|[1-9]\d*)$/;
 	return 1;
 }
 
-- 
2.43.0


From 6b98ce4433339cd5152fc91a6e421285ec0c38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 50/51] fix: configuration directories on file systems which do
 not tell the types of entries

All files were silently ignored there (DT_UNKNOWN).
---
 src/util/cfgfile.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e737d7b..5f19fb8 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -11,6 +11,7 @@
 #include <inttypes.h>
 #include <ctype.h>
 #include <dirent.h>
+#include <sys/stat.h>
 #include <string.h>
 #include <stdio.h>
 #include <errno.h>
@@ -160,7 +161,9 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
  */
 static int filterDirectory(const struct dirent * ent)
 {
-	if (ent->d_type != DT_REG && ent->d_type != DT_LNK)
+	/* note: not all file systems tell the type */
+	if (ent->d_type != DT_REG && ent->d_type != DT_LNK &&
+		ent->d_type != DT_UNKNOWN)
 		return 0;
 	char first = ent->d_name[0];
 	if (first < '0' || first > '9') /* does not begin with a number */
@@ -188,6 +191,17 @@ static int compareDirectory(const struct dirent ** a, const struct dirent ** b)
 	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;
 }
 
+/** Check if a directory entry without type is a file or symbolic link.
+ * @param filename path of the entry
+ * @return true if it is a file or symbolic link
+ */
+static bool isFile(const char * filename)
+{
+	struct stat st;
+	return !lstat(filename, &st) &&
+		(S_ISREG(st.st_mode) || S_ISLNK(st.st_mode));
+}
+
 /** Read all files in a directory.
  * @param path directory path
  * @param warnUnknownSection warn if section is unknown
@@ -241,6 +255,9 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		}
 		strncpy(foffset, fname, len);
 
+		if (namelist[n]->d_type == DT_UNKNOWN && !isFile(filename))
+			continue;
+
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
 			onErrorUseDefault)) {
-- 
2.43.0


From 5951b16c40ac3b2e4e6c2768c9816cdc5615fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:18 +0000
Subject: [PATCH 51/51] fix: do not wait for an invalid socket when there are
 no cancellation points

Without a connection select() never reported anything, so that sending
threads waited forever while they held the mutex.
---
 src/util/port/socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/port/socket.h b/src/util/port/socket.h
index 8bcbede..48d0a9d 100644
--- a/src/util/port/socket.h
+++ b/src/util/port/socket.h
@@ -121,7 +121,8 @@ static inline ssize_t SOCK_recvCancelable(sock_t sock, void * buf, size_t len,
 	int flags)
 {
 	fd_set fds;
-	while (true) {
+	/* there is nothing to wait for without a connection: the call fails */
+	while (sock != SOCK_INVALID) {
 		struct timeval ts = { .tv_sec = 5, .tv_usec = 0 };
 		FD_ZERO(&fds);
 		FD_SET(sock, &fds);
@@ -137,7 +138,8 @@ static inline ssize_t SOCK_sendCancelable(sock_t sock, const void * buf,
 	size_t len, int flags)
 {
 	fd_set fds;
-	while (true) {
+	/* there is nothing to wait for without a connection: the call fails */
+	while (sock != SOCK_INVALID) {
 		struct timeval ts = { .tv_sec = 5, .tv_usec = 0 };
 		FD_ZERO(&fds);
 		FD_SET(sock, &fds);
-- 
2.43.0


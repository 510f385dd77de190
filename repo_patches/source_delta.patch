From fbeab15b829d7f231a1749f4b8e715b3f6f00241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 01/31] fix: dynmbox: notify the reader before releasing the
 lock

A consumer could read a message before its notification byte was written;
the byte then stayed in the pipe and the read fd polled readable for ever
although the mailbox was empty.
---
 src/dynmbox.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..dcd0157 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -510,11 +510,14 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable. This has
+	 * to be done before the message can be read, otherwise the consumer
+	 * would not find the byte of the message it reads, and the byte would
+	 * remain in the pipe/socket once the mbox is empty */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -578,11 +581,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Signal consumers */
+	/* Signal consumers (before the message can be read) */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From 606694671c3d3b7cea2e977311bdd451380ea61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 02/31] fix: dynmbox: do not overflow the timeout of
 dynmbox_push_block

timeout_ms * 1000 was computed on 32 bits, so timeouts beyond 71 minutes
expired early.
---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dcd0157..8f8a813 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -560,7 +560,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				&ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From 0a4091933ae0a2cdb029e8270fff1e3d41048935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 03/31] fix: dynmbox: set close-on-exec on both ends of the
 pipe

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 8f8a813..938b421 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes non blocking and CLOEXEC flag */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From adf06267cebb6cf58e799cd247a62610c0f45505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 04/31] fix: mbox: make mbox_push_block honour its timeout and
 its blocking contract

An interrupted wait restarted with the full timeout, so regular signals
could postpone the timeout for ever; and a producer that lost the race for
free room got -EAGAIN instead of waiting further.
---
 src/mbox.c | 61 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..3cc7fa6 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -38,6 +38,7 @@
 #include <limits.h>
 #include "futils/fdutils.h"
 #include "futils/mbox.h"
+#include "futils/timetools.h"
 
 #define ULOG_TAG mbox
 #include <ulog.h>
@@ -119,36 +120,64 @@ int mbox_push(struct mbox *box, const void *msg)
 int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 {
 	int res;
-	int timeout;
+	int timeout = -1;
+	struct timespec now;
+	uint64_t now_us = 0;
+	uint64_t end_us = 0;
 
 	if (!msg || !box)
 		return -EINVAL;
 	/* poll() expects an int for timeout */
 	if (timeout_ms > INT_MAX)
 		return -EINVAL;
-	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
 
-	/* Block until we have at least PIPE_BUF bytes in the pipe */
-	do {
+	if (timeout_ms > 0) {
+		res = time_get_monotonic(&now);
+		if (res < 0)
+			return res;
+		time_timespec_to_us(&now, &now_us);
+		end_us = now_us + (uint64_t)timeout_ms * 1000;
+		timeout = (int)timeout_ms;
+	}
+
+	for (;;) {
 		struct pollfd pfd = {
 			.fd = box->fds[1],
 			.events = POLLOUT,
 			.revents = 0,
 		};
 
+		/* Block until we have at least PIPE_BUF bytes in the pipe */
 		res = poll(&pfd, 1, timeout);
-	} while (res == -1 && errno == EINTR);
-
-	if (res == 0)
-		return -ETIMEDOUT;
-	if (res == -1)
-		return -errno;
-	/* When poll indicates that the write will not block, it means that at
-	 * least PIPE_BUF bytes can be written without blocking, or that an
-	 * error occured on the file descriptor, in which case the write is
-	 * expected to fail.
-	 */
-	return mbox_push(box, msg);
+		if (res == 0)
+			return -ETIMEDOUT;
+		if (res == -1 && errno != EINTR)
+			return -errno;
+		if (res > 0) {
+			/* When poll indicates that the write will not block,
+			 * it means that at least PIPE_BUF bytes can be written
+			 * without blocking (unless another producer does it
+			 * first), or that an error occured on the file
+			 * descriptor, in which case the write is expected to
+			 * fail.
+			 */
+			res = mbox_push(box, msg);
+			if (res != -EAGAIN)
+				return res;
+		}
+
+		/* Interrupted, or another producer was faster: wait again for
+		 * the remaining time */
+		if (timeout_ms > 0) {
+			res = time_get_monotonic(&now);
+			if (res < 0)
+				return res;
+			time_timespec_to_us(&now, &now_us);
+			timeout = 0;
+			if (now_us < end_us)
+				timeout = (int)((end_us - now_us + 999) / 1000);
+		}
+	}
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0


From 9a1b2e3862118286e6830ba8065c2018c5e1a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 05/31] fix: safew: move the payload before its crc when
 recovering

A recovery interrupted between the two moves left the new payload as tmp next
to the new crc: the next check erased everything.
---
 src/safew.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..65df0b7 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -513,11 +513,13 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload and tmp crc, in the same order as a
+		 * commit: if interrupted in between, the next check has to
+		 * find payload and tmp crc */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -531,11 +533,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload and tmp crc (see above) */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 47f5df5f0b5b8092fc97343d9384797f300b1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 06/31] fix: safew: a truncated crc file does not condemn the
 other pair

A crash while crc.tmp was being written left it empty next to a valid previous
payload and crc; the check then erased both versions.
---
 src/safew.c | 52 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 65df0b7..5465d81 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -357,9 +357,6 @@ int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
 	struct futils_safew_crc crc_fp;
-	uint32_t crc, tmp_crc;
-	uint32_t payload_crc = 0;
-	uint32_t tmp_payload_crc = 0;
 	FILE *payload_fhd;
 	FILE *crc_fhd;
 	FILE *tmp_payload_fhd;
@@ -468,30 +465,23 @@ int futils_safew_file_check(const char *pathname)
 	case PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
-		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
-
-		crc_from_fhd(payload_fhd, &payload_crc);
+		ret = check_pair(payload_fhd, crc_fhd);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0)
 			break;
 
 		/* this could be stage 8, in that case payload should match
 		 * tmp crc */
-		ret = read_crc(tmp_crc_fhd, &crc);
-		if (ret < 0)
-			break;
-
-		if (crc == payload_crc) {
-			/* rename tmp crc */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+		rewind(payload_fhd);
+		ret = check_pair(payload_fhd, tmp_crc_fhd);
+		if (ret < 0) {
+			ULOGE("no matching crc found for %s", pathname);
 			break;
 		}
 
-		ULOGE("no matching crc found for %s", pathname);
-		ret = -1;
+		/* rename tmp crc */
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_CRC + TMP_PAYLOAD:
@@ -500,16 +490,11 @@ int futils_safew_file_check(const char *pathname)
 	case TMP_PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with payload_v1 disappeared:
 		 * in that case tmp_payload should match tmp_crc */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
-
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
 
 		/* if pair doesn't match erase all */
-		if (tmp_crc != tmp_payload_crc) {
+		if (ret < 0) {
 			ULOGE("no matching crc found for %s", pathname);
-			ret = -1;
 			break;
 		}
 
@@ -527,12 +512,8 @@ int futils_safew_file_check(const char *pathname)
 		 * both valid.
 		 * Check tmp pair first, if it fails test the other one
 		 */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
-
-		if (tmp_crc == tmp_payload_crc) {
+		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
+		if (ret == 0) {
 			/* rename tmp payload and tmp crc (see above) */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
@@ -542,16 +523,9 @@ int futils_safew_file_check(const char *pathname)
 		}
 
 		/* check the "old" pair (payload + crc) */
-		ret = read_crc(crc_fhd, &crc);
+		ret = check_pair(payload_fhd, crc_fhd);
 		if (ret < 0)
-			break;
-
-		crc_from_fhd(payload_fhd, &payload_crc);
-
-		if (crc != payload_crc) {
 			ULOGE("no matching crc found for %s", pathname);
-			ret = -1;
-		}
 		break;
 	}
 
-- 
2.43.0


From 8b1fa0b165b3f9e898a78195a7e8454585701e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 07/31] fix: safew: keep the previous crc file when a commit
 fails

A failing commit_with_crc removed the crc of the previous, untouched payload
(or, once the payload had been moved, the only crc of the new one): the next
check then erased the payload.
---
 src/safew.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 5465d81..4e8eb87 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -230,6 +230,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool moved = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -270,21 +271,26 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	/* Ensure the update is atomic, in order to prevent partial
 	 * write. With this rename, the file is either previous one,
 	 * either new one once completely written. */
-	if (ret == 0)
+	if (ret == 0) {
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
+		moved = (ret == 0);
+	}
 
 	if (ret == 0 && with_crc)
-		/* move tmp payload to payload */
+		/* move tmp crc to crc */
 		ret = rename(crc_fp.tmp_path, crc_fp.path);
 
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
-		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
-			unlink(crc_fp.tmp_path);
+		/* Only remove what would be useless: the crc still matches the
+		 * previous payload, and once the payload has been moved, the
+		 * tmp crc is the one to be recovered by the check */
+		if (!moved) {
+			unlink(safew_fp->tmp_path);
+			if (with_crc)
+				unlink(crc_fp.tmp_path);
 		}
 	}
 
-- 
2.43.0


From 1e2c8d4901cb38c7dafe22f5bc05477106558321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 08/31] fix: safew: do not take an I/O error for an invalid
 file

A file that could not be opened, read or renamed (EMFILE, EIO...) was taken for
a missing or corrupted one: the check erased valid files, and a commit recorded
the crc of a partly read payload.
---
 src/safew.c | 84 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 20 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 4e8eb87..bd93c3b 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -29,7 +29,9 @@
  *
  ******************************************************************************/
 
+#include <errno.h>
 #include <stdarg.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -47,7 +49,10 @@ ULOG_DECLARE_TAG(ULOG_TAG);
 #define TMP_PAYLOAD (1 << 2)
 #define TMP_CRC (1 << 3)
 
-static void crc_from_fhd(FILE *fhd, uint32_t *crc)
+/* files that could not be accessed, as opposed to files that do not match */
+#define IO_ERROR (-2)
+
+static int crc_from_fhd(FILE *fhd, uint32_t *crc)
 {
 	int val;
 
@@ -61,6 +66,8 @@ static void crc_from_fhd(FILE *fhd, uint32_t *crc)
 	*crc += *crc << 3;
 	*crc ^= *crc >> 11;
 	*crc += *crc << 15;
+
+	return ferror(fhd) ? IO_ERROR : 0;
 }
 
 static int crc_from_file(const char *pathname, uint32_t *crc)
@@ -73,12 +80,11 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 		return -1;
 	}
 
-	crc_from_fhd(fhd, crc);
+	ret = crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
-		return -1;
+	if (fclose(fhd) < 0)
+		ret = -1;
 
 	return ret;
 }
@@ -87,7 +93,7 @@ static int read_crc(FILE *fhd, uint32_t *crc)
 {
 	if (fread(crc, 1, sizeof(uint32_t), fhd) != sizeof(uint32_t)) {
 		ULOGE("can't read crc file");
-		return -1;
+		return ferror(fhd) ? IO_ERROR : -1;
 	}
 
 	return 0;
@@ -103,7 +109,9 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	if (ret < 0)
 		return ret;
 
-	crc_from_fhd(payload_fhd, &payload_crc);
+	ret = crc_from_fhd(payload_fhd, &payload_crc);
+	if (ret < 0)
+		return ret;
 
 	if (crc != payload_crc)
 		return -1;
@@ -111,6 +119,29 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	return 0;
 }
 
+/* open a file if it exists */
+static int open_existing(const char *pathname, FILE **fhd)
+{
+	*fhd = fopen(pathname, "r");
+	if (*fhd == NULL && errno != ENOENT) {
+		ULOGE("can't open file %s", pathname);
+		return IO_ERROR;
+	}
+
+	return 0;
+}
+
+/* put a recovered tmp file in place */
+static int recover(const char *tmp_path, const char *path)
+{
+	if (rename(tmp_path, path) < 0) {
+		ULOGE("can't rename %s", tmp_path);
+		return IO_ERROR;
+	}
+
+	return 0;
+}
+
 static int safew_create_crc_filenames(const char *pathname,
 				      struct futils_safew_crc *fp)
 {
@@ -367,6 +398,7 @@ int futils_safew_file_check(const char *pathname)
 	FILE *crc_fhd;
 	FILE *tmp_payload_fhd;
 	FILE *tmp_crc_fhd;
+	bool io_error;
 
 	int ret;
 
@@ -380,10 +412,14 @@ int futils_safew_file_check(const char *pathname)
 		return -1;
 
 	/* try to open all files */
-	payload_fhd = fopen(pathname, "r");
-	tmp_payload_fhd = fopen(fp.tmp_path, "r");
-	crc_fhd = fopen(crc_fp.path, "r");
-	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
+	io_error = open_existing(pathname, &payload_fhd) < 0;
+	io_error |= open_existing(fp.tmp_path, &tmp_payload_fhd) < 0;
+	io_error |= open_existing(crc_fp.path, &crc_fhd) < 0;
+	io_error |= open_existing(crc_fp.tmp_path, &tmp_crc_fhd) < 0;
+	if (io_error) {
+		ret = IO_ERROR;
+		goto close;
+	}
 
 	/* create an error code with existing files */
 	uint8_t present_files =
@@ -452,7 +488,7 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case TMP_PAYLOAD + TMP_CRC:
@@ -462,10 +498,10 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = recover(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + CRC + TMP_CRC:
@@ -474,7 +510,7 @@ int futils_safew_file_check(const char *pathname)
 		ret = check_pair(payload_fhd, crc_fhd);
 
 		/* if pair matches let's stop here */
-		if (ret == 0)
+		if (ret == 0 || ret == IO_ERROR)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -487,7 +523,7 @@ int futils_safew_file_check(const char *pathname)
 		}
 
 		/* rename tmp crc */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_CRC + TMP_PAYLOAD:
@@ -507,10 +543,10 @@ int futils_safew_file_check(const char *pathname)
 		/* rename tmp payload and tmp crc, in the same order as a
 		 * commit: if interrupted in between, the next check has to
 		 * find payload and tmp crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = recover(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -521,13 +557,16 @@ int futils_safew_file_check(const char *pathname)
 		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
 		if (ret == 0) {
 			/* rename tmp payload and tmp crc (see above) */
-			ret = rename(fp.tmp_path, pathname);
+			ret = recover(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = recover(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
+		if (ret == IO_ERROR)
+			break;
+
 		/* check the "old" pair (payload + crc) */
 		ret = check_pair(payload_fhd, crc_fhd);
 		if (ret < 0)
@@ -535,6 +574,7 @@ int futils_safew_file_check(const char *pathname)
 		break;
 	}
 
+close:
 	/* close files */
 	if (payload_fhd)
 		if (fclose(payload_fhd) < 0)
@@ -549,6 +589,10 @@ int futils_safew_file_check(const char *pathname)
 		if (fclose(tmp_crc_fhd) < 0)
 			ULOGE("error closing %s", crc_fp.tmp_path);
 
+	/* this may be temporary, do not erase anything */
+	if (ret == IO_ERROR)
+		return -1;
+
 	/* remove remaining tmp file */
 	unlink(fp.tmp_path);
 	unlink(crc_fp.tmp_path);
-- 
2.43.0


From 1ef09d2177eae25d4925643d09b0be763da9f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 09/31] fix: safew: synchronize recovered files before moving
 them

After a commit killed before it synchronized its tmp crc, the check moved the
files without synchronizing them: a power loss then lost both versions.
---
 src/safew.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index bd93c3b..db66b40 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -119,6 +119,22 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	return 0;
 }
 
+/* check a pair that still has to be put in place: the interrupted commit may
+ * not have synchronized its files, so do it before they replace other ones */
+static int check_tmp_pair(FILE *payload_fhd, FILE *crc_fhd)
+{
+	int ret = check_pair(payload_fhd, crc_fhd);
+
+#if !defined(_WIN32)
+# if !defined(THREADX_OS)
+	if (ret == 0 && (fsync(fileno(payload_fhd)) || fsync(fileno(crc_fhd))))
+		ret = IO_ERROR;
+# endif
+#endif
+
+	return ret;
+}
+
 /* open a file if it exists */
 static int open_existing(const char *pathname, FILE **fhd)
 {
@@ -483,7 +499,7 @@ int futils_safew_file_check(const char *pathname)
 
 	case PAYLOAD + TMP_CRC:
 		/* this looks like a stage 3 */
-		ret = check_pair(payload_fhd, tmp_crc_fhd);
+		ret = check_tmp_pair(payload_fhd, tmp_crc_fhd);
 		if (ret < 0)
 			break;
 
@@ -493,7 +509,7 @@ int futils_safew_file_check(const char *pathname)
 
 	case TMP_PAYLOAD + TMP_CRC:
 		/* this looks like a stage 2 */
-		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
+		ret = check_tmp_pair(tmp_payload_fhd, tmp_crc_fhd);
 		if (ret < 0)
 			break;
 
@@ -516,7 +532,7 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 8, in that case payload should match
 		 * tmp crc */
 		rewind(payload_fhd);
-		ret = check_pair(payload_fhd, tmp_crc_fhd);
+		ret = check_tmp_pair(payload_fhd, tmp_crc_fhd);
 		if (ret < 0) {
 			ULOGE("no matching crc found for %s", pathname);
 			break;
@@ -532,7 +548,7 @@ int futils_safew_file_check(const char *pathname)
 	case TMP_PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with payload_v1 disappeared:
 		 * in that case tmp_payload should match tmp_crc */
-		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
+		ret = check_tmp_pair(tmp_payload_fhd, tmp_crc_fhd);
 
 		/* if pair doesn't match erase all */
 		if (ret < 0) {
@@ -554,7 +570,7 @@ int futils_safew_file_check(const char *pathname)
 		 * both valid.
 		 * Check tmp pair first, if it fails test the other one
 		 */
-		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
+		ret = check_tmp_pair(tmp_payload_fhd, tmp_crc_fhd);
 		if (ret == 0) {
 			/* rename tmp payload and tmp crc (see above) */
 			ret = recover(fp.tmp_path, pathname);
-- 
2.43.0


From ff89cb3a1e749b73219d57a3fe38457f5c421843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 10/31] fix: varint: check the length and the range of what is
 read

---
 src/varint.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..71a54a4 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -44,12 +44,12 @@
  * @param src_len : Source length.
  * @param val[out] : Value read.
  * @param val_len[out] : Length in byte read from the source.
- * @param val_len_max : Maximum value length in byte read.
+ * @param val_bits : Size in bits of the value type.
  *
  * @return 0 in case of success, negative errno value in case of error.
  */
 static int futils_varint_read(const uint8_t *src, size_t src_len,
-		uint64_t *val, size_t *val_len, size_t val_len_max)
+		uint64_t *val, size_t *val_len, uint32_t val_bits)
 {
 	uint32_t shift = 0;
 	size_t offset = 0;
@@ -61,15 +61,19 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
+		/* Truncated, or longer than any value of the type */
+		if (offset >= src_len || shift >= val_bits)
+			return -EPROTO;
+		/* Bits that do not fit in the type */
+		if (shift + 7 > val_bits &&
+		    (src[offset] & 0x7f) >> (val_bits - shift))
+			return -EPROTO;
+
 		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
 		more = src[offset] & 0x80;
 
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
@@ -122,7 +126,7 @@ int futils_varint_read_u16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) * 8);
 
 	*val = (uint16_t)val64;
 	return res;
@@ -144,7 +148,7 @@ int futils_varint_read_i16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) * 8);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int16_t)(val64 >> 1)) ^ -((int16_t)(val64 & 0x1));
@@ -170,7 +174,7 @@ int futils_varint_read_u32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) * 8);
 
 	*val = (uint32_t)val64;
 	return res;
@@ -192,7 +196,7 @@ int futils_varint_read_i32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) * 8);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int32_t)(val64 >> 1)) ^ -((int32_t)(val64 & 0x1));
@@ -212,7 +216,7 @@ int futils_varint_read_u64(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len)
 {
 	return futils_varint_read(src, src_len,
-			val, val_len, sizeof(*val) + 2);
+			val, val_len, sizeof(*val) * 8);
 }
 
 int futils_varint_write_u64(uint8_t *dst, size_t dst_len,
@@ -231,7 +235,7 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 2);
+			&val64, val_len, sizeof(*val) * 8);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int64_t)(val64 >> 1)) ^ -((int64_t)(val64 & 0x1));
-- 
2.43.0


From 2c517b7e329ea614e31fb6a0a84daf57f000105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 11/31] fix: timetools: normalize the difference of timespecs
 with equal nanoseconds

---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 53296be488bdd5bff5bdce03dabc99885ab47c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 12/31] fix: timetools: report the difference of equal
 timespecs

---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From 6af9d103eeb92f964f667a270ac2306f5fea1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 13/31] fix: timetools: add any number of microseconds to a
 timespec exactly

---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..2b1bb42 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* delta * 1000 may not fit: add whole seconds separately */
+	ret = time_timespec_add_ns(ts, (delta % 1000000) * 1000, res);
+	if (ret < 0)
+		return ret;
+
+	res->tv_sec += delta / 1000000;
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 7c02057973bfddf1a28343951fa17e8d7755cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 14/31] fix: timetools: sleep for the whole duration in spite
 of signals

---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 2b1bb42..8594628 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -214,7 +214,10 @@ int time_msleep(uint32_t ms)
 	struct timespec ts;
 	ts.tv_sec = ms / 1000;
 	ts.tv_nsec = (ms % 1000) * 1000000L;
-	ret = nanosleep(&ts, NULL);
+	/* when interrupted by a signal, sleep for what remains */
+	do {
+		ret = nanosleep(&ts, &ts);
+	} while (ret < 0 && errno == EINTR);
 	if (ret < 0)
 		ret = -errno;
 	return ret;
-- 
2.43.0


From a0f7f751c6623975ef2de6b194c7fcefed3243a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 15/31] fix: systimetools: report an output buffer too small
 for the date

---
 src/systimetools.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..4f85d43 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -737,7 +737,7 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 {
 	time_t t;
 	struct tm tm;
-	int gmtoff_sign, gmtoff_hour, gmtoff_min;
+	int ret, gmtoff_sign, gmtoff_hour, gmtoff_min;
 	if (!s || !n)
 		return -EINVAL;
 
@@ -753,14 +753,14 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 
 	switch (fmt) {
 	case TIME_FMT_ISO8601_SHORT:
-		snprintf(s, n, "%04u%02u%02uT%02u%02u%02u%c%02u%02u",
+		ret = snprintf(s, n, "%04u%02u%02uT%02u%02u%02u%c%02u%02u",
 			tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday,
 			tm.tm_hour, tm.tm_min, tm.tm_sec,
 			gmtoff_sign < 0 ? '-' : '+',
 			gmtoff_hour, gmtoff_min);
 		break;
 	case TIME_FMT_ISO8601_LONG:
-		snprintf(s, n, "%04u-%02u-%02uT%02u:%02u:%02u%c%02u:%02u",
+		ret = snprintf(s, n, "%04u-%02u-%02uT%02u:%02u:%02u%c%02u:%02u",
 			tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday,
 			tm.tm_hour, tm.tm_min, tm.tm_sec,
 			gmtoff_sign < 0 ? '-' : '+',
@@ -773,12 +773,12 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 			 * issues with old software that will reject "UT"
 			 * in time_local_parse(); update to "UT" here once
 			 * we consider old software is no longer in use. */
-			snprintf(s, n, "%s, %u %s %u %02u:%02u:%02u GMT",
+			ret = snprintf(s, n, "%s, %u %s %u %02u:%02u:%02u GMT",
 				wday_str[tm.tm_wday], tm.tm_mday,
 				mon_str[tm.tm_mon], tm.tm_year + 1900,
 				tm.tm_hour, tm.tm_min, tm.tm_sec);
 		} else {
-			snprintf(s, n, "%s, %u %s %u %02u:%02u:%02u %c%02u%02u",
+			ret = snprintf(s, n, "%s, %u %s %u %02u:%02u:%02u %c%02u%02u",
 				wday_str[tm.tm_wday], tm.tm_mday,
 				mon_str[tm.tm_mon], tm.tm_year + 1900,
 				tm.tm_hour, tm.tm_min, tm.tm_sec,
@@ -790,6 +790,10 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 		return -EINVAL;
 	}
 
+	/* a truncated date is not a date */
+	if (ret < 0 || (size_t)ret >= n)
+		return -ENOBUFS;
+
 	return 0;
 }
 
-- 
2.43.0


From e15a8a5526961459d4abd7bc3bd3903593f74b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 16/31] fix: systimetools: accept only digits in the numbers of
 a date

---
 src/systimetools.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 4f85d43..eef3454 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -85,10 +85,19 @@ static const char *mon_str[12] = {
 
 static int parse_num(const char *s, int *num)
 {
-	char *end = NULL;
+	size_t i;
+
+	/* digits only: no space, no sign, not empty */
+	for (i = 0; s[i] != '\0'; i++) {
+		if (!isdigit((unsigned char)s[i]))
+			return -EINVAL;
+	}
+	if (i == 0)
+		return -EINVAL;
+
 	errno = 0;
-	*num = strtol(s, &end, 10);
-	return (end == NULL || *end != '\0') ? -EINVAL : -errno;
+	*num = strtol(s, NULL, 10);
+	return -errno;
 }
 
 static int parse_wday(const char *s, int *num)
-- 
2.43.0


From a16ab8b1849d8acedd35f0f714facb2dea81e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 17/31] fix: systimetools: refuse dates, hours and offsets out
 of range

---
 src/systimetools.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index eef3454..c8b7cc4 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -128,6 +128,21 @@ static int parse_mon(const char *s, int *num)
 	return ret;
 }
 
+static int check_date(int year, int mon, int mday)
+{
+	static const int days[12] = {
+		31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
+	};
+	bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+
+	if (mon < 1 || mon > 12 || mday < 1)
+		return -EINVAL;
+	if (mday > days[mon - 1] + ((mon == 2 && leap) ? 1 : 0))
+		return -EINVAL;
+
+	return 0;
+}
+
 /*
  * YYYY-MM-DD
  * YYYYMMDD
@@ -175,7 +190,7 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	if (ret < 0)
 		return ret;
 
-	return ret;
+	return check_date(*year, *mon, *mday);
 }
 
 /*
@@ -257,6 +272,9 @@ static int parse_date_rfc1123(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(mday_s, mday);
+	if (ret < 0)
+		return ret;
+	ret = check_date(*year, *mon, *mday);
 	if (ret < 0)
 		return ret;
 
@@ -327,6 +345,10 @@ static int parse_time(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 
+	/* 60 is a leap second */
+	if (*hour > 23 || *min > 59 || *sec > 60)
+		return -EINVAL;
+
 	/* Skip space if needed */
 	if (n > 0 && s[0] == ' ') {
 		s++;
@@ -393,6 +415,8 @@ static int parse_time(const char *s, size_t n,
 	ret = parse_num(gmtoff_min_s, &gmtoff_min);
 	if (ret < 0)
 		return ret;
+	if (gmtoff_hour > 23 || gmtoff_min > 59)
+		return -EINVAL;
 	*gmtoff = (gmtoff_hour * 60 + gmtoff_min) * 60 * gmtoff_sign;
 
 	return 0;
-- 
2.43.0


From 4dbc270ff77826f830d1d5209ccc191079d14fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 18/31] fix: systimetools: check the separators of RFC 1123
 dates

---
 src/systimetools.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index c8b7cc4..37fcb23 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -204,7 +204,7 @@ static int parse_date_rfc1123(const char *s, size_t n,
 	char year_s[5], mon_s[4], mday_s[3], wday_s[4];
 	bool inverted = false;
 
-	if (s[3] != ',')
+	if (s[3] != ',' || s[4] != ' ')
 		return -EINVAL;
 
 	wday_s[0] = s[offset++];
@@ -232,19 +232,22 @@ static int parse_date_rfc1123(const char *s, size_t n,
 			mday_s[1] = s[offset++];
 			mday_s[2] = '\0';
 		}
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 
 		mon_s[0] = s[offset++];
 		mon_s[1] = s[offset++];
 		mon_s[2] = s[offset++];
 		mon_s[3] = '\0';
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 	} else {
 		mon_s[0] = s[offset++];
 		mon_s[1] = s[offset++];
 		mon_s[2] = s[offset++];
 		mon_s[3] = '\0';
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 
 		mday_s[0] = s[offset++];
 		if (s[offset] == ' ') {
@@ -257,13 +260,16 @@ static int parse_date_rfc1123(const char *s, size_t n,
 			mday_s[1] = s[offset++];
 			mday_s[2] = '\0';
 		}
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 	}
 	year_s[0] = s[offset++];
 	year_s[1] = s[offset++];
 	year_s[2] = s[offset++];
 	year_s[3] = s[offset++];
 	year_s[4] = '\0';
+	if (s[offset] != ' ')
+		return -EINVAL;
 
 	ret = parse_num(year_s, year);
 	if (ret < 0)
-- 
2.43.0


From e5ecd27a1c582b66b1f1607e509d9820809e8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 19/31] fix: systimetools: compute the dates of january and
 february of year 0

---
 src/systimetools.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 37fcb23..f2028e0 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -571,7 +571,9 @@ int time_ctx_set_time(struct time_ctx *ctx, const char *str_time)
 static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 {
 	uint64_t time;
-	const uint64_t nb_day_1970 = 719499;
+	/* one gregorian cycle (400 years, 146097 days) is added so that the
+	 * shifted year never gets negative */
+	const uint64_t nb_day_1970 = 719499 + 146097;
 	const uint64_t cumulative_nb_day_per_month[] = {
 		0, 30, 61, 91, 122, 152, 183, 214, 244, 275, 305, 336, 367
 	};
@@ -579,7 +581,7 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 	if (!tm)
 		return 0;
 
-	uint32_t year = tm->tm_year + 1900;
+	uint32_t year = tm->tm_year + 1900 + 400;
 	uint32_t month = tm->tm_mon + 1; /* 1 -> 12 */
 	uint32_t day = tm->tm_mday;      /* 1 -> 31 */
 	uint32_t hour = tm->tm_hour;     /* 0 -> 23 */
@@ -597,7 +599,7 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 		year -= 1;
 	}
 
-	/* Add the number of leap days between year 0 and the given year,
+	/* Add the number of leap days between year -400 and the given year,
 	 * the formula comes from the gregorian calendar leap years rule */
 	time = year/4 - year/100 + year/400;
 
@@ -606,7 +608,7 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 	time += cumulative_nb_day_per_month[month];
 	time += day;
 
-	/* Shift origin from 0 to 1970 */
+	/* Shift origin from -400 to 1970 */
 	time -= nb_day_1970;
 
 	/* Handle hours / minutes / seconds */
-- 
2.43.0


From 48eb18495808410589a53f609fc2051173423287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 20/31] fix: random: use 6 fresh bits for each base64 character
 of the last group

Shifting by 3 made consecutive characters of an incomplete group share
three bits.
---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From 9dcccfb9434ce78097c13a715ae9476c3c015982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 21/31] fix: string: refuse UTF-8 sequences above U+10FFFF

---
 src/string.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/string.c b/src/string.c
index 404a6d8..f2082d5 100644
--- a/src/string.c
+++ b/src/string.c
@@ -40,10 +40,15 @@
 ULOG_DECLARE_TAG(ULOG_TAG);
 
 
+/* Last code point of unicode; some iconv implementations go further */
+#define LAST_CODE_POINT 0x10fffful
+
+
 static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 {
 	char *input, *output;
 	size_t inbytes, outbytes, outsize, sret;
+	int i;
 	wchar_t *woutput = NULL;
 	iconv_t conv;
 	int ret = 0;
@@ -79,6 +84,13 @@ static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 	/* ret is the number of wide characters written to output_ */
 	ret = (outsize - outbytes) / sizeof(wchar_t);
 
+	for (i = 0; i < ret; i++) {
+		if ((unsigned long)woutput[i] > LAST_CODE_POINT) {
+			ULOGD("not a unicode code point");
+			ret = -EILSEQ;
+			goto exit;
+		}
+	}
 
 exit:
 	iconv_close(conv);
-- 
2.43.0


From 452491d1d9bce36cc828f1915bf79c48fe393e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 22/31] fix: string: refuse a replacement character above
 U+10FFFF

---
 src/string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string.c b/src/string.c
index f2082d5..dfcb10f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -169,6 +169,10 @@ int futils_string_sanitize_utf8(const char *input,
 	for (i = 0; i < w_len; i++) {
 		if (wcschr(forbidden_chars, winput[i]) == NULL)
 			continue;
+		if ((unsigned long)replacement_char > LAST_CODE_POINT) {
+			ret = -EILSEQ;
+			goto exit;
+		}
 		winput[i] = replacement_char;
 	}
 
-- 
2.43.0


From 4f7346af0222fb80af6aa1dfedf7ff850ac7d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 23/31] fix: fs: report the failure to list a directory

---
 src/fs.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..c3819bf 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,18 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		errno = 0;
+		entry = readdir(dir);
+		if (!entry) {
+			if (errno != 0) {
+				ret = -errno;
+				ULOG_ERRNO("can't readdir '%s'", errno, path);
+				goto clean;
+			}
+			break;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
-- 
2.43.0


From 64dadf350e899d7a433a2e891bcbab488f6a051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 24/31] fix: fs: refuse entries whose path does not fit

---
 src/fs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index c3819bf..03459a2 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -84,7 +84,14 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		if (snprintf(filepath,
+			     FILENAME_MAX,
+			     "%s/%s",
+			     path,
+			     entry->d_name) >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From 90df32612d2887038c617e04a965d3b7f0389c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 25/31] fix: synctools: report the failure to synchronize the
 file

---
 src/synctools.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..b680388 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -88,14 +88,15 @@ int sync_folder(const char *folderpath)
 int sync_file_and_folder(const char *filepath)
 {
 	int ret;
+	int file_ret;
 	char *slash;
 	char *folderpath;
 
 	/* sync file */
-	ret = sync_file(filepath);
-	if (ret < 0)
-		ULOGW("sync_file(%s) failed : %d(%s)", filepath, ret,
-				strerror(-ret));
+	file_ret = sync_file(filepath);
+	if (file_ret < 0)
+		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
+				strerror(-file_ret));
 
 	/* determine parent folder */
 	folderpath = strdup(filepath);
@@ -118,6 +119,10 @@ int sync_file_and_folder(const char *filepath)
 		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret,
 				strerror(-ret));
 
+	/* the file matters first */
+	if (file_ret < 0)
+		ret = file_ret;
+
 out:
 	free(folderpath);
 	return ret;
-- 
2.43.0


From 76d60eb210c75a83314cac81e7ee6c0b4ecd320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 26/31] fix: list: let list_pop take any list expression

The list argument was used without parentheses in a comparison, so that an
expression like 'cond ? &a : &b' gave another result (or did not compile).
---
 include/futils/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/futils/list.h b/include/futils/list.h
index 6344b5a..333d108 100644
--- a/include/futils/list.h
+++ b/include/futils/list.h
@@ -272,7 +272,7 @@ list_length(const struct list_node *list)
 #define list_pop(list, type, member)                                           \
 	({                                                                     \
 		__typeof__(((type *)0)->member) * __pop_ptr = list_first(list);\
-		__pop_ptr == list ? NULL : ({                                  \
+		__pop_ptr == (list) ? NULL : ({                                \
 			list_del(__pop_ptr);                                   \
 			FUTILS_CONTAINER_OF(__pop_ptr, type, member);          \
 		});                                                            \
-- 
2.43.0


From c39e50ba206526f19d6b547de003f6134a482459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 27/31] fix: dynmbox: measure the timeout of dynmbox_push_block
 with the monotonic clock

The deadline was a system time: setting the system time while a push waited
made it give up early, or wait for as much longer as the time was set back.
---
 src/dynmbox.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 938b421..f2c0e88 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -55,6 +55,12 @@ ULOG_DECLARE_TAG(dynmbox);
 #include "futils/dynmbox.h"
 #include "futils/timetools.h"
 
+/* Where it is possible, timeouts are measured with a clock that is not moved
+ * when the system time is set */
+#if !defined(_WIN32) && !defined(__APPLE__)
+# define COND_MONOTONIC 1
+#endif
+
 #define ALLOCATED_LEN (DYNMBOX_MAX_SIZE + sizeof(uint32_t))
 
 struct dynmbox {
@@ -292,6 +298,7 @@ static void pop_notify(struct dynmbox *box)
 struct dynmbox *dynmbox_new(size_t max_msg_size)
 {
 	struct dynmbox *box;
+	pthread_condattr_t attr;
 	int ret;
 
 	/* Enforce message size limit */
@@ -320,7 +327,12 @@ struct dynmbox *dynmbox_new(size_t max_msg_size)
 
 	/* mutex + cond */
 	pthread_mutex_init(&box->lock, NULL);
-	pthread_cond_init(&box->cond, NULL);
+	pthread_condattr_init(&attr);
+#ifdef COND_MONOTONIC
+	pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+	pthread_cond_init(&box->cond, &attr);
+	pthread_condattr_destroy(&attr);
 
 	box->max_msg_size = max_msg_size;
 	return box;
@@ -546,7 +558,9 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		size_t msg_size, unsigned int timeout_ms)
 {
 	int res;
+#ifndef COND_MONOTONIC
 	struct timeval tv_now;
+#endif
 	struct timespec ts_now;
 	struct timespec ts_abs;
 
@@ -554,6 +568,13 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		return -EINVAL;
 
 	if (timeout_ms > 0) {
+#ifdef COND_MONOTONIC
+		res = time_get_monotonic(&ts_now);
+		if (res < 0) {
+			ULOG_ERRNO("time_get_monotonic()", -res);
+			return res;
+		}
+#else
 		res = gettimeofday(&tv_now, NULL);
 		if (res) {
 			res = -errno;
@@ -561,6 +582,7 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
+#endif
 		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
 				&ts_abs);
 	}
-- 
2.43.0


From f9b7620e51eafcec74e075f03296f7019b858824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:47 +0000
Subject: [PATCH 28/31] fix: time_local_ms_get: take the UTC offset at the
 returned instant

The clock was read a second time for the offset: when a change of the
zone's offset (daylight saving) fell between the two readings, the
returned seconds came with the offset of another instant.
---
 src/systimetools.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index f2028e0..f0c85db 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -719,9 +719,8 @@ int time_local_ms_get(uint64_t *epoch_sec, uint16_t *ms,
 	GetTimeZoneInformation(&tzi);
 	*utc_offset_sec = tzi.Bias * 60;
 #else
-	time_t dt;
+	time_t dt = tv.tv_sec;
 	struct tm tm;
-	time(&dt);
 	localtime_r(&dt, &tm);
 	*utc_offset_sec = tm.tm_gmtoff;
 #endif
-- 
2.43.0


From 9b49acb79b4272924888570f17ae99bd44edb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:57 +0000
Subject: [PATCH 29/31] fix: dynmbox: keep the read descriptor readable when
 the pipe was too small for all notifications

---
 src/dynmbox.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index f2c0e88..efd83b7 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -72,6 +72,8 @@ struct dynmbox {
 #else
 	/* pipes fds */
 	int fds[2];
+	/* notifications that could not be written as the pipe was full */
+	size_t missed;
 #endif
 	/* message size */
 	size_t max_msg_size;
@@ -281,8 +283,10 @@ static void push_notify(struct dynmbox *box)
 	const uint8_t dummy = 0x55;
 	ssize_t done;
 	done = write(box->fds[1], &dummy, sizeof(dummy));
-	if (done == -1)
+	if (done == -1) {
 		ULOG_ERRNO("write() to pipe", errno);
+		box->missed++;
+	}
 }
 
 static void pop_notify(struct dynmbox *box)
@@ -292,6 +296,14 @@ static void pop_notify(struct dynmbox *box)
 	done = read(box->fds[0], &val, sizeof(val));
 	if (done == -1)
 		ULOG_ERRNO("read() from pipe", errno);
+
+	/* The pipe may be smaller than what the messages require (the system
+	 * limits the memory of all pipes of an user): write what is missing as
+	 * soon as there is room, to remain readable until the mbox is empty */
+	if (box->missed > 0) {
+		box->missed--;
+		push_notify(box);
+	}
 }
 #endif
 
-- 
2.43.0


From b15a16fcd28657ed33a78c8f2e28eab5555702ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 30/31] fix: safew: let a session that wrote items without
 bytes be committed

fwrite() returns 0 when the size of the items is 0, which was taken for a
failed write: a session that wrote an empty block as one item could not be
committed.
---
 src/safew.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/safew.c b/src/safew.c
index db66b40..d898b60 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -400,7 +400,8 @@ size_t futils_safew_fwrite(const void *ptr, size_t size, size_t nmemb,
 	size_t ret;
 
 	ret = fwrite(ptr, size, nmemb, safew_fp->fp);
-	if (ret != nmemb)
+	/* nothing is transferred, nor lost, when items have no size */
+	if (ret != nmemb && size > 0)
 		safew_fp->failure = 1;
 
 	return ret;
-- 
2.43.0


From fa67f78df1419aa71f8ad75cd4257654fae34eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 31/31] fix: futils.h: make TYPEOF_STRUCT_MEMBER usable in the
 standard language modes

---
 include/futils/futils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/futils/futils.h b/include/futils/futils.h
index d1c06c9..420f3ea 100644
--- a/include/futils/futils.h
+++ b/include/futils/futils.h
@@ -81,7 +81,7 @@
  * macro used to get the type of a struct member
  */
 #ifndef TYPEOF_STRUCT_MEMBER
-#define TYPEOF_STRUCT_MEMBER(s, m) typeof(((s *)0)->m)
+#define TYPEOF_STRUCT_MEMBER(s, m) __typeof__(((s *)0)->m)
 #endif
 
 /**
-- 
2.43.0


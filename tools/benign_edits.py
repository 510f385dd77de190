R = []
def b(id, checks, edits): R.append((id, checks.split(), edits))

b("dynmbox-notify-transitions", "D01 D02 D03 F03 P01", [("src/dynmbox.c", """	/* Write one byte into pipe/socket to signal mbox is readable. This has
	 * to be done before the message can be read, otherwise the consumer
	 * would not find the byte of the message it reads, and the byte would
	 * remain in the pipe/socket once the mbox is empty */
	push_notify(box);
""", """	/* one byte is enough as long as something waits */
	if (was_empty)
		push_notify(box);
"""), ("src/dynmbox.c", """	/* Lock */
	pthread_mutex_lock(&box->lock);

	/* Write message to ring buffer */
""", """	/* Lock */
	pthread_mutex_lock(&box->lock);
	was_empty = rbuf_is_empty(box);

	/* Write message to ring buffer */
"""), ("src/dynmbox.c", """			 size_t msg_size)
{
	int res;
""", """			 size_t msg_size)
{
	int res;
	bool was_empty;
"""), ("src/dynmbox.c", """	/* Signal consumers (before the message can be read) */
	push_notify(box);
""", """	/* Signal consumers (before the message can be read) */
	if (box->used == msg_size + sizeof(uint32_t))
		push_notify(box);
"""), ("src/dynmbox.c", """	/* Read one byte from pipe/socket, ignoring failure */
	pop_notify(box);

	/* Read message from ring buffer */
	msglen = do_peek(box, msg);
	if (msglen < 0)
		goto fail;
""", """	/* Read message from ring buffer */
	msglen = do_peek(box, msg);
	if (msglen < 0)
		goto fail;

	/* the last one: nothing to signal any more */
	if (rbuf_is_empty(box))
		pop_notify(box);
""")])

b("dynmbox-signal-after-unlock", "D01 D02 D03 P01", [("src/dynmbox.c", """	/* Signal condition */
	pthread_cond_signal(&box->cond);

	/* Unlock */
	pthread_mutex_unlock(&box->lock);
""", """	/* Unlock, then signal condition */
	pthread_mutex_unlock(&box->lock);
	pthread_cond_signal(&box->cond);
""")])

b("dynmbox-pipe2", "D01 D02 D03 F03 P01", [("src/dynmbox.c", """	ret = pipe(box->fds);
	if (ret < 0)
		return -errno;

	/* set pipes non blocking and CLOEXEC flag */
	for (i = 0; i < 2; i++) {
		fd_add_flags(box->fds[i], O_NONBLOCK);
		fd_set_close_on_exec(box->fds[i]);
	}
	return 0;""", """	(void)i;
	ret = pipe2(box->fds, O_NONBLOCK | O_CLOEXEC);
	return ret < 0 ? -errno : 0;""")])

b("mbox-pipe2-poll-helper", "M01 M02 F03 P01", [("src/mbox.c", """	ret = pipe(box->fds);
	if (ret < 0) {
		free(box);
		return NULL;
	}

	/* set pipes non blocking and CLOEXEC flag */
	for (i = 0; i < 2; i++) {
		fd_add_flags(box->fds[i], O_NONBLOCK);
		fd_set_close_on_exec(box->fds[i]);
	}
""", """	(void)i;
	ret = pipe2(box->fds, O_CLOEXEC | O_NONBLOCK);
	if (ret < 0) {
		free(box);
		return NULL;
	}
"""), ("src/mbox.c", """int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
{
	int res;
	int timeout = -1;
""", """static int wait_writable(struct mbox *box, int timeout)
{
	struct pollfd pfd;

	memset(&pfd, 0, sizeof(pfd));
	pfd.fd = box->fds[1];
	pfd.events = POLLOUT;
	return poll(&pfd, 1, timeout);
}

int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
{
	int res;
	int timeout = -1;
"""), ("src/mbox.c", """		struct pollfd pfd = {
			.fd = box->fds[1],
			.events = POLLOUT,
			.revents = 0,
		};

		/* Block until we have at least PIPE_BUF bytes in the pipe */
		res = poll(&pfd, 1, timeout);
""", """		/* Block until we have at least PIPE_BUF bytes in the pipe */
		res = wait_writable(box, timeout);
""")])

b("mbox-try-first", "M01 M02 P01", [("src/mbox.c", """	for (;;) {
		struct pollfd pfd = {""", """	/* most often there is room */
	res = mbox_push(box, msg);
	if (res != -EAGAIN)
		return res;

	for (;;) {
		struct pollfd pfd = {""")])

b("mbox-ppoll", "M01 M02", [("src/mbox.c", "		res = poll(&pfd, 1, timeout);\n", """		struct timespec left = { timeout / 1000,
					 (timeout % 1000) * 1000000L };
		res = ppoll(&pfd, 1, timeout < 0 ? NULL : &left, NULL);
""")])

b("safew-fd", "S01 S02 S03 S04 F03 P01", [("src/safew.c", """	safew_fp->fp = fopen(safew_fp->tmp_path, "w");
	if (safew_fp->fp == NULL) {
		free(safew_fp);
		return NULL;
	}
""", """	int fd = open(safew_fp->tmp_path,
		      O_CREAT | O_TRUNC | O_WRONLY,
		      0666);
	if (fd < 0) {
		free(safew_fp);
		return NULL;
	}
	safew_fp->fp = fdopen(fd, "w");
	if (safew_fp->fp == NULL) {
		close(fd);
		free(safew_fp);
		return NULL;
	}
"""), ("src/safew.c", "#include <unistd.h>\n", "#include <unistd.h>\n#include <fcntl.h>\n")])

b("safew-bulk-crc", "S01 S02 S03 S04 P01", [("src/safew.c", """	int val;

	*crc = 0;
	for (val = getc(fhd); val != EOF; val = getc(fhd)) {
		*crc += val;
		*crc += *crc << 10;
		*crc ^= *crc >> 6;
	}

	*crc += *crc << 3;
	*crc ^= *crc >> 11;
	*crc += *crc << 15;
""", """	uint8_t block[256];
	uint32_t h = 0;
	size_t n, i;

	while ((n = fread(block, 1, sizeof(block), fhd)) > 0) {
		for (i = 0; i < n; i++) {
			h += block[i];
			h += h << 10;
			h ^= h >> 6;
		}
	}

	h += h << 3;
	h ^= h >> 11;
	h += h << 15;
	*crc = h;
""")])

b("safew-open-crc-first", "S03 S04", [("src/safew.c", """	io_error = open_existing(pathname, &payload_fhd) < 0;
	io_error |= open_existing(fp.tmp_path, &tmp_payload_fhd) < 0;
	io_error |= open_existing(crc_fp.path, &crc_fhd) < 0;
	io_error |= open_existing(crc_fp.tmp_path, &tmp_crc_fhd) < 0;
""", """	io_error = open_existing(crc_fp.tmp_path, &tmp_crc_fhd) < 0;
	io_error |= open_existing(crc_fp.path, &crc_fhd) < 0;
	io_error |= open_existing(fp.tmp_path, &tmp_payload_fhd) < 0;
	io_error |= open_existing(pathname, &payload_fhd) < 0;
""")])

b("safew-extra-fsync-dir", "S01 S02 S03", [("src/safew.c", """	if (ret == 0 && with_crc)
		/* move tmp crc to crc */
		ret = rename(crc_fp.tmp_path, crc_fp.path);
""", """	if (moved) {
		/* make the move durable too, as far as possible */
		char *slash = strrchr(safew_fp->path, '/');
		char dir[sizeof(safew_fp->path)] = ".";
		int fd;
		if (slash) {
			memcpy(dir, safew_fp->path,
			       slash - safew_fp->path + 1);
			dir[slash - safew_fp->path + 1] = '\\0';
		}
		fd = open(dir, O_RDONLY | O_DIRECTORY);
		if (fd >= 0) {
			(void)fsync(fd);
			close(fd);
		}
	}

	if (ret == 0 && with_crc)
		/* move tmp crc to crc */
		ret = rename(crc_fp.tmp_path, crc_fp.path);
"""), ("src/safew.c", "#include <unistd.h>\n", "#include <unistd.h>\n#include <fcntl.h>\n#include <string.h>\n")])

b("hash-tail-chain", "H01 H02 P01", [("src/hash.c", """	/* insert at list head */
	new_entry->next = hash->buckets[hash_val];
	hash->buckets[hash_val] = new_entry;
""", """	/* insert at chain end */
	struct hash_entry **tail = &hash->buckets[hash_val];
	while (*tail)
		tail = &(*tail)->next;
	new_entry->next = NULL;
	*tail = new_entry;
"""), ("src/hash.c", """	hash_val = hash_32(key);
	hash_val = hash_val % hash->size;

	entry = hash->buckets[hash_val];
""", """	hash_val = key * 2654435761u;
	hash_val = hash_val % hash->size;

	entry = hash->buckets[hash_val];
"""), ("src/hash.c", """	hash = hash_32(key);
	hash = hash % tab->size;
	entry = tab->buckets[hash];

	/* compare keys to find correct entry */
	while (entry && entry->key != key)
		entry = entry->next;
""", """	hash = key * 2654435761u;
	hash = hash % tab->size;
	for (entry = tab->buckets[hash]; entry; entry = entry->next)
		if (entry->key == key)
			break;
"""), ("src/hash.c", """	hash = hash_32(key);
	hash = hash % tab->size;
	entry = tab->buckets[hash];

	/* compare keys to find correct entry */
	prev = NULL;
""", """	(void)hash_32;
	hash = key * 2654435761u;
	hash = hash % tab->size;
	entry = tab->buckets[hash];

	/* compare keys to find correct entry */
	prev = NULL;
""")])

b("hash-removeall-list", "H01 H02", [("src/hash.c", """	for (i = 0; i < hash->size; i++) {
		entry = hash->buckets[i];
		while (entry) {
			next = entry->next;
			list_del(&entry->node);
			if (hash->hfree)
				hash->hfree(entry->data);
			free(entry);
			entry = next;
		}
		hash->buckets[i] = NULL;
	}
""", """	(void)next;
	for (i = 0; i < hash->size; i++)
		hash->buckets[i] = NULL;
	while (!list_is_empty(&hash->entries)) {
		entry = list_entry(list_first(&hash->entries),
				   struct hash_entry, node);
		list_del(&entry->node);
		if (hash->hfree)
			hash->hfree(entry->data);
		free(entry);
	}
""")])

b("random-getentropy-order", "R01 R02 R03 R05 R06 R07 R08", [("src/random.c", """	/* append more bytes in the pool if
	   there's not enough byte remaining */
	pool_reload_if_needed(pool, len);

	/* extract random bytes from the random pool */
	ptr = pool_buffer_get(pool, len);

	memcpy(buffer, ptr, len);

	pool_buffer_consume(pool, ptr, len);
""", """	uint8_t *out = buffer;

	/* first what is there, then what a reload gives */
	while (len) {
		size_t n;

		pool_reload_if_needed(pool, 1);
		n = pool->available < len ? pool->available : len;
		ptr = pool_buffer_get(pool, n);
		memcpy(out, ptr, n);
		pool_buffer_consume(pool, ptr, n);
		out += n;
		len -= n;
	}
""")])

b("random-small-pool", "R01 R03 R04 R06 R07 R08", [("src/random.c", "	uint8_t buffer[512];\n", "	uint8_t buffer[256];\n")])

b("random-word-max", "R01 R02 R03 R06", [("src/random.c", """	mask = p2minus1(maximum);
	count = (ilog2plus1(mask) + 7) / 8;

	switch (count) {
	case 0:
		return 0;
	case 1:
		return _pool_rand8_maximum(pool, maximum, mask);
	case 2:
		return _pool_rand16_maximum(pool, maximum, mask);
	case 3:
		return _pool_rand24_maximum(pool, maximum, mask);
	case 4:
		return _pool_rand32_maximum(pool, maximum, mask);
	case 5:
""", """	mask = p2minus1(maximum);
	count = (ilog2plus1(mask) + 7) / 8;

	switch (count) {
	case 0:
		return 0;
	case 1:
	case 2:
	case 3:
	case 4:
		return _pool_rand32_maximum(pool, maximum, mask);
	case 5:
""")])

b("random-devurandom-only", "R01 R04 R06 R07 R08", [("src/random.c", """		if (rd == 0) {
			ULOGW("no bytes returned by getrandom(), ignoring");
			break;
		}

		p += (size_t)rd;
		len -= (size_t)rd;
	}

	if (len == 0)
		return 0;
#endif
""", """		if (rd == 0) {
			ULOGW("no bytes returned by getrandom(), ignoring");
			break;
		}

		p += (size_t)rd;
		len -= (size_t)rd;
	}

	if (!len)
		return 0;
	/* a key is one read */
	p = buffer + 0;
#endif
""")]) if 0 else None

b("random-base16-nibbles", "R02 P01", [("src/random.c", """	while (ps >= 16) {
		uint64_t v;
		size_t i;

		v = pool_rand64(pool);

		for (i = 0; i < 16; i++) {
			*p = alphabet[v & 15];
			v >>= 4;
			p++;
			ps--;
		}
	}

	if (ps) {
		uint64_t v;
		size_t i;

		v = pool_rand64(pool);

		for (i = 0; i < ps; i++) {
			*p = alphabet[v & 15];
			v >>= 4;
			p++;
		}
		ps = 0;
	}
""", """	while (ps) {
		uint8_t v = pool_rand8(pool);

		*p++ = alphabet[v & 15];
		ps--;
		if (ps) {
			*p++ = alphabet[v >> 4];
			ps--;
		}
	}
""")])

b("varint-loops", "V01 V02", [("src/varint.c", """	do {
		byte = val & 0x7f;
		val >>= 7;
		more = (val != 0);
		if (more)
			byte |= 0x80;
		dst[off++] = byte;
	} while (more);
""", """	(void)byte;
	(void)more;
	while (val > 0x7f) {
		dst[off++] = (uint8_t)(0x80 | (val & 0x7f));
		val >>= 7;
	}
	dst[off++] = (uint8_t)val;
"""), ("src/varint.c", """	do {
		/* Truncated, or longer than any value of the type */
		if (offset >= src_len || shift >= val_bits)
			return -EPROTO;
		/* Bits that do not fit in the type */
		if (shift + 7 > val_bits &&
		    (src[offset] & 0x7f) >> (val_bits - shift))
			return -EPROTO;

		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
		more = src[offset] & 0x80;

		offset++;
		shift += 7;
	} while (more);
""", """	uint64_t v = 0;
	(void)more;
	for (;;) {
		uint8_t byte;

		if (shift >= val_bits || offset == src_len)
			return -EPROTO;
		byte = src[offset++];
		if (val_bits - shift < 7 &&
		    ((byte & 0x7f) >> (val_bits - shift)) != 0)
			return -EPROTO;
		v += (uint64_t)(byte & 0x7f) << shift;
		shift += 7;
		if (!(byte & 0x80))
			break;
	}
	*val = v;
""")])

b("string-one-pass", "U01 U02 P01", [("src/string.c", """	conv = iconv_open("WCHAR_T", "UTF-8");
	if (conv == (iconv_t)-1) {
		ULOGD("iconv(WCHAR_T, UTF-8) is not available : %s(%d)",
		      strerror(errno),
		      errno);
		return -ENOSYS;
	}

	woutput = calloc(in_len + 1, sizeof(wchar_t));
	if (!woutput) {
		ret = -ENOMEM;
		goto exit;
	}
""", """	woutput = calloc(in_len + 1, sizeof(wchar_t));
	if (!woutput)
		return -ENOMEM;

	conv = iconv_open("WCHAR_T", "UTF-8");
	if (conv == (iconv_t)-1) {
		ULOGD("iconv(WCHAR_T, UTF-8) is not available : %s(%d)",
		      strerror(errno),
		      errno);
		free(woutput);
		return -ENOSYS;
	}
""")])

b("string-errno-order", "U01", [("src/string.c", """	/* Check for max_bytes */
	in_len = strlen(input);
	if (max_bytes > 0 && in_len >= max_bytes) {
		ret = -E2BIG;
		goto exit;
	}

	/* Convert to wchar_t */
	ret = to_wchar_string(input, in_len, &winput);
	if (ret < 0)
		goto exit;
	w_len = ret;
	ret = 0;
""", """	in_len = strlen(input);

	/* Convert to wchar_t */
	ret = to_wchar_string(input, in_len, &winput);

	/* Check for max_bytes */
	if (max_bytes > 0 && in_len >= max_bytes)
		ret = -E2BIG;
	if (ret < 0)
		goto exit;
	w_len = ret;
	ret = 0;
""")])

b("fs-fstatat", "F01 F03 P01", [("src/fs.c", "		if (lstat(filepath, &stats) < 0) {", "		if (fstatat(dirfd(dir),\n			    entry->d_name,\n			    &stats,\n			    AT_SYMLINK_NOFOLLOW) < 0) {"),
  ("src/fs.c", "#include <unistd.h>\n", "#include <unistd.h>\n#include <fcntl.h>\n")])

b("fs-dtype", "F01 P01", [("src/fs.c", """		/* skip "." and ".." */""", """		/* neither a file nor a directory: nothing to add */
		if (entry->d_type == DT_LNK || entry->d_type == DT_FIFO ||
		    entry->d_type == DT_SOCK)
			continue;

		/* skip "." and ".." */""")])

b("sync-openat", "F02 F03 P01", [("src/synctools.c", """	ret = fsync(fd);
	if (ret == -1) {
		ret = -errno;
		ULOGE("fsync(%s) failed : %d(%m)", path, -ret);
	}

	close(fd);

	return ret;
""", """	ret = fsync(fd) == -1 ? -errno : 0;
	(void)close(fd);
	if (ret < 0)
		ULOGE("fsync(%s) failed : %d(%m)", path, -ret);

	return ret;
"""), ("src/synctools.c", "	fd = open(path, O_RDONLY | oflags);", "	fd = open(path, O_RDONLY | O_CLOEXEC | oflags);")])

b("sync-folder-first-alloc", "F02 P01", [("src/synctools.c", """	/* sync file */
	file_ret = sync_file(filepath);
	if (file_ret < 0)
		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
				strerror(-file_ret));

	/* determine parent folder */
	folderpath = strdup(filepath);
	if (!folderpath) {
		ULOGE("Could not duplicate path");
		return -ENOMEM;
	}
""", """	/* determine parent folder */
	folderpath = strdup(filepath);
	if (!folderpath) {
		ULOGE("Could not duplicate path");
		return -ENOMEM;
	}

	/* sync file */
	file_ret = sync_file(filepath);
	if (file_ret < 0)
		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
				strerror(-file_ret));
""")])

b("inotify-init1-heap", "I01 F03 P01", [("src/inotify.c", "	fd = inotify_init();", "	fd = inotify_init1(IN_CLOEXEC);"),
  ("src/inotify.c", "	(void)fd_set_close_on_exec(fd);\n", ""),
  ("src/inotify.c", """	/* if there is too much data to read, fallback on heap */
	evbuf = (count > (int)sizeof(buf)) ? malloc(count) : buf;
	if (evbuf == NULL)
		return;
""", """	evbuf = malloc(count);
	if (evbuf == NULL)
		return;
""")])

b("fdutils-ioctl", "F03 M01 I01", [("src/fdutils.c", """	old = fcntl(fd, F_GETFD, 0);
	if (old < 0)
		return -errno;

	ret = fcntl(fd, F_SETFD, FD_CLOEXEC | old);
	if (ret < 0)
		return -errno;

	return 0;
""", """	(void)old;
	ret = ioctl(fd, FIOCLEX);
	return ret < 0 ? -errno : 0;
"""), ("src/fdutils.c", "#include <fcntl.h>\n", "#include <fcntl.h>\n#include <sys/ioctl.h>\n")])

b("fdutils-skip-set", "F03", [("src/fdutils.c", """	ret = fcntl(fd, F_SETFL, old | flags);
""", """	/* nothing to add */
	if ((old & flags) == flags)
		return 0;

	ret = fcntl(fd, F_SETFL, old | flags);
""")])

b("time-diff-cmp", "T01 T02 T03 P01", [("src/timetools.c", """	if ((end->tv_sec < start->tv_sec) ||
	   ((end->tv_sec == start->tv_sec) && (end->tv_nsec < start->tv_nsec)))
		return -EINVAL;

	/* diff = end - start */
	if (end->tv_nsec >= start->tv_nsec) {
		diff->tv_sec = end->tv_sec - start->tv_sec;
		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
	} else {
		diff->tv_sec = end->tv_sec - start->tv_sec - 1;
		diff->tv_nsec = 1000000000UL + end->tv_nsec - start->tv_nsec;
	}

	return 0;
""", """	struct timespec d;

	if (time_timespec_cmp(start, end) > 0)
		return -EINVAL;

	/* diff = end - start */
	d.tv_sec = end->tv_sec - start->tv_sec;
	d.tv_nsec = end->tv_nsec - start->tv_nsec;
	if (d.tv_nsec < 0) {
		d.tv_sec--;
		d.tv_nsec += 1000000000L;
	}
	*diff = d;

	return 0;
""")])

b("time-msleep-clock", "T03", [("src/timetools.c", """	do {
		ret = nanosleep(&ts, &ts);
	} while (ret < 0 && errno == EINTR);
	if (ret < 0)
		ret = -errno;
	return ret;
""", """	do {
		ret = clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, &ts);
	} while (ret == EINTR);
	return -ret;
""")])

b("systime-timegm", "T04 T05 T06 T07 P01", [("src/systimetools.c", "	uint64_t time;\n	/* one gregorian cycle", "	struct tm copy;\n	uint64_t time;\n\n	if (!tm)\n		return 0;\n	memset(&copy, 0, sizeof(copy));\n	copy.tm_year = tm->tm_year;\n	copy.tm_mon = tm->tm_mon;\n	copy.tm_mday = tm->tm_mday;\n	copy.tm_hour = tm->tm_hour;\n	copy.tm_min = tm->tm_min;\n	copy.tm_sec = tm->tm_sec;\n	return (uint64_t)timegm(&copy) - (int64_t)gmtoff;\n	/* one gregorian cycle")])

b("systime-copy-fields", "T04 T05 T06 P01", [("src/systimetools.c", """	if (n == 10 && s[4] == '-' && s[7] == '-') {
		year_s[0] = s[0];
		year_s[1] = s[1];
		year_s[2] = s[2];
		year_s[3] = s[3];
		year_s[4] = '\\0';
		mon_s[0] = s[5];
		mon_s[1] = s[6];
		mon_s[2] = '\\0';
		mday_s[0] = s[8];
		mday_s[1] = s[9];
		mday_s[2] = '\\0';
	} else if""", """	memset(year_s, 0, sizeof(year_s));
	memset(mon_s, 0, sizeof(mon_s));
	memset(mday_s, 0, sizeof(mday_s));
	if (n == 10 && s[4] == '-' && s[7] == '-') {
		memcpy(year_s, s, 4);
		memcpy(mon_s, s + 5, 2);
		memcpy(mday_s, s + 8, 2);
	} else if""")])

b("systime-clock-gettime", "T07 P01", [("src/systimetools.c", """	ret = gettimeofday(&tv, NULL);
	if (ret < 0)
		return -errno;

	if (epoch_sec)""", """	struct timespec ts;

	ret = clock_gettime(CLOCK_REALTIME, &ts);
	if (ret < 0)
		return -errno;
	tv.tv_sec = ts.tv_sec;
	tv.tv_usec = ts.tv_nsec / 1000;

	if (epoch_sec)""")])

b("systime-format-sign", "T04 T05 P01", [("src/systimetools.c", """	gmtoff_sign = (utc_offset_sec < 0) ? -1 : 1;
	gmtoff_hour = gmtoff_sign * utc_offset_sec / (60 * 60);
	gmtoff_min = (gmtoff_sign * utc_offset_sec / 60) % 60;
""", """	ret = utc_offset_sec < 0 ? -utc_offset_sec : utc_offset_sec;
	gmtoff_sign = (utc_offset_sec < 0) ? -1 : 1;
	gmtoff_hour = ret / 3600;
	gmtoff_min = ret % 3600 / 60;
""")])

b("cpp-mismatch", "C01 P01", [("src/string.cpp", """	return fullString.length() >= prefix.length()
	       && fullString.compare(
		       0,
		       prefix.length(),
		       prefix) == 0;
""", """	return fullString.size() >= prefix.size()
	       && std::mismatch(prefix.begin(), prefix.end(),
				fullString.begin()).first
			  == prefix.end();
"""), ("src/string.cpp", """	std::string o(s);
	std::transform(
		o.begin(), o.end(), o.begin(), [](unsigned char c) { return std::tolower(c); });
	return o;
""", """	std::string o;
	o.reserve(s.size());
	for (unsigned char c : s)
		o.push_back(static_cast<char>(std::tolower(c)));
	return o;
""")])
R = [x for x in R if x]

b("list-relink", "L01 P01", [("include/futils/list.h", """	list_detach(from->prev, from->next);
	list_add_after(to, from);
""", """	struct list_node *n;

	from->prev->next = from->next;
	from->next->prev = from->prev;
	n = to->next;
	from->prev = to;
	from->next = n;
	n->prev = from;
	to->next = from;
"""), ("include/futils/list.h", """	novel->next = next;
	novel->prev = prev;
	next->prev = novel;
	prev->next = novel;
""", """	next->prev = novel;
	prev->next = novel;
	novel->prev = prev;
	novel->next = next;
"""), ("include/futils/list.h", """	novel->next = old->next;
	novel->next->prev = novel;
	novel->prev = old->prev;
	novel->prev->next = novel;
""", """	novel->next = old->next;
	novel->prev = old->prev;
	old->next->prev = novel;
	old->prev->next = novel;
"""), ("include/futils/list.h", "	return list->next == list;\n", "	return list->prev == list;\n")])

b("futils-bound-reorder", "G01 P01", [("include/futils/futils.h", "_a < _m ? _m : _a > _M ? _M : _a; })", "_a > _M ? (_a < _m ? _m : _M) : _a < _m ? _m : _a; })"),
 ("include/futils/futils.h", "__typeof__(b) _b = (b); _a < _b ? _a : _b; })", "__typeof__(b) _b = (b); _b > _a ? _a : _b; })")])

/* Calls the varint functions; buffers end at an inaccessible page.
 *  <id> w <bits> <signed> <hex value 16 digits> <cap> <nul>   (nul: bit0 dst, bit1 len)
 *  <id> r <bits> <signed> <hex bytes or -> <tail hex or -> <nul> (bit0 src bit1 val bit2 len) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include "futils/varint.h"

static uint8_t *page;
#define PG 4096

static int hex(const char *s, uint8_t *o)
{
	int n = 0;
	unsigned v;
	if (*s == '-')
		return 0;
	while (sscanf(s + 2 * n, "%2x", &v) == 1)
		o[n++] = (uint8_t)v;
	return n;
}

int main(void)
{
	static char *line;
	static size_t cap;
	page = mmap(NULL, 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (page == MAP_FAILED || mprotect(page + PG, PG, PROT_NONE))
		return 77;
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], k[4], a[400], b[400];
		int w, sg, nul, i, off = 0;
		sscanf(line, "%31s %3s %d %d%n", id, k, &w, &sg, &off);
		if (k[0] == 'w') {
			uint64_t v;
			int c, ret, dirty = 0;
			size_t n = 0xfeed;
			uint8_t *dst, ref[PG];
			sscanf(line + off, "%lx %d %d", &v, &c, &nul);
			memset(page, 0xc3, PG);
			memcpy(ref, page, PG);
			dst = page + PG - c;
			{
				uint8_t *d = nul & 1 ? NULL : dst;
				size_t *ln = nul & 2 ? NULL : &n;
				if (w == 16) ret = sg ? futils_varint_write_i16(d, c, (int16_t)v, ln) : futils_varint_write_u16(d, c, (uint16_t)v, ln);
				else if (w == 32) ret = sg ? futils_varint_write_i32(d, c, (int32_t)v, ln) : futils_varint_write_u32(d, c, (uint32_t)v, ln);
				else ret = sg ? futils_varint_write_i64(d, c, (int64_t)v, ln) : futils_varint_write_u64(d, c, v, ln);
			}
			if (ret || n > 64)
				n = ret ? 0 : 64;
			for (i = 0; i < PG; i++)
				if (page[i] != ref[i] && !(i >= PG - c && i < PG - c + (int)n))
					dirty++;
			printf("{\"id\":%s,\"k\":\"w\",\"w\":%d,\"sg\":%d,\"v\":[", id, w, sg);
			for (i = 0; i < 8; i++)
				printf("%s%d", i ? "," : "", (int)((v >> (8 * i)) & 0xff));
			printf("],\"cap\":%d,\"nul\":%d,\"ret\":%d,\"n\":%d,\"by\":[", c, nul ? 1 : 0, ret, (int)n);
			for (i = 0; i < (int)n && i < c; i++)
				printf("%s%d", i ? "," : "", dst[i]);
			printf("],\"dirty\":%d}\n", dirty);
		} else {
			uint8_t s[200], t[200], *src;
			int n = 0, m, ret;
			size_t used = 0xfeed, *ln;
			uint64_t v = 0xdddddddddddddddd;
			uint16_t v2 = 0xdddd;
			uint32_t v4 = 0xdddddddd;
			sscanf(line + off, "%399s %399s %d", a, b, &nul);
			n = hex(a, s);
			m = hex(b, t);
			memset(page, 0xc3, PG);
			src = page + PG - n - m;
			memcpy(src, s, n);
			memcpy(src + n, t, m);
			if (nul & 1)
				src = NULL;
			ln = nul & 4 ? NULL : &used;
			if (w == 16) {
				void *p = nul & 2 ? NULL : &v2;
				ret = sg ? futils_varint_read_i16(src, n, p, ln) : futils_varint_read_u16(src, n, p, ln);
				v = v2;
			} else if (w == 32) {
				void *p = nul & 2 ? NULL : &v4;
				ret = sg ? futils_varint_read_i32(src, n, p, ln) : futils_varint_read_u32(src, n, p, ln);
				v = v4;
			} else {
				void *p = nul & 2 ? NULL : &v;
				ret = sg ? futils_varint_read_i64(src, n, p, ln) : futils_varint_read_u64(src, n, p, ln);
			}
			printf("{\"id\":%s,\"k\":\"r\",\"w\":%d,\"sg\":%d,\"src\":[", id, w, sg);
			for (i = 0; i < n; i++)
				printf("%s%d", i ? "," : "", s[i]);
			printf("],\"tail\":\"%s\",\"nul\":%d,\"ret\":%d,\"n\":%d,\"v\":[", b, nul ? 1 : 0, ret, used > 1000 ? -1 : (int)used);
			for (i = 0; i < 8; i++)
				printf("%s%d", i ? "," : "", (int)((v >> (8 * i)) & 0xff));
			printf("]}\n");
		}
	}
	return 0;
}

/* Replays operation histories on the real hash table and records every call's
 * results.  One history per stdin line:
 *   <id> <size> <cb> <k1,k2,..> <op> <op> ...
 *   op: [N|F]<letter>[<key index>[,<data id>]]
 *     i/c insert (const)  r remove  l/L lookup (const)  m/M same without output
 *     a remove_all  D destroy and re-create  o observe the public list
 *   N prefix: NULL table;  F prefix: the next allocation fails */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <stdint.h>
#include "futils/hash.h"

static int inlib, failnext, failed;
static long live;

void *__real_calloc(size_t n, size_t s);
void *__real_malloc(size_t n);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

static int refuse(void)
{
	if (inlib && failnext) {
		failnext = 0;
		failed = 1;
		return 1;
	}
	return 0;
}
void *__wrap_calloc(size_t n, size_t s)
{
	void *p = refuse() ? NULL : __real_calloc(n, s);
	if (inlib && p)
		live++;
	return p;
}
void *__wrap_malloc(size_t n)
{
	void *p = refuse() ? NULL : __real_malloc(n);
	if (inlib && p)
		live++;
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p = refuse() ? NULL : __real_realloc(q, n);
	if (inlib && p && !q)
		live++;
	return p;
}
void __wrap_free(void *p)
{
	if (inlib && p) {
		live--;
		memset(p, 0xa5, malloc_usable_size(p)); /* expose uses after free */
	}
	__real_free(p);
}

#define MAXD 100000
static char arena[MAXD];
static int rel[MAXD], nrel;

static int id_of(const void *p)
{
	if (p == NULL)
		return 0;
	if ((const char *)p > arena && (const char *)p < arena + MAXD)
		return (int)((const char *)p - arena);
	return -9;
}
static void *ptr_of(int d)
{
	return d == 0 ? NULL : arena + d;
}
static void hfree(void *p)
{
	if (nrel < MAXD)
		rel[nrel++] = id_of(p);
}

static uint32_t keys[MAXD];
static int nkeys;
static int keyidx(uint32_t k)
{
	int i;
	for (i = 0; i < nkeys; i++)
		if (keys[i] == k)
			return i + 1;
	return -1;
}

static char *line;
static size_t cap;

/* every function has an alias of the earlier interface: used in turn */
static int turn;
#ifdef hash_init
#define ALIAS(x, y) ((turn++ & 1) ? (x) : (y))
#else
#define ALIAS(x, y) (y)
#endif

static void entry(const struct hash_entry *e, int first)
{
	printf("%s[%d,%d,%d]", first ? "" : ",", keyidx(e->key), id_of(e->data), e->is_const ? 1 : 0);
}

static void observe(struct hash *h)
{
	struct list_node *n;
	long c = 0, lim = MAXD;
	printf("{\"op\":\"o\",\"f\":[");
	for (n = h->entries.next; n != &h->entries && c < lim; n = n->next, c++)
		entry(list_entry(n, struct hash_entry, node), c == 0);
	printf("],\"b\":[");
	c = 0;
	for (n = h->entries.prev; n != &h->entries && c < lim; n = n->prev, c++)
		entry(list_entry(n, struct hash_entry, node), c == 0);
	printf("]}");
}

int main(void)
{
	while (getline(&line, &cap, stdin) > 0) {
		char *sv = NULL, *id = strtok_r(line, " \n", &sv), *t, *sv2 = NULL;
		size_t size = strtoull(strtok_r(NULL, " \n", &sv), NULL, 10);
		int cb = atoi(strtok_r(NULL, " \n", &sv)), first = 1, alive = 0;
		char *ks = strtok_r(NULL, " \n", &sv);
		struct hash h;
		static const char mark;

		nkeys = 0;
		for (t = strtok_r(ks, ",", &sv2); t; t = strtok_r(NULL, ",", &sv2))
			keys[nkeys++] = (uint32_t)strtoul(t, NULL, 10);
		live = 0;
		nrel = 0;
		memset(&h, 0xee, sizeof(h));
		printf("{\"id\":%s,\"ev\":[", id);
		t = strtok_r(NULL, " \n", &sv);
		/* creation */
		failnext = t && t[0] == 'F' && t[1] == 'I';
		failed = 0;
		{
			int nul = t && t[0] == 'N' && t[1] == 'I', ret;
			inlib = 1;
			ret = cb ? futils_hash_init(nul ? NULL : &h, size, hfree) :
				   ALIAS(hash_init(nul ? NULL : &h, size), futils_hash_init(nul ? NULL : &h, size, NULL));
			inlib = 0;
			printf("{\"op\":\"I\",\"k\":0,\"d\":0,\"ret\":%d,\"out\":-1,\"rel\":[],\"fail\":%d,\"nul\":%d,\"cb\":%d,\"live\":%ld}",
			       ret, failed, nul, cb, ret ? live : 0);
			first = 0;
			alive = ret == 0;
			if (failnext || (t && t[1] == 'I'))
				t = strtok_r(NULL, " \n", &sv);
			failnext = 0;
		}
		for (; alive && t; t = strtok_r(NULL, " \n", &sv)) {
			int nul = 0, k = 0, d = 0, ret = 0, i, noout = 0, reop = 0;
			char op;
			void *out = (void *)&mark;
			struct hash *hp = &h;
			uint32_t key;

			failnext = failed = 0;
			if (*t == 'N') {
				nul = 1;
				hp = NULL;
				t++;
			} else if (*t == 'F') {
				failnext = 1;
				t++;
			}
			op = *t++;
			if (*t) {
				k = (int)strtol(t, &t, 10);
				d = *t == ',' ? atoi(t + 1) : k;
			}
			key = k > 0 ? keys[k - 1] : 0;
			nrel = 0;
			if (!first)
				printf(",");
			first = 0;
			if (op == 'o') {
				observe(&h);
				continue;
			}
			inlib = 1;
			switch (op) {
			case 'i': ret = ALIAS(hash_insert(hp, key, ptr_of(d)), futils_hash_insert(hp, key, ptr_of(d))); break;
			case 'c': ret = ALIAS(hash_insert_const(hp, key, ptr_of(d)), futils_hash_insert_const(hp, key, ptr_of(d))); break;
			case 'r': ret = ALIAS(hash_remove(hp, key), futils_hash_remove(hp, key)); break;
			case 'l': ret = ALIAS(hash_lookup(hp, key, &out), futils_hash_lookup(hp, key, &out)); break;
			case 'L': ret = ALIAS(hash_lookup_const(hp, key, (const void **)&out), futils_hash_lookup_const(hp, key, (const void **)&out)); break;
			case 'm': op = 'l'; noout = 1; ret = ALIAS(hash_lookup(hp, key, NULL), futils_hash_lookup(hp, key, NULL)); break;
			case 'M': op = 'L'; noout = 1; ret = ALIAS(hash_lookup_const(hp, key, NULL), futils_hash_lookup_const(hp, key, NULL)); break;
			case 'a': ret = ALIAS(hash_remove_all(hp), futils_hash_remove_all(hp)); break;
			case 'D':
				ret = ALIAS(hash_destroy(hp), futils_hash_destroy(hp));
				reop = !nul;
				break;
			default:
				fprintf(stderr, "bad op %c\n", op);
				return 3;
			}
			inlib = 0;
			printf("{\"op\":\"%c\",\"k\":%d,\"d\":%d,\"ret\":%d,\"out\":%d,\"rel\":[", op, k, d, ret,
			       out == &mark ? -1 : id_of(out));
			for (i = 0; i < nrel; i++)
				printf("%s%d", i ? "," : "", rel[i]);
			printf("],\"fail\":%d,\"nul\":%d,\"cb\":%d,\"live\":%ld%s}", failed, nul, cb, live, noout ? ",\"noout\":1" : "");
			if (reop) {
				live = 0;
				inlib = 1;
				futils_hash_init(&h, size, cb ? hfree : NULL);
				inlib = 0;
			}
		}
		if (alive) {
			inlib = 1;
			futils_hash_destroy(&h);
			inlib = 0;
		}
		printf("]}\n");
	}
	return 0;
}

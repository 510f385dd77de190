/* Uses the macros of futils.h with side effects in every argument.
 *  <id> min|max|bound <type digits> <values...>       (compiled as C and as C++) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "futils/futils.h"

typedef int8_t t0; typedef uint8_t t1; typedef int16_t t2; typedef uint16_t t3;
typedef int32_t t4; typedef uint32_t t5; typedef int64_t t6; typedef uint64_t t7;
typedef float t8; typedef double t9;

static int cnt[3];
static struct { int neg; uint64_t m; } in[3], out;
static int fl;

static void put_i(int64_t v) { out.neg = v < 0; out.m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; }
static void put_u(uint64_t v) { out.neg = 0; out.m = v; }
/* take the value of an expression of any arithmetic type (the temporary has
 * the type of the expression itself) */
#define IS_F(e) ((__typeof__(e))0.5 != 0)
#define TAKE(e) do { __typeof__(e) r_ = (e); \
	if (IS_F(r_)) put_i((int64_t)(4 * (double)r_)); \
	else { put_i((int64_t)r_); if (!((__typeof__(r_))-1 < (__typeof__(r_))1)) put_u((uint64_t)r_); \
	       if (fl) out.m *= 4; } } while (0)
#define VAL(T, i) (IS_F((T)0) ? (T)((in[i].neg ? -1.0 : 1.0) * (double)in[i].m / 4) : (T)(in[i].neg ? 0 - (in[i].m >> (fl ? 2 : 0)) : in[i].m >> (fl ? 2 : 0)))

#define F2(A, B) \
static void min_##A##_##B(void) { t##A a[2] = {VAL(t##A, 0), 0}, *pa = a; t##B b[2] = {VAL(t##B, 1), 0}, *pb = b; \
	TAKE(FUTILS_MIN((cnt[0]++, *pa++), (cnt[1]++, *pb++))); } \
static void max_##A##_##B(void) { t##A a = VAL(t##A, 0); t##B b = VAL(t##B, 1); \
	TAKE(MAX((cnt[0]++, a), (cnt[1]++, b))); }
#define F3(A, B, C) \
static void bound_##A##_##B##_##C(void) { t##A a = VAL(t##A, 0); t##B b = VAL(t##B, 1); t##C c = VAL(t##C, 2); \
	TAKE(FUTILS_BOUND((cnt[0]++, a), (cnt[1]++, b), (cnt[2]++, c))); }
#define ALL(M, ...) M(__VA_ARGS__ 0) M(__VA_ARGS__ 1) M(__VA_ARGS__ 2) M(__VA_ARGS__ 3) M(__VA_ARGS__ 4) \
	M(__VA_ARGS__ 5) M(__VA_ARGS__ 6) M(__VA_ARGS__ 7) M(__VA_ARGS__ 8) M(__VA_ARGS__ 9)
#define R2(M, A) M(A, 0) M(A, 1) M(A, 2) M(A, 3) M(A, 4) M(A, 5) M(A, 6) M(A, 7) M(A, 8) M(A, 9)
#define A2(M) R2(M, 0) R2(M, 1) R2(M, 2) R2(M, 3) R2(M, 4) R2(M, 5) R2(M, 6) R2(M, 7) R2(M, 8) R2(M, 9)
#define R3(M, A, B) M(A, B, 0) M(A, B, 2) M(A, B, 3) M(A, B, 4) M(A, B, 5) M(A, B, 6) M(A, B, 7) M(A, B, 9)
#define RR3(M, A) R3(M, A, 0) R3(M, A, 2) R3(M, A, 3) R3(M, A, 4) R3(M, A, 5) R3(M, A, 6) R3(M, A, 7) R3(M, A, 9)
#define A3(M) RR3(M, 0) RR3(M, 2) RR3(M, 3) RR3(M, 4) RR3(M, 5) RR3(M, 6) RR3(M, 7) RR3(M, 9)
A2(F2)
A3(F3)

/* nested and as arguments of one another */
static void nest_min(void) { int64_t a = VAL(int64_t, 0), b = VAL(int64_t, 1), c = VAL(int64_t, 2);
	TAKE(FUTILS_MAX((cnt[0]++, a), FUTILS_MIN((cnt[1]++, b), (cnt[2]++, c)))); }
static void nest_max(void) { int64_t a = VAL(int64_t, 0), b = VAL(int64_t, 1), c = VAL(int64_t, 2);
	TAKE(FUTILS_MIN(FUTILS_MAX((cnt[0]++, a), (cnt[1]++, b)), (cnt[2]++, c))); }
static void prec_bound(void) { int64_t a = VAL(int64_t, 0), b = VAL(int64_t, 1), c = VAL(int64_t, 2);
	/* operators of every precedence around and in the arguments */
	TAKE(0 + BOUND((cnt[0]++, 1) ? a : 0, (cnt[1]++, 0) ? 0 : b, (cnt[2]++, 0) || 1 ? c : 0) * 1); }

#define N2(A, B) {"min", "" #A #B, min_##A##_##B}, {"max", "" #A #B, max_##A##_##B},
#define N3(A, B, C) {"bound", "" #A #B #C, bound_##A##_##B##_##C},
static const struct { const char *k, *t; void (*f)(void); } tab[] = {
	A2(N2) A3(N3) {"maxmin", "666", nest_min}, {"minmax", "666", nest_max}, {"pbound", "666", prec_bound},
};

#define NUMBER 1 + 2
#define WORD some_word
struct s3 { char c[3]; };
#define ARR(T, n) do { T x[n]; printf("{\"id\":%s,\"k\":\"arr\",\"want\":%d,\"got\":%d}\n", id, n, (int)FUTILS_SIZEOF_ARRAY(x)); } while (0)

static void arrays(const char *id, int w)
{
	static const char text[] = "hello";
	static int grid[4][7];
	int v[5], *p = v;
	switch (w) {
	case 0: ARR(char, 1); break;
	case 1: ARR(struct s3, 9); break;
	case 2: ARR(void *, 300); break;
	case 3: ARR(long double, 17); break;
	case 4: printf("{\"id\":%s,\"k\":\"arr\",\"want\":6,\"got\":%d}\n", id, (int)SIZEOF_ARRAY(text)); break;
	case 5: printf("{\"id\":%s,\"k\":\"arr\",\"want\":4,\"got\":%d}\n", id, (int)SIZEOF_ARRAY(grid)); break;
	case 6: printf("{\"id\":%s,\"k\":\"arr\",\"want\":7,\"got\":%d}\n", id, (int)SIZEOF_ARRAY(grid[1])); break;
	case 7: printf("{\"id\":%s,\"k\":\"arr\",\"want\":5,\"got\":%d}\n", id, (int)(100 % SIZEOF_ARRAY(v) + SIZEOF_ARRAY(v))); break;
	case 8: printf("{\"id\":%s,\"k\":\"str\",\"want\":\"1 + 2\",\"got\":\"%s\"}\n", id, TOSTRING(NUMBER)); break;
	case 9: printf("{\"id\":%s,\"k\":\"str\",\"want\":\"some_word\",\"got\":\"%s\"}\n", id, FUTILS_TOSTRING(WORD)); break;
	case 10: printf("{\"id\":%s,\"k\":\"str\",\"want\":\"NUMBER\",\"got\":\"%s\"}\n", id, FUTILS_STRINGIFY(NUMBER)); break;
	case 11: printf("{\"id\":%s,\"k\":\"arr\",\"want\":2,\"got\":%d}\n", id, (int)(FUTILS_MIN(p + 4, p + 2) - v)); break;
	case 12: printf("{\"id\":%s,\"k\":\"arr\",\"want\":4,\"got\":%d}\n", id, (int)(FUTILS_MAX(p + 4, p + 2) - v)); break;
	case 13: printf("{\"id\":%s,\"k\":\"arr\",\"want\":%d,\"got\":%d}\n", id, (int)sizeof(char[3]), (int)sizeof(TYPEOF_STRUCT_MEMBER(struct s3, c))); break;
	default: exit(77);
	}
}

static void num(int neg, uint64_t m)
{
	printf("{\"s\":%d,\"m\":[%d,%d,%d,%d]}", neg, (int)(m >> 48 & 0xffff), (int)(m >> 32 & 0xffff), (int)(m >> 16 & 0xffff), (int)(m & 0xffff));
}

int main(void)
{
	static char line[512];
	static const int bits[] = {8, 8, 16, 16, 32, 32, 64, 64, 24, 53};
	while (fgets(line, sizeof(line), stdin)) {
		char id[32], k[16], t[8], v[3][64];
		int i, n;
		memset(v, 0, sizeof(v));
		if (sscanf(line, "%31s %15s %7s %63s %63s %63s", id, k, t, v[0], v[1], v[2]) < 3)
			return 77;
		if (!strcmp(k, "arr")) {
			arrays(id, atoi(t));
			continue;
		}
		fl = strchr(t, '8') || strchr(t, '9');
		n = (int)strlen(t);
		for (i = 0; i < n; i++) {
			in[i].neg = v[i][0] == '-';
			in[i].m = strtoull(v[i] + in[i].neg, NULL, 10);
		}
		memset(cnt, 0, sizeof(cnt));
		for (i = 0; i < (int)(sizeof(tab) / sizeof(*tab)); i++)
			if (!strcmp(tab[i].k, k) && !strcmp(tab[i].t, t))
				break;
		if (i == (int)(sizeof(tab) / sizeof(*tab)))
			return 77;
		tab[i].f();
		printf("{\"id\":%s,\"k\":\"%s\",\"f\":%d,\"a\":[", id, k, fl ? 1 : 0);
		for (i = 0; i < n; i++) {
			printf("%s{\"n\":", i ? "," : "");
			num(in[i].neg, in[i].m);
			printf(",\"t\":{\"b\":%d,\"u\":%d},\"c\":%d}", bits[t[i] - '0'], t[i] == '1' || t[i] == '3' || t[i] == '5' || t[i] == '7', cnt[i]);
		}
		printf("],\"r\":");
		num(out.neg, out.m);
		puts("}");
	}
	return 0;
}

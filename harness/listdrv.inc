static struct T *FN(el)[MAXN + 1];
static struct list_node FN(hd)[2];
static int FN(N);
/* an expression that names the list L */
static struct list_node FN(none), *volatile FN(exprs) = &FN(none);
#undef BYEXPR
#define BYEXPR(L) FN(exprs) ? L : NULL

static int FN(id)(const struct list_node *p)
{
	int i;
	if (p == NULL)
		return 0;
	if (p == &FN(hd)[0])
		return 101;
	if (p == &FN(hd)[1])
		return 102;
	for (i = 1; i <= FN(N); i++)
		if (p == &FN(el)[i]->node)
			return i;
	return -1;
}
static struct list_node *FN(ptr)(int a)
{
	return a > 100 && a < 103 ? &FN(hd)[a - 101] : &FN(el)[a]->node;
}
/* node numbers 101, 102 are the heads: histories use at most 100 nodes */

static void FN(seqf)(const char *name, int h, int back)
{
	struct list_node *p;
	int c = 0;
	printf("\"%s\":[", name);
	for (p = back ? FN(hd)[h].prev : FN(hd)[h].next; p != &FN(hd)[h] && c < FN(N) + 2;
	     p = back ? p->prev : p->next, c++) {
		int i = FN(id)(p);
		printf("%s%d", c ? "," : "", i);
		if (i < 1)
			break;
	}
	printf("]");
}

static int FN(sane)(int h)
{
	struct list_node *p;
	int c = 0;
	for (p = FN(hd)[h].next; p != &FN(hd)[h]; p = p->next)
		if (++c > FN(N) + 1 || FN(id)(p) < 1)
			return 0;
	return 1;
}

static void FN(observe)(void)
{
	int h, i;
	printf("{\"op\":\"o\",\"l\":[");
	for (h = 0; h < 2; h++) {
		struct list_node *L = &FN(hd)[h], *p;
		printf("%s{\"hd\":%d,", h ? "," : "", 101 + h);
		FN(seqf)("f", h, 0);
		printf(",");
		FN(seqf)("b", h, 1);
		if (!FN(sane)(h)) {
			printf(",\"len\":-1,\"empty\":-1,\"first\":-1,\"last\":-1,\"nx\":[],\"pv\":[],\"il\":[]}");
			continue;
		}
		printf(",\"len\":%d,\"empty\":%d,\"first\":%d,\"last\":%d,\"nx\":[", (int)list_length(L),
		       !!list_is_empty(L), FN(id)(list_first(L)), FN(id)(list_last(L)));
		for (p = L->next, i = 0; p != L; p = p->next, i++)
			printf("%s%d", i ? "," : "", FN(id)(list_next(L, p)));
		printf("],\"pv\":[");
		for (p = L->next, i = 0; p != L; p = p->next, i++)
			printf("%s%d", i ? "," : "", FN(id)(list_prev(L, p)));
		printf("],\"il\":[");
		for (p = L->next, i = 0; p != L; p = p->next, i++)
			printf("%s%d", i ? "," : "", !!list_is_last(L, p));
		printf("]}");
	}
	printf("],\"x\":[");
	for (i = 1; i <= FN(N); i++) {
		struct list_node *p = &FN(el)[i]->node;
		printf("%s{\"n\":%d,\"u\":%d,\"r\":%d,\"s\":%d}", i > 1 ? "," : "", i, !!list_node_is_unref(p),
		       !!list_node_is_ref(p), p->next == p && p->prev == p);
	}
	printf("]}");
}

static void FN(setup)(int n)
{
	int i;
	FN(N) = n;
	for (i = 1; i <= n; i++) {
		FN(el)[i] = (struct T *)malloc(sizeof(struct T));
		memset(FN(el)[i], 0x5a, sizeof(struct T));
		FN(el)[i]->id = i;
	}
	/* one head by the function, the other by the initializer */
	{
		struct list_node h = list_head_init(FN(hd)[n & 1]);
		FN(hd)[n & 1] = h;
		list_init(&FN(hd)[1 - (n & 1)]);
	}
}
static void FN(teardown)(void)
{
	int i;
	for (i = 1; i <= FN(N); i++)
		free(FN(el)[i]);
}

static void FN(hist)(char **sv)
{
	int n = atoi(strtok_r(NULL, " \n", sv)), first = 1;
	char *t;
	FN(setup)(n);
	printf(",\"n\":%d,\"ev\":[", n);
	while ((t = strtok_r(NULL, " \n", sv))) {
		int a, b = 0, r = 0;
		char *e;
		struct list_node *A, *B;
		if (!first)
			printf(",");
		first = 0;
		if (*t == 'o') {
			FN(observe)();
			continue;
		}
		a = (int)strtol(t + 2, &e, 10);
		if (*e == ',')
			b = atoi(e + 1);
		A = FN(ptr)(a);
		B = b ? FN(ptr)(b) : NULL;
#define OP(x) (t[0] == x[0] && t[1] == x[1])
		if (OP("af")) list_add_after(A, B);
		else if (OP("ad")) list_add(B, A, A->next);
		else if (OP("dt")) list_detach(A->prev, A->next);
		else if (OP("ab")) list_add_before(A, B);
		else if (OP("pu")) list_push(A, B);
		else if (OP("de")) list_del(A);
		else if (OP("di")) list_del_init(A);
		else if (OP("rp")) list_replace(A, B);
		else if (OP("ri")) list_replace_init(A, B);
		else if (OP("ma")) list_move_after(A, B);
		else if (OP("mb")) list_move_before(A, B);
		else if (OP("ni")) list_init(A);
		else if (OP("un")) list_node_unref(A);
		else if (OP("po")) {
			/* the list may be named by any expression */
			struct T *x;
#ifndef __cplusplus	/* a macro that cannot take one does not even compile in C++ */
			if (a & 1)
				x = list_pop(BYEXPR(A), struct T, node);
			else
#endif
				x = list_pop(A, struct T, node);
			r = x == NULL ? 0 : FN(id)(&x->node);
			if (r > 0 && x->id != r)
				r = -1;
		}
#undef OP
		printf("{\"op\":\"%c%c\",\"a\":%d,\"b\":%d,\"r\":%d}", t[0], t[1], a, b, r);
	}
	printf("]");
	FN(teardown)();
}

static void FN(body)(struct T *x, int *v, int *nv, const char *acts)
{
	int i;
	/* which element is it really (the memory may have been freed) */
	for (i = 1; i <= FN(N); i++)
		if (FN(el)[i] == x)
			break;
	if (i > FN(N)) {
		v[(*nv)++] = -1;
		return;
	}
	v[(*nv)++] = i;
	switch (acts[i - 1]) {
	case 'd': list_del(&x->node); break;
	case 'i': list_del_init(&x->node); break;
	case 'm':
		list_del(&x->node);
		list_push(&FN(hd)[1], &x->node);
		break;
	case 'f': /* freed elements lose their content */
		list_del(&x->node);
		memset(x, 0xa5, sizeof(*x));
		break;
	}
}

static void FN(walk)(char **sv)
{
	int m = atoi(strtok_r(NULL, " \n", sv)), i, nv = 0, lim;
	char *acts = strtok_r(NULL, " \n", sv);
	static int v[2 * MAXN + 8];
	struct list_node *p, *q, *L = &FN(hd)[0];
	struct T *x, *y;

	if (acts[0] == '-')
		acts[0] = 0;
	FN(setup)((int)strlen(acts));
	lim = FN(N) + 3;
	for (i = 1; i <= FN(N); i++)
		list_push(L, &FN(el)[i]->node);
#define NODEBODY(p) FN(body)(list_entry(p, struct T, node), v, &nv, acts); if (nv > lim || v[nv - 1] < 0) break
#define ENTBODY(x) FN(body)(x, v, &nv, acts); if (nv > lim || v[nv - 1] < 0) break
	switch (m) {
	case 0: list_walk_forward(L, p) { NODEBODY(p); } break;
	case 1: list_walk_backward(L, p) { NODEBODY(p); } break;
	case 2: list_walk_entry_forward(L, x, node) { ENTBODY(x); } break;
	case 3: list_walk_entry_backward(L, x, node) { ENTBODY(x); } break;
	case 4: list_walk_forward_safe(L, p, q) { NODEBODY(p); } break;
	case 5: list_walk_backward_safe(L, p, q) { NODEBODY(p); } break;
	case 6: list_walk_entry_forward_safe(L, x, y, node) { ENTBODY(x); } break;
	case 7: list_walk_entry_backward_safe(L, x, y, node) { ENTBODY(x); } break;
	/* the same, the list named by an expression */
	case 8: list_walk_forward(BYEXPR(L), p) { NODEBODY(p); } break;
	case 9: list_walk_backward(BYEXPR(L), p) { NODEBODY(p); } break;
	case 10: list_walk_entry_forward(BYEXPR(L), x, node) { ENTBODY(x); } break;
	case 11: list_walk_entry_backward(BYEXPR(L), x, node) { ENTBODY(x); } break;
	case 12: list_walk_forward_safe(BYEXPR(L), p, q) { NODEBODY(p); } break;
	case 13: list_walk_backward_safe(BYEXPR(L), p, q) { NODEBODY(p); } break;
	case 14: list_walk_entry_forward_safe(BYEXPR(L), x, y, node) { ENTBODY(x); } break;
	case 15: list_walk_entry_backward_safe(BYEXPR(L), x, y, node) { ENTBODY(x); } break;
	}
#undef NODEBODY
#undef ENTBODY
	printf(",\"m\":%d,\"acts\":[", m % 8);
	for (i = 0; acts[i]; i++)
		printf("%s\"%c\"", i ? "," : "", acts[i]);
	printf("],\"v\":[");
	for (i = 0; i < nv; i++)
		printf("%s%d", i ? "," : "", v[i]);
	printf("],");
	FN(seqf)("f", 0, 0);
	printf(",");
	FN(seqf)("b", 0, 1);
	printf(",");
	FN(seqf)("of", 1, 0);
	printf(",");
	FN(seqf)("ob", 1, 1);
	printf(",\"st\":[");
	for (i = 1; i <= FN(N); i++) {
		p = &FN(el)[i]->node;
		printf("%s\"%s\"", i > 1 ? "," : "", list_node_is_unref(p) ? "unref" :
		       p->next == p && p->prev == p ? "self" : "raw");
	}
	printf("]");
	FN(teardown)();
}

/* a list far longer than any history: what is reported is what each walk of
 * it saw (how many elements, how many out of order, how many that are
 * multiples of d, the first and the last) */
static void FN(gwalk)(struct list_node *L, struct T *base, int m, int d, int n, int del)
{
	long c = 0, brk = 0, mult = 0, first = 0, last = 0, lim = (long)n + 3;
	struct list_node *p, *q;
	struct T *x, *y;
#define SEE(X) \
	{ \
		struct T *e_ = (X); \
		long i_ = (long)(e_ - base) + 1; \
		c++; \
		if (i_ < 1 || i_ > n || e_->id != (int)i_) { brk = -1; break; } \
		if (c > 1 && (m & 1 ? i_ >= last : i_ <= last)) brk++; \
		if (c == 1) first = i_; \
		last = i_; \
		if (i_ % d == 0) { mult++; if (del) list_del(&e_->node); } \
		if (c > lim) break; \
	}
	switch (m) {
	case 0: list_walk_forward(L, p) SEE(list_entry(p, struct T, node)) break;
	case 1: list_walk_backward(L, p) SEE(list_entry(p, struct T, node)) break;
	case 2: list_walk_entry_forward(L, x, node) SEE(x) break;
	case 3: list_walk_entry_backward(L, x, node) SEE(x) break;
	case 4: list_walk_forward_safe(L, p, q) SEE(list_entry(p, struct T, node)) break;
	case 5: list_walk_backward_safe(L, p, q) SEE(list_entry(p, struct T, node)) break;
	case 6: list_walk_entry_forward_safe(L, x, y, node) SEE(x) break;
	case 7: list_walk_entry_backward_safe(L, x, y, node) SEE(x) break;
	}
#undef SEE
	printf("{\"m\":%d,\"c\":%ld,\"brk\":%ld,\"mult\":%ld,\"first\":%ld,\"last\":%ld,\"len\":%ld,\"em\":%d}", m, c, brk, mult,
	       first, last, (long)list_length(L), !!list_is_empty(L));
}

static void FN(big)(char **sv)
{
	int n = atoi(strtok_r(NULL, " \n", sv)), d = atoi(strtok_r(NULL, " \n", sv)), m = atoi(strtok_r(NULL, " \n", sv)), i;
	long pops = 0, brk = 0;
	struct T *base = (struct T *)calloc(n + 1, sizeof(struct T)), *x;
	struct list_node hd, *L = &hd;
	list_init(L);
	for (i = 0; i < n; i++) {
		base[i].id = i + 1;
		list_push(L, &base[i].node);
	}
	printf(",\"n\":%d,\"d\":%d,\"m\":%d,\"w\":[", n, d, m);
	for (i = 0; i < 8; i++) {
		FN(gwalk)(L, base, i, d, n, 0);
		printf(",");
	}
	FN(gwalk)(L, base, m, d, n, 1);
	for (i = 0; i < 8; i++) {
		printf(",");
		FN(gwalk)(L, base, i, d, n, 0);
	}
	i = 0;
	while (pops <= n && (x = list_pop(L, struct T, node)) != NULL) {
		pops++;
		if (x->id <= i)
			brk++;
		i = x->id;
	}
	printf("],\"pops\":%ld,\"pbrk\":%ld,\"plen\":%ld", pops, brk, (long)list_length(L));
	free(base);
}

/* Replays list histories and walks on the real list header.
 *  <id> h <layout> <nodes> <op><a>[,<b>] ... (op "o": observe)
 *  <id> w <layout> <macro> <acts>  (acts: one of n d i m f per element)
 *  <id> g <layout> <n> <d> <macro>: a list of n elements, every dth removed */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "futils/list.h"

#define MAXN 512

struct E0 { struct list_node node; int id; };
struct E1 { char pad[13]; int id; struct list_node node; double tail; };
struct E2 { int id; short x[3]; struct { char c; } in; struct list_node other; struct { char c; struct list_node nd; } sub; };

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

#define T E0
#define FN(x) CAT(x, 0)
#include "listdrv.inc"
#undef T
#undef FN
#define T E1
#define FN(x) CAT(x, 1)
#include "listdrv.inc"
#undef T
#undef FN
#define T E2
#define FN(x) CAT(x, 2)
/* the member may lie within another */
#define node sub.nd
#include "listdrv.inc"
#undef node

static char *line;
static size_t cap;

int main(void)
{
	while (getline(&line, &cap, stdin) > 0) {
		char *sv = NULL, *id = strtok_r(line, " \n", &sv), *kind = strtok_r(NULL, " \n", &sv);
		int lay = atoi(strtok_r(NULL, " \n", &sv));
		printf("{\"id\":%s,\"k\":\"%s\"", id, kind);
		if (*kind == 'h')
			(lay == 0 ? hist0 : lay == 1 ? hist1 : hist2)(&sv);
		else if (*kind == 'g')
			(lay == 0 ? big0 : lay == 1 ? big1 : big2)(&sv);
		else
			(lay == 0 ? walk0 : lay == 1 ? walk1 : walk2)(&sv);
		printf("}\n");
	}
	return 0;
}

/* C18 linked lists (list.cpp). */
#include "base.h"
#define NMAX 1000000
list_t *g_nodes; long g_n, g_i, g_k, g_rm; /* node i is g_nodes[i]; g_k: arbitrary witness; g_rm: node to remove, or none (-1) */
char g_data[2];
#ifndef NATIVE
/* an instance, at node i, of "the nodes are linked in order" */
#define LINKED(i) ASSUME((i) < 0 || (i) >= g_n || g_nodes[i].next == ((i) + 1 < g_n ? &g_nodes[(i) + 1] : 0))
#else
#define LINKED(i)
#endif
#ifdef VC_FREE
list_t X; long g_left; int g_withdata, g_cb, g_datafreed, g_cbs;
static void next_x(void) { X.data = nondet_vc_char() ? (void *)g_data : (void *)0; X.next = g_left > 1 ? &X : 0; g_datafreed = g_cbs = 0; }
static void cb(void *d) { CHECK(g_withdata && g_cb && d == X.data && d && g_left > 0, "callback gets each node's data"); g_cbs++; }
void vc_free(void *p) {
	if (p == &X) { CHECK(g_left > 0, "each node once"); CHECK(g_datafreed == (g_withdata && !g_cb && X.data) && g_cbs == (g_withdata && g_cb && X.data), "each node's data is released once, as asked for"); g_left--; next_x(); }
	else { CHECK(p == X.data && p && g_withdata && !g_cb && g_left > 0, "only data and nodes are released"); g_datafreed++; }
}
#define free vc_free
#endif
#include "list.cpp"
#ifndef VC_FREE
static void make(long lo) {
#ifndef NATIVE
	g_n = nondet_vc_ll(); ASSUME(g_n >= lo && g_n <= NMAX);
#ifdef VC_BOUND
	ASSUME(g_n <= VC_BOUND);
#endif
	g_nodes = (list_t *)malloc(sizeof(list_t) * (g_n + 1)); ASSUME(g_nodes != 0);
	g_k = nondet_vc_ll(); ASSUME(g_k >= 0 && g_k < NMAX);
#ifdef VC_BOUND
	for (int i = 0; i < VC_BOUND; i++) LINKED(i);
#endif
	LINKED(0); LINKED(1); LINKED(g_n - 1); LINKED(g_n - 2); LINKED(g_k);
#else
	g_n = IN(n, lo, 40); g_nodes = (list_t *)calloc(g_n + 1, sizeof(list_t)); g_k = IN(k, 0, 39);
	for (long i = 0; i < g_n; i++) { g_nodes[i].next = i + 1 < g_n ? &g_nodes[i + 1] : 0; g_nodes[i].data = g_data; }
#endif
}
DECL_IN(rm) DECL_IN(n) DECL_IN(k)
#define KNEXT (g_k + 1 < g_n ? &g_nodes[g_k + 1] : 0)
HARNESS(h_append) {
	make(0); list_t *first = g_n ? g_nodes : 0; void *kd = g_k < g_n ? g_nodes[g_k].data : 0; g_i = 0;
	list_t *r = list_append(first, g_data);
	if (g_n) {
		list_t *n = g_nodes[g_n - 1].next;
		CHECK(r == first && n != 0 && n->data == g_data && n->next == 0, "the new node is the last one");
		CHECK(g_k >= g_n || (g_nodes[g_k].data == kd && (g_k == g_n - 1 || g_nodes[g_k].next == KNEXT)), "the other nodes are untouched, in order");
	} else CHECK(r != 0 && r->data == g_data && r->next == 0, "a list of one node");
	REACH();
}
HARNESS(h_prepend) {
	make(0); list_t *first = g_n ? g_nodes : 0; void *kd = g_k < g_n ? g_nodes[g_k].data : 0;
	list_t *r = list_prepend(first, g_data);
	CHECK(r != 0 && r->data == g_data && r->next == first && (g_k >= g_n || (g_nodes[g_k].data == kd && g_nodes[g_k].next == KNEXT)), "the new node comes first");
	if (g_k < g_n) {
		list_t *old = g_nodes[g_k].next;
		r = list_insert(&g_nodes[g_k], g_data + 1);
		CHECK(g_nodes[g_k].next == r && r->next == old && r->data == g_data + 1 && g_nodes[g_k].data == kd, "the new node follows the given one");
	}
	REACH();
}
HARNESS(h_remove) {
	static list_t other;
	make(1);
	g_rm = (long)IN(rm, -1, NMAX - 1); ASSUME(g_rm < g_n); LINKED(g_rm); LINKED(g_rm - 1); g_i = 0;
	other.next = g_nodes; void *kd = g_k < g_n ? g_nodes[g_k].data : 0;
	list_t *r = list_remove(g_nodes, g_rm >= 0 ? &g_nodes[g_rm] : &other);
	CHECK(r == (g_rm == 0 ? (g_n > 1 ? &g_nodes[1] : 0) : g_nodes), "new start of the list");
	CHECK(g_k >= g_n || g_nodes[g_k].data == kd, "data untouched");
	CHECK(g_k >= g_n || g_k == g_rm || g_nodes[g_k].next == (g_k + 1 == g_rm ? (g_rm + 1 < g_n ? &g_nodes[g_rm + 1] : 0) : KNEXT), "only the given node is taken out");
	REACH();
}

#else
HARNESS(h_free) {
	g_left = nondet_vc_ll(); ASSUME(g_left >= 0 && g_left < (1L << 40)); g_withdata = nondet_vc_char() & 1; g_cb = nondet_vc_char() & 1;
#ifdef VC_BOUND
	ASSUME(g_left <= VC_BOUND);
#endif
	next_x();
	list_free(g_left ? &X : 0, g_withdata, g_cb ? cb : 0);
	CHECK(g_left == 0, "every node is released");
	REACH();
}
#endif

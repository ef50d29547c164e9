/* C16 -- debug and user flag registries */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C16";
const char *mc_level = "model_checking";
const char *mc_bounds = "breadth-first search to the fixpoint of (registered flags, set flags) of each registry over 4 (thorough 6) flags in all four groups under register, name, +name, -name, all, none, set_flag, unset_flag and destroy, all 120 flags, the list and name lookups compared in every state; every sequence of 4 (thorough 5) operations over both registries together; every one of the 120 flags registered and set alone by name and by value, also next to every other flag of its group; all flags at once; every malformed flag with 0 or 2 low bits and many with more; every re-registration and 24 bad names from every state of the search; names of 37 lengths up to 70000, pairs that differ in their last character or length; every sequence of 3 (4) settings of the flags of the library itself after maa_init";
const char *mc_assumptions[] = { "flags are 32-bit values (documented)", "one name is registered for one flag only, names all and none are not registered", "an int and an unsigned long have 32 and 64 bits", NULL };
typedef unsigned long U;
static int reg;		/* 0 debug, 1 user flags */
static void r_register(U f, const char *n) { if (reg) flg_register(f, n); else if (f >> 30 == 3) _dbg_register(f, n); else dbg_register(f, n); }
static void r_set(const char *n) { if (reg) flg_set(n); else dbg_set(n); }
static int r_test(U f) { return reg ? flg_test(f) : dbg_test(f); }
static void r_destroy(void) { if (reg) flg_destroy(); else dbg_destroy(); }
static void r_list(FILE *s) { if (reg) flg_list(s); else dbg_list(s); }

static const U F[6] = { 0x00000001UL, 0xe0000000UL, 0x60000000UL, 0x80000001UL, 0x40000020UL, 0xc0000001UL };
static const char *const N[6] = { "a", "ab", "verbose", "-dash", "b", "a long name with spaces" };
typedef struct { int in[6]; unsigned char on[4][30]; } model;
static U flag(int g, int b) { return (U)g << 30 | (U)1 << b; }
static void mset(model *m, U f, int v) { int b; for (b = 0; b < 30; b++) if (f >> b & 1) m->on[f >> 30][b] = v; }
static const char *fresh(const char *pre, const char *n) { static char b[80]; snprintf(b, 80, "%s%s", pre, n); return b; }	/* one buffer for every name that is passed */

void __real_free(void *);
static void listing(model *m)
{
	char *p = NULL, line[120]; size_t n = 0; int i, c = 0, l = 0; FILE *s = open_memstream(&p, &n);
	r_list(s); fclose(s);
	for (i = 0; i < 6; i++) if (m->in[i]) {
		char *q, *at = p; int cnt = 0;
		snprintf(line, sizeof line, "  %s%s\n", N[i], !reg && F[i] >> 30 == 3 ? " (builtin)" : "");
		while ((q = strstr(at, line))) { if (q == p || q[-1] == '\n') cnt++; at = q + 1; }
		mc_check(cnt == 1, "the list shows %s %d times: <%s>", N[i], cnt, p);
		c++;
	}
	for (i = 0; i < (int)n; i++) l += p[i] == '\n';
	mc_check(l == c, "the list has %d lines for %d names", l, c);
	__real_free(p);
}
void __real_free(void *);
static void tests(model *m)
{
	int g, b;
	for (g = 0; g < 4; g++) for (b = 0; b < 30; b++) {
		int t = r_test(flag(g, b));
		mc_check(!t == !m->on[g][b], "flag %lx tests %s", flag(g, b), t ? "true" : "false");
	}
}
static void check(model *m)
{
	int i, any = 0;
	tests(m);
	for (i = 0; i < 6; i++) any |= m->in[i];
	if (!any) return;
	listing(m);
	if (reg) for (i = 0; i < 6; i++) mc_check(!strcmp(flg_name(F[i]), m->in[i] ? N[i] : "unknown flag"), "name of %lx is %s", F[i], flg_name(F[i]));
}
/* ops per flag: register, name, +name, -name, set_flag, unset_flag; then all none destroy */
static int nf;
static const char *opname(int op) { static const char *s[] = { "register", "set", "set +", "set -", "set_flag", "unset_flag" }; static char b[60]; if (op >= 6 * nf) return op == 6 * nf ? "all" : op == 6 * nf + 1 ? "none" : "destroy"; snprintf(b, 60, "%s%s %s", reg ? "flg " : "dbg ", s[op % 6], N[op / 6]); return b; }
static int apply(model *m, int op)
{
	int i = op / 6, any = 0, k; for (k = 0; k < 6; k++) any |= m->in[k];
	if (op >= 6 * nf) {
		op -= 6 * nf;
		if (op == 2) { r_destroy(); memset(m, 0, sizeof *m); return 1; }
		if (!any) return 0;
		r_set(op ? "none" : "all"); memset(m->on, !op, sizeof m->on); return 1;
	}
	op %= 6;
	if (op == 0) { if (m->in[i]) return 0; r_register(F[i], N[i]); m->in[i] = 1; return 1; }
	if (op <= 3) { if (!m->in[i]) return 0; r_set(fresh(op == 1 ? "" : op == 2 ? "+" : "-", N[i])); mset(m, F[i], op != 3); return 1; }
	if (reg) return 0;
	if (op == 4) dbg_set_flag(F[i]); else dbg_unset_flag(F[i]);
	mset(m, F[i], op == 4); return 1;
}
static void *cl_make(void) { model *m = mc_real_malloc(sizeof *m); memset(m, 0, sizeof *m); return m; }
static void cl_destroy(void *m) { r_destroy(); __real_free(m); }
static int cl_apply(void *m, int op) { return apply(m, op); }
static uint64_t cl_canon(void *s)
{
	model *m = s; uint64_t h; int i;
	check(m); h = mc_hash(m, sizeof *m, 7);
	for (i = 0; i < nf; i++) if (m->in[i]) {	/* registering again is refused: checked by the message it gives */
		int k; const char *t; char q[100];
		mc_streams_reset();
		MC_CATCH(k, r_register(F[i], "other"));
		mc_check(k == MC_EXIT(1), "registering %lx again: expected a fatal error (%d)", F[i], k);
		t = mc_stderr_text(NULL); snprintf(q, sizeof q, "\"%s\"", N[i]);
		mc_check(strstr(t, q), "the refusal does not name %s: <%.200s>", N[i], t);
	}
	return h;
}
static void b_closure(void)
{
	mc_system sys = { 0, cl_make, cl_apply, cl_canon, cl_destroy, opname, 2000000, 0 }; int depth, capped;
	reg = mc_choose(2); nf = QT(4, 6); sys.nops = 6 * nf + 3;
	mc_closure(&sys, &depth, &capped); mc_check(!capped, "harness: state space larger than expected");
}
static void b_sequences(void)
{
	model m[2]; int d, c, n, i; memset(m, 0, sizeof m); nf = 3; n = 6 * nf + 3;
	for (d = 0; d < QT(4, 5); d++) {
		c = mc_choose(2 * n + 1); if (!c) break; c--;
		reg = c / n; mc_op("%s", opname(c % n));
		if (!apply(&m[reg], c % n)) mc_stop();
		for (i = 0; i < 2; i++) { reg = i; check(&m[i]); }
		mc_state(mc_hash(m, sizeof m, 3));
	}
	for (i = 0; i < 2; i++) { reg = i; r_destroy(); memset(&m[i], 0, sizeof m[i]); check(&m[0]); reg = 1 - i; check(&m[1 - i]); }
	mc_check(mc_live_count() == 0, "%ld blocks left after both registries were destroyed", mc_live_count());
}
static const char *bname(int g, int b) { static char n[4][30][12]; snprintf(n[g][b], 12, "f%d_%d", g, b); return n[g][b]; }
static void b_each(void)	/* each flag alone and next to each other flag of any group */
{
	int g, b, g2, b2, k; model m; memset(&m, 0, sizeof m);
	reg = mc_choose(2); g = mc_choose(4); b = mc_choose(30); k = mc_choose(121);
	mc_op("register %lx", flag(g, b));
	r_register(flag(g, b), bname(g, b)); tests(&m);
	if (k < 120) {
		g2 = k / 30; b2 = k % 30; if (g2 == g && b2 == b) mc_stop();
		mc_op("register and set %lx", flag(g2, b2)); r_register(flag(g2, b2), bname(g2, b2)); r_set(bname(g2, b2)); m.on[g2][b2] = 1; tests(&m);
	}
	mc_op("set %s", bname(g, b)); r_set(fresh("", bname(g, b))); m.on[g][b] = 1; tests(&m);
	mc_op("unset it"); r_set(fresh("-", bname(g, b))); m.on[g][b] = 0; tests(&m);
	mc_op("set it with +"); r_set(fresh("+", bname(g, b))); m.on[g][b] = 1; tests(&m);
	if (!reg) { mc_op("dbg_unset_flag"); dbg_unset_flag(flag(g, b)); m.on[g][b] = 0; tests(&m); dbg_set_flag(flag(g, b)); m.on[g][b] = 1; tests(&m); }
	r_set("all"); memset(m.on, 1, sizeof m.on); tests(&m); r_set(fresh("-", bname(g, b))); m.on[g][b] = 0; tests(&m);
	r_set("none"); memset(m.on, 0, sizeof m.on); tests(&m);
	if (reg) mc_check(!strcmp(flg_name(flag(g, b)), bname(g, b)), "flg_name");
	mc_state(g * 30 + b);
}
static void b_every(void)	/* all 120 registered at once, any order of groups, any one unset */
{
	int g, b, i, un, order; model m; char *p = NULL, line[40]; size_t n; FILE *s; memset(&m, 0, sizeof m);
	reg = mc_choose(2); order = mc_choose(4); un = mc_choose(120);
	for (i = 0; i < 120; i++) { int j = order & 1 ? 119 - i : i; g = order & 2 ? j % 4 : j / 30; b = order & 2 ? j / 4 : j % 30; r_register(flag(g, b), bname(g, b)); }
	mc_step(120); tests(&m);
	for (i = 0; i < 120; i += 3) { r_set(bname(i / 30, i % 30)); m.on[i / 30][i % 30] = 1; } tests(&m);
	r_set(fresh("-", bname(un / 30, un % 30))); m.on[un / 30][un % 30] = 0; tests(&m);
	s = open_memstream(&p, &n); r_list(s); fclose(s);
	for (i = 0; i < 120; i++) { snprintf(line, 40, "  f%d_%d%s\n", i / 30, i % 30, !reg && i >= 90 ? " (builtin)" : ""); mc_check(strstr(p, line), "the list lacks f%d_%d", i / 30, i % 30); if (reg) mc_check(!strcmp(flg_name(flag(i / 30, i % 30)), bname(i / 30, i % 30)), "flg_name of flag %d", i); }
	for (b = 0, i = 0; i < (int)n; i++) b += p[i] == '\n'; mc_check(b == 120, "the list has %d lines", b);
	__real_free(p);
	MC_CATCH(i, r_register(flag(un / 30, un % 30), "again")); mc_check(i == MC_EXIT(1), "registering flag %d again is not refused", un);
	MC_CATCH(i, r_register(flag(un / 30, un % 30), bname(un / 30, un % 30))); mc_check(i == MC_EXIT(1), "registering flag %d again under its own name is not refused", un);
	r_destroy(); mc_check(mc_live_count() == 0, "blocks left"); memset(&m, 0, sizeof m); tests(&m);
}
static void malformed(U f, int pre)
{
	int k; mc_step(1); mc_streams_reset();
	MC_CATCH(k, r_register(f, "bad")); mc_check(k == MC_EXIT(1), "%s register of malformed flag %lx: expected a fatal error (%d)", reg ? "flg" : "dbg", f, k);
	if (pre) { MC_CATCH(k, r_set("bad")); mc_check(k == MC_EXIT(1), "the refused name %lx can be set", f); }
}
static void b_malformed(void)
{
	int g, i, j, k, pre; reg = mc_choose(2); g = mc_choose(4); pre = mc_choose(2); i = mc_choose(31);
	if (pre) r_register(F[0], N[0]);
	if (i == 30) { malformed((U)g << 30, pre); malformed((U)g << 30 | 0x3fffffff, pre); if (!reg && g == 3) { MC_CATCH(k, dbg_register(0xc0000004UL, "reserved")); mc_check(k == MC_EXIT(1), "a reserved flag is accepted"); } mc_stop(); }
	mc_note("flags of group %d with bit %d and others", g, i);
	for (j = 0; j < i; j++) { malformed((U)g << 30 | (U)1 << i | (U)1 << j, pre); for (k = 0; k < j; k++) malformed((U)g << 30 | (U)1 << i | (U)1 << j | (U)1 << k, 0); }
}
static void b_badnames(void)
{
	static const char *const bad[] = { "", "+", "-", "*a", "++a", "--a", "+-a", "-+a", "a ", " a", "A", "unknown", "-unknown", "+unknown", "-none", "+none", "-all", "+all", "aa", "verbos", "verbosee", "+verbos", "all ", "none,a", "/verbose", "=b", "ALL", "All", "NONE", "-NONE", "B", NULL };
	int k, c, i, m; model s; memset(&s, 0, sizeof s);
	reg = mc_choose(2); m = mc_choose(64); c = mc_choose(32);
	for (i = 0; i < 6; i++) if (m >> i & 1) { r_register(F[i], N[i]); s.in[i] = 1; }
	mc_op("set <%s> with registered %x", bad[c] ? bad[c] : "NULL", m);
	MC_CATCH(k, r_set(bad[c]));
	mc_check(bad[c] ? k == MC_EXIT(1) : k != 0 && k != MC_EXIT(0), "name <%s>: expected a fatal error (%d)", bad[c] ? bad[c] : "NULL", k);
	for (i = 0; i < 6; i++) if (!s.in[i]) { MC_CATCH(k, r_set(fresh("", N[i]))); mc_check(k == MC_EXIT(1), "unregistered name %s: expected a fatal error (%d)", N[i], k); MC_CATCH(k, r_set(fresh("-", N[i]))); mc_check(k == MC_EXIT(1), "unregistered name -%s: expected a fatal error", N[i]); MC_CATCH(k, r_set(fresh("+", N[i]))); mc_check(k == MC_EXIT(1), "unregistered name +%s", N[i]); }
	if (!m) { MC_CATCH(k, r_set("all")); mc_check(k == MC_EXIT(1), "all with nothing registered"); MC_CATCH(k, r_set("none")); mc_check(k == MC_EXIT(1), "none with nothing registered"); }
	tests(&s); mc_streams_reset();
	mc_outcome(m * 32 + c);
}
/* names of any length; the library's own flags */
static const int NL[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 79, 80, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4097, 70000 };
static int shows(const char *text, const char *name, int builtin)	/* lines that list a name */
{
	const char *q; int c = 0, n = strlen(name); for (q = text; *q; q = strchr(q, '\n') + 1) { int l = strcspn(q, "\n"); if (l == n + 2 + (builtin ? 10 : 0) && !memcmp(q, "  ", 2) && !memcmp(q + 2, name, n) && (!builtin || !memcmp(q + 2 + n, " (builtin)", 10))) c++; if (!q[l]) break; }
	return c;
}
static void b_names(void)
{
	int n = NL[mc_choose(sizeof NL / sizeof *NL)], g = mc_choose(4), kind = mc_choose(4), k; char *a = mc_real_malloc(n + 3), *b = mc_real_malloc(n + 3), *t = mc_real_malloc(n + 4), *p = NULL; size_t pn; FILE *s; U fa = flag(g, n % 30), fb = flag((g + kind) % 4, (n + 1) % 30);
	reg = mc_choose(2); memset(a, 'n', n); a[n] = 0; if (n > 1) a[0] = "n-+."[kind]; strcpy(b, a); if (kind & 1) b[n - 1] = 'm'; else strcat(b, "m");
	mc_op("names of %d characters", n); r_register(fa, a); r_register(fb, b);
#define SAY(pre, name) r_set(strcat(strcpy(t, pre), name)); memset(t, '?', n + 2)
#define IS(x, y) mc_check(!r_test(fa) == !(x) && !r_test(fb) == !(y), "names of %d characters: the flags test %d and %d instead of %d and %d", n, !!r_test(fa), !!r_test(fb), x, y)
	SAY("", a); IS(1, 0); SAY("+", b); IS(1, 1); SAY("-", a); IS(0, 1); SAY("+", a); IS(1, 1); SAY("-", b); IS(1, 0); SAY("", b); IS(1, 1); SAY("-", b); SAY("-", a); IS(0, 0);
	s = open_memstream(&p, &pn); r_list(s); fclose(s); mc_check(shows(p, a, !reg && fa >> 30 == 3) == 1 && shows(p, b, !reg && fb >> 30 == 3) == 1, "the list shows names of %d characters as <%.300s>", n, p); __real_free(p);
	if (reg) mc_check(!strcmp(flg_name(fa), a) && !strcmp(flg_name(fb), b), "flg_name of names of %d characters", n);
	r_destroy(); mc_check(mc_live_count() == 0, "blocks left"); __real_free(a); __real_free(b); __real_free(t); mc_state(n * 8 + g * 2 + reg);
}
static void b_builtin(void)
{
	static const struct { U f; const char *n; } B[] = { { MAA_MEMORY, ".memory" }, { MAA_TIME, ".time" }, { MAA_PR, ".pr" }, { MAA_SL, ".sl" }, { MAA_SRC, ".src" }, { MAA_PARSE, ".parse" } };
	int on[6] = { 0 }, L = QT(3, 4), i, j, c, own = mc_choose(2), oo = 0; char *p = NULL; size_t pn; FILE *s; maa_init("prog"); if (own) dbg_register(1UL << 9, "own"); reg = 0;
	for (i = 0; i < L; i++) {
		c = mc_choose(21); if (c == 20) break;
		if (c < 18) { mc_op("set %s%s", ((const char *[]){ "", "+", "-" })[c / 6], B[c % 6].n); r_set(fresh(((const char *[]){ "", "+", "-" })[c / 6], B[c % 6].n)); on[c % 6] = c / 6 != 2; }
		else { mc_op(c == 18 ? "all" : "none"); r_set(c == 18 ? "all" : "none"); for (j = 0; j < 6; j++) on[j] = c == 18; oo = c == 18; }
		for (j = 0; j < 6; j++) mc_check(!dbg_test(B[j].f) == !on[j], "%s tests %d", B[j].n, !!dbg_test(B[j].f)); mc_check(!dbg_test(1UL << 9) == !oo, "another flag changes");
	}
	s = open_memstream(&p, &pn); r_list(s); fclose(s); for (j = 0; j < 6; j++) mc_check(shows(p, B[j].n, 1) == 1, "the list lacks %s: <%s>", B[j].n, p); mc_check(shows(p, "own", 0) == own, "the list: <%s>", p); __real_free(p);
	r_set("none"); maa_shutdown(); mc_check(mc_live_count() == 0, "blocks left"); mc_state(mc_hash(on, sizeof on, own)); mc_streams_reset();
}
mc_scenario mc_scenarios[] = { { "closure", b_closure }, { "sequences", b_sequences, .recycle = 1 }, { "each", b_each, .recycle = 1 }, { "every", b_every }, { "malformed", b_malformed }, { "badnames", b_badnames }, { "names", b_names, .recycle = 1 }, { "builtin", b_builtin }, { NULL } };

/* C17 -- timers under every reading of the clocks
 * MC-WRAP: gettimeofday getrusage clock_gettime time times clock */
#include "maa.h"
#include "mc.h"
#include <math.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
const char *mc_property = "C17";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of up to 4 (thorough 5) start/stop/reset/print operations on 3 timers, each preceded by one of 9 advances of the five clocks (nothing, one microsecond, across a second border, seconds, hours, single clocks, a wall clock set back), all recorded values read after every operation; all pairs of microsecond parts out of 14 with 7 second differences for each of the five clocks; every sequence of 7 (thorough 8) operations on two timers with unit advances; 1-60 timers started, stopped and printed together; unknown names for stop, reset, get and print from every state. The clocks are simulated at the gettimeofday/getrusage/clock_gettime boundary; names of 28 lengths up to 70000 characters";
const char *mc_assumptions[] = { "the clocks do not move during one call", "the strings naming timers stay valid (the table keeps the caller's pointer)", "values are compared to half a microsecond", NULL };
typedef long long L;
enum { REAL, SU, SS, CU, CS, NCLK };
static L clk[NCLK];	/* microseconds */
static struct timeval tv(L v) { struct timeval t; t.tv_sec = v / 1000000; t.tv_usec = v % 1000000; return t; }
int __wrap_gettimeofday(struct timeval *t, void *z) { *t = tv(clk[REAL]); return 0; }
int __wrap_getrusage(int who, struct rusage *r)
{
	memset(r, 0x3c, sizeof *r);
	if (who == RUSAGE_CHILDREN) { r->ru_utime = tv(clk[CU]); r->ru_stime = tv(clk[CS]); }
	else if (who == RUSAGE_SELF) { r->ru_utime = tv(clk[SU]); r->ru_stime = tv(clk[SS]); }
	else { errno = EINVAL; return -1; }
	return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	L v = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? clk[SU] + clk[SS] : clk[REAL];
	t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0;
}
time_t __wrap_time(time_t *t) { time_t v = clk[REAL] / 1000000; if (t) *t = v; return v; }
clock_t __wrap_times(struct tms *b) { b->tms_utime = clk[SU] / 10000; b->tms_stime = clk[SS] / 10000; b->tms_cutime = clk[CU] / 10000; b->tms_cstime = clk[CS] / 10000; return clk[REAL] / 10000; }
clock_t __wrap_clock(void) { return clk[SU] + clk[SS]; }
void __real_free(void *);

typedef struct { int known; L mark[NCLK], rec[NCLK]; } timer;
#define NT 3
static timer T[64];
static const char *nm(int i)	/* one buffer for every name that is not kept */
{
	static char b[32];
	if (i < 3) snprintf(b, 32, "%s", ((const char *[]){ "w", "wo", "work loop and more than twenty" })[i]); else snprintf(b, 32, "t%d", i);
	return b;
}
static const char *key(int i) { static char b[64][32]; strcpy(b[i], nm(i)); return b[i]; }
static void init(void) { clk[REAL] = 1234567890999998LL; clk[SU] = 5999999; clk[SS] = 1; clk[CU] = 2500000; clk[CS] = 999999; memset(T, 0, sizeof T); }
static void start(int i) { int k; mc_op("start %d", i); tim_start(T[i].known ? nm(i) : key(i)); T[i].known = 1; for (k = 0; k < NCLK; k++) T[i].mark[k] = clk[k]; }
static void stop(int i) { int k; mc_op("stop %d", i); tim_stop(nm(i)); for (k = 0; k < NCLK; k++) T[i].rec[k] = clk[k] - T[i].mark[k]; }
static void reset(int i) { mc_op("reset %d", i); tim_reset(nm(i)); memset(T[i].rec, 0, sizeof T[i].rec); }
static int near(double a, L us) { return fabs(a - us / 1e6) < 4e-7; }
static void check(int n)
{
	int i, r;
	for (r = 0; r < 2; r++) for (i = 0; i < n; i++) if (T[i].known) {
		double x = tim_get_real(nm(i)), u = tim_get_user(nm(i)), s = tim_get_system(nm(i));
		mc_check(near(x, T[i].rec[REAL]), "real time of timer %d is %.7f instead of %.6f", i, x, T[i].rec[REAL] / 1e6);
		mc_check(near(u, T[i].rec[SU] + T[i].rec[CU]), "user time of timer %d is %.7f instead of %.6f", i, u, (T[i].rec[SU] + T[i].rec[CU]) / 1e6);
		mc_check(near(s, T[i].rec[SS] + T[i].rec[CS]), "system time of timer %d is %.7f instead of %.6f", i, s, (T[i].rec[SS] + T[i].rec[CS]) / 1e6);
	}
}
static void parse(const char *line, int i)
{
	const char *n = nm(i), *p = line; double x, u, s; int used = 0;
	mc_check(!strncmp(p, n, strlen(n)), "the printed timer is not %s: <%s>", n, line); p += strlen(n);
	mc_check(sscanf(p, " %lfr %lfu %lfs%n", &x, &u, &s, &used) == 3 && used && p[used] == '\n', "format of <%s>", line);
	mc_check(fabs(x - T[i].rec[REAL] / 1e6) < 5.1e-4 && fabs(u - (T[i].rec[SU] + T[i].rec[CU]) / 1e6) < 5.1e-4 && fabs(s - (T[i].rec[SS] + T[i].rec[CS]) / 1e6) < 5.1e-4, "printed times <%s> of timer %d: %f %f %f expected", line, i, T[i].rec[REAL] / 1e6, (T[i].rec[SU] + T[i].rec[CU]) / 1e6, (T[i].rec[SS] + T[i].rec[CS]) / 1e6);
}
static void print(int i)
{
	char *p = NULL; size_t n; FILE *s = open_memstream(&p, &n); mc_op("print %d", i);
	tim_print_timer(s, nm(i)); fclose(s); parse(p, i); mc_check(strchr(p, '\n')[1] == 0, "one line expected: <%s>", p); __real_free(p);
}
static void print_all(int cnt)
{
	char *p = NULL, *q; size_t n; int i, l = 0; FILE *s = open_memstream(&p, &n); mc_op("print all");
	tim_print_timers(s); fclose(s);
	for (i = 0; i < (int)n; i++) l += p[i] == '\n';
	for (i = 0; i < cnt; i++) if (T[i].known) {
		int f = 0; l--;
		for (q = p; *q; q = strchr(q, '\n') + 1) if (!strncmp(q, nm(i), strlen(nm(i))) && q[strlen(nm(i))] == ' ') { char line[200]; snprintf(line, 200, "%.*s", (int)(strchr(q, '\n') + 1 - q), q); parse(line, i); f++; }
		mc_check(f == 1, "timer %d printed %d times in <%s>", i, f, p);
	}
	mc_check(l == 0, "%d lines too many in <%s>", l, p); __real_free(p);
}
static const struct { L d[NCLK]; const char *n; } ADV[] = {
	{ { 0, 0, 0, 0, 0 }, "nothing" }, { { 1, 1, 1, 1, 1 }, "1 us" }, { { 3, 999999, 2, 0, 1000000 }, "borders" }, { { 2999999, 500001, 999998, 1750000, 250000 }, "seconds" },
	{ { 86400000000LL, 3600000001LL, 7200999999LL, 10800000000LL, 1 }, "hours" }, { { 1000000, 0, 0, 0, 0 }, "wall" }, { { 0, 0, 0, 1234567, 0 }, "child user" }, { { 0, 0, 0, 0, 7654321 }, "child system" }, { { -1500000, 0, 10, 0, 0 }, "wall set back" },
};
static void unknown(int i)	/* every operation on a timer never started */
{
	int k; char bad[40]; FILE *s = stdout; snprintf(bad, 40, "%s", nm(i));
	MC_CATCH(k, tim_stop(bad)); mc_check(k != 0 && k != MC_EXIT(0), "stop of unknown timer %s is accepted", bad);
	MC_CATCH(k, tim_reset(bad)); mc_check(k != 0 && k != MC_EXIT(0), "reset of unknown timer %s is accepted", bad);
	MC_CATCH(k, tim_get_real(bad)); mc_check(k != 0 && k != MC_EXIT(0), "get_real of unknown timer %s is accepted", bad);
	MC_CATCH(k, tim_get_user(bad)); mc_check(k != 0 && k != MC_EXIT(0), "get_user of unknown timer %s is accepted", bad);
	MC_CATCH(k, tim_get_system(bad)); mc_check(k != 0 && k != MC_EXIT(0), "get_system of unknown timer %s is accepted", bad);
	MC_CATCH(k, tim_print_timer(s, bad)); mc_check(k != 0 && k != MC_EXIT(0), "print of unknown timer %s is accepted", bad);
}
static uint64_t hash(void) { uint64_t h = 1; int i, k; for (i = 0; i < NT; i++) for (k = 0; k < NCLK; k++) h = mc_mix(h, T[i].rec[k] * 2 + T[i].known); return h; }
static void b_sequences(void)
{
	int d, c, k, a; init();
	for (d = 0; d < QT(4, 5); d++) {
		c = mc_choose(14); if (!c) break; c--;
		a = d ? mc_choose(9) : 0; for (k = 0; k < NCLK; k++) clk[k] += ADV[a].d[k]; if (a) mc_note("clocks advance: %s", ADV[a].n);
		if (c == 12) { print_all(NT); continue; }
		if (c % 3 && !T[c / 4].known && c % 4) mc_stop();
		switch (c % 4) { case 0: start(c / 4); break; case 1: if (!T[c / 4].known) mc_stop(); stop(c / 4); break; case 2: if (!T[c / 4].known) mc_stop(); reset(c / 4); break; case 3: if (!T[c / 4].known) mc_stop(); print(c / 4); }
		check(NT); mc_state(hash());
	}
	_tim_shutdown(); mc_check(mc_live_count() == 0, "%ld blocks left after shutdown", mc_live_count());
}
static void b_unknown(void)
{
	int d, c, i; init();
	for (d = 0; d < 4; d++) { c = mc_choose(8); if (!c) break; clk[REAL] += 1000003; clk[SU] += 7; if (c == 7) { mc_op("shutdown"); _tim_shutdown(); memset(T, 0, sizeof T); continue; } c--; if (c < 3) start(c); else { if (!T[c - 3].known) mc_stop(); if (d & 1) stop(c - 3); else reset(c - 3); } }
	for (i = 0; i < NT; i++) if (!T[i].known) unknown(i);
	check(NT); if (c != 7 || d == 4) print_all(NT); mc_streams_reset();
}
static void b_long(void)
{
	int d, c, k; init();
	for (d = 0; d < QT(7, 8); d++) {
		c = mc_choose(7); if (!c) break; c--; for (k = 0; k < NCLK; k++) clk[k] += 400001 * (k + 1) + d;
		if (c >= 2 && !T[c % 2].known) mc_stop();
		if (c < 2) start(c); else if (c < 4) stop(c - 2); else reset(c - 4);
		check(2);
	}
	mc_state(hash());
	_tim_shutdown(); mc_check(mc_live_count() == 0, "blocks left after shutdown");
}
static void b_values(void)
{
	static const L us[] = { 0, 1, 2, 499999, 500000, 500001, 999998, 999999, 333333, 10, 100000, 9999, 65536, 123456 }, sec[] = { 0, 1, 2, 59, 3600, 100000, 100000000 };
	int c = mc_choose(5), a = mc_choose(14), b = mc_choose(14), s = mc_choose(7), base = mc_choose(2); init();
	clk[c] = (base ? 1700000000LL : 3) * 1000000 + us[a]; start(0);
	clk[c] += sec[s] * 1000000 - us[a] + us[b]; if (clk[c] < 0) mc_stop();
	if (clk[c] < T[0].mark[c] && c != REAL) mc_stop();
	stop(0); check(1); print(0); mc_state(hash());
}
static void b_many(void)
{
	int n = mc_choose(60) + 1, i, k; init();
	for (i = 0; i < n; i++) { for (k = 0; k < NCLK; k++) clk[k] += 10007 * (i + 1); start(i); }
	check(n); print_all(n);
	for (i = 0; i < n; i++) { for (k = 0; k < NCLK; k++) clk[k] += 999983; stop((i * 7 + 3) % n); if (i % 7 == 0) check(n); }
	check(n); print_all(n);
	for (i = 0; i < n; i += 3) reset(i); check(n); print_all(n); if (n < 60) unknown(n);
	_tim_shutdown(); mc_check(mc_live_count() == 0, "blocks left after shutdown"); mc_streams_reset();
}
static void b_names(void)	/* names of any length and with any characters */
{
	static const int NL[] = { 0, 1, 2, 19, 20, 21, 31, 32, 33, 63, 64, 65, 79, 80, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4097, 70000 };
	int n = NL[mc_choose(28)], c = "n %\xe9"[mc_choose(4)], i, k, w; char *nm_[2], *arg, *p = NULL, *q; size_t pn; FILE *s; init(); T[0].known = T[1].known = 1;
	for (i = 0; i < 2; i++) { nm_[i] = mc_real_malloc(n + 3); memset(nm_[i], c, n); nm_[i][n] = 0; strcat(nm_[i], i ? "d" : ""); } arg = mc_real_malloc(n + 3);
	mc_op("names of %d characters", n);
	for (i = 0; i < 2; i++) { tim_start(nm_[i]); for (k = 0; k < NCLK; k++) { T[i].mark[k] = clk[k]; clk[k] += 1000003 * (k + 1); } }
	for (i = 0; i < 2; i++) { tim_stop(strcpy(arg, nm_[i])); for (k = 0; k < NCLK; k++) { T[i].rec[k] = clk[k] - T[i].mark[k]; clk[k] += 77777; } }
	for (i = 0; i < 2; i++) { strcpy(arg, nm_[i]); mc_check(near(tim_get_real(arg), T[i].rec[REAL]) && near(tim_get_user(arg), T[i].rec[SU] + T[i].rec[CU]) && near(tim_get_system(arg), T[i].rec[SS] + T[i].rec[CS]), "times of a timer with a name of %d characters", n + i); }
	for (w = 0; w < 3; w++) {
		s = open_memstream(&p, &pn); if (w < 2) tim_print_timer(s, nm_[w]); else tim_print_timers(s); fclose(s);
		for (q = p, k = 0; *q; q = strchr(q, '\n') + 1, k++) {
			int m = w < 2 ? w : strlen(nm_[1]) <= strlen(q) && !memcmp(q, nm_[1], n + 1), ln = strlen(nm_[m]); double x, u, y; int used = 0; mc_check(!strncmp(q, nm_[m], ln), "the name of %d characters is printed as <%.100s>", ln, q);
			mc_check(sscanf(q + ln, " %lfr %lfu %lfs%n", &x, &u, &y, &used) == 3 && used && q[ln + used] == '\n', "format of <%.200s>", q); mc_check(fabs(x - T[m].rec[REAL] / 1e6) < 5.1e-4, "printed time");
		}
		mc_check(k == (w < 2 ? 1 : 2), "%d lines printed", k); __real_free(p);
	}
	_tim_shutdown(); mc_check(mc_live_count() == 0, "blocks left"); __real_free(nm_[0]); __real_free(nm_[1]); __real_free(arg); mc_state(n * 4 + c);
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences, .recycle = 1 }, { "unknown", b_unknown }, { "long", b_long }, { "values", b_values }, { "many", b_many }, { "names", b_names }, { NULL } };

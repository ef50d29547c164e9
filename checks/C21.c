/* C21 -- error reports
 * MC-WRAP: time gettimeofday clock_gettime gethostname openlog closelog syslog vsyslog */
#define _GNU_SOURCE
#include "maa.h"
#include "mc.h"
#include <fcntl.h>
#include <syslog.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
const char *mc_property = "C21";
const char *mc_level = "model_checking";
const char *mc_bounds = "all four report functions x 3 routines x 6 program names x 5 messages (up to 6000 characters, arguments of several types) x every set of log destinations (file, ordinary stream, stdout, stderr, syslog) x pending standard output or none x buffered or unbuffered standard error x 4 values of errno, the order of all writes recorded; every sequence of 3 program names; up to 3 warnings followed by each fatal report; reports from inside callbacks of every iteration; program names and routines of 24 lengths up to 4097";
const char *mc_assumptions[] = { "standard streams are replaced at the FILE level, exit and abort are intercepted, syslog and the clock are simulated", NULL };
static time_t now_ = 1614855590;
time_t __wrap_time(time_t *t) { if (t) *t = now_; errno = EDOM; return now_; }
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_; t->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_; t->tv_nsec = 0; return 0; }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "testhost"); return 0; }
static char sysgot[40000]; static size_t sysn;
void __wrap_openlog(const char *id, int opt, int fac) { }
void __wrap_closelog(void) { }
void __wrap_vsyslog(int p, const char *f, va_list a) { sysn += sprintf(sysgot + sysn, "<%d>", p); sysn += vsnprintf(sysgot + sysn, sizeof sysgot - sysn, f, a); sysn += sprintf(sysgot + sysn, "\n"); errno = ESRCH; }
void __wrap_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); __wrap_vsyslog(p, f, a); va_end(a); }
/* recorded streams */
static struct { char b[40000]; size_t n; long first, last; } ev[3]; static long tick_;
static ssize_t put(int i, const char *b, size_t n) { memcpy(ev[i].b + ev[i].n, b, n); ev[i].n += n; ev[i].b[ev[i].n] = 0; tick_++; if (!ev[i].first) ev[i].first = tick_; ev[i].last = tick_; errno = ENXIO; return n; }
static ssize_t put0(void *c, const char *b, size_t n) { return put(0, b, n); }
static ssize_t put1(void *c, const char *b, size_t n) { return put(1, b, n); }
static ssize_t put2(void *c, const char *b, size_t n) { return put(2, b, n); }
static FILE *my[3], *old[3];
static void streams(int errbuf)
{
	int i; cookie_io_functions_t io[3] = { { 0, put0 }, { 0, put1 }, { 0, put2 } };
	if (!old[1]) { old[0] = stdout; old[1] = stderr; }
	for (i = 0; i < 3; i++) if (my[i]) { fclose(my[i]); my[i] = NULL; }
	for (i = 0; i < 3; i++) my[i] = fopencookie(my, "w", io[i]);
	setvbuf(my[0], NULL, _IOFBF, 32000); setvbuf(my[1], NULL, errbuf ? _IOFBF : _IONBF, 16000);
	stdout = my[0]; stderr = my[1];
	for (i = 0; i < 3; i++) { ev[i].n = ev[i].first = ev[i].last = 0; ev[i].b[0] = 0; } tick_ = sysn = 0; sysgot[0] = 0;
}
void mc_process_init(void) { setenv("TZ", "UTC0", 1); tzset(); }
/* reference */
static char r_err[40000], r_log[3][40000], r_sys[40000], r_out[40000]; static size_t n_err, n_sys, n_out, n_f, n_s;
static int L_file, L_stream, L_sys;	/* stream: 0 none 1 ordinary 2 stdout 3 stderr */
static char logname[300];
static void pre(char *o, const char *id) { struct tm tm; char t[64]; gmtime_r(&now_, &tm); strftime(t, sizeof t, "%a %b %e %H:%M:%S %Y", &tm); sprintf(o, "%s testhost %s[%ld]: ", t, id, (long)getpid()); }
static void r_logentry(const char *routine, const char *msg)
{
	char p[200];
	if (L_file) { pre(p, "fid"); n_f += sprintf(r_log[0] + n_f, "%s%s%s%s%.4095s\n", p, routine ? "(" : "", routine ? routine : "", routine ? ") " : "", msg); }
	if (L_stream == 1) { pre(p, "sid"); n_s += sprintf(r_log[1] + n_s, "%s%s%s%s%.4095s\n", p, routine ? "(" : "", routine ? routine : "", routine ? ") " : "", msg); }
	if (L_stream == 2) n_out += sprintf(r_out + n_out, "%.4095s", msg);
	if (L_stream == 3) n_err += sprintf(r_err + n_err, "%.4095s", msg);
	if (L_sys) n_sys += sprintf(r_sys + n_sys, "<%d>%s\n", LOG_ERR, msg);
}
enum { WARN, FATAL, ERRNO, INTERNAL };
static void r_report(int kind, const char *name, const char *routine, const char *msg, int en)
{
	char *e = r_err + n_err; char t[4000];
	if (name) e += routine ? sprintf(e, "%s (%s): ", name, routine) : sprintf(e, "%s: ", name); else if (routine) e += sprintf(e, "%s: ", routine);
	if (kind == INTERNAL) e += sprintf(e, "Internal error\n     ");
	e += sprintf(e, "%s", msg); if (kind != ERRNO) e += sprintf(e, "\n"); n_err = e - r_err;
	r_logentry(routine, msg);
	if (kind == ERRNO) { if (routine) sprintf(t, "%s: %s", routine, strerror(en)); else sprintf(t, "%s", strerror(en)); n_err += sprintf(r_err + n_err, " %s\n", t); r_logentry(routine, t); }
	if (kind == INTERNAL) n_err += name ? sprintf(r_err + n_err, "Aborting %s...\n", name) : sprintf(r_err + n_err, "Aborting...\n");
}
static void begin(int errbuf, int file, int stream, int sys)
{
	char *d = (char *)mc_tmpdir(); n_err = n_sys = n_out = n_f = n_s = 0; r_err[0] = r_sys[0] = r_out[0] = r_log[0][0] = r_log[1][0] = 0;
	streams(errbuf); L_file = file; L_stream = stream; L_sys = sys;
	snprintf(logname, 300, "%s/err.log", d); unlink(logname);
	if (file) log_file("fid", logname); if (stream) log_stream("sid", my[(int[]){ 0, 2, 0, 1 }[stream]]); if (sys) log_syslog("yid");
}
static void compare(void)
{
	static char b[40001]; size_t n;
	mc_check(ev[1].n == n_err && !memcmp(ev[1].b, r_err, n_err), "standard error is <%.300s> instead of <%.300s>", ev[1].b, r_err);
	mc_check(ev[0].n == n_out && !memcmp(ev[0].b, r_out, n_out), "standard output is <%.200s> instead of <%.200s>", ev[0].b, r_out);
	if (L_file) { FILE *f = fopen(logname, "r"); n = fread(b, 1, 40000, f); fclose(f); b[n] = 0; mc_check(n == n_f && !memcmp(b, r_log[0], n), "the log file has <%.300s> instead of <%.300s>", b, r_log[0]); }
	mc_check(ev[2].n == n_s && !memcmp(ev[2].b, r_log[1], n_s), "the log stream has <%.300s> instead of <%.300s>", ev[2].b, r_log[1]);
	mc_check(sysn == n_sys && !memcmp(sysgot, r_sys, n_sys), "syslog has <%.300s> instead of <%.300s>", sysgot, r_sys);
}
static void done(void) { if (L_stream == 1) my[2] = NULL; log_close(); unlink(logname); stdout = old[0]; stderr = old[1]; }
static const char *const kn[] = { "err_warning", "err_fatal", "err_fatal_errno", "err_internal" };
static const char *expected_name(const char *n) { const char *p; if (!n) return NULL; p = strrchr(n, '/'); return p ? p + 1 : n; }
static int call(int kind, const char *routine, int m, char *msg)
{
	static char big[6001]; int k; memset(big, 'b', 6000);
#define CALL(...) do { MC_CATCH(k, (kind == WARN ? err_warning(routine, __VA_ARGS__) : kind == FATAL ? err_fatal(routine, __VA_ARGS__) : kind == ERRNO ? err_fatal_errno(routine, __VA_ARGS__) : err_internal(routine, __VA_ARGS__))); sprintf(msg, __VA_ARGS__); } while (0)
	switch (m) {
	case 0: CALL("text"); break;
	case 1: CALL("%s", ""); break;
	case 2: CALL("%d %s %5.2f %c %lu %% %-6s| %d %d %g", -17, "string", 3.14159, 'c', 4000000000000UL, "ab", 8, 9, 0.5); break;
	case 3: CALL("%s", big); break;
	default: CALL("%s %% %s", "100%s%n", "line\nline"); break;
	}
	return k;
}
static void ending(int kind, int k) { mc_check(kind == WARN ? k == 0 : kind == INTERNAL ? k == MC_ABORT : k == MC_EXIT(1), "%s: %s (%d)", kn[kind], !k ? "the call returned" : "the program ended otherwise", k); 	mc_check(kind == WARN || kind == INTERNAL || !mc_ended_at_once, "%s ends the program by _exit: exit handlers do not run and other streams lose their output", kn[kind]);
}
static void b_reports(void)
{
	static const char *const names[] = { NULL, "prog", "/usr/local/bin/prog", "dir/", "", "a/b/-c d" }; static const int ens[] = { 0, ENOENT, EACCES, 99999 };
	int kind = mc_choose(4), name = mc_choose(6), rt = mc_choose(3), m = mc_choose(5), file = mc_choose(2), stream = mc_choose(4), sys = mc_choose(2), pend = mc_choose(2), eb = kind == WARN ? 0 : mc_choose(2), en = kind == ERRNO ? ens[mc_choose(4)] : EBADF, k;
	static char msg[7000]; const char *routine = rt == 0 ? "routine" : rt == 1 ? NULL : "r";
	if (rt == 2 && (m == 3 || name > 2)) mc_stop();
	begin(eb, file, stream, sys);
	static char nb[64]; if (name) { err_set_program_name(strcpy(nb, "/x/previous-name")); err_set_program_name(strcpy(nb, names[name])); }	/* the name lies in a buffer that held another one */
	mc_check(err_program_name() == expected_name(names[name]) || !strcmp(err_program_name(), expected_name(names[name])), "program name");
	if (pend) { fputs("pending output", stdout); n_out += sprintf(r_out + n_out, "pending output"); }
	mc_op("%s, program %s, routine %s, message %d, file %d stream %d syslog %d, errno %d", kn[kind], names[name] ? names[name] : "unset", routine ? routine : "NULL", m, file, stream, sys, en);
	errno = en; k = call(kind, routine, m, msg); ending(kind, k);
	r_report(kind, expected_name(names[name]), routine, msg, en);
	if (pend) { mc_check(ev[0].n >= 14, "standard output was not flushed"); mc_check(!ev[1].first || ev[0].first < ev[1].first, "standard error was written before standard output was flushed"); }
	compare(); mc_state(mc_hash(r_err, n_err, kind)); done();
}
static void b_names(void)
{
	static const char *const names[] = { NULL, "one", "/two", "x/three", "four/" }; int i, n = 0, k; static char msg[7000]; begin(0, 0, 0, 0);
	mc_check(err_program_name() == NULL, "initial name");
	for (i = 0; i < 3; i++) { n = mc_choose(5); mc_op("name %s", names[n] ? names[n] : "NULL"); static char nb[20]; err_set_program_name(names[n] ? strcpy(nb, names[n]) : NULL); mc_check(!names[n] ? err_program_name() == NULL : !strcmp(err_program_name(), expected_name(names[n])), "program name is %s", err_program_name()); if (mc_choose(2)) { k = call(WARN, "rt", 0, msg); ending(WARN, k); r_report(WARN, expected_name(names[n]), "rt", msg, 0); } }
	k = call(FATAL, NULL, 0, msg); ending(FATAL, k); r_report(FATAL, expected_name(names[n]), NULL, msg, 0); compare(); done();
}
static void b_several(void)
{
	int n = mc_choose(4), kind = 1 + mc_choose(3), file = mc_choose(2), stream = mc_choose(4), i, k; static char msg[7000]; begin(0, file, stream, 1); err_set_program_name("p");
	for (i = 0; i < n; i++) { printf("out %d ", i); n_out += sprintf(r_out + n_out, "out %d ", i); errno = 3; k = call(WARN, i & 1 ? NULL : "w", i == 1 ? 2 : 0, msg); ending(WARN, k); mc_check(errno || 1, "errno"); r_report(WARN, "p", i & 1 ? NULL : "w", msg, 0); compare(); mc_op("warning"); }
	errno = ENOSPC; k = call(kind, "last", 2, msg); ending(kind, k); r_report(kind, "p", "last", msg, ENOSPC); compare(); done();
}
/* from inside the library's own iterations */
static int kind_; static int it2(const void *k, const void *d) { errno = ENOENT; if (kind_ == FATAL) err_fatal("cb", "inside"); if (kind_ == ERRNO) err_fatal_errno("cb", "inside"); err_internal("cb", "inside"); return 0; }
static int it1(const void *d) { return it2(d, d); }
static int cmp_(const void *a, const void *b) { return (a > b) - (a < b); } static const void *key_(const void *d) { return d; }
static void b_inside(void)
{
	int where = mc_choose(6), k = 0; static int x; kind_ = 1 + mc_choose(3); begin(0, 1, mc_choose(4), 1);
	mc_op("%s inside iteration %d", kn[kind_], where);
	switch (where) {
	case 0: { hsh_HashTable h = hsh_create(NULL, NULL); hsh_insert(h, "a", "b"); MC_CATCH(k, hsh_iterate(h, it2)); break; }
	case 1: { set_Set s = set_create(NULL, NULL); set_insert(s, "a"); MC_CATCH(k, set_iterate(s, it1)); break; }
	case 2: { lst_List l = lst_create(); lst_append(l, "a"); MC_CATCH(k, lst_iterate(l, it1)); break; }
	case 3: { sl_List l = sl_create(cmp_, key_, NULL); sl_insert(l, &x); MC_CATCH(k, sl_iterate(l, it1)); break; }
	case 4: { stk_Stack s = stk_create(); stk_push(s, &x); MC_CATCH(k, it1(stk_pop(s))); break; }
	case 5: { str_Pool p = str_pool_create(); str_pool_find(p, "s"); MC_CATCH(k, str_pool_iterate(p, it1)); break; }
	}
	ending(kind_, k); r_report(kind_, NULL, "cb", "inside", ENOENT); compare(); done();
}
static void b_lengths(void)	/* names and routines of any length */
{
	static const int NL[] = { 0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 79, 80, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097 }; static char msg[7000], nb[4200], rt[3001];
	int kind = mc_choose(4), n = NL[mc_choose(24)], r = NL[mc_choose(22)], k; static const int dests[] = { 0, 1, 2, 3 }; begin(kind == WARN ? 0 : mc_choose(2), 0, 0, 0);
	memset(nb, 'p', n); nb[n] = 0; memset(rt, 'r', r); rt[r] = 0; err_set_program_name(nb); mc_check(!strcmp(err_program_name(), nb), "program name of %d", n); (void)dests;
	mc_op("%s, program name of %d, routine of %d characters", kn[kind], n, r); errno = ENOSPC; k = call(kind, rt, 0, msg); ending(kind, k); r_report(kind, nb, rt, msg, ENOSPC); compare(); mc_state(mc_hash(r_err, n_err, kind)); done();
}
mc_scenario mc_scenarios[] = { { "reports", b_reports }, { "names", b_names }, { "several", b_several }, { "inside", b_inside }, { "lengths", b_lengths }, { NULL } };

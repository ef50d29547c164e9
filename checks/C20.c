/* C20 -- logging
 * MC-WRAP: write time gettimeofday clock_gettime gethostname openlog closelog syslog vsyslog */
#define _GNU_SOURCE
#include "maa.h"
#include "mc.h"
#include <fcntl.h>
#include <stddef.h>
#include <syslog.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
const char *mc_property = "C20";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of up to 4 (thorough 6) operations out of 17 (the string pool destroyed, open/close of two kinds of file, an ordinary stream, stdout, stderr and syslog under different idents, close all, info and error messages with and without routine, preamble on/off, clock advance), the complete contents of every file, stream and the syslog compared; every sequence of 3 (5) messages at 7 times for 5 file name patterns; every ordered triple of 7 times for 6 patterns whose names continue each other and 2 whose names are much longer; names from 2 below to 2 above the size of the buffer first made for them, and twice that; idents of 12 and routine names of 13 lengths with messages of 3 through every set of destinations; message lengths 0-20000 around the buffer sizes x routine x preamble x every set of destinations; every placement of up to 3 (4) short, interrupted or failing writes in 3 messages; format arguments of every type through every set of destinations; every facility name; refused openings; host names of every length; every set of open destinations x library shut down, string pool destroyed, names reused by the caller, several streams one after another, streams at chosen positions and on low descriptors; every history of 3 messages by the process and by children it forks";
const char *mc_assumptions[] = { "write, the clock, the host name and syslog are replaced at the C library boundary; files are real", "idents are shorter than 200 and routine names than 3001 characters", "after a write error other than an interruption the rest of that one message may be lost", NULL };
static time_t now_;
static long wfault_on; static int werr; static char wacc[8][9000]; static int waccn, wmsg; static int wfd_any;
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	ssize_t r; int c;
	if (!wfault_on || n == 0) return __real_write(fd, b, n);
	c = mc_deviate(6);
	if (c == 4) { mc_op("write of %d: EINTR", (int)n); errno = EINTR; return -1; }
	if (c == 5) { mc_op("write of %d: EIO", (int)n); werr = 1; errno = EIO; return -1; }
	if (c == 1) n = 1; else if (c == 2) n = (n + 1) / 2; else if (c == 3 && n > 1) n--;
	if (c) mc_op("short write of %d", (int)n);
	return __real_write(fd, b, n);
}
time_t __wrap_time(time_t *t) { if (t) *t = now_; return now_; }
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_; t->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_; t->tv_nsec = 0; return 0; }
static const char *hostname_;
int __wrap_gethostname(char *b, size_t n) { size_t l = strlen(hostname_); if (l >= n) { memcpy(b, hostname_, n); errno = ENAMETOOLONG; return -1; } strcpy(b, hostname_); return 0; }
static char sysgot[70000]; static size_t sysn; static int sysopen_; static const char *sysid; static char sysid0[300];	/* openlog keeps the pointer it is given */
static void sys(const char *f, ...) { va_list a; va_start(a, f); sysn += vsnprintf(sysgot + sysn, sizeof sysgot - sysn, f, a); va_end(a); }
void __wrap_openlog(const char *id, int opt, int fac) { mc_check(opt & LOG_PID, "openlog without LOG_PID"); sys("<open %s %d>\n", id, fac); sysopen_ = 1; sysid = id; snprintf(sysid0, 300, "%s", id); }
void __wrap_closelog(void) { sys("<close>\n"); sysopen_ = 0; sysid = NULL; }
void __wrap_vsyslog(int p, const char *f, va_list a) { mc_check(!sysid || !strcmp(sysid, sysid0), "the ident that syslog uses changed from %s to %.50s", sysid0, sysid); sys("<%d>", p); sysn += vsnprintf(sysgot + sysn, sizeof sysgot - sysn, f, a); sys("\n"); }
void __wrap_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); __wrap_vsyslog(p, f, a); va_end(a); }
void mc_process_init(void) { setenv("TZ", "TST-5:30", 1); tzset(); }

/* ------------------------------------------------------------ reference */
typedef struct { char name[4200]; char *b; size_t n; } rfile;
static rfile rf[16]; static int nrf;
static char refbuf[16][70000];
static char rout[70000], rerr[70000], rsys[70000]; static size_t nout, nerr, nsys;
typedef struct { int file, stream, sys, nofull, fac; char fident[240], sident[240], pattern[1200], cur[4200]; } mstate; static mstate M;
static char dir[300];
static rfile *rget(const char *n) { int i; for (i = 0; i < nrf; i++) if (!strcmp(rf[i].name, n)) return &rf[i]; mc_check(nrf < 16, "harness: files"); strcpy(rf[nrf].name, n); rf[nrf].b = refbuf[nrf]; rf[nrf].n = 0; rf[nrf].b[0] = 0; return &rf[nrf++]; }
static void radd(rfile *f, const char *s) { size_t l = strlen(s); mc_check(f->n + l < 69999, "harness: size"); memcpy(f->b + f->n, s, l + 1); f->n += l; }
static void begin(void)
{
	static int seq; char cmd[400]; const char *t = mc_tmpdir();
	snprintf(dir, sizeof dir, "%.200s/%d", t, ++seq); mkdir(dir, 0777);
	nrf = 0; nout = nerr = nsys = sysn = 0; rout[0] = rerr[0] = rsys[0] = 0; memset(&M, 0, sizeof M); M.fac = LOG_USER;
	now_ = 1614855590; hostname_ = "testhost.example.org"; wfault_on = 0; werr = 0; sysopen_ = 0;
}
static void rmdirs(const char *d) { char p[4400]; int i; for (i = 0; i < nrf; i++) unlink(rf[i].name); for (i = 0; i < nrf; i++) { char *q; strcpy(p, rf[i].name); while ((q = strrchr(p, '/')) && strlen(p) > strlen(d)) { *q = 0; rmdir(p); } } rmdir(d); }
static void current(char *out) { struct tm tm; localtime_r(&now_, &tm); strftime(out, 4200, M.pattern, &tm); }
static pid_t stamp_pid;
static void stamp(char *p, const char *ident) { struct tm tm; char t[64]; localtime_r(&now_, &tm); strftime(t, sizeof t, "%a %b %e %H:%M:%S %Y", &tm); sprintf(p, "%s testhost %s[%ld]: ", t, ident, (long)(stamp_pid ? stamp_pid : getpid())); }
static void line(char *out, const char *ident, const char *routine, const char *msg)
{
	char pre[600]; pre[0] = 0; if (!M.nofull) stamp(pre, ident);
	sprintf(out, "%s%s%s%s%.*s\n", pre, routine ? "(" : "", routine ? routine : "", routine ? ") " : "", 4095, msg);
}
static char streamfile[300];
static void expect(const char *routine, int pri, const char *msg)	/* the message goes where? */
{
	static char l[30000];
	if (M.file) { current(M.cur); line(l, M.fident, routine, msg); radd(rget(M.cur), l); }
	if (M.stream == 1) { line(l, M.sident, routine, msg); radd(rget(streamfile), l); }
	if (M.stream == 2) nout += sprintf(rout + nout, "%.4095s", msg);
	if (M.stream == 3) nerr += sprintf(rerr + nerr, "%.4095s", msg);
	if (M.sys) nsys += sprintf(rsys + nsys, "<%d>%s\n", pri, msg);
}
static void slurp_check(rfile *f)
{
	static char b[70001]; FILE *s = fopen(f->name, "r"); size_t n = s ? fread(b, 1, 70000, s) : 0, i;
	mc_check(s, "file %s does not exist", f->name + strlen(dir)); fclose(s); b[n] = 0;
	for (i = 0; i < n && i < f->n && b[i] == f->b[i]; i++) ;
	mc_check(n == f->n && i == n, "%s: differs at byte %lu (%lu bytes, %lu expected): <%.80s> instead of <%.80s>", f->name + strlen(dir), (unsigned long)i, (unsigned long)n, (unsigned long)f->n, b + (i > 30 ? i - 30 : 0), f->b + (i > 30 ? i - 30 : 0));
}
static void compare(void)
{
	int i; const char *o; size_t n;
	for (i = 0; i < nrf; i++) slurp_check(&rf[i]);
	o = mc_stdout_text(&n); mc_check(n == nout && !memcmp(o, rout, n), "stdout: <%.200s> instead of <%.200s>", o, rout);
	o = mc_stderr_text(&n); mc_check(n == nerr && !memcmp(o, rerr, n), "stderr: <%.200s> instead of <%.200s>", o, rerr);
	mc_check(sysn == nsys && !memcmp(sysgot, rsys, nsys), "syslog: <%.300s> instead of <%.300s>", sysgot, rsys);
}
static void finish(void)
{
	int fd;
	log_close(); if (M.sys) nsys += sprintf(rsys + nsys, "<close>\n"); M.file = M.stream = M.sys = 0;
	log_info("after everything was closed"); log_error("r", "again");
	compare();
	for (fd = 3; fd < 30; fd++) { char p[60], l[400]; ssize_t k; sprintf(p, "/proc/self/fd/%d", fd); k = readlink(p, l, 399); if (k > 0) { l[k] = 0; mc_check(strncmp(l, dir, strlen(dir)), "descriptor %d of %s is left open", fd, l); } }
	rmdirs(dir);
}
/* idents and names belong to the caller, who may reuse the memory */
static char *lend(const char *t) { char *b = malloc(strlen(t) + 1); return strcpy(b, t); }
static void take(char *b) { memset(b, 'X', strlen(b)); free(b); }
static char *path(const char *n) { static char b[8][1200]; static int k; k = (k + 1) % 8; snprintf(b[k], 1200, "%s/%s", dir, n); return b[k]; }
static void open_file(const char *ident, const char *pat) { mc_op("log_file(%s, %s)", ident, pat); strcpy(M.pattern, path(pat)); { char *a = lend(ident), *b = lend(M.pattern); log_file(a, b); take(a); take(b); } strcpy(M.fident, ident); M.file = 1; current(M.cur); rget(M.cur); }
static void open_stream(const char *ident, int kind)
{
	FILE *f = kind == 2 ? stdout : kind == 3 ? stderr : NULL; rfile *r;
	if (kind == 1) { FILE *g; strcpy(streamfile, path("stream.txt")); r = rget(streamfile); g = fopen(streamfile, "a"); fputs("user text\n", g); fclose(g); radd(r, "user text\n"); f = fopen(streamfile, "r+"); }
	mc_op("log_stream(%s, %s)", ident, kind == 1 ? "file" : kind == 2 ? "stdout" : "stderr"); { char *a = lend(ident); log_stream(a, f); take(a); } strcpy(M.sident, ident); M.stream = kind;
}
static void open_sys(const char *ident) { mc_op("log_syslog(%s)", ident); { char *a = lend(ident); log_syslog(a); take(a); } M.sys = 1; nsys += sprintf(rsys + nsys, "<open %s %d>\n", ident, M.fac); }
static void close_sys(void) { mc_op("log_syslog(NULL)"); log_syslog(NULL); if (M.sys) nsys += sprintf(rsys + nsys, "<close>\n"); M.sys = 0; }
static void info(const char *msg) { mc_op("log_info(%.20s)", msg); log_info("%s", msg); expect(NULL, LOG_INFO, msg); }
static void error(const char *r, const char *msg) { mc_op("log_error(%s, %.20s)", r ? r : "NULL", msg); log_error(r, "%s", msg); expect(r, LOG_ERR, msg); }

static void b_sequences(void)
{
	int d, c; char m[40]; begin();
	for (d = 0; d < QT(4, 6); d++) {
		c = mc_choose(18); if (!c) break;
		sprintf(m, "message %d", d);
		switch (c) {
		case 1: if (M.file) { mc_stop(); } open_file("prog", "plain.log"); break;
		case 2: if (M.file) { mc_stop(); } open_file("dated", "logs/%d/%H%M.log"); break;
		case 3: mc_op("log_file(NULL)"); d & 1 ? log_file("x", NULL) : log_file(NULL, NULL); M.file = 0; break;
		case 4: if (M.stream) mc_stop(); open_stream("strm", 1); break;
		case 5: if (M.stream) mc_stop(); open_stream("outs", 2); break;
		case 6: if (M.stream) mc_stop(); open_stream("errs", 3); break;
		case 7: mc_op("log_stream(NULL)"); d & 1 ? log_stream("y", NULL) : log_stream(NULL, NULL); M.stream = 0; break;
		case 8: if (M.sys) mc_stop(); open_sys("sysl"); break;
		case 9: close_sys(); break;
		case 10: mc_op("log_close"); log_close(); if (M.sys) nsys += sprintf(rsys + nsys, "<close>\n"); M.sys = M.file = M.stream = 0; break;
		case 11: info(m); break;
		case 12: error("routine", m); break;
		case 13: error(NULL, m); break;
		case 14: mc_op("no preamble"); log_option(LOG_OPTION_NO_FULL); M.nofull = 1; break;
		case 15: mc_op("preamble"); log_option(LOG_OPTION_FULL); M.nofull = 0; break;
		case 16: mc_op("an hour passes"); now_ += 3600; break;
		case 17: mc_op("the global string pool is destroyed"); str_destroy(); break;
		}
		mc_state(mc_hash(M.cur, strlen(M.cur), mc_hash(M.pattern, strlen(M.pattern), mc_hash(&M, offsetof(mstate, pattern), now_))));
	}
	info("last"); compare(); finish();
}
static void b_times(void)
{
	static const char *pat[] = { "%H.log", "d/%Y/%m-%d.log", "plain", "x%%y-%M", "a/b/c/%j/%S" }; static const long at[] = { 0, 1, 60, 3600, 86400, 31536000, -7200 };
	int p = mc_choose(5), d, c, st; char m[40]; time_t t0; begin(); st = mc_choose(2); if (st) open_stream("strm", 1);
	open_file("prog", pat[p]); t0 = now_;
	for (d = 0; d < QT(3, 5); d++) { c = mc_choose(9); if (!c) break; if (c == 8) { mc_op("closed and opened again"); log_file(NULL, NULL); M.file = 0; open_file("other", pat[(p + d) % 5]); continue; } now_ = t0 + at[c - 1]; sprintf(m, "at %ld", at[c - 1]); if (d & 1) error("rt", m); else info(m); }
	compare(); finish();
}
/* the name of the file at every ordered triple of times, also when one name continues another or is much longer than its pattern */
static void b_names(void)
{
	static const char *pat[8] = { "n%-H", "%-M", "d%-d/x", "%-j", "%-Hx%-M", "y%Y-%-S" }; static const int at[] = { 1, 2, 10, 11, 12, 20, 23 }, unit[] = { 3600, 60, 86400, 86400, 3660, 1, 3600, 3600 };
	static char big[2][700]; int p = mc_choose(8), d, i; char m[40]; begin();
	if (!pat[6]) { for (i = 0; i < 100; i++) { strcat(big[0], "%c/"); strcat(big[1], "%20Y/"); } pat[6] = strcat(big[0], "f"); pat[7] = strcat(big[1], "f"); }
	for (d = 0; d < (p < 6 ? 3 : 2); d++) { now_ = 1609459200 + (at[mc_choose(7)] - 1) * unit[p]; mc_op("time %ld", (long)now_); if (!d) open_file("prog", pat[p]); sprintf(m, "message %d", d); info(m); }
	compare(); finish(); mc_state(now_ * 8 + p);
}
/* names around the size of the buffer made for them: a template of many %c whose name is just shorter or longer */
static void b_window(void)
{
	static const int K[] = { 30, 64, 90, 120, 140 }; int k = K[mc_choose(5)], delta = mc_choose(5) - 2, mult = mc_choose(2), P, n, i, d; static char t[1100]; char m[40]; begin();
	P = strlen(dir) + 1;
	if (!mult) {
		n = (16 * k - 2 * P - 1024) / 2 - delta; if (n < 1 || P + 3 * k + n > 1000) { rmdirs(dir); mc_stop(); }
		for (t[0] = 0, i = 0; i < k; i++) strcat(t, "%c/"); for (i = 0; i < n; i++) strcat(t, i % 100 == 99 ? "/" : "p");
	} else {	/* twice that size: 15 wide fields */
		if (k != K[0]) { rmdirs(dir); mc_stop(); } n = 5 * P + 2588 + delta - 15;
		for (t[0] = 0, i = 0; i < 15; i++) { int w = i < 14 ? n / 15 : n - 14 * (n / 15); mc_check(w > 99 && w < 250, "harness: width"); sprintf(t + strlen(t), "%%%dY/", w); }
	}
	if (t[strlen(t) - 1] == '/') t[strlen(t) - 1] = 'q'; { char c[4200]; time_t z = now_; struct tm tm; localtime_r(&z, &tm); strftime(c, 4200, path(t), &tm); if (strlen(c) > 4080) { rmdirs(dir); mc_stop(); } }
	for (d = 0; d < 2; d++) { if (!d) open_file("prog", t); else now_ += 3600; sprintf(m, "message %d", d); info(m); }
	compare(); mc_state(strlen(M.cur)); finish();
}
/* long idents and routine names */
static void b_ident(void)
{
	static const int L[] = { 1, 31, 32, 63, 64, 65, 100, 127, 128, 129, 150, 199 }, R[] = { 0, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1023, 1024, 3000 };
	static char id[300], rt[3100], m[5000]; int l = L[mc_choose(12)], r = R[mc_choose(13)], dest = mc_choose(16), ml = (int[]){ 5, 1000, 4095 }[mc_choose(3)]; begin(); if (!dest) mc_stop();
	memset(id, 'i', l); id[l] = 0; if (l > 2) { id[0] = '<'; id[l - 1] = '>'; } memset(rt, 'r', r); rt[r] = 0; if (r) { rt[0] = '{'; rt[r - 1] = '}'; } memset(m, 'm', ml); m[ml] = 0; m[ml - 1] = '$';
	if (dest & 1) open_file(id, "ident.log"); if (dest & 2) open_sys(id); if (dest >> 2) open_stream(id, dest >> 2);
	mc_op("ident of %d, routine of %d, message of %d characters", l, r, ml);
	error(r ? rt : NULL, m); info("short"); compare(); finish(); mc_state(l * 4000 + r);
}
static void b_long(void)
{
	static const int len[] = { 0, 1, 100, 2000, 4000, 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 8193, 20000 };
	static char m[20001]; int n = len[mc_choose(16)], k = mc_choose(3), f = mc_choose(2), dest = mc_choose(16); begin();
	if (!dest) mc_stop();
	memset(m, 'm', n); m[n] = 0; if (n > 2) { m[0] = '<'; m[n - 1] = '>'; }
	if (dest & 1) open_file("prog", "long.log"); if (dest & 2) open_sys("sysl"); if (dest >> 2) open_stream("strm", dest >> 2);
	if (f) { log_option(LOG_OPTION_NO_FULL); M.nofull = 1; }
	mc_op("%d characters", n);
	if (k == 0) info(m); else error(k == 1 ? "routine" : NULL, m); info("short"); compare(); finish();
}
static void b_writes(void)
{
	int i, st, msgs = 3, lost, big; char m[4200]; size_t at; struct stat s; static char l[9000]; begin();
	st = mc_choose(2); big = mc_choose(3); open_file("prog", "log"); if (st) open_stream("outs", 2);
	for (i = 0; i < msgs; i++) {
		sprintf(m, "message number %d", i); if (big && i < 2) { int n = big == 1 ? 1500 : 4090; memset(m + 16, 'b', n - 16); m[n] = 0; m[n - 1] = '$'; } werr = 0; stat(M.cur, &s); at = s.st_size; wfault_on = 1;
		mc_op("log message %d", i);
		if (i == 1) log_error("routine", "%s", m); else log_info("%s", m);
		wfault_on = 0;
		line(l, M.fident, i == 1 ? "routine" : NULL, m);
		if (werr) { stat(M.cur, &s); lost = s.st_size - at; mc_check(lost <= (int)strlen(l), "too much written after an error"); l[lost] = 0; }
		radd(rget(M.cur), l); slurp_check(rget(M.cur));
		if (st) nout += sprintf(rout + nout, "%s", m);
	}
	finish();
}
static void eva(const char *r, const char *f, ...) { va_list a; va_start(a, f); log_error_va(r, f, a); va_end(a); }
static void iva(const char *f, ...) { va_list a; va_start(a, f); log_info_va(f, a); va_end(a); }
static void b_formats(void)
{
	int dest = mc_choose(16), k = mc_choose(2), va = mc_choose(2), again; char m[300]; begin();
	if (dest & 1) open_file("prog", "f.log"); if (dest & 2) open_sys("sysl"); if (dest >> 2) open_stream("strm", dest >> 2);
	for (again = 0; again < 3; again++) {
		sprintf(m, "%d %s %5.2f %c %lu %% %-6s| %d %d %g", -17, "string", 3.14159, 'c', 4000000000000UL, "ab", 8, 9, 0.5);
		if (k) (va ? eva : log_error)("rtn", "%d %s %5.2f %c %lu %% %-6s| %d %d %g", -17, "string", 3.14159, 'c', 4000000000000UL, "ab", 8, 9, 0.5);
		else (va ? iva : log_info)("%d %s %5.2f %c %lu %% %-6s| %d %d %g", -17, "string", 3.14159, 'c', 4000000000000UL, "ab", 8, 9, 0.5);
		mc_step(1); expect(k ? "rtn" : NULL, k ? LOG_ERR : LOG_INFO, m);
		info("100%s %n not a format %d"); 
		if (k) (va ? eva : log_error)("rtn", ""); else (va ? iva : log_info)("");	/* nothing but the preamble */
		expect(k ? "rtn" : NULL, k ? LOG_ERR : LOG_INFO, "");
	}
	compare(); finish();
}
static void b_facility(void)
{
	static const struct { const char *n; int v; } F[] = { { "auth", LOG_AUTH }, { "authpriv", LOG_AUTHPRIV }, { "cron", LOG_CRON }, { "daemon", LOG_DAEMON }, { "ftp", LOG_FTP }, { "kern", LOG_KERN }, { "lpr", LOG_LPR }, { "mail", LOG_MAIL }, { "news", LOG_NEWS }, { "syslog", LOG_SYSLOG }, { "user", LOG_USER }, { "uucp", LOG_UUCP }, { "local0", LOG_LOCAL0 }, { "local1", LOG_LOCAL1 }, { "local2", LOG_LOCAL2 }, { "local3", LOG_LOCAL3 }, { "local4", LOG_LOCAL4 }, { "local5", LOG_LOCAL5 }, { "local6", LOG_LOCAL6 }, { "local7", LOG_LOCAL7 }, { "nonsense", -1 }, { "", -1 }, { "local", -1 }, { "User", -1 } };
	int i = mc_choose(24), j = mc_choose(20); begin();
	mc_check(!strcmp(log_get_facility(), "user"), "initial facility %s", log_get_facility());
	static char fb[20]; log_set_facility(strcpy(fb, F[j].n)); mc_check(!strcmp(log_get_facility(), F[j].n), "facility %s instead of %s", log_get_facility(), F[j].n); M.fac = F[j].v;
	mc_op("facility %s after %s", F[i].n, F[j].n);
	if (F[i].v < 0) { MC_MUST_EXIT1("invalid facility", log_set_facility(strcpy(fb, F[i].n))); mc_streams_reset(); }
	else { log_set_facility(strcpy(fb, F[i].n)); M.fac = F[i].v; mc_check(!strcmp(log_get_facility(), F[i].n), "facility %s instead of %s", log_get_facility(), F[i].n); }
	open_sys("sysl"); info("x"); compare();
	close_sys(); log_set_facility(strcpy(fb, F[j].n)); M.fac = F[j].v; mc_check(!strcmp(log_get_facility(), F[j].n), "facility %s instead of %s after syslog was closed", log_get_facility(), F[j].n); open_sys("again"); error("r", "y"); compare(); finish(); mc_outcome(M.fac);
}
static void b_refused(void)
{
	int c = mc_choose(5), pre = mc_choose(4); begin(); if (pre & 1) open_file("prog", "r.log"); if (pre & 2) open_stream("strm", 1);
	mc_op("refused opening %d", c);
	switch (c) {
	case 0: if (!(pre & 1)) mc_stop(); MC_MUST_ABORT("second log_file", log_file("x", path("other"))); break;
	case 1: if (!(pre & 2)) mc_stop(); MC_MUST_ABORT("second log_stream", log_stream("x", stdout)); break;
	case 2: open_sys("a"); MC_MUST_ABORT("second log_syslog", log_syslog("b")); break;
	case 3: if (pre & 1) mc_stop(); { FILE *f = fopen(path("block"), "w"); fclose(f); } MC_MUST_EXIT1("log file that cannot be opened", log_file("x", path("block/file"))); unlink(path("block")); break;
	case 4: if (!(pre & 1)) mc_stop(); log_file(NULL, NULL); open_file("prog", "blk-%H"); info("fine"); now_ += 3600; { char t[4200]; current(t); mkdir(t, 0777); MC_MUST_EXIT1("switch to a file that cannot be opened", log_info("lost")); rmdir(t); } break;
	}
	rmdirs(dir);
}
static void b_host(void)	/* host names */
{
	static const char *h[] = { "a", "a.b", ".", "", "sixty-four-characters-long-host-name-0123456789-0123456789-012345" }; int i = mc_choose(5), j; char exp[400], b[600], pre[64]; FILE *f; struct tm tm; begin(); hostname_ = h[i];
	open_file("prog", "h.log"); mc_op("host <%s>", h[i]); log_info("hello"); f = fopen(M.cur, "r"); j = fread(b, 1, 599, f); fclose(f); b[j] = 0;
	localtime_r(&now_, &tm); strftime(pre, sizeof pre, "%a %b %e %H:%M:%S %Y", &tm); snprintf(exp, sizeof exp, "%s %.*s prog[%ld]: hello\n", pre, (int)strcspn(h[i], "."), h[i], (long)getpid());
	if (i == 4) { size_t k = strlen(pre) + 1; for (j = 0; b[k + j] == h[4][j] && h[4][j]; j++) ; mc_check(!strncmp(b, exp, k) && !strcmp(b + k + j, strchr(exp + k, ' ')), "<%s> instead of <%s>, shortened", b, exp); log_close(); rmdirs(dir); return; }	/* too long: as much of it as there is room for */
	mc_check(!strcmp(b, exp), "<%s> instead of <%s>", b, exp); log_close(); rmdirs(dir);
}
/* messages after the library was shut down, to sinks still open */
static void b_shutdown(void)
{
	int dest = mc_choose(16), times = 1 + mc_choose(2), i; begin(); if (!dest) mc_stop();
	for (i = 0; i < times; i++) {
		mc_op("init, log, shutdown"); maa_init("prog"); str_find("another string");
		if (!i) { if (dest & 1) open_file("prog", "after/%H.log"); if (dest & 2) open_sys("sysl"); if (dest >> 2) open_stream("strm", dest >> 2); }
		info("before"); if (i) error("rtn", "again");
		maa_shutdown();
		info("after the shutdown"); error("rtn", "and again"); now_ += 3600; info("to the next file");
	}
	compare(); finish(); mc_check(mc_live_count() == 0, "%ld blocks left after everything was closed", mc_live_count());
}
/* a user's stream: on a standard descriptor, or a file that somebody else writes to as well */
static void b_streams(void)
{
	int how = mc_choose(4), d, c, keep = -1; rfile *r; FILE *f, *g; char m[40]; begin();
	strcpy(streamfile, path("stream.txt")); r = rget(streamfile);
	if (how == 0) { keep = dup(0); close(0); }
	f = fopen(streamfile, how == 1 ? "w+" : how == 2 ? "a" : "w"); mc_check(f, "harness: stream");
	if (how == 0) { mc_check(fileno(f) == 0, "harness: descriptor %d", fileno(f)); }
	mc_op("log_stream(strm, stream %d)", how); log_stream("strm", f); strcpy(M.sident, "strm"); M.stream = 1;
	for (d = 0; d < QT(4, 5); d++) {
		c = mc_choose(7); if (!c) break; sprintf(m, "message %d", d);
		switch (c) {
		case 1: info(m); break;
		case 2: error("rtn", m); break;
		case 3: mc_op("another writer appends"); g = fopen(streamfile, "a"); fputs("other's line\n", g); fclose(g); radd(r, "other's line\n"); break;
		case 4: mc_op("the user moves to the start"); rewind(f); break;
		case 5: mc_op("the user writes"); fseek(f, 0, SEEK_END); fputs("user's line\n", f); radd(r, "user's line\n"); info(m); break;
		case 6: mc_op("log_option"); log_option((M.nofull = !M.nofull) ? LOG_OPTION_NO_FULL : LOG_OPTION_FULL); break;
		}
		if (c != 5 || how != 9) fflush(f), slurp_check(r);
	}
	compare(); mc_state(mc_hash(r->b, r->n, how));
	log_stream(NULL, NULL); M.stream = 0;
	if (how == 0) { mc_check(fcntl(0, F_GETFD) < 0, "the stream was not closed"); dup2(keep, 0); close(keep); }
	finish();
}
/* the process changes: children log through what they inherited; files on the lowest descriptors */
static void b_fork(void)
{
	int dest = 1 + mc_choose(3), low = mc_choose(4), d, c, keep[3], i, st; char m[40]; pid_t pid; begin();
	for (i = 0; i < 3; i++) keep[i] = i < low ? dup(i) : -1;
	for (i = 0; i < low; i++) { fcntl(keep[i], F_SETFD, FD_CLOEXEC); close(i); }
	if (dest & 1) open_file("prog", "fork/%M.log"); if (dest & 2) open_stream("strm", 1);
	if (mc_choose(2)) log_option((M.nofull = 1) ? LOG_OPTION_NO_FULL : LOG_OPTION_FULL);
	for (d = 0; d < 3; d++) {
		c = mc_choose(5); sprintf(m, "message %d", d);
		switch (c) {
		case 0: info(m); break;
		case 1: error("rtn", m); break;
		case 2: case 3:
			mc_op("a child logs");
			if (!(pid = fork())) { if (c == 2) log_info("from the %s", "child"); else log_error("chd", "from the %s", "child"); mc_real_exit(0); }
			waitpid(pid, &st, 0); mc_check(WIFEXITED(st) && !WEXITSTATUS(st), "the child ends with %x", st);
			stamp_pid = pid; expect(c == 2 ? NULL : "chd", 0, c == 2 ? "from the child" : "from the child"); stamp_pid = 0; break;
		case 4: mc_op("a minute later"); now_ += 60; break;
		}
	}
	for (i = 0; i < low; i++) if (fcntl(i, F_GETFD) < 0) { dup2(keep[i], i); close(keep[i]); keep[i] = -1; }
	compare(); mc_state(mc_mix(dest * 4 + low, d)); finish();
	for (i = 0; i < low; i++) if (keep[i] >= 0) { mc_check(fcntl(i, F_GETFD) < 0, "descriptor %d is left open", i); dup2(keep[i], i); close(keep[i]); }
}
/* without privileges: every directory made on the way must be usable */
static void b_user(void)
{
	static const char *pat[] = { "a/b/c/d.log", "%Y/%m/%d/%H/%M/x", "one//two///three", "./x/../x/y/f" }; int p = mc_choose(4), um = mc_choose(3), i; char t[300]; struct stat s; begin();
	if (geteuid()) mc_stop();
	snprintf(t, sizeof t, "%s", mc_tmpdir()); chmod(t, 0711); *strrchr(t, '/') = 0; chmod(t, 0711);
	if (chown(dir, 65534, 65534) || setegid(65534) || seteuid(65534)) { mc_note("no other user"); mc_stop(); }
	umask(um == 0 ? 022 : um == 1 ? 0 : 077); mc_op("as another user, umask %d", um);
	M.fac = LOG_USER; strcpy(M.pattern, path(pat[p])); log_file("prog", M.pattern); strcpy(M.fident, "prog"); M.file = 1; current(M.cur); rget(M.cur);
	info("x"); now_ += 86400 * 40; info("y"); compare();
	mc_check(!stat(M.cur, &s) && (s.st_mode & 0600) == 0600 && !(s.st_mode & 0133), "mode %o of the log file", s.st_mode & 07777);
	log_file(NULL, NULL); M.file = 0; umask(022); if (seteuid(0) || setegid(0)) mc_fail("harness: euid");
	if (p < 2) finish(); else { char cmd[700]; rmdirs(dir); snprintf(t, sizeof t, "%s/one/two/three", dir); unlink(t); snprintf(t, sizeof t, "%s/one/two", dir); rmdir(t); snprintf(t, sizeof t, "%s/one", dir); rmdir(t); snprintf(t, sizeof t, "%s/x/y/f", dir); unlink(t); snprintf(t, sizeof t, "%s/x/y", dir); rmdir(t); snprintf(t, sizeof t, "%s/x", dir); rmdir(t); rmdir(dir); }
	mc_state(p * 3 + um);
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences, .recycle = 1 }, { "times", b_times, .recycle = 1 }, { "names", b_names, .recycle = 1 }, { "window", b_window, .recycle = 1 }, { "ident", b_ident }, { "long", b_long }, { "writes", b_writes, 3, 4 }, { "formats", b_formats }, { "facility", b_facility }, { "refused", b_refused }, { "host", b_host }, { "shutdown", b_shutdown, .recycle = 1 }, { "streams", b_streams }, { "fork", b_fork }, { "user", b_user }, { NULL } };

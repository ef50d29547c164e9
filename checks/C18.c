/* C18 -- child processes, on the real kernel
 * MC-WRAP: fork waitpid wait4 waitid wait kill killpg
 * MC-PROBE */
#include "maa.h"
#include "mc.h"
#include "../mc/probe.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
const char *mc_property = "C18";
const char *mc_level = "model_checking";
const char *mc_bounds = "real processes, probed from inside: every combination of stdin {inherit, pipe, NULL, 0, file, sibling's pipe} x stdout {same} x stderr {same, joined to stdout}, one descriptor given for two or three streams, with and without an older child and a callback, through pr_open and pr_open2; every subset of the descriptors 0-2 closed in the caller x stdin, stdout {inherit, pipe, NULL, file} x stderr {same, joined} x an older child; all 128 flag words and unknown bits for legality; 2 children (thorough 3) of 5 kinds in every order of ending and closing and every manner of close/nowait/wait/shutdown; 3 children of 3 kinds in every order with 3 manners; every chain of 2-4 piped children; three children of 2 kinds closed in every order whose descriptors start at each of 30 numbers from 3 to 5000 (thorough 9000); all 256 exit statuses and all fatal signals through pr_wait, pr_close and pr_spawn, ended before or after the call, interrupted 0-2 times; unrunnable commands; pr_close of foreign and impossible descriptors; 6x6 changes of the descriptor limit between calls, below descriptors in use and above the table; commands found through 5 kinds of PATH; SIGCHLD ignored; process numbers beyond 200000";
const char *mc_assumptions[] = { "descriptors passed for USE are greater than 2 (0 asks for the null device)", "the order of events between processes is controlled by named pipes; kernel scheduling beyond that is not enumerated", "kill is recorded and passed on only for the process ids of the check's own children", NULL };

/* ---- kernel boundary */
static int eintr_left;
static pid_t kids[32]; static char reaped[32]; static int nkids;
static int kid(pid_t p) { int i; for (i = 0; i < nkids; i++) if (kids[i] == p) return i; return -1; }
static pid_t gone(pid_t r) { if (r > 0) { int k = kid(r); if (k >= 0) reaped[k] = 1; } return r; }
pid_t __real_waitpid(pid_t, int *, int); pid_t __real_wait4(pid_t, int *, int, struct rusage *); int __real_waitid(idtype_t, id_t, siginfo_t *, int); int __real_kill(pid_t, int);
/* processes made by fork are known by numbers beyond 16 bits */
pid_t __real_fork(void);
enum { FAR = 200000 }; static pid_t forked[256]; static unsigned nforked;
static pid_t tor(pid_t p) { return p > FAR ? p - FAR : p; }
static pid_t tov(pid_t p) { int i; if (p > 0) for (i = 0; i < 256; i++) if (forked[i] == p) return p + FAR; return p; }
static pid_t endv(pid_t p) { pid_t v = tov(p); int i; if (v > FAR) for (i = 0; i < 256; i++) if (forked[i] == p) forked[i] = 0; return v; }
pid_t __wrap_fork(void) { pid_t p = __real_fork(); if (p > 0) { forked[nforked++ % 256] = p; p += FAR; } return p; }
static pid_t R_waitpid(pid_t p, int *s, int o) { return endv(__real_waitpid(tor(p), s, o)); }
static pid_t R_wait4(pid_t p, int *s, int o, struct rusage *u) { return endv(__real_wait4(tor(p), s, o, u)); }
static int R_waitid(idtype_t t, id_t i, siginfo_t *s, int o) { int r = __real_waitid(t, t == P_PID ? tor(i) : i, s, o); if (!r && s) s->si_pid = o & WNOWAIT ? tov(s->si_pid) : endv(s->si_pid); return r; }
static int R_kill(pid_t p, int g) { return __real_kill(tor(p), g); }
static int interrupted(int opt) { if (eintr_left > 0 && !(opt & WNOHANG)) { eintr_left--; errno = EINTR; return 1; } return 0; }
pid_t __wrap_waitpid(pid_t p, int *s, int o) { pid_t r; int st = 0; if (interrupted(o)) return -1; do r = R_waitpid(p, &st, o); while (r < 0 && errno == EINTR); if (s && r > 0) *s = st; return gone(r); }
pid_t __wrap_wait4(pid_t p, int *s, int o, struct rusage *u) { if (interrupted(o)) return -1; return gone(R_wait4(p, s, o, u)); }
pid_t __wrap_wait(int *s) { return __wrap_waitpid(-1, s, 0); }
int __wrap_waitid(idtype_t t, id_t i, siginfo_t *s, int o) { siginfo_t x; int r; if (interrupted(o)) return -1; if (!s) s = &x; s->si_pid = 0; r = R_waitid(t, i, s, o); if (!r && !(o & WNOWAIT)) gone(s->si_pid); return r; }
static int nkills;
int __wrap_kill(pid_t p, int sig)
{
	int k = p > 0 ? kid(p) : -1;
	mc_check(p > 0, "kill(%d, %d) would signal a whole process group", p, sig);
	mc_check(k >= 0, "kill(%d, %d): not a child", p, sig);
	mc_check(!reaped[k], "kill(%d, %d): that child was reaped before", p, sig);
	if (sig) nkills++;
	return R_kill(p, sig);
}
int __wrap_killpg(pid_t p, int sig) { return __wrap_kill(-p, sig); }
static char marker[400];
void mc_child_end(const char *what)
{
	if (!strcmp(what, "exit")) { int fd = open(marker, O_CREAT | O_WRONLY, 0666); if (fd >= 0) { if (write(fd, "exit", 4)) {} close(fd); } }
}
static void on_alarm(int s) { mc_fail("a wait for a child does not end"); }
void mc_process_init(void)
{
	struct rlimit r, h; struct sigaction a; int fd;
	for (fd = 3; fd < 20100; fd++) if (fcntl(fd, F_GETFD) >= 0) fcntl(fd, F_SETFD, FD_CLOEXEC);
	getrlimit(RLIMIT_NOFILE, &h); r.rlim_cur = 64; r.rlim_max = h.rlim_max < 20000 ? h.rlim_max : 20000; setrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
	memset(&a, 0, sizeof a); a.sa_handler = on_alarm; sigaction(SIGALRM, &a, NULL);
	signal(SIGPIPE, SIG_DFL);
}
/* ---- bookkeeping of the caller's descriptors */
static char before[64];
static void fds(char *t) { int i; for (i = 0; i < 64; i++) t[i] = fcntl(i, F_GETFD) >= 0; }
static char dir[300]; static int fileno_;
static void begin(void)
{
	static int once; int i, st;
	alarm(0);
	for (i = 0; i < nkids; i++) if (!reaped[i]) { R_kill(kids[i], SIGKILL); R_waitpid(kids[i], &st, 0); }
	nkids = nkills = eintr_left = 0; memset(reaped, 0, sizeof reaped);
	snprintf(dir, sizeof dir, "%s", mc_tmpdir()); snprintf(marker, sizeof marker, "%s/marker", dir); unlink(marker);
	fds(before); fileno_ = 0; signal(SIGPIPE, SIG_IGN);
	alarm(8);
}
static char *path(const char *n) { static char b[8][400]; static int k; k = (k + 1) % 8; snprintf(b[k], 400, "%s/%s", dir, n); return b[k]; }
static void same_fds(const char *when)
{
	int i; char now[64]; fds(now);
	for (i = 0; i < 64; i++) mc_check(now[i] == before[i], "%s descriptor %d is %s", when, i, now[i] ? "left open" : "closed");
}
static void no_children(void) { pid_t p = R_waitpid(-1, NULL, WNOHANG); mc_check(p < 0 && errno == ECHILD, "a child process is left behind (%d)", p); }
static void end(void)
{
	alarm(0); _pr_shutdown();
	no_children(); same_fds("afterwards");
	mc_check(access(marker, F_OK), "a child ended through exit(), running the caller's handlers");
	mc_check(mc_live_count() == 0, "%ld blocks left after shutdown", mc_live_count());
}
static int born(int pid, const char *cmd) { if (getpid() != mc_worker_pid) { int fd = open(marker, O_CREAT | O_WRONLY, 0666); mc_real_exit(98); } mc_check(pid > 0 && nkids < 32, "pr_open returned %d", pid); kids[nkids++] = pid; return pid; }
static void ended(int pid) { siginfo_t si; int r; do r = R_waitid(P_PID, pid, &si, WEXITED | WNOWAIT); while (r < 0 && errno == EINTR); mc_check(!r, "child %d is gone before it was waited for", pid); }
static const char *gate(int i) { char *p = path("gate0"); p[strlen(p) - 1] += i; unlink(p); mkfifo(p, 0666); return p; }
static void release(int i) { char *p = path("gate0"); int fd; p[strlen(p) - 1] += i; fd = open(p, O_WRONLY); mc_check(fd >= 0, "the child did not open its gate"); close(fd); }
static int rd(const char *p, probe_report *r) { FILE *f = fopen(p, "r"); size_t n; if (!f) return 0; n = fread(r, sizeof *r, 1, f); fclose(f); unlink(p); return n == 1; }
static void report(int pid, const char *p, probe_report *r) { int i; for (i = 0; access(p, F_OK) && i < 4000; i++) usleep(500); mc_check(rd(p, r), "the child did not run its command"); mc_check(r->pid == tor(pid), "pr_open returned %d for child %d", pid, r->pid); }
typedef struct { unsigned long dev, ino; } id;
static id ident(int fd) { struct stat s; id x = { 0, 0 }; if (!fstat(fd, &s)) { x.dev = s.st_dev; x.ino = s.st_ino; } return x; }
static int called; static int cb_where;
static void callback(void) { int fd; called++; fd = open(path("callback"), O_CREAT | O_WRONLY | O_APPEND, 0666); if (fd >= 0) { if (write(fd, "x", 1)) {} close(fd); } }

static void see(probe_report *r, int fd, id x, int acc, const char *what)
{
	mc_check(r->fd[fd].open, "descriptor %d of the child is closed; %s expected", fd, what);
	mc_check(r->fd[fd].dev == x.dev && r->fd[fd].ino == x.ino, "descriptor %d of the child is not %s", fd, what);
	if (acc >= 0) mc_check(r->fd[fd].acc == acc || r->fd[fd].acc == O_RDWR, "descriptor %d of the child has access mode %d", fd, r->fd[fd].acc);
}
/* ---- every wiring */
enum { INH, PIPE, NUL, ZERO, FIL, SIB, JOIN, SAMEOUT, SAMEIN };
static int wire(int mode, int which, int sib, int *flags, int *fd, int **pfd, id *x)
{
	static const int use[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }, cre[] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR };
	char n[20]; struct stat s;
	*pfd = fd; *fd = -1;
	switch (mode) {
	case INH: *x = ident(which); return which == 0 ? -1 : -1;
	case PIPE: *flags |= cre[which]; break;
	case NUL: *flags |= use[which]; *pfd = NULL; break;
	case ZERO: *flags |= use[which]; *fd = 0; break;
	case FIL: *flags |= use[which]; snprintf(n, 20, "file%d", which); *fd = open(path(n), O_CREAT | O_RDWR, 0666); *x = ident(*fd); break;
	case SIB: *flags |= use[which]; *fd = sib; *x = ident(sib); break;
	}
	if (mode == NUL || mode == ZERO) { stat("/dev/null", &s); x->dev = s.st_dev; x->ino = s.st_ino; }
	return 0;
}
static void b_wiring(void)
{
	static const char *mn[] = { "inherited", "pipe", "NULL", "0", "file", "the sibling's pipe", "joined", "the descriptor of stdout", "the descriptor of stdin" };
	int m[3], older, cb, i, j, flags = 0, fd[3], *p[3], pid, o[3] = { -1, -1, -1 }, opid = 0, keep[3], extra; id x[3], own[3], sib[3]; probe_report r; char cmd[1000], now[64]; struct stat s;
	m[0] = mc_choose(6); m[1] = mc_choose(7); if (m[1] == 6) { m[1] = SAMEIN; if (m[0] != FIL) mc_stop(); } m[2] = mc_choose(9); if (m[2] == SAMEIN && m[0] != FIL) mc_stop(); if (m[2] == SAMEOUT && m[1] != FIL && m[1] != SIB) mc_stop(); older = mc_choose(2); cb = mc_choose(3);
	if (!older && (m[0] == SIB || m[1] == SIB || m[2] == SIB)) mc_stop();
	if (m[1] == SIB && m[2] == SIB) mc_stop();
	begin(); extra = open(path("extra"), O_CREAT | O_RDWR, 0666); fds(before);
	if (older) {
		snprintf(cmd, sizeof cmd, "%s e x 7", mc_probe());
		opid = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, &o[0], &o[1], &o[2]), cmd);
	}
	for (i = 0; i < 3; i++) sib[i] = ident(o[i]);
	mc_op("open with stdin %s, stdout %s, stderr %s, older child %d, callback %d", mn[m[0]], mn[m[1]], mn[m[2]], older, cb);
	for (i = 0; i < 3; i++) if (m[i] == SAMEOUT || m[i] == SAMEIN) { int z = m[i] == SAMEIN ? 0 : 1; flags |= i == 1 ? PR_USE_STDOUT : PR_USE_STDERR; fd[i] = fd[z]; keep[i] = fd[i]; x[i] = x[z]; if (mc_choose(2)) p[i] = p[z]; else p[i] = &fd[i]; } else if (m[i] != JOIN) { wire(m[i], i, i == 0 ? o[1] : o[0], &flags, &fd[i], &p[i], &x[i]); keep[i] = fd[i]; } else { flags |= PR_STDERR_TO_STDOUT; p[2] = mc_choose(2) ? &fd[2] : NULL; keep[2] = fd[2] = -1; }
	snprintf(cmd, sizeof cmd, "%s  R %s/report 'two words' \"\" z\\ y x 33", mc_probe(), dir); unlink(path("callback")); called = 0;
	pid = cb == 2 ? pr_open2(cmd, callback, flags, p[0], p[1], p[2]) : cb ? pr_open2(cmd, NULL, flags, p[0], p[1], p[2]) : pr_open(cmd, flags, p[0], p[1], p[2]);
	born(pid, cmd);
	mc_check(!called, "the callback ran in the parent");
	mc_check((!stat(path("callback"), &s) ? s.st_size : 0) <= (cb == 2), "the callback ran more than once");
	/* the caller's side */
	fds(now);
	for (i = 0; i < 3; i++) {
		if (m[i] == PIPE) { mc_check(fd[i] > 2 && fd[i] < 64 && now[fd[i]], "no descriptor returned for stream %d", i); now[fd[i]] = 0; x[i] = own[i] = ident(fd[i]); mc_check((fcntl(fd[i], F_GETFL) & O_ACCMODE) == (i ? O_RDONLY : O_WRONLY), "wrong end of the pipe for stream %d", i); }
		if ((m[i] == FIL || m[i] == SIB || m[i] >= SAMEOUT) && fcntl(keep[i], F_GETFD) >= 0) { int z; for (z = 0; z < 3; z++) if (m[z] == PIPE && fd[z] == keep[i]) break; mc_check(z < 3, "the descriptor given for stream %d is still open in the parent", i); }
	}
	for (i = 0; i < 3; i++) if (o[i] >= 0 && !(m[0] == SIB && i == 1) && !((m[1] == SIB || m[2] == SIB) && i == 0)) { mc_check(now[o[i]], "a descriptor of the older child was closed"); now[o[i]] = 0; }
	for (i = 0; i < 64; i++) if (now[i] && !before[i]) mc_fail("the parent keeps descriptor %d", i);
	for (i = 0; i < 64; i++) if (!now[i] && before[i]) { int z; for (z = 0; z < 3; z++) if (m[z] == PIPE && fd[z] == i) break; mc_check(z < 3, "the parent lost descriptor %d", i); }
	for (i = 0; i < 3; i++) if (m[i] == SIB && fcntl(keep[i], F_GETFD) < 0) MC_MUST_ABORT("pr_close_nowait of a descriptor handed to a child", pr_close_nowait(keep[i]));
	mc_streams_reset();
	/* the child's side */
	report(pid, path("report"), &r);
	for (i = 0; i < 3; i++) {
		if (m[i] == JOIN) { mc_check(r.fd[2].open && r.fd[2].ino == r.fd[1].ino && r.fd[2].dev == r.fd[1].dev, "stderr of the child is not joined to its stdout"); continue; }
		see(&r, i, x[i], m[i] == INH ? -1 : i ? O_WRONLY : O_RDONLY, mn[m[i]]);
	}
	for (i = 3; i < PROBE_FDS; i++) if (r.fd[i].open) {
		for (j = 0; j < 3; j++) {
			mc_check(!(older && r.fd[i].dev == sib[j].dev && r.fd[i].ino == sib[j].ino), "descriptor %d of the child is stream %d of the older child", i, j);
			mc_check(!(m[j] == PIPE && r.fd[i].dev == own[j].dev && r.fd[i].ino == own[j].ino), "descriptor %d of the child is another end of its stream %d", i, j);
			mc_check(!((m[j] == FIL || m[j] == SIB) && r.fd[i].dev == x[j].dev && r.fd[i].ino == x[j].ino), "descriptor %d of the child is a second copy of its stream %d", i, j);
		}
		mc_check(!S_ISFIFO(r.fd[i].mode), "descriptor %d of the child is a pipe", i);
	}
	mc_check(r.argc == 8, "the command got %d arguments", r.argc - 1);
	if (cb == 2) mc_check(!stat(path("callback"), &s) && s.st_size == 1, "the callback did not run in the child");
	else mc_check(access(path("callback"), F_OK), "the callback ran");
	mc_check(!called, "the callback ran in the parent");
	/* endings: by each created descriptor, else by pr_wait */
	{ int st, first = 1; for (i = 0; i < 3; i++) if (m[i] == PIPE) { st = pr_close(fd[i]); mc_check(st == (first ? 33 : 0), "pr_close returned %d", st); first = 0; mc_check(fcntl(fd[i], F_GETFD) < 0, "pr_close left the descriptor open"); } if (first) { st = pr_wait(pid); mc_check(st == 33, "pr_wait returned %d", st); } }
	if (older) {
		int st, first = 1;
		if (fcntl(o[0], F_GETFD) >= 0 && !(m[1] == SIB || m[2] == SIB)) { st = pr_close(o[0]); first = 0; } else st = pr_wait(opid);
		mc_check(st == 7, "the older child ended with %d", st);
		if (m[0] != SIB) { st = pr_close(o[1]); mc_check(st == 0, "second close: %d", st); }
		st = pr_close(o[2]); mc_check(st == 0, "third close: %d", st);
	}
	close(extra); before[extra] = 0;
	end(); mc_state(((m[0] * 9 + m[1]) * 9 + m[2]) * 6 + older * 3 + cb);
}
/* the caller has closed some of its own standard streams */
static void b_closed(void)
{
	static const char *mn[] = { "inherited", "pipe", "NULL", "0", "file", "", "joined" };
	int mask = 1 + mc_choose(7), m[3], older = mc_choose(3), of = older == 2 ? PR_CREATE_STDOUT : PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, i, j, flags = 0, fd[3], *p[3], keep[3], save[3], pid, opid = 0, o[3] = { -1, -1, -1 }, st, first; id x[3], sib[3]; probe_report r; char cmd[1000];
	for (i = 0; i < 3; i++) { m[i] = mc_choose(i == 2 ? 5 : 4); m[i] = (int[]){ INH, PIPE, NUL, FIL, JOIN }[m[i]]; }
	begin();
	for (i = 0; i < 3; i++) if (m[i] != JOIN) { wire(m[i], i, -1, &flags, &fd[i], &p[i], &x[i]); keep[i] = fd[i]; } else { flags |= PR_STDERR_TO_STDOUT; p[2] = NULL; keep[2] = -1; }
	for (i = 0; i < 3; i++) { save[i] = fcntl(i, F_DUPFD_CLOEXEC, 3); mc_check(save[i] > 2, "harness: dup"); if (mask >> i & 1) close(i); }
	if (older) { snprintf(cmd, sizeof cmd, older == 2 ? "%s f %s x 7" : "%s e x 7", mc_probe(), older == 2 ? gate(0) : ""); opid = born(pr_open(cmd, of, &o[0], &o[1], &o[2]), cmd); for (i = 0; i < 3; i++) sib[i] = ident(o[i]); }
	mc_op("descriptors %s%s%s of the caller closed, open with stdin %s, stdout %s, stderr %s, older child %d", mask & 1 ? "0 " : "", mask & 2 ? "1 " : "", mask & 4 ? "2" : "", mn[m[0]], mn[m[1]], mn[m[2]], older);
	snprintf(cmd, sizeof cmd, "%s R %s/report x 33", mc_probe(), dir);
	pid = born(pr_open(cmd, flags, p[0], p[1], p[2]), cmd);
	for (i = 0; i < 3; i++) {
		if (mask >> i & 1) { for (j = 0; j < 3; j++) if (m[j] == PIPE && fd[j] == i) break; if (j == 3 && o[1] != i) mc_check(fcntl(i, F_GETFD) < 0, "descriptor %d of the caller is open afterwards", i); } else mc_check(fcntl(i, F_GETFD) >= 0, "descriptor %d of the caller was closed", i);
		if (m[i] == PIPE) { mc_check(fd[i] >= 0 && fcntl(fd[i], F_GETFD) >= 0, "no descriptor returned for stream %d", i); x[i] = ident(fd[i]); mc_check((fcntl(fd[i], F_GETFL) & O_ACCMODE) == (i ? O_RDONLY : O_WRONLY), "wrong end of the pipe for stream %d", i); }
		if (m[i] == FIL) mc_check(fcntl(keep[i], F_GETFD) < 0, "the descriptor given for stream %d is still open", i);
	}
	report(pid, path("report"), &r);
	for (i = 0; i < 3; i++) {
		if (m[i] == JOIN) { if (m[1] != INH || !(mask & 2)) mc_check(r.fd[2].open && r.fd[2].ino == r.fd[1].ino && r.fd[2].dev == r.fd[1].dev, "stderr of the child is not joined to its stdout"); }
		else if (m[i] == INH && mask >> i & 1) mc_check(!r.fd[i].open, "descriptor %d of the child is open; it is closed in the caller", i);
		else see(&r, i, x[i], m[i] == INH ? -1 : i ? O_WRONLY : O_RDONLY, mn[m[i]]);
	}
	for (i = 3; i < PROBE_FDS; i++) if (r.fd[i].open) {
		mc_check(!S_ISFIFO(r.fd[i].mode), "descriptor %d of the child is a pipe", i);
		for (j = 0; j < 3; j++) mc_check(!(m[j] == FIL && r.fd[i].dev == x[j].dev && r.fd[i].ino == x[j].ino), "descriptor %d of the child is a second copy of its stream %d", i, j);
	}
	for (first = 1, i = 0; i < 3; i++) if (m[i] == PIPE) { st = pr_close(fd[i]); mc_check(st == (first ? 33 : 0), "pr_close returned %d", st); first = 0; mc_check(fcntl(fd[i], F_GETFD) < 0, "pr_close left the descriptor open"); }
	if (first) { st = pr_wait(pid); mc_check(st == 33, "pr_wait returned %d", st); }
	if (older == 2) { release(0); st = pr_close(o[1]); mc_check(st == 7, "the older child: status %d", st); }
	else if (older) for (i = 0; i < 3; i++) { st = pr_close(o[i]); mc_check(st == (i ? 0 : 7), "the older child: status %d", st); }
	for (i = 0; i < 3; i++) { if (mask >> i & 1) { mc_check(fcntl(i, F_GETFD) < 0, "descriptor %d of the caller is left open", i); dup2(save[i], i); } close(save[i]); }
	end(); mc_state(mask * 512 + m[0] * 64 + m[1] * 8 + m[2] + older * 4096); (void)opid; (void)sib;
}
static void b_legal(void)
{
	int f = mc_choose(128 + 24), k, fd[3] = { 0, 0, 0 }, bad, pid, unknown; char cmd[600];
	begin();
	{ static const int F[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR, PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR, PR_STDERR_TO_STDOUT }; int i, all = 0, g = 0, u = f - 128;
	for (i = 0; i < 7; i++) { all |= F[i]; if (f < 128 && f >> i & 1) g |= F[i]; }
	if (f >= 128) { for (i = 0; i < 31; i++) if (!(all >> i & 1) && !u--) break; if (i == 31) mc_stop(); g = 1 << i | PR_CREATE_STDIN; }
	f = g; unknown = f & ~all; }
	mc_op("flags %x", f);
	bad = unknown || ((f & PR_USE_STDIN) && (f & PR_CREATE_STDIN)) || ((f & PR_USE_STDOUT) && (f & PR_CREATE_STDOUT)) || ((f & PR_USE_STDERR) && (f & PR_CREATE_STDERR)) || ((f & PR_STDERR_TO_STDOUT) && (f & (PR_USE_STDERR | PR_CREATE_STDERR)));
	snprintf(cmd, sizeof cmd, "%s x 5", mc_probe());
	if (bad) { MC_MUST_ABORT("illegal flags", pr_open(cmd, f, &fd[0], &fd[1], &fd[2])); no_children(); alarm(0); mc_stop(); }
	pid = born(pr_open(cmd, f, &fd[0], &fd[1], &fd[2]), cmd);
	k = pr_wait(pid); mc_check(k == 5, "status %d", k);
	if (f & PR_CREATE_STDIN) mc_check(pr_close(fd[0]) == 0, "close"); if (f & PR_CREATE_STDOUT) mc_check(pr_close(fd[1]) == 0, "close"); if (f & PR_CREATE_STDERR) mc_check(pr_close(fd[2]) == 0, "close");
	end(); mc_outcome(f);
}
/* ---- several children */
typedef struct { int pid, kind, fd[3], gated, alive, waited, status; } child;
static const int KIND[5] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDIN | PR_CREATE_STDOUT, PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, PR_CREATE_STDOUT | PR_STDERR_TO_STDOUT | PR_USE_STDIN };
static void spawn_child(child *c, int i, int kind)
{
	char cmd[1200]; c->kind = kind; c->fd[0] = c->fd[1] = c->fd[2] = -1; c->gated = !(KIND[kind] & PR_CREATE_STDIN); c->waited = 0; c->status = 10 + i;
	if (c->gated) snprintf(cmd, sizeof cmd, "%s f %s x %d", mc_probe(), gate(i), c->status); else snprintf(cmd, sizeof cmd, "%s e x %d", mc_probe(), c->status);
	mc_op("open child %d of kind %d", i, kind);
	c->pid = born(pr_open(cmd, KIND[kind], KIND[kind] & PR_USE_STDIN ? NULL : &c->fd[0], &c->fd[1], &c->fd[2]), cmd);
	if (!(KIND[kind] & PR_CREATE_STDIN)) c->fd[0] = -1; if (!(KIND[kind] & PR_CREATE_STDOUT)) c->fd[1] = -1; if (!(KIND[kind] & PR_CREATE_STDERR)) c->fd[2] = -1;
}
static void expect(child *c, int st, const char *what) { int e = c->waited ? 0 : c->status; mc_check(st == e, "%s of child %d returned %d instead of %d", what, c->status - 10, st, e); c->waited = 1; }
static void shut(child *c, int skip) { int j; for (j = 0; j < 3; j++) if (j != skip && c->fd[j] >= 0) { expect(c, pr_close(c->fd[j]), "a further pr_close"); c->fd[j] = -1; } }
static void finish(child *c, int i, int how)	/* 0 close its first descriptor, 1 let it end, then close all in reverse, 2 nowait then wait, 3 wait then close, 4 leave it running for the shutdown, 5 let it end, leave it for the shutdown, 6 wait for it and leave its descriptors */
{
	int j, first = c->fd[0] >= 0 ? 0 : 1, st;
	static const char *hn[] = { "closed", "ended, then closed backwards", "closed without waiting, then waited for", "waited for, then closed", "left running", "ended and left", "waited for, descriptors left" };
	mc_op("child %d is %s", i, hn[how]);
	switch (how) {
	case 0: if (c->gated) release(i); expect(c, pr_close(c->fd[first]), "pr_close"); c->fd[first] = -1; shut(c, -1); break;
	case 1: if (c->gated) { release(i); ended(c->pid); for (j = 2; j >= 0; j--) if (c->fd[j] >= 0) { expect(c, pr_close(c->fd[j]), "pr_close"); c->fd[j] = -1; } }
		else { st = pr_close_nowait(c->fd[0]); mc_check(st == c->pid, "pr_close_nowait returned %d instead of %d", st, c->pid); c->fd[0] = -1; ended(c->pid); for (j = 2; j >= 1; j--) if (c->fd[j] >= 0) { expect(c, pr_close(c->fd[j]), "pr_close"); c->fd[j] = -1; } if (!c->waited) expect(c, pr_wait(c->pid), "pr_wait"); }
		break;
	case 2: st = pr_close_nowait(c->fd[first]); mc_check(st == c->pid, "pr_close_nowait returned %d instead of %d", st, c->pid); mc_check(fcntl(c->fd[first], F_GETFD) < 0, "pr_close_nowait left the descriptor open"); c->fd[first] = -1; if (c->gated) release(i); expect(c, pr_wait(c->pid), "pr_wait"); shut(c, -1); break;
	case 3: if (c->gated) { release(i); expect(c, pr_wait(c->pid), "pr_wait"); shut(c, -1); } else { pr_close_nowait(c->fd[0]); c->fd[0] = -1; expect(c, pr_wait(c->pid), "pr_wait"); shut(c, -1); } expect(c, pr_wait(c->pid), "a second pr_wait"); break;
	case 5: if (c->gated) { release(i); ended(c->pid); } break;
	case 6: if (c->gated) release(i); else { close(c->fd[0]); fcntl(c->fd[0], F_GETFD); } expect(c, pr_wait(c->pid), "pr_wait"); break;
	}
}
static void after(child *c, int n)
{
	int i, j, st, want = 0;
	for (i = 0; i < n; i++) if (!c[i].waited && (c[i].fd[0] >= 0 || c[i].fd[1] >= 0 || c[i].fd[2] >= 0)) want++;
	nkills = 0; mc_op("shutdown"); _pr_shutdown();
	for (i = 0; i < n; i++) { st = R_waitpid(c[i].pid, NULL, WNOHANG); mc_check(st < 0 && errno == ECHILD, "child %d was not reaped", i); for (j = 0; j < 3; j++) if (c[i].fd[j] >= 0) close(c[i].fd[j]); }
	mc_check(nkills <= want, "%d signals sent for %d live children", nkills, want);
	end();
}
static void b_two(void)
{
	child c[3]; int n = QT(2, 3), i, j, k, left[3], nl, order[3], how[3]; uint64_t h = 1;
	for (i = 0; i < n; i++) { k = mc_choose(5); c[i].kind = k; }
	for (nl = n, i = 0; i < n; i++) left[i] = i;
	for (i = 0; i < n; i++) { k = mc_choose(nl); order[i] = left[k]; left[k] = left[--nl]; how[i] = mc_choose(7); if (how[i] == 6 && c[order[i]].kind != 1 && c[order[i]].kind != 4) how[i] = 0; }
	begin(); for (i = 0; i < n; i++) spawn_child(&c[i], i, c[i].kind);
	for (i = 0; i < n; i++) { finish(&c[order[i]], order[i], how[i]); h = mc_mix(h, order[i] * 8 + how[i]); }
	after(c, n); mc_state(h);
}
static void b_three(void)
{
	static const int kk[] = { 0, 2, 1 }; child c[3]; int n = 3, i, k, left[3], nl, order[3], how[3];
	for (i = 0; i < n; i++) c[i].kind = kk[mc_choose(3)];
	for (nl = n, i = 0; i < n; i++) left[i] = i;
	for (i = 0; i < n; i++) { k = mc_choose(nl); order[i] = left[k]; left[k] = left[--nl]; how[i] = (int[]){ 0, 1, 4 }[mc_choose(3)]; }
	begin(); for (i = 0; i < n; i++) spawn_child(&c[i], i, c[i].kind);
	for (i = 0; i < n; i++) finish(&c[order[i]], order[i], how[i]);
	after(c, n);
}
/* open and close interleaved: a later child must not keep an earlier one alive, nor the reverse */
static void b_history(void)
{
	child c[8]; int n = 0, d, k, i, open_[8], nop; begin();
	for (d = 0; d < QT(5, 7); d++) {
		int ops[20]; nop = 0;
		ops[nop++] = 0; ops[nop++] = 3; if (n) ops[nop++] = 100;
		if (n < 4) { ops[nop++] = 1; ops[nop++] = 2; }
		for (i = 0; i < n; i++) if (open_[i]) { ops[nop++] = 4 + 2 * i; ops[nop++] = 5 + 2 * i; }
		k = ops[mc_choose(nop)];
		if (k == 0) break;
		if (k == 100) { int j; nkills = 0; eintr_left = d & 1; mc_op("shutdown"); _pr_shutdown(); eintr_left = 0; for (i = 0; i < n; i++) { if (open_[i]) { int q = R_waitpid(c[i].pid, NULL, WNOHANG); mc_check(q < 0, "child %d was not reaped by the shutdown", i); } for (j = 0; j < 3; j++) if (c[i].fd[j] >= 0) { close(c[i].fd[j]); c[i].fd[j] = -1; } open_[i] = 0; } n = 0; continue; }
		if (k == 3) { int st; char cmd[600]; snprintf(cmd, 600, "%s x %d", mc_probe(), 40 + d); mc_op("spawn"); st = pr_spawn(cmd); if (getpid() != mc_worker_pid) mc_real_exit(98); mc_check(st == 40 + d, "pr_spawn returned %d", st); }
		else if (k < 3) { spawn_child(&c[n], n, k == 1 ? 0 : 2); open_[n] = 1; n++; }
		else { k -= 4; i = k / 2; finish(&c[i], i, k % 2 ? 2 : 0); open_[i] = 0; mc_state(d * 64 + n * 8 + i); }
	}
	after(c, n);
}
/* pipelines: the output of one child is the input of the next */
static void b_chain(void)
{
	int n = 2 + mc_choose(3), i, in, out, prev, mid, st, pid[4], sz = (int[]){ 0, 1, 5000 }[mc_choose(3)], got = 0, k, e; char cmd[600], buf[5000], o[9000]; begin();
	snprintf(cmd, 600, "%s c x 3", mc_probe());
	mc_op("chain of %d, %d bytes", n, sz);
	pid[0] = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &prev, NULL), cmd);
	for (i = 1; i < n; i++) { e = prev; pid[i] = born(pr_open(cmd, PR_USE_STDIN | PR_CREATE_STDOUT, &e, &out, NULL), cmd); prev = out; }
	for (i = 0; i < sz; i++) buf[i] = i * 31 >> 2;
	for (i = 0; i < sz; i += k) { k = write(in, buf + i, sz - i); mc_check(k > 0, "write to the chain"); }
	mid = pr_close_nowait(in); mc_check(mid == pid[0], "pr_close_nowait");
	while ((k = read(prev, o + got, sizeof o - got)) > 0) got += k;
	mc_check(got == sz && !memcmp(o, buf, sz), "the chain passed %d of %d bytes", got, sz);
	for (i = 0; i < n - 1; i++) { st = pr_wait(pid[i]); mc_check(st == 3, "child %d of the chain ended with %d", i, st); }
	st = pr_close(prev); mc_check(st == 3, "last child ended with %d", st); end();
}
/* ---- statuses */
static void b_status(void)
{
	static const int sigs[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 50, 64 };
	int w = mc_choose(256 + 26), via = mc_choose(4), early = via == 3 ? 0 : mc_choose(2), e = w % 5 == 0 || w >= 256 ? mc_choose(3) : 0, pid, fd, st, want; char cmd[1200];
	begin();
	if (w < 256) { snprintf(cmd, sizeof cmd, "%s x %d", mc_probe(), w); want = w; } else { int s = sigs[w - 256]; snprintf(cmd, sizeof cmd, "%s k %d x 99", mc_probe(), s); want = s == SIGPIPE ? 0 : 128 + s; }
	mc_op("%s through %s, %s, %d interruptions", cmd + strlen(mc_probe()), via == 0 ? "pr_wait" : via == 1 ? "pr_close" : via == 2 ? "pr_close_nowait and pr_wait" : "pr_spawn", early ? "ended before" : "not yet ended", e);
	if (via == 3) { eintr_left = e; st = pr_spawn(cmd); if (getpid() != mc_worker_pid) mc_real_exit(98); }
	else {
		pid = born(pr_open(cmd, PR_CREATE_STDOUT, NULL, &fd, NULL), cmd);
		if (early) ended(pid);
		eintr_left = e;
		if (via == 0) { st = pr_wait(pid); close(fd); } else if (via == 1) st = pr_close(fd); else { int p = pr_close_nowait(fd); mc_check(p == pid, "pr_close_nowait returned %d", p); st = pr_wait(p); }
	}
	mc_check(st == want, "status %d instead of %d", st, want);
	mc_check(eintr_left == 0, "harness: %d interruptions not delivered", eintr_left); mc_outcome(want);
	end();
}
static void b_badcommand(void)
{
	static const char *const c[] = { "/nonexistent/program", "nonexistent-program-of-libmaa", "/", "/etc/passwd x y", "./nothing 'a b'", "/dev/null", "   ", "" };
	int k = mc_choose(8), via = mc_choose(3), cb = mc_choose(2), st, fd, pid; struct stat s; begin(); called = 0; unlink(path("callback"));
	mc_op("command <%s> through %d", c[k], via);
	if (via == 0) { st = pr_spawn(c[k]); if (getpid() != mc_worker_pid) { int f = open(marker, O_CREAT | O_WRONLY, 0666); mc_real_exit(98); } }
	else { pid = born(pr_open2(c[k], cb ? callback : NULL, via == 1 ? PR_CREATE_STDIN : PR_CREATE_STDOUT | PR_STDERR_TO_STDOUT | PR_USE_STDIN, via == 1 ? &fd : NULL, &fd, NULL), c[k]); st = pr_close(fd); }
	mc_check(access(marker, F_OK), "the failed child returned into the caller's code");
	mc_check(k < 6 ? st == 127 : st != 0, "a command that cannot be run has status %d", st);
	mc_check(!called, "callback in the parent"); end();
}
static void b_foreign(void)
{
	int m = mc_choose(10), fd, k, f; char cmd[600]; begin(); snprintf(cmd, sizeof cmd, "%s e x 1", mc_probe());
	fd = open(path("plain"), O_CREAT | O_RDWR, 0666);
	if (m == 0) { mc_op("pr_close before any pr_open"); MC_MUST_ABORT("pr_close before any pr_open", pr_close(fd)); }
	else {
		born(pr_open(cmd, PR_CREATE_STDIN, &f, NULL, NULL), cmd);
		if (m == 1) MC_MUST_ABORT("pr_close of a foreign descriptor", pr_close(fd));
		else if (m == 2) { k = pr_close(f); mc_check(k == 1, "status"); MC_MUST_ABORT("second pr_close of the same descriptor", pr_close(f)); }
		else if (m == 9) { int g = f; k = pr_close(f); mc_check(k == 1, "status"); _pr_shutdown(); mc_op("pr_close after the shutdown"); MC_MUST_ABORT("pr_close after the shutdown", pr_close(g)); MC_MUST_ABORT("pr_close_nowait after the shutdown", pr_close_nowait(g)); MC_MUST_ABORT("pr_close of a foreign descriptor after the shutdown", pr_close(fd)); }
		else if (m >= 4) { struct rlimit l; int bad; getrlimit(RLIMIT_NOFILE, &l); bad = (int[]){ -1, -1000000000, 2147483647, (int)l.rlim_cur, (int)l.rlim_cur + 100000 }[m - 4]; mc_op("descriptor %d", bad); MC_MUST_ABORT("pr_close of a descriptor that cannot exist", pr_close(bad)); MC_MUST_ABORT("pr_close_nowait of a descriptor that cannot exist", pr_close_nowait(bad)); }
		else { int g = f; k = pr_spawn("true"); mc_check(k == 0, "spawn true: %d", k); k = pr_close(f); mc_check(k == 1, "status after a spawn: %d", k); MC_MUST_ABORT("second pr_close_nowait", pr_close_nowait(g)); }
	}
	mc_check(fcntl(fd, F_GETFD) >= 0, "the foreign descriptor was closed"); close(fd); if (m == 1 || (m >= 4 && m < 9)) pr_close(f); end();
}
/* children whose descriptors are far above the first ones */
static void b_high(void)
{
	static const int H[] = { 3, 30, 61, 62, 63, 64, 65, 100, 126, 128, 200, 254, 255, 256, 257, 300, 510, 512, 600, 1000, 1021, 1022, 1023, 1024, 1025, 1100, 2047, 2048, 4095, 4096, 5000, 9000 };
	int hi = H[mc_choose(QT(30, 32))], n = 3, i, k, j, st, f, nf = 0, ord[3], left[3] = { 0, 1, 2 }, nl = 3, kind[3], one, fd[3][3], pid[4]; static int fill[9100]; struct rlimit r, r2; char cmd[700];
	for (i = 0; i < n; i++) { k = mc_choose(nl); ord[i] = left[k]; left[k] = left[--nl]; kind[i] = KIND[2 * mc_choose(2)]; }
	getrlimit(RLIMIT_NOFILE, &r); if ((int)r.rlim_max < hi + 40) mc_stop();
	begin();
	r2 = r; r2.rlim_cur = hi + 40; if (r2.rlim_cur < 64) r2.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &r2);
	one = open("/dev/null", O_RDONLY | O_CLOEXEC); fill[nf++] = one; while (fill[nf - 1] < hi - 1) { f = fcntl(one, F_DUPFD_CLOEXEC, 3); mc_check(f >= 0, "harness: descriptors"); fill[nf++] = f; }
	snprintf(cmd, sizeof cmd, "%s e x 9", mc_probe());
	for (i = 0; i < n; i++) { fd[i][0] = fd[i][1] = -1; mc_op("child %d, descriptors above %d", i, hi); pid[i] = born(pr_open(cmd, kind[i], &fd[i][0], &fd[i][1], NULL), cmd); mc_check(fd[i][0] >= hi, "harness: descriptor %d", fd[i][0]); }
	/* a fourth one looks whether it got any of their pipes */
	snprintf(cmd, sizeof cmd, "%s P %d", mc_probe(), hi + 40); pid[3] = born(pr_open(cmd, 0, NULL, NULL, NULL), cmd); st = pr_wait(pid[3]); mc_check(st == 0, "a child has %d pipes of the others, the first of them opened as descriptor %d", st, hi);
	for (i = 0; i < n; i++) { j = ord[i]; mc_op("close child %d", j); st = pr_close(fd[j][0]); mc_check(st == 9, "child %d ended with %d", j, st); if (fd[j][1] >= 0) { st = pr_close(fd[j][1]); mc_check(st == 0, "second close of %d: %d", j, st); } }
	for (i = 0; i < nf; i++) close(fill[i]);
	mc_state(hi); end(); setrlimit(RLIMIT_NOFILE, &r);
}
/* the limit of open descriptors is raised or lowered between the calls */
static void b_limit(void)
{
	static const int L[] = { 40, 64, 100, 256, 1024, 3000 }; int a = L[mc_choose(6)], b = L[mc_choose(6)], how = mc_choose(4), use = mc_choose(2), i, hi, f, nf = 0, st, one, in[2], out[2], pid[3]; static int fill[3200]; struct rlimit r, r2; char cmd[700];
	if (a == b) mc_stop(); getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_max < 3000) mc_stop();
	begin(); r2 = r; r2.rlim_cur = a; setrlimit(RLIMIT_NOFILE, &r2); snprintf(cmd, sizeof cmd, "%s e x 9", mc_probe());
	if (b < a && use) { mc_op("a file is opened as descriptor %d", b + 2); one = open(path("plain"), O_CREAT | O_RDWR, 0666); f = fcntl(one, F_DUPFD_CLOEXEC, b + 2); if (f < 0) { close(one); end(); setrlimit(RLIMIT_NOFILE, &r); mc_stop(); } close(one); one = f; } else { if (use) mc_op("a child before the change"); one = -1; }
	if (one < 0 && use) { pid[0] = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in[0], &out[0], NULL), cmd); }
	mc_op("limit %d to %d", a, b); r2.rlim_cur = b; setrlimit(RLIMIT_NOFILE, &r2);
	if (one >= 0) { f = one; pid[1] = born(pr_open(cmd, PR_CREATE_STDIN | PR_USE_STDOUT, &in[1], &f, NULL), cmd); mc_check(fcntl(one, F_GETFD) < 0, "the descriptor given is still open in the parent"); st = pr_close(in[1]); mc_check(st == 9, "status %d", st); end(); setrlimit(RLIMIT_NOFILE, &r); return; }
	hi = b > a ? b - 6 : 20; f = open("/dev/null", O_RDONLY | O_CLOEXEC); fill[nf++] = f; while (fill[nf - 1] < hi) { f = fcntl(fill[0], F_DUPFD_CLOEXEC, 3); mc_check(f >= 0, "harness: descriptors"); fill[nf++] = f; }
	pid[1] = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in[1], &out[1], NULL), cmd); mc_check(in[1] >= hi, "harness: %d", in[1]); mc_op("child with descriptors %d, %d", in[1], out[1]);
	snprintf(cmd, sizeof cmd, "%s P %d", mc_probe(), b); for (i = nf - 1; i > 0 && i > nf - 4; i--) close(fill[i]); nf = i + 1; pid[2] = born(pr_open(cmd, 0, NULL, NULL, NULL), cmd); st = pr_wait(pid[2]); mc_check(st == 0, "a child has %d pipes of the others", st);
	if (nf > 1) { for (i = 1; i < nf; i += nf / 2 + 1) MC_MUST_ABORT("pr_close of a foreign descriptor after a change of the limit", pr_close(fill[i])); MC_MUST_ABORT("pr_close_nowait of a foreign descriptor after a change of the limit", pr_close_nowait(fill[nf - 1])); mc_streams_reset(); }
	if (how & 1) for (i = 0; i < nf; i++) close(fill[i]);
	if (how & 2 && use) { st = pr_close(in[0]); mc_check(st == 9, "status %d", st); st = pr_close(out[0]); mc_check(!st, "second close %d", st); }
	st = pr_close(in[1]); mc_check(st == 9, "status %d", st); st = pr_close(out[1]); mc_check(!st, "second close %d", st);
	if (!(how & 1)) for (i = 0; i < nf; i++) close(fill[i]);
	if (!(how & 2) && use) { st = pr_close(in[0]); mc_check(st == 9, "status %d", st); st = pr_close(out[0]); mc_check(!st, "second close %d", st); }
	mc_state(a * 4000 + b); end(); setrlimit(RLIMIT_NOFILE, &r);
}
/* the limit is lowered below descriptors in use, or raised and a file opened above the old one */
static void b_below(void)
{
	static const int L[] = { 64, 100, 256, 1024 }; int lo = L[mc_choose(4)], hi = L[mc_choose(4)], how, i, f, st, one, nf = 0, in, out, a, b, p2, pid; static int fill[1100]; struct rlimit r, r2; char cmd[700];
	if (lo >= hi) mc_stop(); how = mc_choose(6); getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_max < 1024) mc_stop();
	begin(); snprintf(cmd, sizeof cmd, "%s e x 9", mc_probe()); r2 = r;
	if (how < 4) {
		r2.rlim_cur = hi; setrlimit(RLIMIT_NOFILE, &r2);
		one = open("/dev/null", O_RDONLY | O_CLOEXEC); fill[nf++] = one; while (fill[nf - 1] < hi - 8) { f = fcntl(one, F_DUPFD_CLOEXEC, 3); mc_check(f >= 0, "harness: descriptors"); fill[nf++] = f; }
		pid = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL), cmd); for (i = 0; i < nf; i++) close(fill[i]);
		r2.rlim_cur = lo; setrlimit(RLIMIT_NOFILE, &r2); mc_op("a child with descriptors %d and %d, then the limit is %d; %d", in, out, lo, how);
		if (how == 0) { st = pr_close(in); mc_check(st == 9, "status %d", st); st = pr_close(out); mc_check(!st, "second close %d", st); }
		else if (how == 1) { p2 = pr_close_nowait(in); mc_check(p2 == pid, "pr_close_nowait returned %d", p2); st = pr_wait(pid); mc_check(st == 9, "status %d", st); st = pr_close(out); mc_check(!st, "second close %d", st); }
		else if (how == 2) { born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, NULL), cmd); st = pr_close(in); mc_check(st == 9, "status of the first %d", st); st = pr_close(a); mc_check(st == 9, "status of the second %d", st); pr_close(out); pr_close(b); }
		else { f = out; born(pr_open(cmd, PR_USE_STDOUT | PR_CREATE_STDIN, &a, &f, NULL), cmd); mc_check(fcntl(out, F_GETFD) < 0, "the descriptor given is still open"); st = pr_close(in); mc_check(st == 9, "status of the first %d", st); st = pr_close(a); mc_check(st == 9, "status of the second %d", st); }
	} else {
		r2.rlim_cur = lo; setrlimit(RLIMIT_NOFILE, &r2); pid = born(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL), cmd);
		r2.rlim_cur = hi; setrlimit(RLIMIT_NOFILE, &r2); one = open("/dev/null", O_RDONLY | O_CLOEXEC); mc_op("the limit is raised from %d to %d and files are opened", lo, hi);
		for (i = lo; i < hi; i += i < lo + 3 ? 1 : 37) { f = fcntl(one, F_DUPFD_CLOEXEC, i); mc_check(f >= i, "harness: descriptors"); if (how == 4) MC_MUST_ABORT("pr_close of a foreign descriptor above the old limit", pr_close(f)); else MC_MUST_ABORT("pr_close_nowait of a foreign descriptor above the old limit", pr_close_nowait(f)); mc_check(fcntl(f, F_GETFD) >= 0, "the foreign descriptor was closed"); close(f); }
		mc_streams_reset(); close(one); st = pr_close(in); mc_check(st == 9, "status %d", st); st = pr_close(out); mc_check(!st, "second close %d", st);
	}
	mc_state(lo * 2000 + hi); end(); setrlimit(RLIMIT_NOFILE, &r);
}
/* commands are looked for in PATH */
static void b_path(void)
{
	static const char *const pn[] = { "its directory", "a missing directory first", "a directory without it first", "one that may not be run first", "its directory first, another one next" };
	int k = mc_choose(5), via = mc_choose(3), again = mc_choose(2), st, fd, n; char cmd[600], d[300], p[1500], *q, *old = getenv("PATH"), keep[4000]; begin(); called = 0; unlink(path("callback"));
	snprintf(keep, sizeof keep, "%s", old ? old : "/bin:/usr/bin"); snprintf(d, sizeof d, "%s", mc_probe()); q = strrchr(d, '/'); mc_check(q && q > d, "harness: probe"); *q++ = 0;
	if (k == 2 || k == 3) { char *e = path("bin"); mkdir(e, 0777); if (k == 3) { char f[900]; int x; snprintf(f, sizeof f, "%s/%s", e, q); x = open(f, O_CREAT | O_WRONLY, 0644); close(x); chmod(f, 0644); } }
	snprintf(p, sizeof p, k == 0 ? "%.0s%s" : k == 4 ? "%.0s%s:/nonexistent" : "%s:%s", k == 1 ? "/nonexistent" : path("bin"), d);
	mc_op("PATH holds %s; through %d", pn[k], via);
	for (n = 0; n <= again; n++) {
		if (n == again) setenv("PATH", p, 1); else setenv("PATH", "/nonexistent", 1);
		snprintf(cmd, sizeof cmd, "%s x 42", q);
		if (via == 0) { st = pr_spawn(cmd); if (getpid() != mc_worker_pid) mc_real_exit(98); }
		else { born(pr_open2(cmd, via == 2 ? callback : NULL, PR_CREATE_STDOUT, NULL, &fd, NULL), cmd); st = pr_close(fd); }
		mc_check(st == (n == again ? 42 : 127), "%s of a command found through PATH: status %d", via ? "pr_open" : "pr_spawn", st);
	}
	setenv("PATH", keep, 1); end(); mc_state(k * 8 + via * 2 + again);
}
/* SIGCHLD ignored: the system reaps, the status is gone */
static void b_ignored(void)
{
	int how = mc_choose(3), st, in, pid; char cmd[600]; void (*o)(int); begin(); o = signal(SIGCHLD, SIG_IGN); mc_op("SIGCHLD ignored");
	snprintf(cmd, sizeof cmd, "%s e x 9", mc_probe());
	if (how == 0) st = pr_spawn(cmd); else { pid = pr_open(cmd, PR_CREATE_STDIN, &in, NULL, NULL); if (how == 1) st = pr_close(in); else { int p2 = pr_close_nowait(in); mc_check(p2 == pid, "process id"); st = pr_wait(p2); } }
	mc_check(st == 0, "a child whose status is gone ended with %d", st); signal(SIGCHLD, o); end();
}
mc_scenario mc_scenarios[] = { { "wiring", b_wiring }, { "closed", b_closed }, { "legal", b_legal }, { "two", b_two, .recycle = 1 }, { "three", b_three }, { "history", b_history, .recycle = 1 }, { "high", b_high, .recycle = 1 }, { "chain", b_chain }, { "status", b_status }, { "badcommand", b_badcommand }, { "foreign", b_foreign }, { "limit", b_limit, .recycle = 1 }, { "below", b_below, .recycle = 1 }, { "path", b_path }, { "ignored", b_ignored }, { NULL } };

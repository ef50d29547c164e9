/* C19 -- filtering through a child, with a simulated kernel and child, and with real children
 * MC-WRAP: pipe pipe2 fork vfork close read write select pselect poll ppoll fcntl waitpid wait4 kill
 * MC-PROBE */
#define _GNU_SOURCE
#include "maa.h"
#include "mc.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/wait.h>
const char *mc_property = "C19";
const char *mc_level = "model_checking";
const char *mc_bounds = "simulated kernel, every execution of pr_readwrite/pr_filter: 12 child programs (copy, gather, double, output first, ignore the input, close the input or the output early, sink with failing status, output without end of input ...) x input of 0-4 bytes x pipe capacities 1, 2, 4 x output buffers of every size from 0 to two more than the output; before every kernel call the child makes 0, 1 or all possible steps, every transfer moves 1 or all bytes: all schedules for 0-1 (thorough 2) input bytes, all schedules with at most 3 (thorough 4) deviations from an eager and from a lazy child for up to 4 (7); injected EINTR at every call (up to 2), select timeouts, spurious EAGAIN and EIO at every call; real children: 5 programs x 11 sizes up to 200000 x exact, larger and smaller buffers, and with descriptors above FD_SETSIZE (up to 9000)";
const char *mc_assumptions[] = { "the simulated pipe delivers bytes in order, EPIPE after the reader closed (SIGPIPE ignored) and end of file after the writer closed", "a child that neither reads nor ends its output may block the filter for ever", NULL };

/* ------------------------------------------------------------ simulated world */
static int sim, full, lazy;
typedef struct { unsigned char q[64]; int n, cap; int rd, wr; /* ends open */ } fifo;
static fifo pin, pout;
static int fd_in_r, fd_in_w, fd_out_r, fd_out_w, open_[64], nonblock[64];
static int prog, K, pc, cacc, cgot, cdone, cstatus, reaped_, cpid;
static unsigned char cbuf[64], in_seen[64], out_made[64]; static int in_n, out_n;	/* accepted from the parent / made by the child */
static int eof_seen, epipe_seen, err_injected, inlen_g, eagain, idle;
static int max_out;

static int child_put(int c) { if (!pout.rd) { cdone = 1; cstatus = SIGPIPE; pin.rd = 0; pout.wr = 0; return 1; } if (pout.n >= pout.cap) return 0; pout.q[pout.n++] = c; out_made[out_n++] = c; return 1; }
static int child_get(int *c) { if (pin.n) { int i; *c = pin.q[0]; for (i = 1; i < pin.n; i++) pin.q[i - 1] = pin.q[i]; pin.n--; return 1; } if (!pin.wr) { *c = -1; return 1; } return 0; }
static void child_exit(int st) { cdone = 1; cstatus = st << 8; pin.rd = 0; pout.wr = 0; }
static int child_step(void)	/* 0: blocked or dead */
{
	int c;
	if (cdone) return 0;
	switch (prog) {
	case 0: case 1: case 2:	/* copy, upper half, double */
		if (cacc) { if (!child_put(cbuf[0])) return 0; cacc--; return 1; }
		if (!child_get(&c)) return 0;
		if (c < 0) { child_exit(0); return 1; }
		cbuf[0] = prog == 1 ? c ^ 0x80 : c; cacc = prog == 2 ? 2 : 1; return 1;
	case 3:	/* gather, then write all */
		if (pc == 0) { if (!child_get(&c)) return 0; if (c < 0) pc = 1; else cbuf[cgot++] = c; return 1; }
		if (pc - 1 < cgot) { if (!child_put(cbuf[pc - 1])) return 0; pc++; return 1; }
		child_exit(0); return 1;
	case 4:	/* K bytes first, then read all */
		if (pc < K) { if (!child_put(100 + pc)) return 0; pc++; return 1; }
		if (!child_get(&c)) return 0; if (c < 0) child_exit(0); return 1;
	case 5:	/* K bytes, never reads */
		if (pc < K) { if (!child_put(100 + pc)) return 0; pc++; return 1; }
		child_exit(0); return 1;
	case 6:	/* one byte read, closes its input, then K bytes */
		if (pc == 0) { if (!child_get(&c)) return 0; pc = 1; return 1; }
		if (pc == 1) { pin.rd = 0; pc = 2; return 1; }
		if (pc - 2 < K) { if (!child_put(100 + pc)) return 0; pc++; return 1; }
		child_exit(0); return 1;
	case 7:	/* closes its output, reads everything */
		if (pc == 0) { pout.wr = 0; pc = 1; return 1; }
		if (!child_get(&c)) return 0; if (c < 0) child_exit(0); return 1;
	case 8:	/* sink, fails */
		if (!child_get(&c)) return 0; if (c < 0) child_exit(3); return 1;
	case 9:	/* reads all, then K bytes, then fails */
		if (pc == 0) { if (!child_get(&c)) return 0; if (c < 0) pc = 1; return 1; }
		if (pc - 1 < K) { if (!child_put(100 + pc)) return 0; pc++; return 1; }
		child_exit(1); return 1;
	case 10: /* reads one, writes K, reads the rest */
		if (pc == 0) { if (!child_get(&c)) return 0; pc = 1; return 1; }
		if (pc - 1 < K) { if (!child_put(100 + pc)) return 0; pc++; return 1; }
		if (!child_get(&c)) return 0; if (c < 0) child_exit(0); return 1;
	case 11: /* dies by a signal after one byte of input and output */
		if (pc == 0) { if (!child_get(&c)) return 0; pc = 1; return 1; }
		if (pc == 1) { if (!child_put(77)) return 0; pc = 2; return 1; }
		cdone = 1; cstatus = SIGTERM; pin.rd = pout.wr = 0; return 1;
	}
	return 0;
}
static void run_all(void) { int k = 0; while (child_step()) if (++k > 1000) mc_fail("harness: endless child"); }
static int pick(int n) { return n < 2 ? 0 : full ? mc_choose(n) : mc_deviate(n); }
static void schedule(void)	/* what the child does before this kernel call */
{
	int c, s;
	if (++idle > 3000) mc_fail("pr_readwrite does not end: 3000 kernel calls");
	{ int before = out_n + pc + cgot + cdone; (void)before; }
	if (cdone) return;
	c = pick(3);
	if (!full && lazy) s = c == 0 ? 0 : c == 1 ? 1 : 1000; else if (!full) s = c == 0 ? 1000 : c == 1 ? 0 : 1; else s = c == 0 ? 0 : c == 1 ? 1 : 1000;
	while (s-- > 0 && child_step()) ;
}
static int amount(int m) { if (m <= 1) return m; return full ? (mc_choose(2) ? 1 : m) : (mc_deviate(2) ? 1 : m); }
static int nerr, errs;
static int fault(const char *where, int agains)	/* an interrupted or failing call */
{
	int c;
	if (!errs) return 0;
	c = mc_deviate(agains ? 4 : 3);
	if (!c) return 0;
	mc_op("%s fails: %s", where, c == 1 ? "EINTR" : c == 2 ? "EIO" : "EAGAIN");
	if (c == 2) err_injected = 1;
	errno = c == 1 ? EINTR : c == 2 ? EIO : EAGAIN; return 1;
}
static int fake(int fd) { return sim && fd >= 40 && fd < 64; }
static int next_fd;
int __real_pipe(int *); int __wrap_pipe(int *p)
{
	if (!sim) return __real_pipe(p);
	p[0] = next_fd++; p[1] = next_fd++; open_[p[0]] = open_[p[1]] = 1;
	if (next_fd == 42) { fd_in_r = p[0]; fd_in_w = p[1]; } else { fd_out_r = p[0]; fd_out_w = p[1]; }
	return 0;
}
int __real_pipe2(int *, int); int __wrap_pipe2(int *p, int f) { return sim ? __wrap_pipe(p) : __real_pipe2(p, f); }
pid_t __real_fork(void); pid_t __wrap_fork(void) { if (!sim) return __real_fork(); return cpid = 70000; }
pid_t __wrap_vfork(void) { return __wrap_fork(); }
int __real_close(int); int __wrap_close(int fd)
{
	if (!fake(fd)) return __real_close(fd);
	mc_check(open_[fd], "descriptor %d is closed twice", fd);
	open_[fd] = 0; mc_op("close(%s)", fd == fd_in_w ? "in" : fd == fd_out_r ? "out" : "child's end");
	if (fd == fd_in_w) { mc_check(in_n == inlen_g || epipe_seen || err_injected || eof_seen || cdone, "the child's input is closed after %d of %d bytes", in_n, inlen_g); pin.wr = 0; }
	if (fd == fd_out_r) pout.rd = 0;
	return 0;
}
ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	int k, i;
	if (!fake(fd)) return __real_write(fd, b, n);
	if (fd != fd_in_w || !open_[fd]) { mc_check(0, "write to a %s descriptor", open_[fd] ? "wrong" : "closed"); }
	schedule();
	if (fault("write", 1)) return -1;
	for (;;) {
		if (!pin.rd) { epipe_seen = 1; mc_op("write: EPIPE"); errno = EPIPE; return -1; }
		k = pin.cap - pin.n; if (k > (int)n) k = n;
		if (k > 0 || !n) break;
		if (nonblock[fd]) { errno = EAGAIN; return -1; }
		if (!child_step()) mc_fail("deadlock: blocked writing to a child that waits");
	}
	k = amount(k);
	for (i = 0; i < k; i++) { pin.q[pin.n++] = ((const unsigned char *)b)[i]; in_seen[in_n++] = ((const unsigned char *)b)[i]; mc_check(in_n < 60, "more bytes written than the input has"); }
	mc_op("write: %d of %d", k, (int)n);
	return k;
}
ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int fd, void *b, size_t n)
{
	int k, i;
	if (!fake(fd)) return __real_read(fd, b, n);
	if (fd != fd_out_r || !open_[fd]) mc_fail("read from a %s descriptor", open_[fd] ? "wrong" : "closed");
	schedule();
	if (fault("read", 1)) return -1;
	if (!n) return 0;
	for (;;) {
		if (pout.n) break;
		if (!pout.wr) { eof_seen = 1; mc_op("read: end of file"); return 0; }
		if (nonblock[fd]) { errno = EAGAIN; return -1; }
		if (!child_step()) mc_fail("deadlock: blocked reading from a child that waits");
	}
	k = amount(pout.n < (int)n ? pout.n : (int)n);
	memcpy(b, pout.q, k); for (i = k; i < pout.n; i++) pout.q[i - k] = pout.q[i]; pout.n -= k;
	mc_op("read: %d of %d", k, (int)n);
	return k;
}
static int rd_ready(int fd) { return fd == fd_out_r && (pout.n || !pout.wr); }
static int wr_ready(int fd) { return fd == fd_in_w && open_[fd] && (pin.n < pin.cap || !pin.rd); }
static int timeouts;
static int wait_ready(int wr, int ww, int has_timeout, const char *what)	/* 1 ready, 0 timeout, -1 error */
{
	schedule();
	if (errs) { int c = mc_deviate(4); if (c == 1) { mc_op("%s fails: EINTR", what); errno = EINTR; return -1; } if (c == 2) { err_injected = 1; mc_op("%s fails", what); errno = ENOMEM; return -1; } if (c == 3 && has_timeout) { mc_op("%s times out", what); return 0; } }
	while (!(wr && rd_ready(fd_out_r)) && !(ww && wr_ready(fd_in_w)))
		if (!child_step()) { if (has_timeout && ++timeouts < 20) return 0; mc_fail("pr_readwrite never ends: nothing can be transferred, the child %s", pin.wr ? "waits for the end of its input" : "waits"); }
	return 1;
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	int wr, ww, k, c = 0, fd;
	if (!sim) return __real_select(n, r, w, e, t);
	for (fd = 40; fd < 64; fd++) if (fd < n && ((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w)) || (e && FD_ISSET(fd, e))) && !open_[fd]) { errno = EBADF; return -1; }
	wr = r && n > fd_out_r && FD_ISSET(fd_out_r, r); ww = w && n > fd_in_w && FD_ISSET(fd_in_w, w);
	k = wait_ready(wr, ww, t != NULL, "select");
	if (k < 0) return -1;	/* sets are unspecified */
	if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
	if (t) { t->tv_sec = 0; t->tv_usec = 0; }
	if (!k) return 0;
	if (wr && rd_ready(fd_out_r)) { FD_SET(fd_out_r, r); c++; }
	if (ww && wr_ready(fd_in_w)) { FD_SET(fd_in_w, w); c++; }
	return c;
}
int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *); int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { struct timeval tv = { 1, 0 }; return sim ? __wrap_select(n, r, w, e, t ? &tv : NULL) : __real_pselect(n, r, w, e, t, m); }
int __real_poll(struct pollfd *, nfds_t, int); int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
	int i, wr = 0, ww = 0, k, c = 0;
	if (!sim) return __real_poll(p, n, t);
	for (i = 0; i < (int)n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (!open_[p[i].fd]) { p[i].revents = POLLNVAL; c++; } if (p[i].fd == fd_out_r) wr = 1; if (p[i].fd == fd_in_w) ww = 1; }
	if (c) return c;
	k = wait_ready(wr, ww, t >= 0, "poll"); if (k <= 0) return k;
	for (i = 0; i < (int)n; i++) { int f = p[i].fd; if (f < 0) continue; if (f == fd_out_r) p[i].revents = (pout.n && p[i].events & POLLIN ? POLLIN : 0) | (!pout.wr ? POLLHUP : 0); if (f == fd_in_w) p[i].revents = !pin.rd ? POLLERR : pin.n < pin.cap && p[i].events & POLLOUT ? POLLOUT : 0; c += !!p[i].revents; }
	return c;
}
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *); int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) { return sim ? __wrap_poll(p, n, t ? 1000 : -1) : __real_ppoll(p, n, t, m); }
int __real_fcntl(int, int, ...); int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list a; long arg; va_start(a, cmd); arg = va_arg(a, long); va_end(a);
	if (!fake(fd)) return __real_fcntl(fd, cmd, arg);
	if (!open_[fd]) { errno = EBADF; return -1; }
	if (cmd == F_GETFL) return (fd == fd_in_w ? O_WRONLY : O_RDONLY) | (nonblock[fd] ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) nonblock[fd] = !!(arg & O_NONBLOCK);
	return 0;
}
pid_t __real_waitpid(pid_t, int *, int); pid_t __wrap_waitpid(pid_t p, int *s, int o)
{
	if (!sim) return __real_waitpid(p, s, o);
	mc_check(p == cpid || p == -1, "waiting for process %d", p);
	if (reaped_) { errno = ECHILD; return -1; }
	schedule();
	if (errs) { int c = mc_deviate(2); if (c && !(o & WNOHANG)) { mc_op("waitpid fails: EINTR"); errno = EINTR; return -1; } }
	run_all();
	if (!cdone) { if (o & WNOHANG) return 0; mc_fail("deadlock: waiting for a child that waits"); }
	reaped_ = 1; if (s) *s = cstatus; mc_op("waitpid: status %x", cstatus);
	return cpid;
}
pid_t __real_wait4(pid_t, int *, int, struct rusage *); pid_t __wrap_wait4(pid_t p, int *s, int o, struct rusage *u) { return sim ? __wrap_waitpid(p, s, o) : __real_wait4(p, s, o, u); }
int __real_kill(pid_t, int); int __wrap_kill(pid_t p, int g) { if (!sim) return __real_kill(p, g); mc_check(p == cpid && !reaped_, "kill(%d) of a process that is not a child", p); cdone = 1; cstatus = g; pin.rd = pout.wr = 0; return 0; }

static void world(int cin, int cout)
{
	memset(&pin, 0, sizeof pin); memset(&pout, 0, sizeof pout); pin.cap = cin; pout.cap = cout; pin.rd = pin.wr = pout.rd = pout.wr = 1;
	memset(open_, 0, sizeof open_); memset(nonblock, 0, sizeof nonblock); next_fd = 40; pc = cacc = cgot = cdone = cstatus = reaped_ = in_n = out_n = eof_seen = epipe_seen = err_injected = idle = timeouts = 0; sim = 1;
}
static int total_out(int in)	/* output of the program when it gets all its input */
{
	switch (prog) { case 0: case 1: case 3: return in; case 2: return 2 * in; case 7: case 8: return 0; case 11: return 1; }
	return K;
}
static void transfer(int in, int cin, int cout, int max, int filter)
{
	char *ib = malloc(in + !in), *ob = malloc(max + !max); int i, k, r = -7, fi, fo; unsigned char exp[64];
	for (i = 0; i < in; i++) ib[i] = 'a' + i * 5; for (i = 0; i < in; i++) exp[i] = ib[i];
	if (!in) { free(ib); ib = malloc(1); ib[0] = '?'; }
	if (!max) ob[0] = '?';
	world(cin, cout); inlen_g = in; max_out = max;
	mc_op("program %d, %d bytes, pipes %d and %d, buffer %d", prog, in, cin, cout, max);
	if (filter) { fi = 41; fo = 42; MC_CATCH(k, r = pr_filter("prog arg", ib, in, ob, max)); }
	else { cpid = pr_open("prog", PR_CREATE_STDIN | PR_CREATE_STDOUT, &fi, &fo, NULL); MC_CATCH(k, r = pr_readwrite(fi, fo, ib, in, ob, max)); }
	mc_check(in_n <= in && !memcmp(in_seen, exp, in_n), "the bytes written are not the input");
	if (!k) {
		mc_op("returned %d", r);
		mc_check(in_n == in, "success although only %d of %d input bytes were written", in_n, in);
		mc_check(!epipe_seen && !err_injected, "success although a transfer failed");
		mc_check(eof_seen && pout.n == 0, "success although the output was not read to its end");
		mc_check(r == out_n, "length %d returned for %d bytes of output", r, out_n);
		mc_check(r <= max, "%d bytes in a buffer of %d", r, max);
		mc_check(!memcmp(ob, out_made, r), "the output returned is not the output of the child");
		mc_check(!open_[fi] && !open_[fo], "a descriptor of the child is left open");
		mc_check(reaped_, "the child is not reaped");
		{ size_t n; const char *t = mc_stderr_text(&n); int bad = cstatus && cstatus != SIGPIPE; mc_check(!!n == bad, bad ? "nothing is reported although the child ended with status %x" : "status %x, but a message: %.80s", cstatus, t); }
	} else {
		mc_op("fatal error");
		mc_check(k == MC_EXIT(1) || k == MC_ABORT, "unexpected ending %d", k);
		mc_check(epipe_seen || err_injected || out_n > max || (eof_seen && in_n < in), "fatal error although nothing was wrong: %s", mc_stderr_text(NULL));
	}
	mc_outcome(mc_mix(mc_mix(k, r), prog * 64 + in)); mc_state(mc_mix(mc_hash(in_seen, in_n, prog), mc_hash(out_made, out_n, max * 2 + reaped_)));
	free(ib); free(ob); mc_streams_reset(); sim = 0;
}
static int caps(int c) { return (int[]){ 1, 2, 4 }[c]; }
static void b_full(void)
{
	int in, cin, cout, max, t; full = 1; errs = 0;
	prog = mc_choose(12); in = mc_choose(QT(2, 3)); K = prog == 4 || prog == 5 || prog == 6 || prog == 9 || prog == 10 ? mc_choose(3) : 0;
	if (prog == 2 && in > 1) mc_stop();
	cin = caps(mc_choose(2)); cout = caps(mc_choose(2)); t = total_out(in); max = mc_choose(t + 3);
	transfer(in, cin, cout, max, mc_choose(2));
}
static void b_schedules(void)
{
	int in, cin, cout, max, t; full = 0; errs = 0; lazy = mc_choose(2);
	prog = mc_choose(12); in = mc_choose(QT(4, 7) + 1); K = prog == 4 || prog == 5 || prog == 6 || prog == 9 || prog == 10 ? (int[]){ 0, 1, 3, 6 }[mc_choose(4)] : 0;
	cin = caps(mc_choose(3)); cout = caps(mc_choose(3)); t = total_out(in); max = t + mc_choose(4) - 2; if (max < 0) mc_stop();
	transfer(in, cin, cout, max, 0);
}
static void b_faults(void)
{
	int in, cin, cout, max, t; full = 0; errs = 1; lazy = mc_choose(2);
	prog = mc_choose(12); in = mc_choose(4); K = prog == 4 || prog == 5 || prog == 6 || prog == 9 || prog == 10 ? mc_choose(2) * 2 : 0;
	cin = caps(mc_choose(2)); cout = caps(mc_choose(2)); t = total_out(in); max = t + mc_choose(3) - 1; if (max < 0) mc_stop();
	transfer(in, cin, cout, max, mc_choose(2));
}
/* ------------------------------------------------------------ real children */
static void on_alarm(int s) { mc_fail("the filter does not end"); }
static char before[64];
void mc_process_init(void)
{
	struct rlimit r; int fd;
	for (fd = 3; fd < 1024; fd++) if (__real_fcntl(fd, F_GETFD) >= 0) __real_fcntl(fd, F_SETFD, FD_CLOEXEC);
	getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_max < 64) r.rlim_max = 64; r.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &r); signal(SIGALRM, on_alarm); signal(SIGPIPE, SIG_IGN);
}
static void b_real(void)
{
	static const int sz[] = { 0, 1, 2, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000 };
	int p = mc_choose(6), n = sz[mc_choose(11)], d = mc_choose(3) - 1, i, out, r = -1, k, fill = n; char *ib, *ob, cmd[700], *e;
	if (p == 3 && n > 70000) mc_stop();
	out = p == 3 ? 2 * n : p == 2 || p == 5 ? 0 : p == 4 ? n + 70000 : n; if (out + d < 0) mc_stop();
	if (p == 5 && n > 60000) d = 0;
	ib = malloc(n + 1); ob = malloc(out + d + 1); e = malloc(out + n + 70001); for (i = 0; i < n; i++) ib[i] = i * 13 + i / 256;
	for (i = 0; i < out; i++) e[i] = p == 3 ? ib[i / 2] : p == 4 ? (i < 70000 ? (char)(i * 7 + i / 251) : ib[i - 70000]) : ib[i];
	snprintf(cmd, sizeof cmd, "%s %s", mc_probe(), (const char *[]){ "c", "g", "e x 3", "d", "O 70000 c", "i w x 0" }[p]);
	for (i = 0; i < 64; i++) before[i] = __real_fcntl(i, F_GETFD) >= 0;
	mc_op("real child '%s', %d bytes, buffer %d for %d", cmd + strlen(mc_probe()), n, out + d, out);
	alarm(20); MC_CATCH(k, r = pr_filter(cmd, ib, n, ob, out + d)); if (getpid() != mc_worker_pid) mc_real_exit(97); alarm(0);
	if (p == 5) {	/* ends at once without reading: what fits the pipe may be gone before; more than that must fail */
		if (n > 65536) mc_check(k == MC_EXIT(1), "success although the child took at most 65536 of %d bytes", n);
		if (!k) mc_check(r == 0, "length %d", r);
	} else if (d < 0) mc_check(k == MC_EXIT(1), "%d bytes of output in a buffer of %d: expected a fatal error (%d, %d)", out, out + d, k, r);
	else { size_t w; mc_stderr_text(&w); mc_check(!k, "unexpected fatal error: %s", mc_stderr_text(NULL)); mc_check(r == out, "length %d instead of %d", r, out); mc_check(!memcmp(ob, e, out), "the output differs"); mc_check(!!w == (p == 2), p == 2 ? "the failure of the child is not reported" : "a successful child is reported: %s", mc_stderr_text(NULL)); }
	for (i = 0; i < 64; i++) { int o = __real_fcntl(i, F_GETFD) >= 0; if (!k) mc_check(o == before[i], "descriptor %d was left %s", i, o ? "open" : "closed"); else if (o && !before[i]) __real_close(i); }
	if (k) { while (__real_waitpid(-1, NULL, 0) > 0) ; }
	else { r = __real_waitpid(-1, NULL, WNOHANG); mc_check(r < 0 && errno == ECHILD, "a process is left behind"); }
	free(ib); free(ob); free(e); mc_streams_reset(); _pr_shutdown();
}
/* real children, with descriptors above those of a small program */
static void b_high(void)
{
	static const int H[] = { 62, 63, 64, 127, 255, 256, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 1500, 2047, 3000, 4095, 9000 }, SZ[] = { 0, 1, 5000, 70000 };
	int hi = H[mc_choose(18)], p = mc_choose(3), n = SZ[mc_choose(4)], d = mc_choose(3) - 1, way = mc_choose(2), i, out, r = -1, k, nf = 0, f, fi = -1, fo = -1; static int fill[9100]; struct rlimit old, r2; char *ib, *ob, cmd[700];
	getrlimit(RLIMIT_NOFILE, &old); if (old.rlim_max < (rlim_t)hi + 20) mc_stop();
	out = p == 2 ? 0 : n; if (out + d < 0) mc_stop();
	r2 = old; r2.rlim_cur = hi + 20; setrlimit(RLIMIT_NOFILE, &r2);
	fill[nf++] = open("/dev/null", O_RDONLY | O_CLOEXEC); while (fill[nf - 1] < hi - 1) { f = __real_fcntl(fill[0], F_DUPFD_CLOEXEC, 3); mc_check(f >= 0, "harness: descriptors"); fill[nf++] = f; }
	ib = malloc(n + 1); ob = malloc(out + d + 1); for (i = 0; i < n; i++) ib[i] = i * 13 + i / 256;
	snprintf(cmd, sizeof cmd, "%s %s", mc_probe(), (const char *[]){ "c", "g", "e x 3" }[p]);
	mc_op("%s of '%s', %d bytes, buffer %d, descriptors above %d", way ? "pr_open, pr_readwrite" : "pr_filter", cmd + strlen(mc_probe()), n, out + d, hi);
	alarm(20);
	if (way) { pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &fi, &fo, NULL); mc_check(fi >= hi && fo >= hi, "harness: descriptors %d and %d", fi, fo); MC_CATCH(k, r = pr_readwrite(fi, fo, ib, n, ob, out + d)); }
	else MC_CATCH(k, r = pr_filter(cmd, ib, n, ob, out + d));
	if (getpid() != mc_worker_pid) mc_real_exit(97);
	alarm(0);
	if (d < 0) mc_check(k == MC_EXIT(1), "%d bytes of output in a buffer of %d: expected a fatal error (%d, %d)", out, out + d, k, r);
	else { mc_check(!k, "unexpected fatal error: %s", mc_stderr_text(NULL)); mc_check(r == out, "length %d instead of %d", r, out); mc_check(!memcmp(ob, ib, out), "the output differs"); }
	for (i = 0; i < nf; i++) __real_close(fill[i]);
	for (i = hi; i < hi + 20; i++) if (__real_fcntl(i, F_GETFD) >= 0) { mc_check(k, "descriptor %d is left open", i); __real_close(i); }
	if (k) { while (__real_waitpid(-1, NULL, 0) > 0) ; }
	else { r = __real_waitpid(-1, NULL, WNOHANG); mc_check(r < 0 && errno == ECHILD, "a process is left behind"); }
	free(ib); free(ob); mc_streams_reset(); _pr_shutdown(); setrlimit(RLIMIT_NOFILE, &old); mc_state(hi);
}
mc_scenario mc_scenarios[] = { { "full", b_full }, { "schedules", b_schedules, 3, 4 }, { "faults", b_faults, 2, 3 }, { "real", b_real }, { "high", b_high }, { NULL } };

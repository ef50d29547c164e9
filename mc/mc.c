/* mc.c -- the explorer.  See mc.h and DESIGN.md. */
#define _GNU_SOURCE
#include "mc.h"
#include <sanitizer/asan_interface.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>

#define MAXCH   4096
#define QCAP    2048
#define NW_MAX  64
#define HS_BITS 24
#define HS_CAP  (1UL << HS_BITS)

typedef struct { int len; uint16_t c[MAXCH]; } item_t;

typedef struct {
	volatile uint64_t execs, ticks, steps, cases;
	volatile int running, failed;
	int len;			/* choices made so far in this execution */
	uint16_t c[MAXCH], n[MAXCH];
	item_t item;
	char msg[4096];
	char opname[256][64]; volatile int clen; int cpath[4096], cop;	/* closure context */
	int longest;
	item_t sample;
} slot_t;

typedef struct {
	pthread_mutex_t mu;
	volatile int qn, idle, done;
	int nw;
	volatile uint64_t nstates, noutcomes, nnontrivial;
	volatile int hs_full;
	uint64_t maxlen;
	slot_t w[NW_MAX];
	item_t q[QCAP];
	uint64_t hs[HS_CAP];
} shared_t;

static shared_t *sh;
static slot_t *me;
static slot_t private_slot;
static mc_scenario *scen, sc[128];	/* the check's scenarios and their variants */
static void expand(void)
{
	int i, n = 0;
	for (i = 0; mc_scenarios[i].name; i++) {
		sc[n] = mc_scenarios[i]; n++;
		if (mc_scenarios[i].recycle) { char *b; sc[n] = mc_scenarios[i]; if (asprintf(&b, "%s-recycled", sc[n].name) < 0) abort(); sc[n].name = b; sc[n].recycle = 2; n++; }
	}
}
static int scen_idx;
static int dev_budget, dev_used;
static int pos, plen;			/* next choice index; forced prefix length */
static uint16_t lim[MAXCH];
static char tmpdir[256];
static FILE *trace_fp;
int mc_tracing, mc_thorough, mc_worker_pid;
jmp_buf mc_jb;
volatile int mc_armed;
static jmp_buf exec_jb;
static char verif_dir[512], out_dir[600];

void mc_process_init(void) __attribute__((weak));
void mc_process_init(void) {}

extern char __start_maadata[] __attribute__((weak));
extern char __stop_maadata[] __attribute__((weak));
static char *snap;
static size_t snap_len;

static void raw_copy(void *d, const void *s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

/* ------------------------------------------------------------------ alloc */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real_abort(void) __attribute__((noreturn));

typedef struct { void *p; size_t n; } live_t;
static live_t *live; static long nlive, caplive; static size_t live_bytes;
static uint32_t *htab; static size_t hcap;	/* index+1 into live */
static long alloc_count;
long mc_alloc_fail_at;
int mc_alloc_choose, mc_alloc_failed;
static int track = 0;

static size_t hp(const void *p) { uint64_t x = (uint64_t)p; x = (x >> 4) * 0x9e3779b97f4a7c15ULL; return (x >> 20) & (hcap - 1); }
static void h_put(void *p, uint32_t v) { size_t i = hp(p); while (htab[i]) i = (i + 1) & (hcap - 1); htab[i] = v; }
static long h_slot(const void *p)
{
	size_t i = hp(p);
	while (htab[i]) { if (live[htab[i] - 1].p == p) return i; i = (i + 1) & (hcap - 1); }
	return -1;
}
static void h_del(size_t i)
{
	size_t j = i;
	for (;;) {
		size_t k;
		htab[i] = 0;
		for (;;) {
			j = (j + 1) & (hcap - 1);
			if (!htab[j]) return;
			k = hp(live[htab[j] - 1].p);
			if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
			break;
		}
		htab[i] = htab[j]; i = j;
	}
}
static void live_add(void *p, size_t n)
{
	if (!htab) { hcap = 1 << 12; htab = __real_calloc(hcap, sizeof *htab); caplive = 1 << 11; live = __real_malloc(caplive * sizeof *live); }
	if (nlive + 1 >= caplive) {
		long i;
		caplive *= 2; live = __real_realloc(live, caplive * sizeof *live);
		__real_free(htab); hcap *= 2; htab = __real_calloc(hcap, sizeof *htab);
		for (i = 0; i < nlive; i++) h_put(live[i].p, i + 1);
	}
	live[nlive].p = p; live[nlive].n = n; nlive++; live_bytes += n;
	h_put(p, nlive);
	if (live_bytes > (3UL << 30)) mc_fail("runaway allocation: more than 3 GB live");
}
static int live_del(void *p)
{
	long s, idx;
	if (!htab || (s = h_slot(p)) < 0) return 0;
	idx = htab[s] - 1;
	live_bytes -= live[idx].n;
	h_del(s);
	if (idx != nlive - 1) {
		long t = h_slot(live[nlive - 1].p);
		htab[t] = idx + 1;
		live[idx] = live[nlive - 1];
	}
	nlive--;
	return 1;
}
size_t mc_alloc_size(const void *p)
{
	long s = htab ? h_slot(p) : -1;
	return s < 0 ? (size_t)-1 : live[htab[s] - 1].n;
}
long mc_live_count(void) { return nlive; }
size_t mc_live_bytes(void) { return live_bytes; }
long mc_alloc_count(void) { return alloc_count; }
void mc_live_dump(void)
{
	long i;
	for (i = 0; i < nlive && i < 20; i++) mc_note("live block of %lu bytes", (unsigned long)live[i].n);
}
uint64_t mc_live_hash(long n)
{
	uint64_t h = 1; long i;
	for (i = 0; i < nlive && (n < 0 || i < n); i++) h += mc_hash(live[i].p, live[i].n, (uint64_t)live[i].p);
	return h;
}
int mc_keep_freed; static void **kept; static long nkept, capkept;
static int inject(void)
{
	if (!track) return 0;
	alloc_count++;
	if (mc_alloc_choose && getpid() == mc_worker_pid) {
		if (mc_alloc_failed ? mc_alloc_choose == 2 : mc_choose(2)) { mc_alloc_failed++; return 1; }
	}
	if (alloc_count != mc_alloc_fail_at) return 0;
	mc_alloc_failed++; return 1;
}
/* A new block's contents are indeterminate: usually AddressSanitizer's filling, and at an
   address not used before.  In the recycled variant of a scenario the block last freed of
   its size is given out again, with what it held; other new blocks hold small numbers. */
#define RC_MAX 5000
#define RC_ALL 200000
static int recycling; static struct { void *p; size_t n; int next; } *rc_b; static int *rc_head, rc_n;	/* heads and next: index+1 */
static void *rc_get(size_t n)
{
	void *p; int i;
	if (!n || n > RC_MAX || !rc_head || !(i = rc_head[n])) return NULL;
	p = rc_b[i - 1].p; rc_b[i - 1].p = NULL; rc_head[n] = rc_b[i - 1].next;
	ASAN_UNPOISON_MEMORY_REGION(p, n);
	return p;
}
static int rc_put(void *p, size_t n)
{
	if (!n || n > RC_MAX || rc_n == RC_ALL) return 0;
	if (!rc_head) { rc_head = __real_calloc(RC_MAX + 1, sizeof *rc_head); rc_b = __real_malloc(RC_ALL * sizeof *rc_b); }
	rc_b[rc_n].p = p; rc_b[rc_n].n = n; rc_b[rc_n].next = rc_head[n]; rc_head[n] = ++rc_n;
	ASAN_POISON_MEMORY_REGION(p, n);
	return 1;
}
static int rc_holds(void *p) { int i; for (i = rc_n; i-- > 0; ) if (rc_b[i].p == p) return 1; return 0; }
static void rc_reset(void)
{
	int i;
	for (i = 0; i < rc_n; i++) { rc_head[rc_b[i].n] = 0; if (rc_b[i].p) { ASAN_UNPOISON_MEMORY_REGION(rc_b[i].p, rc_b[i].n); __real_free(rc_b[i].p); } }
	rc_n = 0;
}
static void rc_fill(void *p, size_t n, size_t from) { if (n <= (1 << 16) && from < n) memset((char *)p + from, 1, n - from); }
void *__wrap_malloc(size_t n)
{
	void *p;
	if (inject()) { errno = ENOMEM; return NULL; }
	if (track && recycling && (p = rc_get(n))) { live_add(p, n); return p; }
	p = __real_malloc(n);
	if (track && p) { live_add(p, n); if (recycling) rc_fill(p, n, 0); }
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p;
	if (inject()) { errno = ENOMEM; return NULL; }
	if (track && recycling && a && b <= RC_MAX / a && (p = rc_get(a * b))) { live_add(p, a * b); return memset(p, 0, a * b); }
	p = __real_calloc(a, b);
	if (track && p) live_add(p, a * b);
	return p;
}
static void let_go(void *p)
{
	size_t n;
	if (track && p) {
		if (recycling && (n = mc_alloc_size(p)) != (size_t)-1 && !mc_keep_freed && rc_put(p, n)) { live_del(p); return; }
		if (live_del(p)) {
			if (mc_keep_freed) {
				if (nkept == capkept) kept = __real_realloc(kept, (capkept = 2 * capkept + 64) * sizeof *kept);
				kept[nkept++] = p; return;
			}
		} else if (recycling && rc_holds(p)) mc_fail("a block is freed a second time");
	}
	__real_free(p);
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p; size_t old = 0;
	if (inject()) { errno = ENOMEM; return NULL; }
	if (track && recycling && n && q && (old = mc_alloc_size(q)) != (size_t)-1) {
		p = n == old ? q : rc_get(n);
		if (p == q) return q;
		if (!p && (p = __real_malloc(n))) rc_fill(p, n, old);
		if (!p) return NULL;
		live_add(p, n); raw_copy(p, q, old < n ? old : n); let_go(q);
		return p;
	}
	if (track && q) live_del(q);
	p = __real_realloc(q, n);
	if (track && p) live_add(p, n);
	return p;
}
void __wrap_free(void *p) { let_go(p); }
/* the other ways to get memory */
char *__wrap_strdup(const char *t) { size_t n = strlen(t) + 1; char *p = __wrap_malloc(n); return p ? memcpy(p, t, n) : NULL; }
char *__wrap_strndup(const char *t, size_t m) { size_t n = strnlen(t, m); char *p = __wrap_malloc(n + 1); if (!p) return NULL; memcpy(p, t, n); p[n] = 0; return p; }
void *__wrap_reallocarray(void *q, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; } return __wrap_realloc(q, a * b); }
int __wrap_vasprintf(char **r, const char *f, va_list ap)
{
	va_list c; int n; char *p;
	va_copy(c, ap); n = vsnprintf(NULL, 0, f, c); va_end(c);
	if (n < 0 || !(p = __wrap_malloc(n + 1))) { *r = NULL; return -1; }
	*r = p; return vsnprintf(p, n + 1, f, ap);
}
int __wrap_asprintf(char **r, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = __wrap_vasprintf(r, f, ap); va_end(ap); return n; }
int __wrap_posix_memalign(void **r, size_t al, size_t n) { void *p = NULL; if (inject()) return ENOMEM; if (__real_posix_memalign(&p, al, n)) return ENOMEM; if (track && p) live_add(p, n); *r = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { void *p; if (al < sizeof p) al = sizeof p; return (errno = __wrap_posix_memalign(&p, al, n)) ? NULL : p; }
void *__wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
void *mc_real_malloc(size_t n) { return __real_malloc(n); }

static void free_all(void)
{
	long i;
	for (i = 0; i < nlive; i++) __real_free(live[i].p);
	for (i = 0; i < nkept; i++) __real_free(kept[i]);
	nkept = 0; mc_keep_freed = 0;
	if (hcap > (1 << 16)) {
		__real_free(htab); __real_free(live); htab = NULL; live = NULL; hcap = 0;
	} else if (htab) {
		if (nlive > (long)hcap / 8) memset(htab, 0, hcap * sizeof *htab);
		else for (i = nlive - 1; i >= 0; i--) { long s = h_slot(live[i].p); if (s >= 0) h_del(s); }
	}
	nlive = 0; live_bytes = 0; alloc_count = 0; mc_alloc_fail_at = 0; mc_alloc_choose = mc_alloc_failed = 0;
}

/* ------------------------------------------------------------ fatal ends */
void mc_real_exit(int c) { __real__exit(c); }
void __attribute__((weak)) mc_child_end(const char *what) { (void)what; fflush(stdout); }
static void fatal_end(int k, const char *what, int arg)
{
	if (getpid() != mc_worker_pid) {	/* a child of the code under test */
		if (k == MC_ABORT || k == MC_ASSERT) { signal(SIGABRT, SIG_DFL); __real_abort(); }
		mc_child_end(what);
		__real__exit(arg);
	}
	if (mc_armed) { mc_armed = 0; _longjmp(mc_jb, k); }
	mc_fail("unexpected %s(%d); message: %s", what, arg, mc_stderr_text(NULL));
}
int mc_ended_at_once;
void __wrap_exit(int c) { mc_ended_at_once = 0; fatal_end(MC_EXIT(c & 255), "exit", c); __real_exit(c); }
void __wrap__exit(int c) { mc_ended_at_once = 1; fatal_end(MC_EXIT(c & 255), "_exit", c); __real__exit(c); }
void __wrap__Exit(int c) { mc_ended_at_once = 1; fatal_end(MC_EXIT(c & 255), "_Exit", c); __real__exit(c); }
void __wrap_abort(void) { fatal_end(MC_ABORT, "abort", 0); __real_abort(); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	(void)f; (void)fn;
	if (!mc_armed && getpid() == mc_worker_pid) mc_fail("assertion failed in the library: %s (line %u)", e, l);
	fatal_end(MC_ASSERT, "assert", l);
	__real_abort();
}

/* ------------------------------------------------------------ environment */
long (*mc_random_hook)(void);
static unsigned long rnd_state;
static long rnd_default(void) { rnd_state = rnd_state * 6364136223846793005UL + 1442695040888963407UL; return (rnd_state >> 33) & 0x7fffffff; }
long __wrap_random(void) { return mc_random_hook ? mc_random_hook() : rnd_default(); }
int __wrap_rand(void) { return (int)(mc_random_hook ? mc_random_hook() : rnd_default()); }

typedef struct { char *b; size_t n, cap; } cap_t;
static cap_t cap_out, cap_err;
static FILE *f_out, *f_err;
static ssize_t cap_write(void *c, const char *b, size_t n)
{
	cap_t *k = c;
	if (k->n + n + 1 > k->cap) {
		if (k->cap > (64u << 20)) return n;
		k->cap = (k->n + n + 1) * 2 + 4096; k->b = __real_realloc(k->b, k->cap);
	}
	memcpy(k->b + k->n, b, n); k->n += n; k->b[k->n] = 0;
	return n;
}
static void streams_init(void)
{
	cookie_io_functions_t io = { NULL, cap_write, NULL, NULL };
	int t = track; track = 0;
	f_out = fopencookie(&cap_out, "w", io);
	f_err = fopencookie(&cap_err, "w", io);
	setvbuf(f_err, NULL, _IONBF, 0);
	cap_write(&cap_out, "", 0); cap_write(&cap_err, "", 0);
	track = t;
	stdout = f_out; stderr = f_err;
}
void mc_streams_reset(void)
{
	fflush(f_out); fflush(f_err);
	cap_out.n = cap_err.n = 0; cap_out.b[0] = cap_err.b[0] = 0;
}
const char *mc_stdout_text(size_t *len) { if (!f_out) return ""; fflush(f_out); if (len) *len = cap_out.n; return cap_out.b; }
const char *mc_stderr_text(size_t *len) { if (!f_err) return ""; fflush(f_err); if (len) *len = cap_err.n; return cap_err.b; }

static void rm_tree(const char *d)
{
	DIR *dp = opendir(d);
	struct dirent *e;
	if (dp) {
		while ((e = readdir(dp))) {
			char p[1024]; struct stat st;
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			snprintf(p, sizeof p, "%s/%s", d, e->d_name);
			if (!lstat(p, &st) && S_ISDIR(st.st_mode)) rm_tree(p); else unlink(p);
		}
		closedir(dp);
	}
	rmdir(d);
}
const char *mc_probe(void)
{
	static char p[512]; char *q;
	if (!p[0]) { ssize_t k = readlink("/proc/self/exe", p, 480); p[k > 0 ? k : 0] = 0; q = strrchr(p, '/'); strcpy(q ? q + 1 : p, "probe"); }
	return p;
}
static char tmproot[256];
const char *mc_tmpdir(void)
{
	if (!tmpdir[0]) { snprintf(tmpdir, sizeof tmpdir, "%.200s/%d", tmproot, (int)getpid()); mkdir(tmpdir, 0777); }
	return tmpdir;
}

/* ------------------------------------------------------------- reporting */
uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
	const unsigned char *b = p;
	h ^= 0xcbf29ce484222325ULL + n;
	while (n--) { h ^= *b++; h *= 0x100000001b3ULL; }
	return mc_mix(h, n);
}
static int hs_add(uint64_t h)
{
	size_t i;
	int probes = 0;
	h = mc_mix(h, 0x1234567 + scen_idx);
	if (!h) h = 1;
	for (i = h & (HS_CAP - 1);; i = (i + 1) & (HS_CAP - 1)) {
		uint64_t v = __atomic_load_n(&sh->hs[i], __ATOMIC_RELAXED);
		if (v == h) return 0;
		if (!v) {
			uint64_t z = 0;
			if (__atomic_compare_exchange_n(&sh->hs[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1;
			if (z == h) return 0;
		}
		if (++probes > 4096) { sh->hs_full = 1; return 0; }
	}
}
void mc_state(uint64_t h) { if (sh && hs_add(mc_mix(h, 1))) __atomic_add_fetch(&sh->nstates, 1, __ATOMIC_RELAXED); }
void mc_outcome(uint64_t h) { if (sh && hs_add(mc_mix(h, 2))) __atomic_add_fetch(&sh->noutcomes, 1, __ATOMIC_RELAXED); }
void mc_nontrivial(uint64_t h) { if (sh && hs_add(mc_mix(h, 3))) __atomic_add_fetch(&sh->nnontrivial, 1, __ATOMIC_RELAXED); }
void mc_step(uint64_t n) { me->steps += n; }
void mc_case(uint64_t n) { me->cases += n; }
void mc_tick(void) { me->ticks++; }
static int trace_lines;
static void vtrace(const char *fmt, va_list ap)
{
	if (++trace_lines > 4000) { if (trace_lines == 4001) fprintf(trace_fp, "...\n"); return; }
	vfprintf(trace_fp, fmt, ap); fputc('\n', trace_fp); fflush(trace_fp);
}
void mc_op(const char *fmt, ...)
{
	me->steps++;
	if (mc_tracing) { va_list ap; int e = errno; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); errno = e; }
}
void mc_note(const char *fmt, ...)
{
	if (mc_tracing) { va_list ap; int e = errno; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); errno = e; }
}
void mc_fail(const char *fmt, ...)
{
	va_list ap;
	if (getpid() != mc_worker_pid) __real__exit(99);
	va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
	me->failed = 1;
	if (mc_tracing) { fprintf(trace_fp, "FAILED: %s\n", me->msg); fflush(trace_fp); }
	__real__exit(77);
}
void mc_stop(void) { _longjmp(exec_jb, 1); }

int mc_choose(int n)
{
	int v;
	if (n < 1) { snprintf(me->msg, sizeof me->msg, "harness error: mc_choose(%d)", n); __real__exit(78); }
	if (n == 1) return 0;
	if (pos >= MAXCH) { snprintf(me->msg, sizeof me->msg, "harness error: choice vector too long"); __real__exit(78); }
	if (pos < plen) {
		v = me->c[pos];
		if (v >= n || (me->n[pos] && me->n[pos] != n)) {
			snprintf(me->msg, sizeof me->msg, "nondeterminism: choice %d had %d answers, now %d", pos, me->n[pos], n);
			__real__exit(78);
		}
		me->n[pos] = n;
	} else {
		v = 0; me->c[pos] = 0; me->n[pos] = n; lim[pos] = n;
	}
	pos++; me->len = pos;
	return v;
}
int mc_deviate(int n)
{
	int v;
	if (dev_used >= dev_budget) return 0;
	v = mc_choose(n);
	if (v) dev_used++;
	return v;
}

/* ------------------------------------------------------------ executions */
static void run_one(int prefix)
{
	plen = prefix; pos = 0; me->len = 0; dev_used = 0; mc_armed = 0;
	trace_lines = 0;
	track = 0;
	free_all(); rc_reset(); recycling = scen->recycle == 2;
	if (!scen->no_snapshot && snap) raw_copy(__start_maadata, snap, snap_len);
	mc_streams_reset();
	mc_random_hook = NULL; rnd_state = 42;
	errno = 0;
	me->running = 1;
	track = 1;
	if (!_setjmp(exec_jb)) scen->body();
	track = 0;
	mc_armed = 0;
	me->running = 0;
	if (pos < plen) { snprintf(me->msg, sizeof me->msg, "nondeterminism: only %d of %d forced choices were asked for", pos, plen); __real__exit(78); }
	me->execs++;
	if (me->len > me->longest || (me->len == me->longest && (me->execs & 1023) == 1000)) {
		me->longest = me->len; me->sample.len = me->len;
		memcpy(me->sample.c, me->c, me->len * sizeof me->c[0]);
	}
}
static void q_lock(void) { pthread_mutex_lock(&sh->mu); }
static void q_unlock(void) { pthread_mutex_unlock(&sh->mu); }
static int get_item(item_t *it)
{
	int idle = 0;
	for (;;) {
		q_lock();
		if (sh->qn > 0) {
			item_t *s = &sh->q[--sh->qn];
			it->len = s->len; memcpy(it->c, s->c, s->len * sizeof s->c[0]);
			if (idle) sh->idle--;
			q_unlock();
			return 1;
		}
		if (!idle) { idle = 1; sh->idle++; }
		if (sh->idle == sh->nw) sh->done = 1;
		q_unlock();
		if (sh->done) return 0;
		usleep(300);
	}
}
static void donate(int base, int len)
{
	int i, a;
	for (i = base; i < len; i++) {
		if (me->c[i] + 1 >= lim[i]) continue;
		q_lock();
		for (a = lim[i] - 1; a > me->c[i] && sh->qn < QCAP; a--) {
			item_t *s = &sh->q[sh->qn++];
			s->len = i + 1; memcpy(s->c, me->c, i * sizeof me->c[0]); s->c[i] = a;
		}
		lim[i] = a + 1;
		q_unlock();
		return;
	}
}
static void worker(void)
{
	item_t *it = &me->item;
	mc_worker_pid = getpid();
	mc_process_init();
	while (get_item(it)) {
		int base = it->len, len = base, i;
		memcpy(me->c, it->c, len * sizeof me->c[0]);
		memset(me->n, 0, sizeof me->n);
		for (i = 0; i < base; i++) lim[i] = 0;
		for (;;) {
			run_one(len);
			len = me->len;
			if (sh->idle > 0 && sh->qn == 0) donate(base, len);
			for (i = len - 1; i >= base; i--) if (me->c[i] + 1 < lim[i]) break;
			if (i < base) break;
			me->c[i]++; len = i + 1;
			if (sh->done) return;
		}
	}
}
/* item fallback: replay everything a worker did since it took its item */
static void rerun_item(const item_t *it, const item_t *target)
{
	int base = it->len, len = base, i;
	memcpy(me->c, it->c, len * sizeof me->c[0]);
	memset(me->n, 0, sizeof me->n);
	for (;;) {
		run_one(len);
		if (me->len >= target->len && !memcmp(me->c, target->c, target->len * sizeof me->c[0])) return;
		len = me->len;
		for (i = len - 1; i >= base; i--) if (me->c[i] + 1 < me->n[i]) break;
		if (i < base) return;
		me->c[i]++; len = i + 1;
	}
}

/* ---------------------------------------------------------------- parent */
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void child_setup(const char *errfile)
{
	int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0666);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (fd != 2) { dup2(fd, 2); close(fd); }
	streams_init();
	tmpdir[0] = 0;
	if (chdir(mc_tmpdir())) { }	/* a relative name that the code makes up stays in the scratch directory */
}
static void kill_group(int pid) { if (pid > 1) { kill(-pid, SIGKILL); kill(pid, SIGKILL); } }

static void closure_context(slot_t *s, char *msg, size_t n);
/* run one vector alone; 0 ok, 1 failed (msg filled), 2 harness error */
/* CPU seconds used by a child of ours, 0 if unknown */
static double cpu_of(int pid)
{
	clockid_t c; struct timespec t;
	if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return 0;
	return t.tv_sec + t.tv_nsec / 1e9;
}
static int alone(const item_t *v, const item_t *item, double limit, const char *trace, const char *errfile, char *msg, size_t msgn)
{
	int pid, st;
	double tl = now(), waited = 0;	/* a machine that stands still does not count */
	slot_t *s = &sh->w[NW_MAX - 1];
	memset(s, 0, sizeof *s);
	fflush(NULL);
	pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		child_setup(errfile);
		me = s; mc_worker_pid = getpid();
		mc_process_init();
		if (trace) { trace_fp = fopen(trace, "a"); mc_tracing = trace_fp != NULL; }
		memset(me->n, 0, sizeof me->n);
		if (item) { mc_tracing = 0; rerun_item(item, v); }
		else { memcpy(me->c, v->c, v->len * sizeof v->c[0]); run_one(v->len); }
		__real__exit(0);
	}
	setpgid(pid, pid);
	for (;;) {
		int r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (r < 0) { st = 0; break; }
		{ double t = now(), d = t - tl; tl = t; waited += d > 0.1 ? 0.1 : d; }
		if (waited > limit && (waited > 3 * limit || cpu_of(pid) > limit / 2 || cpu_of(pid) < limit / 20)) {
			kill_group(pid); waitpid(pid, &st, 0);
			snprintf(msg, msgn, "no end within %.0f s (endless loop or deadlock)", limit);
			return 1;
		}
		usleep(2000);
	}
	kill_group(pid);
	{ char d[400]; snprintf(d, sizeof d, "%.200s/%d", tmproot, pid); rm_tree(d); }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { snprintf(msg, msgn, "%s", s->msg); closure_context(s, msg, msgn); return 1; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { snprintf(msg, msgn, "%s", s->msg); return 2; }
	if (WIFSIGNALED(st)) snprintf(msg, msgn, "crash: signal %d", WTERMSIG(st));
	else {
		char line[300]; FILE *f = errfile ? fopen(errfile, "r") : NULL;
		snprintf(msg, msgn, "memory error or abnormal exit (status %d)", WEXITSTATUS(st));
		while (f && fgets(line, sizeof line, f)) if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "SUMMARY:")) { line[strcspn(line, "\n")] = 0; snprintf(msg, msgn, "%s", line); }
		if (f) fclose(f);
	}
	closure_context(s, msg, msgn);
	return 1;
}

/* a failure inside mc_closure(): append the history that leads there */
static void closure_context(slot_t *s, char *msg, size_t n)
{
	size_t o = strlen(msg);
	int i;
	if (!s->clen) return;
	o += snprintf(msg + o, n - o, " [history:");
	for (i = 0; i < s->clen - 1 && o < n - 100; i++) o += snprintf(msg + o, 90, " %s;", s->opname[s->cpath[i] & 255]);
	if (o < n - 100) snprintf(msg + o, 90, " %s]", s->opname[s->cop & 255]);
}
static int last_try;
/* what is printed is plain text, whatever the program under test printed */
static const char *plain(const char *t) { static char b[2][4200]; static int k; char *o = b[k ^= 1]; int i; for (i = 0; t[i] && i < 4199; i++) o[i] = (t[i] >= 32 && t[i] < 127) || t[i] == '\n' || t[i] == '\t' ? t[i] : '?'; o[i] = 0; return o; }
static int report(const item_t *v, const item_t *item, const char *first)
{
	char path[800], err[900], msg[4200] = "", msg2[4200];
	int r, tries, hits = 0, how = 0, err2 = 0;
	FILE *f;
	for (tries = 0; tries < 4 && hits < 2; tries++) {
		r = alone(v, NULL, 60, NULL, NULL, msg2, sizeof msg2);
		if (r == 1) { hits++; strcpy(msg, msg2); }
		if (r == 2) err2++;
	}
	if (hits < 2 && item) {
		for (hits = 0, tries = 0; tries < 3 && hits < 2; tries++) {
			r = alone(v, item, 300, NULL, NULL, msg2, sizeof msg2);
			if (r == 1) { hits++; strcpy(msg, msg2); }
		}
		how = 1;
	}
	if (hits < 2 && !last_try) { printf("NOTE property=%s scenario=%s: a failure (%s) did not reproduce when replayed alone: the scenario is explored again\n", mc_property, scen->name, plain(first)); return 3; }
	if (hits < 2) {
		printf("ERROR property=%s scenario=%s: a failure (%s) did not reproduce when replayed alone%s\n", mc_property, scen->name, plain(first), err2 ? " (nondeterminism)" : "");
		return 2;
	}
	mkdir(out_dir, 0777);
	snprintf(path, sizeof path, "%s/%s-%s.replay", out_dir, mc_property, scen->name);
	for (char *q = path + strlen(out_dir); *q; q++) if (*q == ' ') *q = '-';
	snprintf(err, sizeof err, "%s.stderr", path);
	unlink(err);
	f = fopen(path, "w");
	if (!f) { printf("ERROR cannot write %s\n", path); snprintf(path, sizeof path, "/dev/null"); f = fopen(path, "w"); }
	fprintf(f, "property %s\nscenario %s\ntier %s\nlen %d\nchoices", mc_property, scen->name, mc_thorough ? "thorough" : "quick", v->len);
	for (int i = 0; i < v->len; i++) fprintf(f, " %d", v->c[i]);
	fprintf(f, "\n%smessage %s\ntrace\n", how ? "note only reproduces after the preceding executions of its work item\n" : "", msg);
	fclose(f);
	alone(v, how ? item : NULL, 60, path, err, msg2, sizeof msg2);
	printf("FAILURE in scenario %s: %s\n", scen->name, plain(msg));
	printf("VIOLATION property=%s replay=%s\n", mc_property, path);
	return 1;
}

typedef struct { char name[80]; uint64_t execs, steps, cases, states, outcomes, nontriv; int maxlen; char *sample; double wall; } result_t;
static result_t res[128];

static char *read_trace(const char *p)
{
	FILE *f = fopen(p, "r"); char *b = __real_malloc(3000); size_t n = 0;
	if (f) { n = fread(b, 1, 1500, f); fclose(f); }
	if (n == 1500) strcpy(b + n, "..."); else b[n] = 0;
	return b;
}

static int explore_once(int idx)
{
	int nw, i, st, rc = 0, alive;
	int pids[NW_MAX];
	uint64_t last[NW_MAX]; double stall[NW_MAX], cpu0[NW_MAX], polled = now(), t0 = now();
	cpu_set_t cs;
	result_t *R = &res[idx];
	uint64_t st0 = sh->nstates, oc0 = sh->noutcomes, nt0 = sh->nnontrivial;

	scen = &sc[idx]; scen_idx = idx;
	dev_budget = QT(scen->dev_quick, scen->dev_thorough);
	nw = sched_getaffinity(0, sizeof cs, &cs) ? 1 : CPU_COUNT(&cs);
	if (getenv("MC_WORKERS")) nw = atoi(getenv("MC_WORKERS"));
	if (nw < 1) nw = 1;
	if (nw > NW_MAX - 1) nw = NW_MAX - 1;
	memset(sh->w, 0, sizeof sh->w);
	sh->qn = 1; sh->q[0].len = 0; sh->idle = 0; sh->done = 0; sh->nw = nw;
	fflush(NULL);
	for (i = 0; i < nw; i++) {
		last[i] = 0; stall[i] = cpu0[i] = 0;
		pids[i] = fork();
		if (pids[i] == 0) {
			setpgid(0, 0);
			me = &sh->w[i];
			child_setup(getenv("MC_ERR"));
			worker();
			__real__exit(0);
		}
		setpgid(pids[i], pids[i]);
	}
	alive = nw;
	while (alive && !rc) {
		int bad = -1, hang = 0; double t = now(), dt = t - polled > 0.1 ? 0.1 : t - polled;
		polled = t;
		for (i = 0; i < nw; i++) {
			uint64_t hb;
			if (!pids[i]) continue;
			if (waitpid(pids[i], &st, WNOHANG) == pids[i]) {
				char d[400]; snprintf(d, sizeof d, "%.200s/%d", tmproot, pids[i]); rm_tree(d);
				kill_group(pids[i]);
				pids[i] = 0; alive--;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = i; break; }
				continue;
			}
			hb = sh->w[i].execs + sh->w[i].ticks + sh->w[i].steps;
			if (hb != last[i] || !sh->w[i].running) { last[i] = hb; stall[i] = 0; }
			else {
				if (!stall[i]) cpu0[i] = cpu_of(pids[i]);
				stall[i] += dt + 1e-9;	/* only time during which we ran counts, and a worker that is merely short of processors gets more of it */
				if (stall[i] > 20) { double c = cpu_of(pids[i]) - cpu0[i]; if (c > 10 || c < 0.5 || stall[i] > 120) { bad = i; hang = 1; break; } }
			}
		}
		if (bad >= 0) {
			item_t *v = __real_malloc(sizeof *v), *it = __real_malloc(sizeof *it);
			char first[4200];
			slot_t *s = &sh->w[bad];
			if (hang) kill(pids[bad], SIGSTOP);
			v->len = s->len; memcpy(v->c, s->c, sizeof v->c); *it = s->item;
			snprintf(first, sizeof first, "%s", hang ? "hang" : s->msg[0] ? s->msg : "crash");
			for (i = 0; i < nw; i++) if (pids[i]) { kill_group(pids[i]); waitpid(pids[i], &st, 0); { char d[400]; snprintf(d, sizeof d, "%.200s/%d", tmproot, pids[i]); rm_tree(d); } pids[i] = 0; }
			if (!strncmp(first, "harness error", 13)) { printf("ERROR property=%s scenario=%s: %s\n", mc_property, scen->name, plain(first)); rc = 2; }
			else rc = report(v, it, first);
			break;
		}
		usleep(alive ? 3000 : 0);
	}
	snprintf(R->name, sizeof R->name, "%s", scen->name);
	for (i = 0; i < nw; i++) {
		R->execs += sh->w[i].execs; R->steps += sh->w[i].steps; R->cases += sh->w[i].cases;
		if (sh->w[i].longest > R->maxlen) R->maxlen = sh->w[i].longest;
	}
	R->states = sh->nstates - st0; R->outcomes = sh->noutcomes - oc0; R->nontriv = sh->nnontrivial - nt0;
	if (!rc) {		/* sample trace: the longest execution */
		char p[400], m[4200]; item_t *v = __real_malloc(sizeof *v);
		v->len = 0;
		for (i = 0; i < nw; i++) if (sh->w[i].longest == R->maxlen && R->maxlen) { *v = sh->w[i].sample; break; }
		snprintf(p, sizeof p, "%.200s/sample.%d", tmproot, idx);
		if (alone(v, NULL, 60, p, NULL, m, sizeof m) != 0 && (unlink(p), alone(v, NULL, 60, p, NULL, m, sizeof m)) != 0) { printf("ERROR property=%s scenario=%s: a passing execution failed when run alone: %s\n", mc_property, scen->name, m); rc = 2; }
		R->sample = read_trace(p); unlink(p);
	}
	R->wall = now() - t0;
	return rc;
}

static int explore(int idx)
{
	int rc = 3, k;
	for (k = 0; rc == 3 && k < 3; k++) { last_try = k == 2; rc = explore_once(idx); }
	return rc;
}

static void js(FILE *f, const char *s)
{
	fputc('"', f);
	for (; s && *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void evidence(int n, double wall, int violations)
{
	char p[800];
	FILE *f;
	uint64_t execs = 0, steps = 0, cases = 0;
	int i, k = 0, fault = !strcmp(mc_level, "fault_enumeration");
	snprintf(p, sizeof p, "%s/evidence", verif_dir); mkdir(p, 0777);
	snprintf(p, sizeof p, "%s/evidence/%s.json", verif_dir, mc_property);
	if (!(f = fopen(p, "w"))) return;
	for (i = 0; i < n; i++) { execs += res[i].execs; steps += res[i].steps; cases += res[i].cases; }
	fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %s,\n \"level\": \"%s\",\n \"coverage\": {\n", mc_property, mc_thorough ? "thorough" : "quick", getenv("VERIF_SEED") && *getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", mc_level);
	if (fault) fprintf(f, "  \"evaluations\": %lu, \"distinct_nontrivial\": %lu,\n  \"rule\": ", (unsigned long)cases, (unsigned long)sh->nnontrivial), js(f, mc_bounds), fprintf(f, ",\n");
	else fprintf(f, "  \"states\": %lu, \"transitions\": %lu, \"traces_validated_against_impl\": %lu,\n  \"distinct_outcomes\": %lu,\n  \"bounds\": ", (unsigned long)sh->nstates, (unsigned long)steps, (unsigned long)execs, (unsigned long)sh->noutcomes), js(f, mc_bounds), fprintf(f, ",\n");
	fprintf(f, "  \"exhaustive\": %s%s,\n  \"scenarios\": [\n", violations ? "false" : "true", sh->hs_full ? ", \"state_count_is_lower_bound\": true" : "");
	for (i = 0; i < n; i++) {
		if (!res[i].name[0]) continue;
		fprintf(f, "   %s{\"name\": \"%s\", \"executions\": %lu, \"operations\": %lu, \"states\": %lu, \"outcomes\": %lu, \"cases\": %lu, \"max_choices\": %d, \"deviations\": %d, \"wall_s\": %.2f}\n", k++ ? "," : "", res[i].name, (unsigned long)res[i].execs, (unsigned long)res[i].steps, (unsigned long)res[i].states, (unsigned long)res[i].outcomes, (unsigned long)res[i].cases, res[i].maxlen, QT(sc[i].dev_quick, sc[i].dev_thorough), res[i].wall);
	}
	fprintf(f, "  ],\n  \"samples\": [");
	for (k = i = 0; i < n; i++) if (res[i].sample) { fprintf(f, "%s\n   {\"scenario\": \"%s\", \"trace\": ", k++ ? "," : "", res[i].name); js(f, res[i].sample); fprintf(f, "}"); }
	fprintf(f, "]\n },\n \"assumptions\": [");
	for (i = 0; mc_assumptions[i]; i++) { fprintf(f, "%s\n  ", i ? "," : ""); js(f, mc_assumptions[i]); }
	fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d\n}\n", wall, violations);
	fclose(f);
}

static int replay(const char *path)
{
	static char line[65536]; char name[200] = ""; item_t *v = __real_malloc(sizeof *v); char m[4200]; int i, r;
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); return 2; }
	v->len = 0;
	while (fgets(line, sizeof line, f)) {
		if (!strncmp(line, "scenario ", 9)) sscanf(line + 9, "%199[^\n]", name);
		if (!strncmp(line, "tier ", 5)) mc_thorough = !strncmp(line + 5, "thorough", 8);
		if (!strncmp(line, "choices", 7)) { char *p = line + 7, *q; for (;;) { long x = strtol(p, &q, 10); if (p == q) break; v->c[v->len++] = x; p = q; } break; }
	}
	fclose(f);
	for (i = 0; sc[i].name; i++) if (!strcmp(sc[i].name, name)) break;
	if (!sc[i].name) { printf("no scenario %s\n", name); return 2; }
	scen = &sc[i]; scen_idx = i; dev_budget = QT(scen->dev_quick, scen->dev_thorough);
	r = alone(v, NULL, 60, "/dev/stdout", "/dev/stdout", m, sizeof m);
	printf(r == 0 ? "replay: no violation\n" : "replay: %s\n", m);
	return r;
}

const char *__asan_default_options(void)
{
	return "exitcode=99:detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1:malloc_context_size=6:symbolize=0:max_redzone=64";
}

int main(int argc, char **argv)
{
	int i, rc = 0, n;
	double t0 = now();
	char *env = getenv("VERIF_TIER");
	pthread_mutexattr_t a;
	struct rlimit rl = { 0, 0 };
	int pers = personality(0xffffffff);

	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NO_REEXEC")) {
		setenv("MC_NO_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	setrlimit(RLIMIT_CORE, &rl);
	setvbuf(stdout, NULL, _IOLBF, 0);
	mc_thorough = env && !strcmp(env, "thorough");
	snprintf(verif_dir, sizeof verif_dir, "%s", getenv("MC_VERIF") ? getenv("MC_VERIF") : "/verif");
	snprintf(out_dir, sizeof out_dir, "%s/out", verif_dir);
	snprintf(tmproot, sizeof tmproot, "/tmp/mc.%s.XXXXXX", mc_property);
	if (!mkdtemp(tmproot)) { perror("mkdtemp"); return 2; }
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->mu, &a);
	me = &private_slot; mc_worker_pid = getpid(); expand();
	if (__start_maadata) { snap_len = __stop_maadata - __start_maadata; snap = __real_malloc(snap_len + 1); raw_copy(snap, __start_maadata, snap_len); }
	if (argc > 2 && !strcmp(argv[1], "--replay")) { rc = replay(argv[2]); rm_tree(tmproot); return rc; }
	for (i = 0; sc[i].name && !rc; i++) {
		if (sc[i].thorough_only && !mc_thorough) continue;
		if (argc > 2 && !strcmp(argv[1], "--only") && strcmp(argv[2], sc[i].name)) continue;
		rc = explore(i);
		if (!rc) printf("%s %-24s %10lu executions %12lu operations %8lu states %8lu outcomes %s%.1f s\n", mc_property, res[i].name, (unsigned long)res[i].execs, (unsigned long)res[i].steps, (unsigned long)res[i].states, (unsigned long)res[i].outcomes, "", res[i].wall);
	}
	for (n = 0; sc[n].name; n++);
	evidence(n, now() - t0, rc == 1);
	rm_tree(tmproot);
	if (!rc) printf("OK property=%s tier=%s %.1f s\n", mc_property, mc_thorough ? "thorough" : "quick", now() - t0);
	fflush(stdout);
	__real__exit(rc);
}

/* ------------------------------------------------ explicit-state closure */
typedef struct { int parent; int16_t op, depth; } node_t;
long mc_closure(const mc_system *m, int *depth, int *capped)
{
	long n = 1, cap = 1 << 12, i, hc = 1 << 14, k;
	node_t *nd = __real_malloc(cap * sizeof *nd);
	uint64_t *hs = __real_calloc(hc, sizeof *hs);
	static int path[32768];
	int len, op, trace = mc_tracing;
	void *s;
	uint64_t h, st;
	if (capped) *capped = 0;
	for (op = 0; op < m->nops && op < 256; op++) snprintf(me->opname[op], sizeof me->opname[op], "%s", m->name(op));
	s = m->make(); h = m->canon(s); m->destroy(s); mc_state(h);
	nd[0].parent = -1; nd[0].op = -1; nd[0].depth = 0;
	if (!h) h = 1;
	hs[h & (hc - 1)] = h;
	for (i = 0; i < n; i++) {
		len = nd[i].depth;
		for (k = i; nd[k].parent >= 0; k = nd[k].parent) path[nd[k].depth - 1] = nd[k].op;
		if (m->maxdepth && len >= m->maxdepth) continue;
		for (op = 0; op < m->nops; op++) {
			int j, fresh = 0;
			size_t q;
			mc_tracing = 0;
			me->clen = 0;
			for (j = 0; j < len && j < 4096; j++) me->cpath[j] = path[j];
			me->cop = op; me->clen = len + 1;
			s = m->make();
			st = me->steps;
			for (j = 0; j < len; j++) m->apply(s, path[j]);
			me->steps = st;
			if (m->apply(s, op)) {
				h = m->canon(s); if (!h) h = 1;
				for (q = h & (hc - 1); hs[q] && hs[q] != h; q = (q + 1) & (hc - 1));
				if (!hs[q]) { hs[q] = h; fresh = 1; }
			}
			m->destroy(s);
			me->ticks++;
			if (fresh) {
				mc_state(h);
				if (n >= m->maxstates) { if (capped) *capped = 1; goto out; }
				if (n >= cap) { cap *= 2; nd = __real_realloc(nd, cap * sizeof *nd); }
				nd[n].parent = i; nd[n].op = op; nd[n].depth = len + 1; n++;
				if (n * 2 > hc) {
					uint64_t *old = hs; long oc = hc, z;
					hc *= 4; hs = __real_calloc(hc, sizeof *hs);
					for (z = 0; z < oc; z++) if (old[z]) { size_t y = old[z] & (hc - 1); while (hs[y]) y = (y + 1) & (hc - 1); hs[y] = old[z]; }
					__real_free(old);
				}
			}
		}
	}
out:
	if (depth) *depth = nd[n - 1].depth;
	me->clen = 0;
	mc_tracing = trace;
	mc_note("closure: %ld states, diameter %d", n, (int)nd[n - 1].depth);
	__real_free(nd); __real_free(hs);
	return n;
}

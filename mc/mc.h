/* mc.h -- explicit, exhaustive exploration of the real libmaa code.
 *
 * A check is a C file that defines mc_property, mc_level, mc_bounds and
 * mc_scenarios[].  A scenario body performs ONE execution; every
 * nondeterministic decision goes through mc_choose()/mc_deviate(), and the
 * explorer runs the body once for every possible vector of answers. */
#ifndef MC_H
#define MC_H
#include <setjmp.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>

typedef struct {
	const char *name;
	void (*body)(void);
	int dev_quick, dev_thorough;	/* deviation budget for mc_deviate() */
	int thorough_only;
	int no_snapshot;		/* do not restore static data (body forks) */
	int recycle;			/* explored a second time with an allocator that gives the last freed block of the size out again, as it was left */
} mc_scenario;

/* provided by the check */
extern const char *mc_property;
extern const char *mc_level;		/* "model_checking" or "fault_enumeration" */
extern const char *mc_bounds;		/* human readable statement of the bounds */
extern mc_scenario mc_scenarios[];	/* terminated by name == NULL */
extern const char *mc_assumptions[];	/* NULL terminated */
void mc_process_init(void);		/* once per worker process; weak default */

/* choices */
int  mc_choose(int n);			/* 0..n-1, all explored */
int  mc_deviate(int n);			/* 0 = default; others cost one deviation */
extern int mc_thorough;
#define QT(q,t) (mc_thorough ? (t) : (q))

/* reporting */
void mc_op(const char *fmt, ...) __attribute__((format(printf,1,2)));	/* one transition */
void mc_step(uint64_t n);		/* n transitions without a trace line */
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2)));	/* trace line only */
void mc_state(uint64_t h);		/* abstract state reached */
void mc_outcome(uint64_t h);		/* distinct observed outcome */
void mc_case(uint64_t n);		/* n evaluations (fault_enumeration) */
void mc_nontrivial(uint64_t h);		/* distinct non-trivial case */
void mc_tick(void);			/* heartbeat in long bodies */
void mc_fail(const char *fmt, ...) __attribute__((noreturn,format(printf,1,2)));
void mc_stop(void) __attribute__((noreturn));	/* end this execution, fine */
#define mc_check(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

/* hashing helpers */
static inline uint64_t mc_mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
	return h;
}
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);

/* fatal endings of the code under test */
#define MC_ABORT  1
#define MC_ASSERT 2
#define MC_EXIT(c) (256 + (c))
extern int mc_ended_at_once;	/* the last exit was _exit: no exit handlers, other streams not flushed */
extern jmp_buf mc_jb;
extern volatile int mc_armed;
#define MC_CATCH(k, stmt) do { \
	mc_armed = 1; \
	if (!((k) = _setjmp(mc_jb))) { stmt; } \
	mc_armed = 0; } while (0)
/* the statement must end the program (exit != 0 or abort) */
#define MC_MUST_DIE(what, stmt) do { \
	int mc_k_; MC_CATCH(mc_k_, stmt); \
	mc_check(mc_k_ != 0 && mc_k_ != MC_EXIT(0), "%s: expected a fatal error, but %s", what, \
		 mc_k_ ? "the program exited with status 0" : "the call returned"); } while (0)
/* ... by err_internal (abort) */
#define MC_MUST_ABORT(what, stmt) do { \
	int mc_k_; MC_CATCH(mc_k_, stmt); \
	mc_check(mc_k_ == MC_ABORT || mc_k_ == MC_ASSERT, "%s: expected the fatal internal error, but %s (%d)", what, \
		 mc_k_ ? "the program ended otherwise" : "the call returned", mc_k_); } while (0)
#define MC_MUST_EXIT1(what, stmt) do { \
	int mc_k_; MC_CATCH(mc_k_, stmt); \
	mc_check(mc_k_ == MC_EXIT(1), "%s: expected a fatal error with exit status 1, but %s (%d)", what, \
		 mc_k_ ? "the program ended otherwise" : "the call returned", mc_k_); } while (0)

/* captured standard streams of the library (FILE level) */
const char *mc_stdout_text(size_t *len);	/* flushes, NUL terminated */
const char *mc_stderr_text(size_t *len);
void mc_streams_reset(void);

/* allocations made through malloc & co since the execution began */
long   mc_live_count(void);
size_t mc_live_bytes(void);
long   mc_alloc_count(void);
extern long mc_alloc_fail_at;		/* >0: that allocation (counted from mc_alloc_count()==0) fails */
extern int mc_alloc_choose;		/* 1: every allocation asks mc_choose(2) whether it fails, until one did;
					   2: likewise, and all later ones fail as well */
extern int mc_alloc_failed;		/* allocations failed so far */
size_t mc_alloc_size(const void *p);	/* size of a live block, (size_t)-1 if none starts there */
void   mc_live_dump(void);
uint64_t mc_live_hash(long first);	/* addresses and contents of the live blocks; first < 0: all, else only the `first` oldest of this instant */
extern int mc_keep_freed;		/* freed blocks stay readable until the execution ends */

/* environment hooks */
extern long (*mc_random_hook)(void);	/* NULL: a fixed sequence */
extern int mc_worker_pid;
extern int mc_tracing;
void *mc_real_malloc(size_t n);		/* survives executions */
void mc_child_end(const char *what);	/* weak: called in a forked child that ends through exit/_exit */
const char *mc_probe(void);		/* path of the probe program (MC-PROBE) */
void mc_real_exit(int c) __attribute__((noreturn));
const char *mc_tmpdir(void);		/* private scratch directory of this worker */
#endif

/* Breadth-first search over all states reachable by ops 0..nops-1 (explicit
 * state model checking of the real object).  A state is represented by the
 * history that reaches it and rebuilt from scratch; two states are merged when
 * canon() returns equal hashes.  apply() executes the op on the object AND the
 * reference model, comparing; canon() compares the whole state and returns the
 * hash of everything the object's future can depend on.  Stops with the number
 * of states, or at maxstates (then *capped = 1). */
typedef struct {
	int nops;
	void *(*make)(void);
	int  (*apply)(void *s, int op);		/* 0: op not enabled here */
	uint64_t (*canon)(void *s);
	void (*destroy)(void *s);
	const char *(*name)(int op);
	long maxstates;
	int maxdepth;				/* 0: unbounded */
} mc_system;
long mc_closure(const mc_system *m, int *depth, int *capped);

/* C06 -- stack is LIFO */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C06";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of push (3 data, one NULL)/pop/top/isempty up to length 9 (thorough 11), every observer after every operation; every interleaving of two stacks with destruction and recreation up to length 7 (9); breadth-first search to the fixpoint of two stacks up to depth 3 (4) each, any history length; depths up to 100000";
const char *mc_assumptions[] = { "AddressSanitizer build of the working tree", NULL };
static char X[4];
static void *D(int i) { return i == 2 ? NULL : &X[i]; }
typedef struct { stk_Stack s; int n; void *e[40]; } obj;
static void check(obj *o)
{
	mc_check(!!stk_isempty(o->s) == !o->n, "isempty is %d with %d elements", stk_isempty(o->s), o->n);
	mc_check(stk_top(o->s) == (o->n ? o->e[o->n - 1] : NULL), "top is wrong");
	mc_check(!!stk_isempty(o->s) == !o->n, "isempty changed after top");
}
static void pop(obj *o, int w)
{
	void *d; mc_op("stack %d: pop", w);
	d = stk_pop(o->s); mc_check(d == (o->n ? o->e[o->n - 1] : NULL), "pop returned the wrong datum at depth %d", o->n);
	if (o->n) o->n--;
}
static void apply(obj *o, int op, int w) { if (op < 3) { mc_op("stack %d: push %d", w, op); stk_push(o->s, D(op)); o->e[o->n++] = D(op); } else pop(o, w); }
static uint64_t hash(obj *o) { return mc_hash(o->e, o->n * sizeof o->e[0], o->n); }
static void drain(obj *o, int w) { while (o->n) { check(o); pop(o, w); } check(o); pop(o, w); }
static void b_sequences(void)
{
	obj o; int d; memset(&o, 0, sizeof o); o.s = stk_create(); check(&o);
	for (d = 0; d < QT(9, 11); d++) { int c = mc_choose(5); if (!c) break; apply(&o, c - 1, 0); check(&o); }
	mc_state(hash(&o));
	if (mc_choose(2)) drain(&o, 0);
	stk_destroy(o.s);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_two(void)
{
	obj o[2]; int d, w; memset(o, 0, sizeof o); o[0].s = stk_create(); o[1].s = stk_create();
	for (d = 0; d < QT(7, 9); d++) {
		int c = mc_choose(9);
		if (!c) break;
		w = --c / 4; c %= 4;
		if (c == 3) { mc_op("stack %d destroyed and created again", w); stk_destroy(o[w].s); o[w].n = 0; o[w].s = stk_create(); }
		else apply(&o[w], c == 2 ? 3 : c + w, w);
		check(&o[0]); check(&o[1]);
	}
	mc_state(mc_mix(hash(&o[0]), hash(&o[1])));
	w = mc_choose(2); drain(&o[w], w); check(&o[!w]); stk_destroy(o[w].s); drain(&o[!w], !w); stk_destroy(o[!w].s);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
typedef struct { obj o[2]; } pair;
void __real_free(void *);
static void *cl_make(void) { pair *p = mc_real_malloc(sizeof *p); memset(p, 0, sizeof *p); p->o[0].s = stk_create(); p->o[1].s = stk_create(); return p; }
static void cl_destroy(void *s) { pair *p = s; stk_destroy(p->o[0].s); stk_destroy(p->o[1].s); __real_free(p); }
static int cl_apply(void *s, int op) { pair *p = s; obj *o = &p->o[op / 4]; if (op % 4 < 3 && o->n >= QT(3, 4)) return 0; apply(o, op % 4, op / 4); return 1; }
static uint64_t cl_canon(void *s) { pair *p = s; check(&p->o[0]); check(&p->o[1]); return mc_mix(hash(&p->o[0]), hash(&p->o[1])); }
static const char *cl_name(int op) { static char b[40]; snprintf(b, sizeof b, "stack %d %s", op / 4, op % 4 < 3 ? "push" : "pop"); return b; }
static void b_closure(void)
{
	mc_system sys = { 8, cl_make, cl_apply, cl_canon, cl_destroy, cl_name, 4000000, 0 }; int depth, capped;
	mc_closure(&sys, &depth, &capped); mc_check(!capped, "harness: state space larger than expected");
}
static void b_deep(void)
{
	static const int N[] = { 1, 2, 3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 65536, 100000 };
	int n = N[mc_choose(20)], how = mc_choose(3), i, j; stk_Stack s = stk_create(), t = stk_create(); char *b = X;
	mc_op("depth %d, pattern %d", n, how);
	for (i = 0; i < n; i++) { stk_push(s, b + i); if (how == 1) { stk_push(t, b - i); if (i % 2) mc_check(stk_pop(t) == b - i, "other stack"); } if (how == 2) { stk_push(s, NULL); mc_check(stk_top(s) == NULL && !stk_isempty(s) && stk_pop(s) == NULL, "NULL on top at %d", i); } }
	for (i = n - 1; i >= 0; i--) { mc_check(!stk_isempty(s) && stk_top(s) == b + i, "top at %d", i); mc_check(stk_pop(s) == b + i, "pop at %d", i); }
	mc_check(stk_isempty(s) && stk_pop(s) == NULL && stk_top(s) == NULL, "not empty");
	for (j = (n - 1) & ~1; how == 1 && j >= 0; j -= 2) mc_check(stk_pop(t) == b - j, "other stack disturbed at %d", j);
	mc_state(n * 3 + how); mc_step(2 * n);
	stk_destroy(s); stk_destroy(t); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences, .recycle = 1 }, { "two-stacks", b_two, .recycle = 1 }, { "closure", b_closure }, { "deep", b_deep, .recycle = 1 }, { NULL } };

/* map.h -- exploration of hash.c (and, with -DSET, set.c) as finite map/set.
 * Included by C01.c and C03.c. */
#include "maa.h"
#include "mc.h"

#ifdef SET
#define T_            set_Set
#define t_create(h,c) set_create(h,c)
#define t_insert(t,k,d) set_insert(t,k)
#define t_delete      set_delete
#define t_destroy     set_destroy
#define KIND "set"
#else
#define T_            hsh_HashTable
#define t_create(h,c) hsh_create(h,c)
#define t_insert(t,k,d) hsh_insert(t,k,d)
#define t_delete      hsh_delete
#define t_destroy     hsh_destroy
#define KIND "hash table"
#endif

#include "keys.h"

static char data_pool[64];
/* datum of the n-th insertion; one in three is NULL, keys themselves may be data */
static const void *datum_of(int n, int k) { return n % 3 == 2 ? NULL : n % 3 == 1 ? (const void *)&data_pool[n % 64] : (const void *)A->key[k]; }

/* -------------------------------------------------------- reference model */
typedef struct { int n; struct { int cls; const void *key, *datum; } e[MAXK]; } model;
static int m_find(const model *m, int cls) { int i; for (i = 0; i < m->n; i++) if (m->e[i].cls == cls) return i; return -1; }

typedef struct { T_ t; model m; int ins; } obj;

/* an iteration callback collecting everything */
static struct { int n; const void *key[64], *datum[64]; } got;
static int collect(const void *k, const void *d) { mc_check(got.n < 64, "iteration yields more than 64 entries"); got.key[got.n] = k; got.datum[got.n++] = d; return 0; }
static int collect1(const void *k) { return collect(k, NULL); }

/* keys may be passed in one buffer whose content changes; the table keeps the pointer of an insertion only */
static int scratch;
static const void *probe(int k)
{
	static ikey ib; static char sb[32];
	if (!scratch || A->hash == hsh_pointer_hash) return A->key[k];
	if (A->cmp == c_ikey || A->cmp == c_ikeyneg) { ib = *(const ikey *)A->key[k]; return &ib; }
	strcpy(sb, A->key[k]); return sb;
}
static void full_check(obj *o)
{
	int i, j, n;
	got.n = 0;
#ifdef SET
	set_Stats s = set_get_stats(o->t);
	mc_check(set_count(o->t) == o->m.n, "set_count is %d, model has %d", set_count(o->t), o->m.n);
	n = set_iterate(o->t, collect1);
#else
	hsh_Stats s = hsh_get_stats(o->t);
	n = hsh_iterate(o->t, collect);
#endif
	mc_check(n == 0, "complete iteration returned %d", n);
	mc_check((int)s->entries == o->m.n, "%lu entries, model has %d", s->entries, o->m.n);
	xfree(s);
	mc_check(got.n == o->m.n, "iteration yields %d entries, model has %d", got.n, o->m.n);
	for (i = 0; i < o->m.n; i++) {
		for (n = j = 0; j < got.n; j++) if (got.key[j] == o->m.e[i].key) {
			n++;
#ifndef SET
			mc_check(got.datum[j] == o->m.e[i].datum, "iteration: wrong datum %p for a key, expected %p", got.datum[j], o->m.e[i].datum);
#endif
		}
		mc_check(n == 1, "the stored key pointer of class %d is yielded %d times", o->m.e[i].cls, n);
	}
}
static uint64_t m_hash(const model *m)
{
	uint64_t h = 5, x = 0; int i;
	for (i = 0; i < m->n; i++) x += mc_mix(m->e[i].cls * 31 + (uint64_t)m->e[i].key, (uint64_t)m->e[i].datum);
	return mc_mix(h, x);
}

/* ops: 3*k + {0 insert, 1 delete, 2 lookup} */
static const char *opname[3] = { "insert", "delete", "lookup" };
static void op_apply(obj *o, int op, int which)
{
	int k = op / 3, cls = A->cls[k], i = m_find(&o->m, cls), r;
	const void *key = A->key[k];
	mc_op("%s %d: %s key #%d (class %d)", KIND, which, opname[op % 3], k, cls);
	switch (op % 3) {
	case 0: {
		const void *d = datum_of(o->ins++, k);
		r = t_insert(o->t, i >= 0 ? probe(k) : key, d);
		mc_check(r == (i >= 0), "insert of %s key returned %d", i >= 0 ? "a present" : "an absent", r);
		if (i < 0) { i = o->m.n++; o->m.e[i].cls = cls; o->m.e[i].key = key; o->m.e[i].datum = d; }
#ifndef SET
		{ hsh_Stats s = hsh_get_stats(o->t); mc_check(s->entries <= s->size / 2 + 1, "overfull: %lu entries in size %lu", s->entries, s->size); xfree(s); }
#endif
		break; }
	case 1:
		r = t_delete(o->t, probe(k));
		mc_check(r == (i < 0), "delete of %s key returned %d", i >= 0 ? "a present" : "an absent", r);
		if (i >= 0) o->m.e[i] = o->m.e[--o->m.n];
		break;
	default:
#ifdef SET
		r = set_member(o->t, probe(k));
		mc_check(r == (i >= 0), "member of %s element returned %d", i >= 0 ? "a present" : "an absent", r);
#else
		{ const void *d = hsh_retrieve(o->t, probe(k));
		mc_check(d == (i >= 0 ? o->m.e[i].datum : NULL), "retrieve of %s key returned %p instead of %p", i >= 0 ? "a present" : "an absent", d, i >= 0 ? o->m.e[i].datum : NULL); }
#endif
	}
}
static void lookup_all(obj *o, int which) { int k; for (k = 0; k < A->n; k++) op_apply(o, 3 * k + 2, which); }

/* 1. every sequence of operations up to a length, every alphabet */
static void b_sequences(void)
{
	obj o; int d, depth, nk;
	A = &alphas[mc_choose(NALPHA)];
	nk = 4; depth = QT(6, 7); scratch = mc_choose(2); if (scratch) depth--;
	memset(&o, 0, sizeof o);
	o.t = t_create(A->hash, A->cmp);
	for (d = 0; d < depth; d++) {
		int c = mc_choose(3 * nk + 2);
		if (!c) break;
		if (c == 3 * nk + 1) { if (!scratch) mc_stop(); mc_op("destroyed and created again"); t_destroy(o.t); memset(&o, 0, sizeof o); o.t = t_create(A->hash, A->cmp); continue; }
		op_apply(&o, c - 1, 0);
		mc_state(m_hash(&o.m));
	}
	full_check(&o);
	lookup_all(&o, 0);
	full_check(&o);
	t_destroy(o.t);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
/* 2. two tables with different alphabets and functions, interleaved */
static void b_two(void)
{
	obj o[2]; const alpha_t *a[2]; int d, i, depth = QT(5, 6), nk = 2;
	a[0] = &alphas[mc_choose(NALPHA)]; a[1] = &alphas[mc_choose(NALPHA)];
	for (i = 0; i < 2; i++) { memset(&o[i], 0, sizeof o[i]); o[i].t = t_create(a[i]->hash, a[i]->cmp); }
	scratch = (a[0] - a[1]) & 1;
	for (d = 0; d < depth; d++) {
		int c = mc_choose(2 * 3 * nk + 1);
		if (!c) break;
		c--; i = c / (3 * nk); A = a[i];
		op_apply(&o[i], c % (3 * nk), i);
	}
	for (i = 0; i < 2; i++) { A = a[i]; lookup_all(&o[i], i); full_check(&o[i]); }
	mc_state(mc_mix(m_hash(&o[0].m), m_hash(&o[1].m)));
	t_destroy(o[0].t);
	A = a[1]; lookup_all(&o[1], 1); full_check(&o[1]);
	t_destroy(o[1].t);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* 3. all states reachable by histories of ANY length (state = the chains as
 *    iteration shows them, the size, and the live data) */
static int cl_n;
static void *cl_make(void) { obj *o = mc_real_malloc(sizeof *o); memset(o, 0, sizeof *o); o->t = t_create(A->hash, A->cmp); return o; }
void __real_free(void *);
static void cl_destroy(void *s) { t_destroy(((obj *)s)->t); __real_free(s); }
static int cl_apply(void *s, int op) { obj *o = s; o->ins = op % 2; scratch = 1; op_apply(o, op, 0); return 1; }
static uint64_t cl_canon(void *s)
{
	obj *o = s; uint64_t h = 17; int i;
#ifdef SET
	set_Stats st = set_get_stats(o->t);
#else
	hsh_Stats st = hsh_get_stats(o->t);
#endif
	h = mc_mix(h, st->size); xfree(st);
	full_check(o);
	for (i = 0; i < got.n; i++) h = mc_mix(mc_mix(h, (uint64_t)got.key[i]), (uint64_t)got.datum[i]);
	return h;
}
static const char *cl_name(int op) { static char b[40]; snprintf(b, sizeof b, "%s #%d", opname[op % 3], op / 3); return b; }
static void b_closure(void)
{
	mc_system sys = { 0, cl_make, cl_apply, cl_canon, cl_destroy, cl_name, 2000000, 0 };
	int depth, capped;
	A = &alphas[mc_choose(NALPHA)];
	sys.nops = 3 * QT(5, 6);
	mc_closure(&sys, &depth, &capped);
	mc_check(!capped, "harness: state space larger than expected");
}
/* 4. large tables: every growth threshold, several orders of deletion */
static unsigned long h_low(const void *k) { return ((const ikey *)k)->v & 63; }
static unsigned long h_mult(const void *k) { return ((const ikey *)k)->v * 0x9e3779b97f4a7c15UL; }
static const int sizes[] = { 1, 2, 3, 4, 5, 6, 7, 8, 18, 19, 20, 21, 55, 56, 57, 58, 59, 169, 170, 171, 173, 174, 175, 300, 520, 521, 525, 1000, 1571, 1580, 70000, 4711, 4720, 14200 };
static char *strs; static ikey *ints;
static void b_large(void)
{
	static const struct { const char *n; unsigned long (*h)(const void *); int (*c)(const void *, const void *); int kind; } F[] = {
		{ "identity", h_ident, c_ikey, 0 }, { "64 chains", h_low, c_ikey, 0 }, { "multiplicative", h_mult, c_ikeyneg, 0 },
		{ "string", NULL, NULL, 1 }, { "pointer", hsh_pointer_hash, hsh_pointer_compare, 0 } };
	int f = mc_choose(5), si = mc_choose(QT(31, 34)), pat = mc_choose(4), probe = mc_choose(2), n = sizes[si], i, live, j;
	T_ t;
	unsigned char *in = calloc(n + 1, 1);
#define KEY(i) (F[f].kind ? (const void *)(strs + 24 * (i)) : (const void *)&ints[i])
	if (F[f].h == h_low && n > 2000) { free(in); return; }
	if (n > 65535 && (!probe || pat != 1)) { free(in); return; }	/* counts beyond 16 bits: one history for each hash function */
	mc_op("%d keys, %s hash, deletion pattern %d, lookups between: %d", n, F[f].n, pat, probe);
	t = t_create(F[f].h, F[f].c);
	for (i = 0; i < n; i++) {
		mc_check(t_insert(t, KEY(i), &ints[i]) == 0, "insert %d of %d", i, n);
		in[i] = 1;
		if (probe && i % 3 == 0) {
			j = i * 7 % (i + 1);
#ifdef SET
			mc_check(set_member(t, KEY(j)) == 1, "member %d after %d inserts", j, i);
#else
			mc_check(hsh_retrieve(t, KEY(j)) == &ints[j], "retrieve %d after %d inserts", j, i);
#endif
		}
		if (probe && i % 5 == 4) mc_check(t_insert(t, KEY(i / 2), NULL) == 1, "duplicate insert %d", i / 2);
	}
	mc_step(n);
	live = n;
#ifdef SET
	{ set_Stats s = set_get_stats(t); mc_check(s->entries == (unsigned long)n && set_count(t) == n, "%lu entries, count %d after %d insertions", s->entries, set_count(t), n); mc_check(s->entries <= s->size / 2 + 1, "overfull: %lu of %lu", s->entries, s->size); xfree(s); }
#else
	{ hsh_Stats s = hsh_get_stats(t); mc_check(s->entries == (unsigned long)n, "%lu entries after %d insertions", s->entries, n); mc_check(s->entries <= s->size / 2 + 1, "overfull: %lu of %lu", s->entries, s->size); xfree(s); }
#endif
	for (j = 0; j < n; j++) {
		i = pat == 0 ? n - 1 - j : pat == 1 ? j : pat == 2 ? (j % 2 ? -1 : j) : (j % 3 == 1 ? j : -1);
		if (i < 0) continue;
		if (pat < 2 && j >= n / 2) break;
		mc_check(t_delete(t, KEY(i)) == 0, "delete %d", i);
		mc_check(t_delete(t, KEY(i)) == 1, "second delete %d", i);
		in[i] = 0; live--;
	}
	for (i = 0; i < n; i++) {
#ifdef SET
		mc_check(set_member(t, KEY(i)) == in[i], "member %d is %d after deletions", i, !in[i]);
#else
		mc_check(hsh_retrieve(t, KEY(i)) == (in[i] ? &ints[i] : NULL), "retrieve %d after deletions", i);
#endif
	}
	for (i = 0; i < n; i += 2) {	/* reinsert */
		mc_check(t_insert(t, KEY(i), &ints[i]) == in[i], "reinsert %d", i);
		if (!in[i]) { in[i] = 1; live++; }
	}
	{
		unsigned long entries, size;
#ifdef SET
		set_Stats s = set_get_stats(t);
		mc_check(set_count(t) == live, "count %d, %d live", set_count(t), live);
#else
		hsh_Stats s = hsh_get_stats(t);
#endif
		entries = s->entries; size = s->size; xfree(s);
		mc_check((int)entries == live, "%lu entries, %d live", entries, live);
		mc_check(entries <= size / 2 + 1, "overfull: %lu of %lu", entries, size);
		mc_outcome(mc_mix(entries, size));
	}
	for (i = 0; i < n; i++) {
#ifdef SET
		mc_check(set_member(t, KEY(i)) == in[i], "member %d at the end", i);
#else
		mc_check(hsh_retrieve(t, KEY(i)) == (in[i] ? &ints[i] : NULL), "retrieve %d at the end", i);
#endif
	}
	mc_state(mc_mix(mc_mix(n, pat), f * 2 + probe));
	mc_step(2 * n);
	t_destroy(t);
	free(in);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* 5. keys that are nearly equal: every place and kind of difference */
#ifdef SET
#define has(t, k, d) (set_member(t, k) == 1)
#define hasnt(t, k) (set_member(t, k) == 0)
#else
#define has(t, k, d) (hsh_retrieve(t, k) == (d))
#define hasnt(t, k) (hsh_retrieve(t, k) == NULL)
#endif
static unsigned long h_top(const void *k) { return ~0UL; }
static const char *const D_[2] = { "A", "B" };
static void near_pair(T_ t, const void *a, const void *a2, const void *b, const void *b2, const char *what)
{
	mc_check(t_insert(t, a, D_[0]) == 0, "%s: first insert", what);
	mc_check(has(t, a2, D_[0]) && hasnt(t, b), "%s: lookup after the first insert", what);
	mc_check(t_delete(t, b) == 1, "%s: the absent key was deleted", what);
	mc_check(t_insert(t, b, D_[1]) == 0, "%s: the second key is taken for the first", what);
	mc_check(t_insert(t, a2, NULL) == 1 && t_insert(t, b2, NULL) == 1, "%s: a second insertion of an equal key", what);
	mc_check(has(t, b2, D_[1]) && has(t, a2, D_[0]) && has(t, b, D_[1]) && has(t, a, D_[0]), "%s: lookup with both keys present", what);
	mc_check(t_delete(t, a2) == 0 && hasnt(t, a) && has(t, b, D_[1]), "%s: deletion of the first key", what);
	mc_check(t_delete(t, b2) == 0 && hasnt(t, b), "%s: deletion of the second key", what);
	mc_step(12);
}
static void b_nearly(void)
{
	static const int len[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65537 };
	static const char *const kn[] = { "another letter", "the other case", "the top bit", "a missing tail", "one more character", "one character less by one" };
	int L = len[mc_choose(sizeof len / sizeof *len)], kind = mc_choose(6), fn = mc_choose(4), np, pi, p, i; T_ t; char *a, *a2, *b, *b2, w[100];
	a = mc_real_malloc(L + 3); a2 = mc_real_malloc(L + 3); b = mc_real_malloc(L + 3); b2 = mc_real_malloc(L + 3);
	np = L <= 65 ? L : 6;
	for (pi = 0; kind == 4 ? !pi : pi < np; pi++) {
		p = L <= 65 || kind == 4 ? pi : (int[]){ 0, 1, L / 2, L - 2, L - 1, L / 3 }[pi];
		for (i = 0; i < L; i++) a[i] = "abcdefghijklmnopqrstuvwxyz"[i % 26]; a[L] = 0; strcpy(b, a);
		switch (kind) { case 0: b[p] = b[p] == '~' ? '!' : '~'; break; case 1: b[p] ^= 32; break; case 2: b[p] |= 128; break; case 3: b[p] = 0; break; case 4: strcpy(b + L, "z"); break; default: b[p]--; }
		strcpy(a2, a); strcpy(b2, b); snprintf(w, sizeof w, "keys of %d characters, %s at %d", L, kn[kind], p); mc_op("%s", w);
		t = fn == 0 ? t_create(NULL, NULL) : fn == 1 ? t_create(h_const, NULL) : fn == 2 ? t_create(h_top, hsh_string_compare) : t_create(hsh_string_hash, NULL);
		if (fn & 1) near_pair(t, b, b2, a, a2, w); else near_pair(t, a, a2, b, b2, w);
		t_destroy(t);
	}
	__real_free(a); __real_free(a2); __real_free(b); __real_free(b2); mc_state(mc_mix(L, kind * 4 + fn));
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_pointers(void)
{
	static const unsigned long base[] = { 0, 1, 0x1000, 0x7fffffff, 0x80000000, 0xffffffff, 0x7f1234567890, 0x8000000000000000, ~0UL };
	unsigned long x = base[mc_choose(9)], y = x ^ 1UL << mc_choose(64); int fn = mc_choose(3); T_ t = t_create(fn == 1 ? h_const : fn == 2 ? h_top : hsh_pointer_hash, hsh_pointer_compare); char w[100];
	snprintf(w, sizeof w, "pointers %lx and %lx", x, y); mc_op("%s", w);
	near_pair(t, (void *)x, (void *)x, (void *)y, (void *)y, w); t_destroy(t); mc_state(mc_mix(x, y));
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
void mc_process_init(void)
{
	int i;
	ints = mc_real_malloc(70100 * sizeof *ints); strs = mc_real_malloc(70100 * 24);
	for (i = 0; i < 70100; i++) { ints[i].v = i * 3 + 1; ints[i].tag = 0; snprintf(strs + 24 * i, 24, i % 3 ? "key%d" : "%d/long-prefix", i); }
}
const char *mc_level = "model_checking";
mc_scenario mc_scenarios[] = {
	{ "sequences", b_sequences, .recycle = 1 }, { "two-tables", b_two }, { "closure", b_closure }, { "large", b_large, .recycle = 1 }, { "nearly-equal", b_nearly }, { "pointers", b_pointers }, { NULL } };

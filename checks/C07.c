/* C07 -- skip list is an ordered map for every coin toss */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C07";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of insert/delete over 4 (thorough 5) keys up to length 6 with every outcome of the first 3 coin tosses of each insertion, all finds and the full iteration after every operation; breadth-first search to the fixpoint of (live keys, tower heights up to 4, list level) over 4 keys (5), any history length; two interleaved lists; iteration with every insertion/deletion the callback may make at every datum and every stopping point; duplicate insertion and absent deletion from every state; tall lists (16 levels and beyond) under 7 coin patterns x 6 orders x up to 3000 data; iteration of lists of 63 to 4097 data changed in 11 manners at 9 places; full and stopped iteration of lists of up to 1.1 million (thorough 2.2 million) data; 900 cycles of insertions and deletions or of lists, memory counted";
const char *mc_assumptions[] = { "random() is the only source of randomness of the list; an answer is all ones or all zeros in its low 31 bits", "a callback does not destroy the list it iterates", "AddressSanitizer build of the working tree", NULL };

typedef struct { long pad; int k; } rec;
static rec R[12], R2[12];
static const void *key_rec(const void *d) { return &((const rec *)d)->k; }
static int cmp_rec(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static const void *key_id(const void *d) { return d; }
static int cmp_ptr(const void *a, const void *b) { return a < b ? -1000 : a > b ? 77 : 0; }
static int cmp_rev(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x > y ? -5 : x < y ? 2 : 0; }
static const char *pr(const void *d) { return "datum"; }
static int style;	/* 0 record keys, 1 pointers, 2 reversed order */
typedef struct { sl_List l; int in[8]; int h[8], level; } obj;
static const void *DAT(int i) { return style == 1 ? (const void *)(uintptr_t)(0x7fff0000UL + i) : &R[i]; }
static const void *KEY(int i) { static int k[12]; k[i] = i * 10; return style == 1 ? DAT(i) : &k[i]; }	/* an equal key elsewhere in memory */
static int idx(const void *d) { int i; for (i = 0; i < 8; i++) if (DAT(i) == d) return i; mc_fail("unknown datum"); }
static int rank(int i) { return style == 2 ? -i : i; }

static int tosses, forced, forced_pos, toss_cap;	/* forced >= 0: heights from the closure */
static long toss(void)
{
	int r;
	if (forced >= 0) r = forced_pos++ < forced;
	else if (tosses >= toss_cap) r = 0;
	else r = mc_choose(2);
	tosses++;
	return r ? 0x7fffffff : 0;
}
static sl_List mk(void) { return style == 1 ? sl_create(cmp_ptr, key_id, NULL) : sl_create(style == 2 ? cmp_rev : cmp_rec, key_rec, pr); }
static void ins(obj *o, int k)
{
	tosses = 0; forced_pos = 0;
	mc_op("insert %d", k);
	sl_insert(o->l, DAT(k));
	o->in[k] = 1; o->h[k] = tosses; if (tosses > o->level) o->level++; if (o->h[k] > o->level) o->h[k] = o->level;
}
static void del(obj *o, int k)
{
	int i, m = 0;
	mc_op("delete %d", k);
	sl_delete(o->l, DAT(k));
	o->in[k] = 0; for (i = 0; i < 8; i++) if (o->in[i] && o->h[i] > m) m = o->h[i];
	if (m < o->level) o->level = m;
}
static int seen[32], nseen, stop_at, retv;
static int cb(const void *d) { mc_check(nseen < 32, "iteration does not end"); seen[nseen++] = idx(d); return nseen == stop_at ? retv : 0; }
static int cba(const void *d, void *a) { mc_check(a == seen, "argument"); return cb(d); }
static void check(obj *o, int n)
{
	int i, c = 0, r; const void *d;
	for (i = 0; i < n; i++) {
		d = sl_find(o->l, KEY(i));
		mc_check(d == (o->in[i] ? DAT(i) : NULL), "find of %s key %d returned %s", o->in[i] ? "a present" : "an absent", i, d ? "a datum" : "NULL");
		c += o->in[i];
	}
	nseen = stop_at = 0;
	r = sl_iterate(o->l, cb);
	mc_check(r == 0 && nseen == c, "iterate: result %d, %d of %d data", r, nseen, c);
	for (i = 0; i < nseen; i++) { mc_check(o->in[seen[i]], "iterate yields an absent datum"); if (i) mc_check(rank(seen[i - 1]) < rank(seen[i]), "iteration order: %d before %d", seen[i - 1], seen[i]); }
	nseen = 0; r = sl_iterate_arg(o->l, cba, seen);
	mc_check(r == 0 && nseen == c, "iterate_arg: result %d, %d of %d data", r, nseen, c);
	for (i = 0; i < nseen; i++) { mc_check(o->in[seen[i]], "iterate_arg yields an absent datum"); if (i) mc_check(rank(seen[i - 1]) < rank(seen[i]), "iteration order"); }
}
static uint64_t hash(obj *o) { uint64_t h = o->level + style * 100; int i; for (i = 0; i < 8; i++) h = mc_mix(h, o->in[i] ? o->h[i] + 1 : 0); return h; }
static void refuse(obj *o, int k)
{
	mc_op("refused: %s %d", o->in[k] ? "insert of present" : "delete of absent", k);
	if (o->in[k]) MC_MUST_ABORT("insert of a present key", sl_insert(o->l, style == 1 ? DAT(k) : &R2[k]));
	else MC_MUST_ABORT("delete of an absent key", sl_delete(o->l, DAT(k)));
	mc_outcome(o->in[k]);
	mc_stop();
}
static void setup(void) { int i; for (i = 0; i < 12; i++) R[i].k = R2[i].k = i * 10; forced = -1; toss_cap = 3; mc_random_hook = toss; }
static void b_sequences(void)
{
	obj o; int d, c, n = QT(4, 5); setup(); memset(&o, 0, sizeof o);
	style = mc_choose(3); o.l = mk(); check(&o, n);
	for (d = 0; d < QT(6, 6); d++) {
		c = mc_choose(2 * n + 1);
		if (!c) break;
		if (--c >= n) { refuse(&o, c - n); }
		if (o.in[c]) del(&o, c); else ins(&o, c);
		check(&o, n); mc_state(hash(&o));
	}
	sl_destroy(o.l); _sl_shutdown();
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy and shutdown", mc_live_count());
}
/* two lists */
static void b_two(void)
{
	obj o[2]; int st[2], d, i, c; setup(); toss_cap = 1; memset(o, 0, sizeof o);
	for (i = 0; i < 2; i++) { st[i] = style = i ? mc_choose(3) : 0; o[i].l = mk(); }
	for (d = 0; d < QT(5, 7); d++) {
		c = mc_choose(2 * 3 + 3);
		if (!c) break;
		if (--c >= 6) { c -= 6; mc_op("list %d destroyed and created again", c); sl_destroy(o[c].l); memset(&o[c], 0, sizeof o[c]); style = st[c]; o[c].l = mk(); continue; }
		i = c / 3; c %= 3; style = st[i];
		if (o[i].in[c]) del(&o[i], c); else ins(&o[i], c);
	}
	for (i = 0; i < 2; i++) { style = st[i]; check(&o[i], 3); }
	mc_state(mc_mix(hash(&o[0]), hash(&o[1])));
	sl_destroy(o[0].l); style = st[1]; check(&o[1], 3); sl_destroy(o[1].l); _sl_shutdown();
	mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* fixpoint */
void __real_free(void *);
static void *cl_make(void) { obj *o = mc_real_malloc(sizeof *o); memset(o, 0, sizeof *o); o->l = mk(); return o; }
static void cl_destroy(void *s) { sl_destroy(((obj *)s)->l); __real_free(s); }
static int cl_apply(void *s, int op)	/* 5 per key: insert with 0..3 more tosses, delete */
{
	obj *o = s; int k = op / 5; op %= 5;
	if (op == 4) { if (!o->in[k]) return 0; del(o, k); }
	else { if (o->in[k]) return 0; forced = op; ins(o, k); }
	return 1;
}
static uint64_t cl_canon(void *s) { check(s, 6); return hash(s); }
static const char *cl_name(int op) { static char b[40]; if (op % 5 == 4) snprintf(b, sizeof b, "delete %d", op / 5); else snprintf(b, sizeof b, "insert %d (%d heads)", op / 5, op % 5); return b; }
static void b_closure(void)
{
	mc_system sys = { 5 * QT(4, 5), cl_make, cl_apply, cl_canon, cl_destroy, cl_name, 4000000, 0 }; int depth, capped;
	setup(); style = mc_choose(3); forced = 0;
	mc_closure(&sys, &depth, &capped); mc_check(!capped, "harness: state space larger than expected");
}
/* iteration while the callback changes the list */
static obj it; static int mut_at, mut1, mut2, present0[8], throughout[8], ever[8], cnt, nk;
static void mutate(int m) { if (m < 0) return; if (it.in[m]) { del(&it, m); throughout[m] = 0; } else { ins(&it, m); ever[m] = 1; } }
static int mcb(const void *d)
{
	int i = idx(d);
	mc_check(nseen < 30, "iteration does not end");
	mc_check(ever[i], "iteration yields datum %d which was never present during the iteration", i);
	if (nseen) mc_check(rank(seen[nseen - 1]) < rank(i), "iteration order: %d after %d", i, seen[nseen - 1]);
	seen[nseen++] = i;
	if (cnt++ == mut_at) { mutate(mut1); mutate(mut2); }
	return cnt == stop_at ? retv : 0;
}
static int mcba(const void *d, void *a) { mc_check(a == &it, "argument"); return mcb(d); }
static void b_mutate(void)
{
	int m, i, r, arg, j;
	setup(); toss_cap = QT(1, 2); nk = QT(4, 5); style = mc_choose(3);
	memset(&it, 0, sizeof it); it.l = mk();
	m = mc_choose(1 << nk); for (i = 0; i < nk; i++) if (m >> i & 1) ins(&it, i);
	for (i = 0; i < 8; i++) throughout[i] = ever[i] = present0[i] = it.in[i];
	arg = mc_choose(2); mut_at = mc_choose(nk); mut1 = mc_choose(nk + 2) - 1; mut2 = mc_choose(nk + 2) - 1;
	stop_at = mc_choose(nk + 1); retv = arg ? -9 : 5; cnt = nseen = 0;
	mc_op("iterate over %x, at call %d change %d and %d, stop at call %d", m, mut_at, mut1, mut2, stop_at);
	r = arg ? sl_iterate_arg(it.l, mcba, &it) : sl_iterate(it.l, mcb);
	if (stop_at && cnt >= stop_at) { mc_check(r == retv && cnt == stop_at, "callback returned %d at call %d, iteration returned %d after %d calls", retv, stop_at, r, cnt); }
	else {
		mc_check(r == 0, "iteration returned %d", r);
		for (i = 0; i < nk; i++) if (throughout[i]) { for (m = j = 0; j < nseen; j++) m += seen[j] == i; mc_check(m == 1, "datum %d, present throughout, was visited %d times", i, m); }
	}
	check(&it, nk + 1); mc_state(mc_mix(hash(&it), mut_at * 64 + stop_at));
	sl_destroy(it.l); _sl_shutdown(); mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* tall and long lists */
static rec *B; static int pattern; static unsigned long tcount, icount, toss_no;
static long toss_tall(void)
{
	int r;
	switch (pattern) {
	case 0: r = 1; break;
	case 1: r = 0; break;
	case 2: r = icount & 1; break;
	case 3: r = (icount >> (toss_no & 31)) & 1; break;
	case 4: r = (int)toss_no < (int)(icount % 19); break;
	case 5: r = (int)toss_no < 18 - (int)(icount % 19); break;
	default: tcount = tcount * 1103515245 + 12345; r = tcount >> 16 & 1; break;
	}
	toss_no++;
	return r ? 0x7fffffff : 0;
}
static int pos_of(int order, int i, int n)
{
	switch (order) { case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; case 3: return (int)((long)i * 7919 % n); case 4: return (i % 2) ? i / 2 : (n + 1) / 2 + i / 2 >= n ? n - 1 - i / 2 : (n + 1) / 2 + i / 2; default: return (int)((long)(i + 3) * 104729 % n); }
}
static int lastk, total;
static int bcb(const void *d) { const rec *r = d; mc_check(r->k > lastk && r->pad, "iteration of a long list: order or membership"); lastk = r->k; total++; return 0; }
static void b_tall(void)
{
	static const int N[] = { 1, 2, 5, 16, 17, 18, 19, 25, 40, 200, 1000, 3000 };
	int n = N[mc_choose(12)], o1 = mc_choose(6), o2 = mc_choose(6), i, j, live = 0; sl_List l; rec probe;
	pattern = mc_choose(7); icount = toss_no = 0; tcount = 1; mc_random_hook = toss_tall;
	if (n > 200 && (pattern <= 1 || pattern == 2) && n * n > 1000000) return;
	mc_op("%d data, coin pattern %d, insertion order %d, deletion order %d", n, pattern, o1, o2);
	l = sl_create(cmp_rec, key_rec, pr);
	for (i = 0; i < n; i++) { B[i].k = i; B[i].pad = 0; }
	for (i = 0; i < n; i++) { j = pos_of(o1, i, n); if (B[j].pad) continue; icount++; toss_no = 0; sl_insert(l, &B[j]); B[j].pad = 1; live++; }
	for (i = 0; i < n; i++) { probe.k = i; mc_check(sl_find(l, &probe.k) == (B[i].pad ? (void *)&B[i] : NULL), "find %d", i); }
	lastk = -1; total = 0; sl_iterate(l, bcb); mc_check(total == live, "iteration yields %d of %d", total, live);
	for (i = 0; i < n; i++) {
		j = pos_of(o2, i, n); if (i % 5 == 4 || !B[j].pad) continue;
		sl_delete(l, &B[j]); B[j].pad = 0; live--;
		if (i % 7 == 3) { icount++; toss_no = 0; sl_insert(l, &B[j]); B[j].pad = 1; live++; }
		if (n <= 40) { int q; for (q = 0; q < n; q++) { probe.k = q; mc_check(sl_find(l, &probe.k) == (B[q].pad ? (void *)&B[q] : NULL), "find %d after deleting %d", q, j); } }
	}
	for (i = 0; i < n; i++) { probe.k = i; mc_check(sl_find(l, &probe.k) == (B[i].pad ? (void *)&B[i] : NULL), "find %d after deletions", i); }
	lastk = -1; total = 0; sl_iterate(l, bcb); mc_check(total == live, "iteration yields %d of %d after deletions", total, live);
	mc_state(mc_mix(n * 7 + pattern, o1 * 6 + o2)); mc_step(3 * n);
	sl_destroy(l); _sl_shutdown(); mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* more data than a copy of them on the stack could hold */
static rec *H; static int hn, hstop;
static int hcb(const void *d) { const rec *r = d; mc_check(r == H + total, "iteration of a long list: datum %d comes at place %d", (int)(r - H), total); total++; return total == hstop ? 17 : 0; }
static int hcba(const void *d, void *a) { mc_check(a == H, "argument"); return hcb(d); }
static void b_huge(void)
{
	static const int N[] = { 100000, 1000000, 1048576, 1100000, 2200000 };
	int arg, stop, r, i; sl_List l; hn = N[mc_choose(QT(4, 5))]; arg = mc_choose(2); stop = mc_choose(2);
	pattern = 6; icount = toss_no = 0; tcount = 1; mc_random_hook = toss_tall; hstop = stop ? hn / 2 : 0; total = 0;
	mc_op("list of %d data, %s", hn, arg ? "sl_iterate_arg" : "sl_iterate");
	H = malloc(hn * sizeof *H); l = sl_create(cmp_rec, key_rec, pr);
	for (i = hn - 1; i >= 0; i--) { H[i].k = i; sl_insert(l, &H[i]); if (!(i & 65535)) mc_tick(); }
	r = arg ? sl_iterate_arg(l, hcba, H) : sl_iterate(l, hcb);
	mc_check(r == (stop ? 17 : 0), "iteration returned %d", r); mc_check(total == (stop ? hstop : hn), "%d of %d data visited", total, hn);
	for (i = 0; i < hn; i += 997) mc_check(sl_find(l, &H[i].k) == &H[i], "find %d", i);
	mc_state(hn * 2 + arg); mc_step(hn); sl_destroy(l); _sl_shutdown(); free(H); mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* long lists that the callback changes while they are walked */
static char *hin; static int hat, hmut, hlast, hseen, hbad;
static int lmcb(const void *d)
{
	const rec *r = d; int j, k;
	mc_check(r->k > hlast, "iteration order: %d after %d", r->k, hlast); mc_check(r->pad, "iteration yields datum %d which was never present during the iteration", r->k);
	for (j = hlast + 1; j < r->k; j++) if (hin[j] == 1) hbad++;
	hlast = r->k; hseen++;
	if (hseen - 1 != hat) return 0;
	for (j = 0; j < 4; j++) {	/* what is changed, relative to the datum shown; inserted data are odd */
		static const int rel[][4] = { { 0, 99999 }, { 2, 99999 }, { -2, 99999 }, { 4, 2, 0, 99999 }, { 1, 99999 }, { -1, 99999 }, { 3, 5, 99999 }, { 2048, 99999 }, { 2047, 2050, 99999 }, { -1, 0, 1, 99999 }, { 2, 4, 6, 8 } };
		if (rel[hmut][j] == 99999) break;
		k = r->k + rel[hmut][j]; if (k < 0 || k >= 2 * hn) continue;
		icount++; toss_no = 0;
		if (H[k].pad && hin[k]) { sl_delete(it.l, &H[k]); hin[k] = 0; } else { sl_insert(it.l, &H[k]); H[k].pad = 1; hin[k] = 2; }	/* 1 present throughout, 2 now */
	}
	return 0;
}
static int lmcba(const void *d, void *a) { mc_check(a == H, "argument"); return lmcb(d); }
static void b_mutate_long(void)
{
	static const int N[] = { 63, 64, 65, 255, 257, 511, 513, 1023, 1025, 2049, 4097 }; int arg, i, place, r;
	hn = N[mc_choose(11)]; place = mc_choose(9); hmut = mc_choose(11); arg = mc_choose(2); hat = (int[]){ 0, 1, hn / 2, hn - 2, hn - 1, 62, 64, 255, 1023 }[place]; if (hat >= hn) mc_stop();
	pattern = 6; icount = toss_no = 0; tcount = 1; mc_random_hook = toss_tall; mc_op("iterate over %d data, at datum %d manner %d", hn, hat, hmut);
	H = calloc(2 * hn, sizeof *H); hin = calloc(2 * hn, 1); it.l = sl_create(cmp_rec, key_rec, pr);
	for (i = 2 * hn - 1; i >= 0; i--) { H[i].k = i; if (i % 2 == 0) { icount++; toss_no = 0; sl_insert(it.l, &H[i]); H[i].pad = 1; hin[i] = 1; } }
	hlast = -1; hseen = hbad = 0; r = arg ? sl_iterate_arg(it.l, lmcba, H) : sl_iterate(it.l, lmcb);
	for (i = hlast + 1; i < 2 * hn; i++) if (hin[i] == 1) hbad++;
	mc_check(r == 0 && !hbad, "iteration returned %d, %d data present throughout were not visited", r, hbad);
	for (i = 0; i < 2 * hn; i++) mc_check(sl_find(it.l, &H[i].k) == (hin[i] ? &H[i] : NULL), "find %d", i);
	mc_state(hn * 100 + place * 11 + hmut); mc_step(hn); sl_destroy(it.l); _sl_shutdown(); free(H); free(hin); mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
/* cycles that end where they began take no more memory */
static void b_reuse(void)
{
	int k = (int[]){ 1, 2, 5, 30 }[mc_choose(4)], n = (int[]){ 0, 1, 20 }[mc_choose(3)], how = mc_choose(4), order = mc_choose(2), c, i; long live = 0; sl_List l;
	pattern = mc_choose(7); icount = toss_no = 0; tcount = 1; mc_random_hook = toss_tall; mc_op("list of %d, cycles of %d, manner %d, order %d, coin pattern %d", n, k, how, order, pattern);
	for (i = 0; i < n + k; i++) B[i].k = (i * 37) % 1009;
	l = sl_create(cmp_rec, key_rec, pr); for (i = 0; i < n; i++) { icount++; toss_no = 0; sl_insert(l, &B[i]); }
	for (c = 0; c < 900; c++) {
		if (how == 1 || how == 3) { sl_List m = sl_create(cmp_rec, key_rec, NULL); for (i = 0; i < (how == 1 ? 0 : k); i++) { icount++; toss_no = 0; sl_insert(m, &B[n + i]); } sl_destroy(m); }
		if (how != 1) { for (i = 0; i < k; i++) { icount++; toss_no = 0; sl_insert(l, &B[n + i]); } total = 0; lastk = -1; if (how == 2) { sl_iterate(l, bcb); mc_check(total == n + k, "iteration yields %d", total); } for (i = 0; i < k; i++) sl_delete(l, &B[n + (order ? i : k - 1 - i)]); }
		if (c == 300) live = mc_live_count(); else if (c > 300 && c % 50 == 0) mc_check(mc_live_count() <= live, "%ld blocks after %d cycles, %ld after 300", mc_live_count(), c, live);
	}
	mc_state(n * 64 + k); sl_destroy(l); _sl_shutdown(); mc_check(mc_live_count() == 0, "blocks left after destroy and shutdown");
}
void mc_process_init(void) { B = mc_real_malloc(4000 * sizeof *B); }
mc_scenario mc_scenarios[] = { { "sequences", b_sequences }, { "two-lists", b_two, .recycle = 1 }, { "closure", b_closure }, { "mutating-callback", b_mutate, .recycle = 1 }, { "tall", b_tall, .recycle = 1 }, { "mutating-long", b_mutate_long, .recycle = 1 }, { "reuse", b_reuse }, { "huge", b_huge }, { NULL } };

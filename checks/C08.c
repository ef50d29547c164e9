/* C08 -- string pools intern: one stable pointer per string */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C08";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of find/grow+finish (1-3 pieces)/findn/copy/copyn/exists/unique/iterate/stopped loops/destroy over 4 strings up to length 4 (thorough 5) on a pool and on the global pool (starting before its first use); every interleaving on two pools plus the global pool up to length 4 (5); all returned pointers and contents compared after every operation, unique after every subset of the next 8 numbers (and a run of 400) was taken, 70000 unique strings with one prefix; inputs freed after the call and not terminated where a length is given; pools of up to 6000 strings, strings of up to 70000 bytes, grown in all piece patterns; find, findn and unique of strings up to 9 million bytes (thorough 20 million); pools that are walked or readonly: every subset of 4 strings x 5 ways x lookups, new strings and destruction at every point";
const char *mc_assumptions[] = { "strings contain no NUL bytes; no other pool operation between the first grow and finish (documented)", "AddressSanitizer build of the working tree", NULL };

static const char *const S[] = { "a", "", "ab", "\xff\x80z", "abc", "b", "ba", "key1", "key", "a1" };
#define NS 4
#define MAXP 64
typedef struct { str_Pool p; int global; int nin; const char *in[MAXP]; int ncopy; const char *copy[MAXP]; char ctext[MAXP][24]; char itext[MAXP][24]; } obj;

static char *heap(const char *s, int n, int z) { char *b = malloc(n + z + !n); memcpy(b, s, n); if (z) b[n] = 0; return b; }
static void hfree(char *b, int n) { memset(b, 'X', n); free(b); }
static int m_idx(obj *o, const char *s) { int i; for (i = 0; i < o->nin; i++) if (!strcmp(o->itext[i], s)) return i; return -1; }
static void check_all(obj *o)
{
	int i, j;
	for (i = 0; i < o->nin; i++) mc_check(!strcmp(o->in[i], o->itext[i]), "interned string \"%s\" changed to \"%s\"", o->itext[i], o->in[i]);
	for (i = 0; i < o->ncopy; i++) mc_check(!strcmp(o->copy[i], o->ctext[i]), "copy \"%s\" changed to \"%s\"", o->ctext[i], o->copy[i]);
	for (i = 0; i < o->nin; i++) for (j = 0; j < o->ncopy; j++) mc_check(o->in[i] != o->copy[j], "a copy is the interned string itself");
}
static void got_in(obj *o, const char *r, const char *s, const char *how)
{
	int i = m_idx(o, s), j;
	mc_check(r != NULL, "%s returned NULL", how);
	mc_check(!strcmp(r, s), "%s of \"%s\" returned \"%s\"", how, s, r);
	if (i >= 0) mc_check(r == o->in[i], "%s of \"%s\" returned another pointer than before", how, s);
	else {
		for (j = 0; j < o->nin; j++) mc_check(r != o->in[j], "%s of \"%s\" returned the pointer of \"%s\"", how, s, o->itext[j]);
		mc_check(o->nin < MAXP, "harness"); o->in[o->nin] = r; strcpy(o->itext[o->nin++], s);
	}
}
static void got_copy(obj *o, const char *r, const char *s, const char *how)
{
	int j;
	mc_check(r && !strcmp(r, s), "%s of \"%s\" returned \"%s\"", how, s, r);
	for (j = 0; j < o->nin; j++) mc_check(r != o->in[j], "%s returned an interned pointer", how);
	for (j = 0; j < o->ncopy; j++) mc_check(r != o->copy[j], "%s returned an earlier copy", how);
	o->copy[o->ncopy] = r; strcpy(o->ctext[o->ncopy++], s);
}
static obj *it_o; static int it_seen[MAXP], it_n, it_stop;
static int it_cb(const char *s) { int i; for (i = 0; i < it_o->nin; i++) if (it_o->in[i] == s) break; mc_check(i < it_o->nin, "iteration yields a string that was not interned: \"%s\"", s); mc_check(!it_seen[i], "iteration yields \"%s\" twice", s); it_seen[i] = 1; return ++it_n == it_stop ? 2 : 0; }
static int it_cba(const char *s, void *a) { mc_check(a == it_seen, "argument"); return it_cb(s); }
static void it_start(obj *o, int stop) { it_o = o; memset(it_seen, 0, sizeof it_seen); it_n = 0; it_stop = stop; }
static void iterate(obj *o, int style, int stop)
{
	int r;
	str_Position p; const char *k;
	it_start(o, stop);
	mc_op("%s style %d, stop at %d", o->global ? "global: iterate" : "iterate", style, stop);
	if (style < 2) {
		r = style ? str_pool_iterate_arg(o->p, it_cba, it_seen) : str_pool_iterate(o->p, it_cb);
		mc_check(!!r == (stop && stop <= o->nin), "iteration returned %d (%d strings, stop at %d)", r, o->nin, stop);
	} else {
		STR_ITERATE(o->p, p, k) if (it_cb(k)) { STR_ITERATE_END(o->p); break; }
	}
	mc_check(it_n == (stop && stop <= o->nin ? stop : o->nin), "iteration yields %d of %d strings (stop at %d)", it_n, o->nin, stop);
}
#define PICK(g, a, b) (o->global ? (g) : (a))
static const char *grow(obj *o, const char *s, int n, int c1, int c2)
{
	int cut[4] = { 0, c1, c2, n }, i; const char *r;
	for (i = 0; i < 3; i++) {
		int l = cut[i + 1] - cut[i]; char *b;
		if (!l && !(i == 2 && n == 0) && (c1 || c2 < n)) { if (i != 0) continue; }
		b = heap(s + cut[i], l, 0);
		if (o->global) str_grow(b, l); else str_pool_grow(o->p, b, l);
		hfree(b, l);
	}
	r = o->global ? str_finish() : str_pool_finish(o->p);
	return r;
}
static int NOPS_(obj *o) { return NS * 6 + 7; }
static int apply(obj *o, int op)
{
	int k = op % NS, n; const char *s, *r; char *b; const char *w = o->global ? "global: " : "";
	if (op >= NS * 6) {
		op -= NS * 6;
		if (op < 5) { if (o->global) return 0; iterate(o, op == 4 ? 2 : op % 2, op < 2 ? 0 : op == 4 ? 2 : 1); }
		else if (op == 5) {	/* destroy and create again */
			mc_op("%sdestroy", w);
			if (o->global) str_destroy(); else { str_pool_destroy(o->p); o->p = str_pool_create(); }
			o->nin = o->ncopy = 0;
		} else {		/* unique */
			int i;
			if (!o->global) return 0;
			mc_op("%sunique", w);
			for (i = 0; i < 3; i++) {
				b = heap(i ? "a" : "", i ? 1 : 0, 1);
				r = str_unique(b); hfree(b, i ? 1 : 0);
				mc_check(r && !strncmp(r, "a", i ? 1 : 0), "unique: prefix missing in \"%s\"", r);
				mc_check(m_idx(o, r) < 0, "unique returned \"%s\" which was interned before", r);
				{ char t[24]; snprintf(t, sizeof t, "%s", r); got_in(o, r, t, "unique"); }
			}
		}
		check_all(o);
		return 1;
	}
	s = S[k]; n = strlen(s);
	switch (op / NS) {
	case 0: mc_op("%sfind \"%s\"", w, s); b = heap(s, n, 1); r = o->global ? str_find(b) : str_pool_find(o->p, b); hfree(b, n); got_in(o, r, s, "find"); break;
	case 1: mc_op("%sgrow+finish \"%s\" in one piece", w, s); r = grow(o, s, n, 0, n); got_in(o, r, s, "grow+finish"); break;
	case 2: if (n < 2) { if (!o->global) return 0; mc_op("%sfindn %d of \"%s\"", w, n, s); b = heap(s, n, 0); r = str_findn(b, n); hfree(b, n); got_in(o, r, s, "findn"); }
		else { mc_op("%sgrow+finish \"%s\" in pieces", w, s); r = grow(o, s, n, 1, n - 1 > 1 ? n - 1 : n); got_in(o, r, s, "grow+finish"); } break;
	case 3: mc_op("%scopy \"%s\"", w, s); b = heap(s, n, 1); r = o->global ? str_copy(b) : str_pool_copy(o->p, b); hfree(b, n); got_copy(o, r, s, "copy"); break;
	case 4: mc_op("%scopyn \"%s\"", w, s); b = heap(s, n, 0); r = o->global ? str_copyn(b, n) : str_pool_copyn(o->p, b, n); hfree(b, n); got_copy(o, r, s, "copyn"); break;
	case 5: { int e; mc_op("%sexists \"%s\"", w, s); b = heap(s, n, 1); e = o->global ? str_exists(b) : str_pool_exists(o->p, b); hfree(b, n); mc_check(!!e == (m_idx(o, s) >= 0), "exists of \"%s\" is %d", s, e); break; }
	}
	check_all(o);
	return 1;
}
static uint64_t hash(obj *o) { uint64_t h = o->global, x = 0; int i; for (i = 0; i < o->nin; i++) x += mc_hash(o->itext[i], strlen(o->itext[i]), 1); h = mc_mix(h, x); for (x = i = 0; i < o->ncopy; i++) x += mc_hash(o->ctext[i], strlen(o->ctext[i]), 2); return mc_mix(h, x); }
static void finish(obj *o)
{
	int k, s;
	for (k = 0; k < NS; k++) apply(o, 5 * NS + k);
	if (!o->global) { iterate(o, 0, 0); for (s = 1; s <= o->nin && s < 3; s++) { iterate(o, 2, s); iterate(o, 1, s); } }
	for (k = 0; k < NS; k++) apply(o, k);
	if (!o->global) iterate(o, 1, 0);
	if (o->global) str_destroy(); else str_pool_destroy(o->p);
}
static void b_sequences(void)
{
	static obj o; int d, c;
	memset(&o, 0, sizeof o);
	o.global = mc_choose(2); if (!o.global) o.p = str_pool_create();
	for (d = 0; d < QT(4, 5); d++) { c = mc_choose(NOPS_(&o) + 1); if (!c) break; if (!apply(&o, c - 1)) return; mc_state(hash(&o)); }
	finish(&o);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void b_three(void)
{
	static obj o[3]; int d, c, i;
	memset(o, 0, sizeof o); o[2].global = 1; o[0].p = str_pool_create(); o[1].p = str_pool_create();
	for (d = 0; d < QT(4, 5); d++) {
		static const int few[] = { 0, 2, NS + 0, 2 * NS + 2, 3 * NS + 0, NS * 6 + 5, NS * 6 + 6 };
		c = mc_choose(7 * 3 + 1); if (!c) break;
		i = --c / 7;
		if (!apply(&o[i], few[c % 7])) return;
		check_all(&o[0]); check_all(&o[1]); check_all(&o[2]);
	}
	mc_state(mc_mix(mc_mix(hash(&o[0]), hash(&o[1])), hash(&o[2])));
	c = mc_choose(3);
	for (d = 0; d < 3; d++) { i = (c + d) % 3; finish(&o[i]); o[i].nin = o[i].ncopy = 0; check_all(&o[0]); check_all(&o[1]); check_all(&o[2]); }
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* str_findn and copyn take a prefix of a longer string */
static void b_prefix(void)
{
	static obj o; static const char *L = "abcabc"; int i, j, n; char *b; const char *r; char t[24];
	memset(&o, 0, sizeof o); o.global = 1;
	for (i = 0; i < QT(3, 4); i++) {
		j = mc_choose(4); n = mc_choose(4);
		memcpy(t, L + j, n); t[n] = 0;
		b = heap(L + j, n, 0);
		switch (mc_choose(4)) {
		case 0: mc_op("findn %d of %s", n, L + j); r = str_findn(b, n); got_in(&o, r, t, "findn"); break;
		case 1: mc_op("findn %d of longer %s", n, L + j); r = str_findn(L + j, n); got_in(&o, r, t, "findn"); break;
		case 2: mc_op("copyn %d of longer %s", n, L + j); r = str_copyn(L + j, n); got_copy(&o, r, t, "copyn"); break;
		default: mc_op("grow %d of longer %s", n, L + j); str_grow(L + j, n); r = str_finish(); got_in(&o, r, t, "grow+finish"); break;
		}
		hfree(b, n);
		check_all(&o); mc_state(hash(&o));
	}
	str_destroy();
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* many and long strings */
static void b_large(void)
{
	static const int N[] = { 1, 2, 3, 5, 8, 21, 60, 180, 530, 1600, 70000, 6000 };
	int n = N[mc_choose(QT(11, 12))], how = mc_choose(3), i, pass; str_Pool p = str_pool_create(); const char **q = malloc(n * sizeof *q); char t[64];
	mc_op("%d strings, %d", n, how);
	for (pass = 0; pass < 3; pass++) for (i = 0; i < n; i++) {
		int k = pass == 1 ? n - 1 - i : i; const char *r; int l = snprintf(t, sizeof t, how == 1 ? "%d-%08x" : "prefix/%d/%d", k, k * 7);
		if ((how + pass + i) % 3 == 1) { str_pool_grow(p, t, l / 2); str_pool_grow(p, t + l / 2, l - l / 2); r = str_pool_finish(p); } else r = str_pool_find(p, t);
		mc_check(r && !strcmp(r, t), "string %d is \"%s\"", k, r);
		if (!pass) q[k] = r; else mc_check(q[k] == r, "string %d has another pointer", k);
		if (how == 2 && i % 4 == 0) str_pool_copy(p, t);
	}
	for (i = 0; i < n; i++) { snprintf(t, sizeof t, how == 1 ? "%d-%08x" : "prefix/%d/%d", i, i * 7); mc_check(!strcmp(q[i], t) && str_pool_exists(p, t), "string %d lost", i); strcat(t, "x"); mc_check(!str_pool_exists(p, t), "string %d: longer string exists", i); }
	mc_state(n * 3 + how); mc_step(4 * n);
	str_pool_destroy(p); free(q);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_long(void)
{
	static const int L[] = { 0, 1, 7, 8, 15, 16, 100, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000 };
	int n = L[mc_choose(15)], piece = mc_choose(7), i, l; str_Pool p = str_pool_create(); char *b = malloc(n + 1); const char *r, *r2, *c;
	static const int PC[] = { 1, 2, 3, 17, 1000, 5000, 100000 };
	if (PC[piece] == 1 && n > 5000) return;
	for (i = 0; i < n; i++) b[i] = 1 + i * 31 % 255;
	b[n] = 0;
	mc_op("string of %d bytes in pieces of %d", n, PC[piece]);
	for (i = 0; i < n || i == 0; i += l) { l = PC[piece] < n - i ? PC[piece] : n - i; str_pool_grow(p, b + i, l); if (!l) break; }
	r = str_pool_finish(p);
	mc_check(r && !strcmp(r, b), "grown string differs"); r2 = str_pool_find(p, b); mc_check(r == r2, "find of a grown string");
	c = str_pool_copyn(p, b, n / 2); mc_check((int)strlen(c) == n / 2 && !memcmp(c, b, n / 2), "copyn"); c = str_pool_copy(p, b); mc_check(!strcmp(c, b) && c != r, "copy");
	for (i = 0; i < n || i == 0; i += l) { l = PC[piece] < n - i ? PC[piece] : n - i; str_pool_grow(p, b + i, l); if (!l) break; }
	r2 = str_pool_finish(p); mc_check(r2 == r, "a string grown again has another pointer"); r2 = str_pool_find(p, b); mc_check(r2 == r, "find of a string grown again"); mc_check(str_pool_exists(p, b), "exists of a grown string");
	if (n) { b[n - 1] ^= b[n - 1] == 1 ? 2 : 1; r2 = str_pool_find(p, b); mc_check(r2 != r, "strings differing in the last byte are identified"); }
	mc_state(n * 7 + piece); mc_step(n / PC[piece]);
	str_pool_destroy(p); free(b);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* strings longer than any stack */
static void b_huge(void)
{
	static const int L[] = { 262144, 1048575, 8388600, 8388609, 9000000, 20000000 };
	int n = L[mc_choose(QT(5, 6))], way = mc_choose(7), more = mc_choose(2), l = n; char *b = malloc(n + 1 + 1000 * more); const char *r = NULL, *q;
	memset(b, 'x', n + 1000 * more); b[n / 2] = 'y'; b[n - 1] = 'z'; b[n + 1000 * more] = 0;
	if (more && way < 3) mc_stop();
	mc_op("string of %d bytes, way %d", n, way);
	switch (way) {
	case 0: r = str_find(b); break;
	case 1: r = str_copy(b); break;
	case 2: r = str_unique(b); l = strlen(r); mc_check(l > n, "unique: nothing appended"); break;
	case 3: r = str_findn(b, n); break;
	case 4: r = str_copyn(b, n); break;
	case 5: str_grow(b, n); r = str_finish(); break;
	default: str_grow(b, n / 2); str_grow(b + n / 2, n - n / 2); r = str_finish(); break;
	}
	mc_check((int)strlen(r) == l && !memcmp(r, b, n), "the string differs"); mc_check(way == 2 || l == n, "length");
	q = str_findn(b, n); mc_check(strlen(q) == (size_t)n && !memcmp(q, b, n), "findn: the string differs"); mc_check((q == r) == (way != 1 && way != 2 && way != 4), "interning of a long string");
	free(b); mc_state(n * 7 + way); str_destroy(); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* names taken in advance, wherever str_unique's numbering stands */
static void b_unique(void)
{
	int m = mc_choose(256), hi = mc_choose(3), n0, i, pre = mc_choose(3), runs = 0; char b[40]; const char *u, *q; static const char *const P[] = { "tmp", "", "x1" }; static obj o;
	memset(&o, 0, sizeof o); o.global = 1;
	for (i = 0; i < pre; i++) str_unique("warm");
	u = str_unique("probe"); for (q = u + strlen(u); q > u && q[-1] >= '0' && q[-1] <= '9'; q--) ; n0 = atoi(q);
	for (i = 0; i < 8 + 400 * (hi == 2); i++) if (i >= 8 || m >> i & 1) { snprintf(b, sizeof b, "%s%d", P[hi], n0 + 1 + i); q = str_find(b); if (i < 30) got_in(&o, q, b, "find"); }
	mc_op("prefix '%s', names taken %02x after %d", P[hi], m, n0);
	for (i = 0; i < 6; i++) {
		char t[60]; int ex; u = str_unique(P[hi]); snprintf(t, sizeof t, "%s", u); mc_check(!strncmp(u, P[hi], strlen(P[hi])), "the prefix is missing in '%s'", u);
		mc_check(m_idx(&o, t) < 0, "str_unique returned \"%s\" which was interned before", u);
		ex = atoi(t + strlen(P[hi])) - n0; mc_check(!(hi == 2 && ex > 8 && ex <= 408), "str_unique returned \"%s\" which was interned before", u);
		got_in(&o, u, t, "unique"); runs++;
	}
	check_all(&o); mc_state(mc_mix(m, hi * 3 + pre)); mc_step(runs);
	str_destroy(); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* very many unique strings */
static void b_unique_many(void)
{
	int n = (int[]){ 1100, 40000, 70000 }[mc_choose(3)], pi = mc_choose(3), i; const char *u, **all = malloc(n * sizeof *all); char *own = malloc(32L * n); static const char *const P[] = { "tmp", "", "9" };
	mc_op("%d unique strings with prefix '%s'", n, P[pi]);
	for (i = 0; i < n; i++) {
		if (!(i & 4095)) mc_tick();
		u = all[i] = str_unique(P[pi]); mc_check(u && !strncmp(u, P[pi], strlen(P[pi])) && strlen(u) < 32, "unique string %d", i); strcpy(own + 32 * i, u);
	}
	for (i = 0; i < n; i++) mc_check(!strcmp(all[i], own + 32 * i) && str_find(own + 32 * i) == all[i], "unique string %d is not the only one with its contents", i);	/* equal ones would have found the first */
	free(all); free(own); mc_step(n); mc_state(n * 3 + pi); str_destroy(); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* finish without a piece is the empty string, at any time */
static void b_finish(void)
{
	static obj o; int d, c; const char *r; memset(&o, 0, sizeof o); o.global = mc_choose(2); if (!o.global) o.p = str_pool_create();
	for (d = 0; d < QT(5, 6); d++) {
		c = mc_choose(7); if (!c) break;
		switch (c) {
		case 1: mc_op("finish without a piece"); r = o.global ? str_finish() : str_pool_finish(o.p); got_in(&o, r, "", "finish"); break;
		case 2: apply(&o, 1); break;	/* find "" */
		case 3: apply(&o, 0); break;
		case 4: mc_op("grow by 0, finish"); if (o.global) { str_grow("zz", 0); r = str_finish(); } else { str_pool_grow(o.p, "zz", 0); r = str_pool_finish(o.p); } got_in(&o, r, "", "finish"); break;
		case 5: apply(&o, 4 * NS + 1); break;	/* copyn "" */
		default: apply(&o, NS * 6 + 5); break;
		}
		check_all(&o);
	}
	mc_state(hash(&o)); finish(&o); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* a pool that is being walked or is readonly by hand: present strings are still found, nothing is added, the flag is kept and returned */
static void ro_use(obj *o, const char *when)
{
	int i, a = mc_choose(3 + NS); const char *r;
	if (a == 0) return;
	if (a == 1) { mc_op("%s: present strings", when); for (i = 0; i < NS; i++) if (m_idx(o, S[i]) >= 0) { r = str_pool_find(o->p, S[i]); got_in(o, r, S[i], "find in a readonly pool"); r = grow(o, S[i], strlen(S[i]), 0, strlen(S[i])); got_in(o, r, S[i], "grow+finish in a readonly pool"); mc_check(str_pool_exists(o->p, S[i]), "exists"); } else mc_check(!str_pool_exists(o->p, S[i]), "exists of an absent string"); return; }
	if (a == 2) { mc_op("%s: destroy", when); MC_MUST_ABORT("destroying a readonly pool", str_pool_destroy(o->p)); mc_outcome(1); mc_stop(); }
	i = a - 3; if (m_idx(o, S[i]) >= 0) mc_stop();
	mc_op("%s: find of the new string \"%s\"", when, S[i]);
	if (mc_choose(2)) MC_MUST_ABORT("interning a new string in a readonly pool", str_pool_find(o->p, S[i])); else { str_pool_grow(o->p, S[i], strlen(S[i])); MC_MUST_ABORT("interning a new grown string in a readonly pool", str_pool_finish(o->p)); }
	mc_outcome(2); mc_stop();
}
static int ro_at; static int ro_cb(const char *s) { if (it_n == ro_at) ro_use(it_o, "inside the iteration"); return it_cb(s); }
static int ro_cba(const char *s, void *a) { mc_check(a == &ro_at, "argument"); return ro_cb(s); }
static void b_readonly(void)
{
	static obj o; int set = mc_choose(1 << NS), i, style = mc_choose(5), r, n, stop = 0; str_Position p; const char *k = NULL; memset(&o, 0, sizeof o); o.p = str_pool_create();
	for (i = 0; i < NS; i++) if (set >> i & 1) apply(&o, i);
	n = o.nin;
	if (style == 0) {	/* by hand */
		r = str_pool_readonly(o.p, 1); mc_check(r == 0, "a new pool is readonly (%d)", r);
		ro_use(&o, "readonly"); if (mc_choose(2)) { r = str_pool_readonly(o.p, 1); mc_check(r == 1, "the flag was lost (%d)", r); ro_use(&o, "readonly again"); }
		r = str_pool_readonly(o.p, 0); mc_check(r == 1, "the flag was lost (%d)", r);
	} else {
		if (n) ro_at = mc_choose(n);
		if (n && mc_choose(2)) stop = ro_at + 1;
		it_start(&o, stop); mc_op("walk style %d, act at %d, stop at %d", style, ro_at, stop);
		if (style == 1) { r = str_pool_iterate(o.p, ro_cb); mc_check(!!r == !!stop, "iterate returned %d", r); }
		else if (style == 2) { r = str_pool_iterate_arg(o.p, ro_cba, &ro_at); mc_check(!!r == !!stop, "iterate_arg returned %d", r); }
		else if (style == 3) { STR_ITERATE(o.p, p, k) if (ro_cb(k)) { STR_ITERATE_END(o.p); break; } }
		else { for (STR_POSITION_INIT(p, o.p); STR_POSITION_OK(p); STR_POSITION_NEXT(p, o.p)) { k = STR_POSITION_GET(p, k); r = str_pool_readonly(o.p, 1); mc_check(r == 1, "a pool is not readonly while it is walked"); if (ro_cb(k)) { STR_ITERATE_END(o.p); break; } } }
		mc_check(it_n == (stop ? stop : n), "%d strings visited of %d (stop at %d)", it_n, n, stop);
	}
	r = str_pool_readonly(o.p, 0); mc_check(r == 0, "the pool stays readonly");
	mc_state(set * 5 + style); for (i = 0; i < NS; i++) apply(&o, i);
	finish(&o); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
mc_scenario mc_scenarios[] = { { "sequences", b_sequences, .recycle = 1 }, { "three-pools", b_three }, { "unique", b_unique }, { "many-unique", b_unique_many }, { "prefix", b_prefix }, { "large", b_large, .recycle = 1 }, { "long", b_long, .recycle = 1 }, { "huge", b_huge }, { "finish", b_finish, .recycle = 1 }, { "readonly", b_readonly }, { NULL } };

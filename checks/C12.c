/* C12 -- base-26 and base-64 codecs */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C12";
const char *mc_level = "model_checking";
const char *mc_bounds = "round trip, minimality and digits of both codecs: quick: all values below 2^25, the top 2^24, every value within 300 of a digit or bit boundary, every value with at most 3 non-zero base-64 digits and with at most 3 non-zero base-26 digits; thorough: all 2^32 values; every sequence of 3 (thorough 4) encodes/decodes/refused decodes over 20 values and both codecs; all 256 bytes at every position of strings of up to 7 characters; buffers of every length of 0-6 over a 6-character alphabet followed by other characters or by unreadable memory";
const char *mc_assumptions[] = { "unsigned long is 64 bits wide, so no decoded 32-bit value overflows", "AddressSanitizer build of the working tree", NULL };
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char A26[] = "abcdefghijklmnopqrstuvwxyz";

static int ref(char *out, unsigned long v, int base)	/* minimal digits, MSB first */
{
	char t[16]; int n = 0, i;
	do { t[n++] = (base == 64 ? A64 : A26)[v % base]; v /= base; } while (v);
	for (i = 0; i < n; i++) out[i] = t[n - 1 - i];
	out[n] = 0; return n;
}
static void one(unsigned long v)
{
	char r[16]; const char *s; unsigned long d; int n;
	n = ref(r, v, 26); s = b26_encode(v);
	mc_check(!memcmp(s, r, n + 1), "b26_encode(%lu) is <%.10s> instead of <%s>", v, s, r);
	d = b26_decode(s); mc_check(d == v, "b26_decode(<%s>) is %lu instead of %lu", r, d, v);
	n = ref(r, v, 64); s = b64_encode(v);
	mc_check(!memcmp(s, r, n + 1), "b64_encode(%lu) is <%.10s> instead of <%s>", v, s, r);
	d = b64_decode(s); mc_check(d == v, "b64_decode(<%s>) is %lu instead of %lu", r, d, v);
}
static void range(unsigned long a, unsigned long b)	/* [a, b) */
{
	unsigned long v;
	mc_note("all values from %lu to %lu", a, b - 1);
	for (v = a; v < b; v++) { one(v); if (!(v & 0xfffff)) mc_tick(); }
	mc_step(4 * (b - a));
}
static void b_low(void) { int c = mc_choose(80); mc_state(c); if (c >= 64) range((1UL << 32) - ((unsigned long)(80 - c) << 20), (1UL << 32) - ((unsigned long)(79 - c) << 20)); else range((unsigned long)c << 19, (unsigned long)(c + 1) << 19); }
static void b_all(void) { unsigned long c = mc_choose(4096); mc_state(c); range(c << 20, (c + 1) << 20); }
static void b_sparse(void)
{
	int base = mc_choose(2) ? 64 : 26, n = base == 64 ? 6 : 7, i, j, k, a, b, c; unsigned long p[8], v; uint64_t cnt = 0;
	i = mc_choose(n); a = mc_choose(base);
	mc_note("values with digit %d of base %d equal to %d and at most two more non-zero digits", i, base, a);
	for (p[0] = 1, j = 1; j < n; j++) p[j] = p[j - 1] * base;
	for (j = 0; j < i; j++) for (b = 0; b < base; b++) for (k = 0; k <= j; k++) for (c = 0; c < base; c++) {
		v = a * p[i] + b * p[j] + (k < j ? c * p[k] : 0);
		if (v <= 0xffffffffUL) { one(v); cnt++; }
		if (k == j) break;
	}
	mc_state(i * 64 + a); mc_step(4 * cnt);
}
static void b_boundary(void)
{
	int base = mc_choose(3), n; unsigned long p = 1, q; static const int bs[] = { 26, 64, 2 };
	long d; base = bs[base]; n = mc_choose(33);
	while (n-- && p <= 0xffffffffUL) p *= base;
	for (q = 1; q < (base == 2 ? 2 : base); q++) for (d = -300; d <= 300; d++) {
		long v = (long)(p * q) + d;
		if (v >= 0 && v <= 0xffffffffL) { one(v); mc_step(4); }
	}
}
static const unsigned long V[] = { 0, 1, 25, 26, 27, 63, 64, 65, 675, 676, 4095, 4096, 11881376, 308915775, 308915776, 1073741823, 1073741824, 2147483648UL, 4294967294UL, 4294967295UL };
static void b_history(void)
{
	int d, c, k; char r[16];
	for (d = 0; d < QT(3, 4); d++) {
		c = mc_choose(20 * 2 + 2 + 2);
		if (c < 20) { ref(r, V[c], 26); mc_op("b26_encode(%lu)", V[c]); mc_check(!strcmp(b26_encode(V[c]), r), "encoding after a history: <%s> instead of <%s>", b26_encode(V[c]), r); }
		else if (c < 40) { ref(r, V[c - 20], 64); mc_op("b64_encode(%lu)", V[c - 20]); mc_check(!strcmp(b64_encode(V[c - 20]), r), "encoding after a history: <%s> instead of <%s>", b64_encode(V[c - 20]), r); }
		else if (c == 40) { mc_op("b26_decode(zab)"); mc_check(b26_decode("zab") == 25 * 676 + 1, "decode"); }
		else if (c == 41) { mc_op("b64_decode(/AB)"); mc_check(b64_decode("/AB") == 63 * 4096 + 1, "decode"); }
		else if (c == 42) { mc_op("b26_decode refused"); MC_CATCH(k, b26_decode("a?")); mc_check(k == MC_ABORT, "illegal character accepted"); }
		else { mc_op("b64_decode refused"); MC_CATCH(k, b64_decode("A?")); mc_check(k == MC_ABORT, "illegal character accepted"); }
		mc_state(c);
	}
}
/* every byte at every position of otherwise legal strings */
static void b_bytes(void)
{
	int codec = mc_choose(3), len = 1 + mc_choose(6), pos = mc_choose(len), shape = mc_choose(2), c, i, k;
	for (c = 0; c < 256; c++) {
		char *s; unsigned long v = 0, got = 0; const char *al = codec == 0 ? A26 : A64, *q; int base = codec == 0 ? 26 : 64, bad = 0;
		if (codec != 2 && !c) continue;
		s = malloc(len + (codec != 2));		/* the buffer form has no terminator */
		for (i = 0; i < len; i++) s[i] = i == pos ? c : shape ? al[(i * 11 + 1) % 4] : al[0];
		if (codec != 2) s[len] = 0;
		for (i = 0; i < len; i++) { q = s[i] ? strchr(al, s[i]) : NULL; if (!q) bad = 1; else v = v * base + (q - al); }
		if (v > 0xffffffffUL) { free(s); continue; }
		mc_step(1);
		MC_CATCH(k, got = codec == 0 ? b26_decode(s) : codec == 1 ? b64_decode(s) : b64_decode_buf(s, len));
		if (bad) mc_check(k == MC_ABORT, "byte %d at %d of %d (codec %d): expected a fatal error (%d, %lu)", c, pos, len, codec, k, got);
		else mc_check(!k && got == v, "byte %d at %d of %d (codec %d): %lu instead of %lu", c, pos, len, codec, got, v);
		mc_outcome(mc_mix(bad, got)); free(s);
	}
	mc_streams_reset();
}
static void b_buffer(void)
{
	static const char al[] = "AB/9z+"; char s[16]; int len = mc_choose(7), i, t, k; unsigned long v = 0, got; char *h;
	static const char *tails[] = { "", "B", "AAAA", "//", "!", "\xff" };
	for (i = 0; i < len; i++) { s[i] = al[mc_choose(6)]; v = v * 64 + (strchr(A64, s[i]) - A64); }
	if (v > 0xffffffffUL) mc_stop();
	for (t = 0; t < 6; t++) {
		strcpy(s + len, tails[t]); mc_step(1);
		got = b64_decode_buf(s, len);
		mc_check(got == v, "b64_decode_buf of %d characters of <%s> is %lu instead of %lu", len, s, got, v);
	}
	h = malloc(len + !len); memcpy(h, s, len); got = b64_decode_buf(h, len); mc_check(got == v, "b64_decode_buf of an exact buffer"); free(h);
	/* leading zeros, by hand of the string forms */
	for (i = 0; i < 20; i++) { char z[64]; memset(z, 'A', i); memcpy(z + i, s, len); z[i + len] = 0; got = b64_decode(z); mc_check(got == v, "b64_decode with %d leading zeros: %lu instead of %lu", i, got, v); got = b64_decode_buf(z, i + len); mc_check(got == v, "b64_decode_buf with %d leading zeros", i); mc_step(2); }
	mc_state(v);
}
static void b_leading26(void)
{
	int i = mc_choose(20), j = mc_choose(24), l; unsigned long got; char z[128];
	memset(z, 'a', j); l = ref(z + j, V[i], 26); mc_op("b26_decode with %d leading zeros of %lu", j, V[i]);
	got = b26_decode(z); mc_check(got == V[i], "b26_decode(<%s>) is %lu instead of %lu", z, got, V[i]);
}
mc_scenario mc_scenarios[] = {
	{ "low", b_low }, { "all", b_all, 0, 0, 1 }, { "sparse", b_sparse }, { "boundary", b_boundary }, { "history", b_history }, { "bytes", b_bytes },
	{ "buffer", b_buffer }, { "leading26", b_leading26 }, { NULL } };

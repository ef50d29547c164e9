/* C10 -- argument tokenisation follows the quoting rules for every string */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C10";
const char *mc_level = "model_checking";
const char *mc_bounds = "every string over {space, letter, \", ', backslash} up to length 8 (thorough 10) and over all 7 character classes incl. tab/newline and a high byte up to length 6 (7) x 4 quoting styles; all 255 byte values in 14 contexts and all 65025 byte pairs x 4 styles; words of up to 70000 bytes and up to 5000 words in 6 shapes; every pair of short strings tokenised one after the other, results compared after both";
const char *mc_assumptions[] = { "the oracle is a tokeniser written from the documentation and the statement", "AddressSanitizer build of the working tree: the string lies in a heap block of exactly its size", NULL };
/* reference */
static char *rb; static int rw[140000], rn;	/* word texts (NUL separated) and offsets */
static void reference(const char *s, int style)
{
	int esc = !(style & ARG_NO_ESCAPE), quo = !(style & ARG_NO_QUOTE), in = 0, o = 0; char q = 0;
	rn = 0;
	for (; *s; s++) {
		unsigned char c = *s;
#define BEGIN_WORD() do { if (!in) { in = 1; rw[rn++] = o; } } while (0)
		if (q) { if (c == (unsigned char)q) q = 0; else rb[o++] = c; continue; }
		if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v') { if (in) { rb[o++] = 0; in = 0; } continue; }
		BEGIN_WORD();
		if (quo && (c == '"' || c == '\'')) q = c;
		else if (esc && c == '\\') { if (!s[1]) break; rb[o++] = *++s; }
		else rb[o++] = c;
	}
	if (in) rb[o++] = 0;
}
static void compare(arg_List a, const char *s, int style)
{
	int i, c, ac; char **av;
	mc_check(a != NULL, "argify returned NULL");
	c = arg_count(a);
	mc_check(c == rn, "%d words instead of %d for <%.60s> style %d", c, rn, s, style);
	for (i = 0; i < c; i++) mc_check(!strcmp(arg_get(a, i), rb + rw[i]), "word %d is <%.60s> instead of <%.60s> for <%.60s> style %d", i, arg_get(a, i), rb + rw[i], s, style);
	arg_get_vector(a, &ac, &av);
	mc_check(ac == rn && av[ac] == NULL, "vector of %d words is not NULL-terminated", ac);
	for (i = 0; i < ac; i++) mc_check(!strcmp(av[i], rb + rw[i]), "vector entry %d", i);
}
static void one(const char *s, int n, int style)
{
	char *b = malloc(n + 1); arg_List a;
	memcpy(b, s, n + 1);
	reference(s, style);
	a = arg_argify(b, style);
	mc_check(!memcmp(b, s, n + 1), "argify changed its input");
	memset(b, '#', n); free(b);
	compare(a, s, style);
	{ uint64_t h = rn; int i; for (i = 0; i < rn; i++) h = mc_mix(h, strlen(rb + rw[i]) + 16 * (unsigned char)rb[rw[i]]); mc_state(h); }
	arg_destroy(a);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void gen(const char *alpha, int na, int maxlen)
{
	char s[32]; int n, style = mc_choose(4);
	for (n = 0; n < maxlen; n++) { int c = mc_choose(na + 1); if (!c) break; s[n] = alpha[c - 1]; }
	s[n] = 0;
	mc_op("<%s> style %d", s, style);
	one(s, n, style);
}
static void b_classes(void) { gen(" a\"'\\", 5, QT(8, 10)); }
static void b_wide(void) { gen("\t\xe9 \\'\"\n", 7, QT(6, 7)); }
static void b_bytes(void)
{
	static const char *ctx[] = { "@", "a@b", "\"a@b\"", "'a@b'", "\\@", "a\\@b", " @ a", "@@", "\"@", "'@", "a \"b\"@'c'", "\\\\@", "@\\", "a@\"\"" };
	int c = 1 + mc_choose(255), i, j, k, style; char s[64]; const char *p;
	mc_op("byte 0x%02x in all contexts", c);
	for (style = 0; style < 4; style++) for (i = 0; i < 14; i++) {
		for (p = ctx[i], j = 0; *p; p++) s[j++] = *p == '@' ? c : *p;
		s[j] = 0; one(s, j, style);
	}
	for (style = 0; style < 4; style++) for (k = 1; k < 256; k++) { s[0] = c; s[1] = k; s[2] = 0; one(s, 2, style); s[0] = 'x'; s[1] = c; s[2] = k; s[3] = 'y'; s[4] = 0; one(s, 4, style); mc_step(2); mc_tick(); }
}
static void b_long(void)
{
	static const int L[] = { 1, 2, 9, 15, 16, 17, 100, 255, 256, 1000, 4095, 4096, 5000, 70000, 66000 };
	int n = L[mc_choose(15)], shape = mc_choose(6), style = mc_choose(4), i, o = 0; char *s = malloc(4 * n + 10);
	mc_op("long string, shape %d, %d", shape, n);
	if (n == 70000 && shape != 0 && shape != 3) mc_stop();
	if (n == 66000 && (shape != 1 && shape != 5)) { free(s); return; }
	for (i = 0; i < n; i++) switch (shape) {
	case 0: s[o++] = 1 + (i * 17 + 32) % 255; if (strchr(" \t\n\r\v\"'\\", s[o - 1])) s[o - 1] = 'a'; break;
	case 1: s[o++] = 'a' + i % 26; s[o++] = ' '; break;
	case 2: s[o++] = '\\'; s[o++] = i % 2 ? 'b' : ' '; break;
	case 3: if (!i) s[o++] = '"'; s[o++] = i % 7 ? 'q' : ' '; if (i == n - 1) s[o++] = '"'; break;
	case 4: s[o++] = '"'; s[o++] = 'x'; s[o++] = '"'; if (i % 3 == 0) s[o++] = '\t'; break;
	default: s[o++] = '\''; s[o++] = '\''; s[o++] = ' '; break;
	}
	s[o] = 0;
	{ char *t = malloc(o + 1); memcpy(t, s, o + 1); free(s); reference(t, style); { arg_List a = arg_argify(t, style); compare(a, t, style); arg_destroy(a); } free(t); }
	mc_check(mc_live_count() == 0, "blocks left");
}
static void b_pairs(void)
{
	static const char *T[] = { "", "a", "a b", "'", "\"x y\" z", "\\", "a\\ b", "''", "\"", " q", "'a'\"b\"c", "a b c d e f g" };
	int i = mc_choose(12), j = mc_choose(12), s1 = mc_choose(4), s2 = mc_choose(4), ord = mc_choose(3); arg_List a, b;
	mc_op("<%s> style %d, then <%s> style %d", T[i], s1, T[j], s2);
	static char buf[40];	/* both lie in the same buffer */
	a = arg_argify(strcpy(buf, T[i]), s1);
	if (ord == 2) { arg_destroy(a); a = NULL; }
	b = arg_argify(strcpy(buf, T[j]), s2); memset(buf, '#', sizeof buf - 1);
	if (a) { reference(T[i], s1); compare(a, T[i], s1); }
	reference(T[j], s2); compare(b, T[j], s2);
	if (ord == 0) { arg_destroy(a); compare(b, T[j], s2); arg_destroy(b); }
	else { arg_destroy(b); if (a) { reference(T[i], s1); compare(a, T[i], s1); arg_destroy(a); } }
	mc_outcome(i * 12 + j);
	mc_check(mc_live_count() == 0, "blocks left");
}
void mc_process_init(void) { rb = mc_real_malloc(400000); }
mc_scenario mc_scenarios[] = { { "classes", b_classes }, { "wide", b_wide, .recycle = 1 }, { "bytes", b_bytes }, { "long", b_long }, { "pairs", b_pairs }, { NULL } };

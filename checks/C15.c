/* C15 -- soundex
 * MC-WRAP: __ctype_b_loc */
#include "maa.h"
#include "mc.h"
#include <ctype.h>
const char *mc_property = "C15";
const char *mc_level = "model_checking";
const char *mc_bounds = "all strings of up to 4 (thorough 5) characters over the 52 letters; all strings of up to 8 (thorough 9) characters over 10 symbols covering each class, the vowels, h/w and a non-letter; every byte 1-255 at every position of 6 shapes, also in a locale with letters above 127; runs of up to 65536 ignored characters or class-less letters at every position of short words; both functions, result buffer of exactly five bytes, prefilled with different contents. Oracle: an independent three-pass implementation of the definition (classes, collapse, select)";
const char *mc_assumptions[] = { "a string without letters gives Z000", "AddressSanitizer build of the working tree", NULL };
/* a locale in which every byte above 127 is a lower case letter */
static int eightbit; static unsigned short ctab[384];
const unsigned short **__real___ctype_b_loc(void);
const unsigned short **__wrap___ctype_b_loc(void)
{
	static const unsigned short *t = ctab + 128; const unsigned short **r = __real___ctype_b_loc(); int i;
	if (!eightbit) return r;
	if (!ctab[128 + 'a']) { memcpy(ctab, *r - 128, sizeof ctab); for (i = 128; i < 256; i++) ctab[i + 128] = ctab[i - 128] = (*r)['a']; }
	return &t;
}
static int cls(int c) { switch (c) { case 'b': case 'f': case 'p': case 'v': return 1; case 'c': case 'g': case 'j': case 'k': case 'q': case 's': case 'x': case 'z': return 2; case 'd': case 't': return 3; case 'l': return 4; case 'm': case 'n': return 5; case 'r': return 6; } return 0; }
static void ref(const char *s, char *out)
{
	static char l[65800]; int n = 0, i, o = 1;
	for (; *s; s++) { int c = (unsigned char)*s; if (c >= 'A' && c <= 'Z') c += 32; if (c >= 'a' && c <= 'z') l[n++] = c; }
	strcpy(out, "Z000"); if (!n) return;
	out[0] = l[0] - 32;
	for (i = 1; i < n && o < 4; i++) { int k = cls(l[i]); if (k && k != cls(l[i - 1])) out[o++] = '0' + k; }
}
static void one(const char *s)
{
	char e[5], g[9]; const char *r; static unsigned char fill; char *h;
	ref(s, e); memset(g, ++fill, sizeof g);
	txt_soundex2(s, g + 2);
	mc_check(!memcmp(g + 2, e, 5), "txt_soundex2(<%.40s>) is <%.5s> instead of <%s>", s, g + 2, e);
	mc_check(g[0] == (char)fill && g[1] == (char)fill && g[7] == (char)fill && g[8] == (char)fill, "txt_soundex2(<%.40s>) writes outside its five bytes", s);
	r = txt_soundex(s);
	mc_check(!memcmp(r, e, 5), "txt_soundex(<%.40s>) is <%.5s> instead of <%s>", s, r, e);
	if (!(fill & 63)) { h = malloc(5); txt_soundex2(s, h); mc_check(!memcmp(h, e, 5), "heap buffer"); free(h); mc_outcome(mc_hash(e, 4, 1)); }
	mc_step(2);
}
static void rest(char *s, int n, int max, const char *al, int k)
{
	int i;
	s[n] = 0; one(s);
	if (n < max) for (i = 0; i < k; i++) { s[n] = al[i]; rest(s, n + 1, max, al, k); }
	s[n] = 0;
}
static void b_letters(void)
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; char s[16]; int a = mc_choose(53), b;
	if (a == 52) { one(""); mc_stop(); } b = mc_choose(52); s[0] = al[a]; s[1] = 0; one(s); s[1] = al[b]; mc_note("words beginning %c%c", al[a], al[b]);
	rest(s, 2, QT(4, 5), al, 52); mc_state(a * 52 + b);
}
static void b_classes(void)
{
	static const char al[] = "abctlmRhY-"; char s[16]; int i;
	for (i = 0; i < 3; i++) s[i] = al[mc_choose(10)]; s[3] = 0; mc_note("words beginning %s", s);
	rest(s, 3, QT(8, 9), al, 10); mc_state(mc_hash(s, 3, 2));
}
static void bytes(void)
{
	static const char *sh[] = { "robert", "bbbb", "a", "tymczak", "----b", "hw" }; int k = mc_choose(6), p = mc_choose(strlen(sh[k]) + 1), mode = mc_choose(2), c; char s[16];
	for (c = 1; c < 256; c++) {
		int l = strlen(sh[k]);
		if (mode) { strcpy(s, sh[k]); s[p] = c; if (p == l) s[p + 1] = 0; }
		else { memcpy(s, sh[k], p); s[p] = c; strcpy(s + p + 1, sh[k] + p); }
		one(s);
	}
	for (c = 0; c < 255 * 255; c++) { s[0] = c % 255 + 1; s[1] = c / 255 + 1; s[2] = "b\0"[mode]; s[3] = 0; one(s); }
}
static void b_bytes(void) { eightbit = 0; bytes(); }
static void b_locale(void) { eightbit = 1; bytes(); eightbit = 0; }
static void b_runs(void)
{
	static const char run[] = "-a1Hb\xe9"; static const char *w[] = { "tymczak", "bt", "x", "pfister", "" }; static const int len[] = { 1, 2, 3, 4, 5, 100, 255, 256, 257, 600, 4096, 65536 };
	int r = mc_choose(6), k = mc_choose(5), p = mc_choose(strlen(w[k]) + 1), n = mc_choose(12); static char s[65700];
	memcpy(s, w[k], p); memset(s + p, run[r], len[n]); strcpy(s + p + len[n], w[k] + p); mc_op("run of %d at %d of %s", len[n], p, w[k]); one(s);
}
static void b_history(void)
{
	static const char *w[] = { "", "Robert", "Rupert", "123", "A", "Tymczak", "lloyd", "ZZZZZZZZ", "Pfister" }; int d, c; char e[5]; const char *r, *last = NULL;
	for (d = 0; d < 4; d++) { c = mc_choose(18); mc_op("%s(%s)", c < 9 ? "txt_soundex" : "txt_soundex2", w[c % 9]); ref(w[c % 9], e);
		if (c < 9) { r = txt_soundex(w[c]); mc_check(!strcmp(r, e), "after a history: <%s> instead of <%s>", r, e); last = r; }
		else { char b[5] = "...."; txt_soundex2(w[c - 9], b); mc_check(!memcmp(b, e, 5), "after a history: <%.5s> instead of <%s>", b, e); } mc_state(c); }
}
mc_scenario mc_scenarios[] = { { "letters", b_letters }, { "classes", b_classes }, { "bytes", b_bytes }, { "locale", b_locale }, { "runs", b_runs }, { "history", b_history }, { NULL } };

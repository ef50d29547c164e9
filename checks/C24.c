/* C24 -- source positions name the right file, line, column and text */
#include "maa.h"
#include "mc.h"
#include <sys/resource.h>
const char *mc_property = "C24";
const char *mc_level = "model_checking";
const char *mc_bounds = "every sequence of 16 source events (new file, new line number, 4 kinds of line, 2 advances, 4 forms of cpp line, 4 token lengths) up to length 6 (thorough 7), all tokens re-examined after every event; every history of up to 3 (4) events with or without a manager, destroyed or shut down and followed by every history of 2 (3); all messages of up to 5 (6) pieces of a 9-piece alphabet x 8 sets of registered symbols, and messages and symbols up to 5000 characters; every file x line x text x offset 0..20 x length 0..12 x 4 printing functions x 4 streams; texts of up to 20 MB in the functions which copy them; tables of up to 3300 (12100) lines with a token of every line re-examined at every growth; every sequence of 3 (4) advances, tokens, line numbers and cpp lines of 18 sizes up to 2^28; marks at up to 20000 columns; 70000 lines or tokens, columns and lengths beyond 65535; up to 5000 registered symbols, of 0 to 5000 characters and any bytes";
const char *mc_assumptions[] = { "tokens are taken after the first line was stored (their text does not exist before)", "the numbers of cpp lines are positive", "a backquoted symbol that is never closed may be printed with or without the quote added", NULL };

typedef struct { src_Type t; const char *file; int line, off, len; const char *text; } tok;
static tok toks[13000]; static int nt;
static const char *M_file; static int M_line, M_off; static const char *M_text; static int M_have;
static char *dup_(const char *s, int n) { char *r = mc_real_malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
static const char *const F[] = { "a.c", "dir/some file.h", "x.y" };
static void mreset(void) { nt = 0; M_file = NULL; M_line = M_off = 0; M_text = NULL; M_have = 0; }
static int eqs(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static void check_tok(const tok *k)
{
	int i = k - toks;
	mc_check(eqs(src_filename(k->t), k->file), "token %d: file is '%s' instead of '%s'", i, src_filename(k->t) ? src_filename(k->t) : "(null)", k->file ? k->file : "(null)");
	mc_check(src_linenumber(k->t) == k->line, "token %d: line %d instead of %d", i, src_linenumber(k->t), k->line);
	mc_check(src_offset(k->t) == k->off, "token %d: offset %d instead of %d", i, src_offset(k->t), k->off);
	mc_check(src_length(k->t) == k->len, "token %d: length %d instead of %d", i, src_length(k->t), k->len);
	mc_check(eqs(src_source_line(k->t), k->text), "token %d: text '%s' instead of '%s'", i, src_source_line(k->t), k->text);
}
static void check_all(void)
{
	int i; for (i = 0; i < nt; i++) check_tok(&toks[i]);
	if (M_have) { mc_check(!strcmp(src_filename(NULL), "") && !strcmp(src_source_line(NULL), "") && !src_linenumber(NULL) && !src_offset(NULL) && !src_length(NULL), "the missing token reports a position"); }
}
static void e_line(const char *raw, int len, const char *text)
{
	static char buf[8000]; const char *r; int n = strlen(raw); memcpy(buf, raw, n + 1);
	r = src_line(buf, len); mc_check(r && !strcmp(r, text), "src_line stores '%s' instead of '%s'", r, text); mc_check(!strcmp(buf, raw), "src_line changes its argument"); memset(buf, '#', n);
	M_line++; M_off = 0; M_text = text; M_have = 1;
}
static void e_file(const char *f) { static char buf[100]; strcpy(buf, f); src_new_file(buf); memset(buf, '!', sizeof buf - 1); M_file = f; }
static void e_cpp(const char *l, int n, int line, const char *file) { static char buf[200]; strcpy(buf, l); src_cpp_line(buf, n); memset(buf, '%', sizeof buf - 1); M_line = line - 1; if (file) M_file = file; }
static int e_get(int len)
{
	tok *k = &toks[nt]; if (!M_have) return 0;
	*k = (tok){ src_get(len), M_file, M_line, M_off, len, M_text }; mc_check(k->t != NULL, "no token"); nt++; M_off += len; return 1;
}
/* one event; 0: not enabled */
#define NEV 16
static int event(int op)
{
	switch (op) {
	case 0: mc_op("new file a.c"); e_file(F[0]); break;
	case 1: mc_op("new file dir/some file.h"); e_file(F[1]); break;
	case 2: mc_op("new line 41"); src_new_line(41); M_line = 41; break;
	case 3: mc_op("line 'x = y;'"); e_line("x = y;\n", 7, "x = y;\n"); break;
	case 4: mc_op("line with tabs"); e_line("\tif\t(a)\t", 8, " if (a) "); break;
	case 5: mc_op("part of a line"); e_line("abcdef", 3, "abc"); break;
	case 6: mc_op("advance 3"); src_advance(3); M_off += 3; break;
	case 7: mc_op("advance 0"); src_advance(0); break;
	case 8: mc_op("cpp line 7"); e_cpp("# 7 \"x.y\" 1 3", 13, 7, "x.y"); break;
	case 9: mc_op("cpp line 9"); e_cpp("# 9", 3, 9, NULL); break;
	case 10: mc_op("cpp line 1"); e_cpp("#line 1 \"a.c\"zzz", 13, 1, "a.c"); break;
	case 11: mc_op("cpp line 100200"); e_cpp("# 100200 dir/some\\ file.h", 25, 100200, F[1]); break;
	case 12: mc_op("token of 1"); return e_get(1);
	case 13: mc_op("token of 4"); return e_get(4);
	case 15: mc_op("empty line"); e_line("", 0, ""); break;
	case 14: mc_op("empty token"); return e_get(0);
	}
	return 1;
}
static uint64_t mstate(void) { uint64_t h = mc_mix(M_line * 1000 + M_off, nt * 2 + M_have); h = mc_mix(h, (uint64_t)M_file); return mc_mix(h, (uint64_t)M_text); }
static void b_histories(void)
{
	int L = QT(6, 7), i; mreset();
	for (i = 0; i < L; i++) { if (!event(mc_choose(NEV))) mc_stop(); check_all(); mc_state(mstate()); }
}
/* columns, lengths and line numbers of any size */
static void b_numbers(void)
{
	static const int V[] = { 1, 15, 16, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 1000000, 16777216, 268435456 }; enum { N = sizeof V / sizeof *V };
	int L = QT(3, 4), i, op, v; char b[80]; mreset(); e_file(F[0]); e_line("some text\n", 10, "some text\n");
	for (i = 0; i < L; i++) {
		op = mc_choose(4); v = V[mc_choose(N)];
		switch (op) {
		case 0: mc_op("advance %d", v); src_advance(v); M_off += v; break;
		case 1: mc_op("token of %d", v); e_get(v); break;
		case 2: mc_op("new line %d", v); src_new_line(v); M_line = v; break;
		case 3: mc_op("cpp line %d", v); snprintf(b, 80, "# %d \"x.y\"", v); e_cpp(b, strlen(b), v, "x.y"); break;
		}
		e_get(3); check_all(); mc_state(mstate());
	}
}
/* ------------------------------------------------------------ cycles */
static void b_cycles(void)
{
	int L1 = mc_choose(QT(3, 4) + 1), L2 = QT(3, 3), i, made, how, k; mreset(); maa_init("x");
	if ((made = mc_choose(2))) { mc_op("src_create"); src_create(); MC_MUST_EXIT1("creating the manager twice", src_create()); }
	for (i = 0; i < L1; i++) { int op = mc_choose(10); static const int ev[] = { 0, 1, 2, 3, 4, 6, 8, 9, 13, 15 }; if (!event(ev[op])) mc_stop(); }
	if (M_have) made = 1;
	check_all();
	how = mc_choose(3);
	if (how == 0) { mc_op("src_destroy"); src_destroy(); } else if (how == 1) { mc_op("src_destroy, maa_shutdown"); src_destroy(); maa_shutdown(); maa_init("x"); } else { mc_op("src_destroy twice"); src_destroy(); src_destroy(); }
	mreset();
	{ src_Stats s = src_get_stats(); mc_check(!s->lines_used && !s->lines_bytes && !s->tokens_total, "a destroyed manager still has lines"); xfree(s); }
	MC_MUST_EXIT1("a token without a manager", src_get(1));
	MC_MUST_EXIT1("the file of no token without a manager", src_filename(NULL));
	MC_MUST_EXIT1("the line of no token without a manager", src_linenumber(NULL));
	MC_MUST_EXIT1("the offset of no token without a manager", src_offset(NULL));
	MC_MUST_EXIT1("the length of no token without a manager", src_length(NULL));
	MC_MUST_EXIT1("the text of no token without a manager", src_source_line(NULL));
	if (mc_choose(2)) { mc_op("src_create"); src_create(); }
	for (i = 0; i < L2; i++) { static const int ev[] = { 3, 13, 0, 15, 2, 9, 6 }; k = i == 0 ? mc_choose(7) : mc_choose(3); if (!event(ev[k])) mc_stop(); check_all(); }
	mc_state(mc_mix(mstate(), how));
}
/* ---------------------------------------------------------- printing */
static char want[80000], got[80000];
static FILE *mf; static char *mfb; static size_t mfn;
static FILE *stream_(int k) { mc_streams_reset(); if (k == 3) { mfb = NULL; mf = open_memstream(&mfb, &mfn); return mf; } return k == 0 ? NULL : k == 1 ? stdout : stderr; }
static const char *text_(int k)
{
	const char *o, *e; size_t lo, le;
	if (k == 3) { fclose(mf); snprintf(got, sizeof got, "%s", mfb); free(mfb); }
	o = mc_stdout_text(&lo); e = mc_stderr_text(&le);
	mc_check(k == 2 || k == 3 || !le, "something is printed to stderr"); mc_check(k < 2 || !lo, "something is printed to stdout"); mc_check(k != 3 || !le, "something is printed to stderr");
	if (k < 2) snprintf(got, sizeof got, "%s", o); else if (k == 2) snprintf(got, sizeof got, "%s", e);
	return got;
}
static void w_pos(const tok *k) { if (k) sprintf(want + strlen(want), "%s:%d: ", k->file, k->line); else strcat(want, "?:?: "); }
static void w_error(const tok *k)
{
	int i; char *e;
	if (!k) { strcat(want, "?:?: <source line not available>\n?:?: \n"); return; }
	w_pos(k); strcat(want, k->text); w_pos(k); e = want + strlen(want);
	for (i = 0; i < k->off; i++) *e++ = ' '; for (i = 0; i < k->len; i++) *e++ = '^'; *e++ = '\n'; *e = 0;
}
static void judge(int st) { const char *g = text_(st); mc_check(!strcmp(g, want), "printed:\n%s\ninstead of:\n%s", g, want); }
static void print_one(const tok *k, int fn, int st)
{
	FILE *f; src_Type t = k ? k->t : NULL; *want = 0;
	if (fn == 3 && st == 0) return;	/* src_print_message needs a stream */
	f = stream_(st);
	switch (fn) {
	case 0: src_print_line(f, t); if (k) { w_pos(k); strcat(want, k->text); } else strcat(want, "?:?: <source line not available>\n"); break;
	case 1: w_pos(k); src_print_error(f, t, "bad %s %d%% %c", "word", -12, 'Z'); strcat(want, "bad word -12% Z\n"); w_error(k); break;
	case 2: w_pos(k); src_parse_error(f, t, "100% wrong %s %n"); strcat(want, "100% wrong %s %n\n"); w_error(k); break;
	case 3: w_pos(k); src_print_message(f, t, "%s%ld", "note ", 123456789012L); strcat(want, "note 123456789012\n"); break;
	case 4: src_print_error(f, t, NULL); w_error(k); break;
	case 5: w_pos(k); src_print_error(f, t, "%s", ""); strcat(want, "\n"); w_error(k); break;
	}
	judge(st);
}
static void b_printing(void)
{
	int fi = mc_choose(3), ln = mc_choose(3), tx = mc_choose(3), off = mc_choose(21), len, fn, st; static const int lines[] = { 1, 42, 2147483000 }; static const char *const ts[] = { "int main(void)\n", "    \n", "a b c d e f g h i j k l m n o p q r s t\n" };
	mreset(); e_file(F[fi]); src_new_line(lines[ln] - 1); M_line = lines[ln] - 1; e_line(ts[tx], strlen(ts[tx]), ts[tx]); src_advance(off); M_off = off;
	for (len = 0; len < 13; len++) { nt = 0; e_get(len); src_advance(-len); M_off -= len; e_line("another\n", 8, "another\n"); { tok k = toks[0]; for (fn = 0; fn < 6; fn++) for (st = 0; st < 4; st++) { print_one(&k, fn, st); if (!len && !off) print_one(NULL, fn, st); mc_step(1); } check_tok(&toks[0]); }
		M_line = lines[ln] - 1; src_new_line(M_line); e_line(ts[tx], strlen(ts[tx]), ts[tx]); src_advance(off); M_off = off; }
	mc_op("%s line %d offset %d", F[fi], lines[ln], off); mc_state(mc_mix(mc_mix(fi, ln), mc_mix(tx, off)));
}
static void b_columns(void)	/* marks far to the right */
{
	static const int O[] = { 21, 79, 80, 132, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 20000 }, C[] = { 0, 1, 80, 256, 1024, 3000 };
	int off = O[mc_choose(19)], len = C[mc_choose(6)], fn, st, n; char *l; mreset();
	n = mc_choose(2) ? 5 : off + len + 7 < 7900 ? off + len + 7 : 7900; l = mc_real_malloc(n + 2); memset(l, 'w', n); l[n] = '\n'; l[n + 1] = 0;
	e_file(F[0]); e_line(l, n + 1, l); src_advance(off); M_off = off; e_get(len); e_line("another\n", 8, "another\n");
	for (fn = 0; fn < 6; fn++) for (st = 0; st < 4; st++) { print_one(&toks[0], fn, st); mc_step(1); }
	mc_op("marks of %d after %d columns", len, off); mc_state(mc_mix(off, len)); __real_free(l);
}
/* --------------------------------------------------- parser messages */
static const char *const sym[] = { "T_A", "T_Bee", "T_A_long_symbol_name" };
static const char *const con[] = { "+", "end of the whole file, in words", "'" };
static const char *conc(const char *s, int set) { int i; for (i = 0; i < 3; i++) if (set >> i & 1 && !strcmp(s, sym[i])) return con[i]; return NULL; }
/* the reference reading of a message; *open: ends in an unclosed symbol */
static void massage(const char *m, int set, char *o, int *open)
{
	static char s[6000]; int n; const char *c; *open = 0;
	while (*m) {
		if (m[0] == '`' && m[1] == '`' && m[2] && m[3] == '\'' && m[4] == '\'') { *o++ = '`'; *o++ = m[2]; *o++ = '\''; m += 5; }
		else if (m[0] == '`' && m[1] == 'T' && m[2] == '_') { n = strcspn(m + 1, "'"); memcpy(s, m + 1, n); s[n] = 0; c = conc(s, set); o += sprintf(o, "`%s'", c ? c : s); m += n + 1; if (!*m) { *open = 1; break; } m++; }
		else *o++ = *m++;
	}
	*o = 0;
}
static char msg[8000], mout[60000];
static void regs(int set) { int i; char b[60], c[60]; for (i = 0; i < 3; i++) if (set >> i & 1) { strcpy(b, sym[i]); strcpy(c, con[i]); prs_register_concrete(b, c); memset(b, '?', 59); memset(c, '?', 59); } for (i = 0; i < 3; i++) { const char *r = prs_concrete(sym[i]); mc_check(eqs(r, set >> i & 1 ? con[i] : NULL), "the concrete form of %s is %s", sym[i], r ? r : "missing"); } mc_check(!prs_concrete("T_") && !prs_concrete("") && !prs_concrete("t_a"), "an unregistered symbol has a concrete form"); }
static void say(const tok *k, int set, int st)
{
	int open; const char *g; massage(msg, set, mout, &open);
	*want = 0; w_pos(k); strcat(want, mout); strcat(want, "\n"); w_error(k);
	{ int n = strlen(msg); char *c = mc_real_malloc(n + 9); memcpy(c, msg, n + 1); strcpy(c + n + 1, "`T_A'Q"); src_parse_error(stream_(st), k ? k->t : NULL, c); free(c); }
	g = text_(st);
	if (open && strcmp(g, want)) { *want = 0; w_pos(k); mout[strlen(mout) - 1] = 0; strcat(want, mout); strcat(want, "\n"); w_error(k); }
	mc_check(!strcmp(g, want), "printed:\n%s\ninstead of:\n%s\nfor the message: %s", g, want, msg);
}
static void b_messages(void)
{
	static const char *const P[] = { "`T_A'", "`T_Bee'", "`T_A_long_symbol_name'", "`T_unknown'", "``;''", "`", "'", "T_A, %s", "parse error", "``\xe9''" };
	int set = mc_choose(8), L = QT(5, 6), i, n; mreset(); regs(set); e_file("f.y"); e_line("x\n", 2, "x\n"); e_get(1); *msg = 0;
	n = mc_choose(L + 1); for (i = 0; i < n; i++) strcat(msg, P[mc_choose(10)]);
	mc_op("%s", msg); say(&toks[0], set, set % 4); mc_state(mc_hash(msg, strlen(msg), set)); mc_outcome(mc_hash(mout, strlen(mout), 0));
}
static void b_long(void)
{
	int set = mc_choose(8), n, shape = mc_choose(4), i; static const int lens[] = { 1, 2, 30, 61, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000 };
	n = lens[mc_choose(sizeof lens / sizeof *lens)]; mreset(); regs(set); e_file("f.y"); e_line("x\n", 2, "x\n"); e_get(1);
	switch (shape) {
	case 0: memset(msg, 'm', n); msg[n] = 0; break;
	case 1: sprintf(msg, "`T_%0*d'", n, 7); break;
	case 2: for (*msg = i = 0; i + 8 < n; i += 8) strcpy(msg + i, i % 3 ? "`T_Bee' " : "`T_A'   "); break;
	default: memset(msg, ' ', n); strcpy(msg + n, "`T_A_long_symbol_name' after `T_Bee'"); break;
	}
	mc_op("message of %d, shape %d", n, shape); say(&toks[0], set, 3); say(NULL, set, 0); mc_state(mc_mix(n, shape));
}
/* ------------------------------------------------------------ growth */
static void b_growth(void)
{
	static const int sizes[] = { 998, 999, 1000, 1001, 1999, 2000, 2001, 3300, 12100 };
	int n, i, style = mc_choose(3), round, nr = mc_choose(2) + 1; char b[60]; static char *txt[12200]; n = sizes[mc_choose(QT(8, 9))];
	for (round = 0; round < nr; round++) {
		mreset();
		for (i = 0; i < n; i++) {
			if (style && i % 97 == 0) e_file(F[i / 97 % 3]); if (style == 2 && i % 211 == 0) { src_new_line(5 * i); M_line = 5 * i; }
			sprintf(b, "line %d of %d", i, round); if (!txt[i]) txt[i] = dup_(b, 40); strcpy(txt[i], b); e_line(txt[i], strlen(b), txt[i]); src_advance(i % 5); M_off += i % 5; e_get(i % 7); mc_step(1);
			if (i % 500 == 0 || (i + 2) % 1000 < 4) { check_all(); mc_tick(); }
		}
		check_all(); mc_op("%d lines", n); src_destroy();
	}
	mc_state(mc_mix(n, style));
}
/* registered symbols: their number, lengths and bytes */
static void sname(char *b, int i, int len, int style) { int j, n = sprintf(b, style == 1 ? "%d" : "T_%d", i); for (j = n; j < len; j++) b[j] = style == 2 ? 0x80 + j % 120 : 'a' + j % 26; b[j] = 0; if (!len) *b = 0; }
static void b_symbols(void)
{
	static const int N[] = { 1, 2, 7, 8, 61, 200, 1000, 5000 }, L[] = { 0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 5000 };
	int n = N[mc_choose(8)], style = mc_choose(3), la, lb, i, r; static char a[6000], b[6000]; const char *c;
	if (n == 1) { la = L[mc_choose(18)]; lb = L[mc_choose(18)]; } else { la = 1 + mc_choose(2) * 60; lb = mc_choose(2) * 60; }
	maa_init("c24"); mc_op("%d symbols of %d, forms of %d, style %d", n, la, lb, style); mc_check(!prs_concrete("T_0"), "a form before any");
	for (i = 0; i < n; i++) { sname(a, i, la, style); sname(b, i + 7, lb, style); prs_register_concrete(a, b); memset(a, 1, 5000); memset(b, 1, 5000); if (!(i & 1023)) mc_tick(); }
	for (r = 0; r < 2; r++) for (i = 0; i < n; i++) { sname(a, i, la, style); sname(b, i + 7, lb, style); c = prs_concrete(a); mc_check(c && !strcmp(c, b), "symbol %d: form <%s> of %d characters", i, c ? c : "none", c ? (int)strlen(c) : 0); }
	sname(a, n, la ? la : 1, style); mc_check(!prs_concrete(a), "a symbol that was not registered has a form"); if (la > 6) { sname(a, 0, la - 1, style); mc_check(n > 1 || !prs_concrete(a), "a shorter symbol has a form"); sname(a, 0, la + 1, style); mc_check(!prs_concrete(a), "a longer symbol has a form"); }
	mc_state(mc_mix(n * 100 + style, la * 6000 + lb)); maa_shutdown(); mc_check(!prs_concrete("T_0") && !prs_concrete(""), "a form after the shutdown"); mc_check(mc_live_count() == 0, "blocks left");
}
/* more lines, tokens and columns than 16 bits count */
static void b_many(void)
{
	int way = mc_choose(2), n = 70000, i, j; src_Type *k = mc_real_malloc(n * sizeof *k); char b[60]; src_Type t;
	mreset(); src_new_file("many.c"); mc_op("%d %s", n, way ? "tokens of one line" : "lines");
	for (i = 0; i < n; i++) { if (!way || !i) { sprintf(b, "line %d", i); src_line(b, strlen(b)); } k[i] = src_get(way ? 1 + i % 3 : i); if (!(i & 8191)) mc_tick(); }
	for (i = 0; i < n; i++) { j = way ? i / 3 * 6 + (i % 3 == 2 ? 3 : i % 3) : 0; sprintf(b, "line %d", way ? 0 : i); mc_check(src_linenumber(k[i]) == (way ? 1 : i + 1) && src_offset(k[i]) == j && src_length(k[i]) == (way ? 1 + i % 3 : i) && !strcmp(src_filename(k[i]), "many.c") && !strcmp(src_source_line(k[i]), b), "token %d of %d: line %d, offset %d, length %d, text '%s'", i, n, src_linenumber(k[i]), src_offset(k[i]), src_length(k[i]), src_source_line(k[i])); }
	src_new_line(100000); src_line("far", 3); src_advance(123456); t = src_get(99999); mc_check(src_linenumber(t) == 100001 && src_offset(t) == 123456 && src_length(t) == 99999, "line %d, offset %d, length %d", src_linenumber(t), src_offset(t), src_length(t));
	src_advance(-100000); t = src_get(1); mc_check(src_offset(t) == 123455, "offset %d", src_offset(t));
	__real_free(k); mc_state(way); src_destroy(); str_destroy(); mc_check(mc_live_count() == 0, "blocks left");
}
/* texts larger than any stack */
static void b_huge(void)
{
	static const int L[] = { 100000, 1048576, 8388600, 8388609, 20000000 };
	int n = L[mc_choose(5)], way = mc_choose(6), more = mc_choose(2), i, nl; char *b = mc_real_malloc(n + 1200), *o = NULL; size_t on = 0; FILE *f; const char *r; src_Type t; const char *pre = "";
	if (way == 0) { struct rlimit rl; if (n > 1048576) mc_stop(); n = n > 100000 ? 200000 : 100000; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 160 << 10; setrlimit(RLIMIT_STACK, &rl); }	/* a small stack instead of a huge name: splitting may take quadratic time */
	memset(b, 'q', n + 1000); b[n + 1000] = 0;
	mreset(); src_new_file("small.c"); src_line("text\n", 5); mc_op("%d bytes, way %d", n, way);
	switch (way) {
	case 0:	/* a cpp line that names a file with a huge name */
		memcpy(b, "# 77 \"", 6); b[n - 1] = '"'; if (!more) b[n] = 0;
		src_cpp_line(b, n); src_line("next\n", 5); t = src_get(2); r = src_filename(t);
		mc_check(src_linenumber(t) == 77, "line %d", src_linenumber(t)); mc_check(strlen(r) == (size_t)n - 7 && !memcmp(r, b + 6, n - 7), "the file name differs"); break;
	case 1:	/* a huge source line */
		b[n / 2] = '\t'; if (!more) b[n] = 0;
		r = src_line(b, n); t = src_get(1); mc_check(strlen(r) == (size_t)n && r[n / 2] == ' ' && r[n - 1] == 'q', "the line differs"); mc_check(src_source_line(t) == r || !strcmp(src_source_line(t), r), "the token's line differs"); break;
	default:	/* a huge message */
		t = src_get(4); b[n] = 0;
		f = open_memstream(&o, &on);
		if (way == 2) src_parse_error(f, t, b);
		if (way == 3 || way == 5) { memcpy(b, "`T_", 3); if (way == 5) b[n - 1] = '\''; src_parse_error(f, t, b); }
		if (way == 4) src_print_error(f, t, more ? "%s" : b, b);
		fclose(f); pre = "small.c:1: "; nl = strlen(pre);
		mc_check(!memcmp(o, pre, nl), "the position differs");
		i = way == 3 && o[nl + n] == '\''; mc_check(!memcmp(o + nl, b, n) && !memcmp(o + nl + n + i, "\nsmall.c:1: text\nsmall.c:1: ^^^^\n", on - nl - n - i), "the printed message differs"); mc_check(on == (size_t)nl + n + i + strlen("\nsmall.c:1: text\nsmall.c:1: ^^^^\n"), "printed %ld bytes", (long)on);
		free(o);
	}
	free(b); mc_state(n * 7 + way); src_destroy(); str_destroy(); mc_check(mc_live_count() == 0, "blocks left");
}
mc_scenario mc_scenarios[] = { { "symbols", b_symbols, .recycle = 1 }, { "cycles", b_cycles, .recycle = 1 }, { "growth", b_growth }, { "printing", b_printing }, { "columns", b_columns }, { "long messages", b_long }, { "messages", b_messages }, { "histories", b_histories, .recycle = 1 }, { "numbers", b_numbers }, { "huge", b_huge }, { "many", b_many }, { NULL } };

/* C09 -- memory managers never overlap or alter what they handed out */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C09";
const char *mc_level = "model_checking";
const char *mc_bounds = "string manager: every sequence of strcpy/strncpy/grow.../finish over strings of 0-9 bytes up to length 6 (thorough 7), inputs unterminated where counted and freed after the call, two managers interleaved up to length 6 (7); a copy of each of 13 lengths followed by up to 4200 (9000) copies of each length to 33 (64) made in 3 ways, all kept; object manager: every sequence of get/get_empty/free (any live object) over two managers of different sizes up to length 8 (9), every live object filled with its own pattern and compared after every operation; sizes 1 to 1000003, up to 1500 (and 70000) objects; counted copies and growth with null bytes inside";
const char *mc_assumptions[] = { "no other call on the manager between the first grow and finish (documented)", "AddressSanitizer build of the working tree: every block is checked for its full size", NULL };
#define MAXP 40
typedef struct { mem_String m; int n; const char *p[MAXP]; char t[MAXP][32]; int len[MAXP]; char g[64]; int gl, growing; } sobj;
static char *heap(const char *s, int n, int z) { char *b = malloc(n + z + !n); memcpy(b, s, n); if (z) b[n] = 0; return b; }
static void hfree(char *b, int n) { memset(b, 'X', n); free(b); }
static const char *const S[] = { "", "a", "bcd", "0123456789abcdef" };
static const char *B = "0123456789abcdef";	/* what the counted calls copy; with null bytes inside in the scenario `null bytes' */
static void scheck(sobj *o)
{
	int i, j;
	for (i = 0; i < o->n; i++) {
		mc_check(!memcmp(o->p[i], o->t[i], o->len[i] + 1), "string %d handed out as \"%s\" is now \"%.30s\"", i, o->t[i], o->p[i]);
		for (j = 0; j < i; j++) mc_check(o->p[i] + o->len[i] < o->p[j] || o->p[j] + o->len[j] < o->p[i], "strings %d and %d overlap", i, j);
	}
}
static void shand(sobj *o, const char *r, const char *t, int l)
{
	mc_check(r != NULL, "NULL string"); mc_check(!memcmp(r, t, l) && r[l] == 0, "string of %d bytes came out as \"%.*s\"", l, l + 1, r);
	o->p[o->n] = r; memcpy(o->t[o->n], t, l); o->t[o->n][l] = 0; o->len[o->n++] = l;
}
/* 0-3 strcpy, 4-7 strncpy of a prefix, 8-11 grow, 12 finish */
static int sapply(sobj *o, int op, int w)
{
	char *b; int l, k = op % 4;
	if (o->growing && op < 8) return 0;
	if (op == 12) { const char *r; mc_op("manager %d: finish", w); if (!o->growing) return 0; r = mem_finish(o->m); shand(o, r, o->g, o->gl); o->gl = o->growing = 0; }
	else if (op < 4) { mc_op("manager %d: strcpy \"%s\"", w, S[k]); l = strlen(S[k]); b = heap(S[k], l, 1); { const char *r = mem_strcpy(o->m, b); hfree(b, l + 1); shand(o, r, S[k], l); } }
	else if (op < 8) { static const int cut[] = { 0, 1, 2, 9 }; l = cut[k]; mc_op("manager %d: strncpy %d", w, l); b = heap(B, l, 0); { const char *r = mem_strncpy(o->m, b, l); hfree(b, l); shand(o, r, B, l); } }
	else { static const int cut[] = { 0, 1, 3, 9 }; l = cut[k]; if (o->gl + l > 30) return 0; mc_op("manager %d: grow by %d", w, l); b = heap(B + (o->gl & 3), l, 0); mem_grow(o->m, b, l); hfree(b, l); memcpy(o->g + o->gl, B + (o->gl & 3), l); o->gl += l; o->growing = 1; }
	return 1;
}
static uint64_t shash(sobj *o) { uint64_t h = o->growing * 100 + o->gl; int i; for (i = 0; i < o->n; i++) h = mc_mix(h, mc_hash(o->t[i], o->len[i], o->len[i])); return h; }
static void b_strings(void)
{
	static sobj o; int d, c; memset(&o, 0, sizeof o); o.m = mem_create_strings();
	for (d = 0; d < QT(6, 7); d++) { c = mc_choose(14); if (!c) break; if (!sapply(&o, c - 1, 0)) return; scheck(&o); }
	if (o.growing) { sapply(&o, 12, 0); scheck(&o); }
	mc_state(shash(&o));
	mem_destroy_strings(o.m);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void b_nulls(void)
{
	static const char *const T[] = { "\0a\0b\0cdefghijk", "a\0\0\0e\0ghijkl\0n", "ab\0defgh\0\377\0\001\0", "\0\0\0\0\0\0\0\0\0\0\0\0\0\0" };
	static sobj o; int d, c; memset(&o, 0, sizeof o); B = T[mc_choose(4)]; o.m = mem_create_strings();
	for (d = 0; d < QT(4, 5); d++) { c = mc_choose(14); if (!c) break; if (!sapply(&o, c - 1, 0)) return; scheck(&o); }
	if (o.growing) { sapply(&o, 12, 0); scheck(&o); }
	mc_state(shash(&o)); mem_destroy_strings(o.m);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void b_strings2(void)
{
	static sobj o[2]; int d, c, w; memset(o, 0, sizeof o); o[0].m = mem_create_strings(); o[1].m = mem_create_strings();
	for (d = 0; d < QT(6, 7); d++) {
		static const int few[] = { 2, 6, 9, 8, 12 };
		c = mc_choose(2 * 6 + 1); if (!c) break;
		w = --c / 6; c %= 6;
		if (c == 5) { mc_op("manager %d destroyed and created again", w); mem_destroy_strings(o[w].m); memset(&o[w], 0, sizeof o[w]); o[w].m = mem_create_strings(); }
		else if (!sapply(&o[w], few[c], w)) return;
		scheck(&o[0]); scheck(&o[1]);
	}
	mc_state(mc_mix(shash(&o[0]), shash(&o[1])));
	mem_destroy_strings(o[0].m); scheck(&o[1]);
	if (o[1].growing) sapply(&o[1], 12, 1);
	scheck(&o[1]); mem_destroy_strings(o[1].m);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
static void b_longstr(void)
{
	static const int L[] = { 1, 2, 7, 8, 31, 32, 255, 256, 1000, 4096, 4097, 65536, 200000 };
	static const int PC[] = { 1, 3, 64, 1000, 4096, 70000, 1 << 20 };
	int n = L[mc_choose(13)], piece = PC[mc_choose(7)], between = mc_choose(2), i, l, r; mem_String m = mem_create_strings(); char *b; const char *s[4], *x;
	if (n / piece > 6000) return;
	b = malloc(n + 1); mc_op("%d bytes in pieces of %d", n, piece);
	for (r = 0; r < 3; r++) {
		for (i = 0; i < n; i++) b[i] = 1 + (i * 13 + r) % 250;
		b[n] = 0;
		for (i = 0; i < n; i += l) { l = n - i < piece ? n - i : piece; mem_grow(m, b + i, l); }
		s[r] = mem_finish(m);
		mc_check(!strcmp(s[r], b), "grown string %d differs", r);
		if (between) { x = mem_strncpy(m, b, n); mc_check(!strcmp(x, b), "counted copy differs"); x = mem_strcpy(m, b); mc_check(!strcmp(x, b), "copy differs"); }
	}
	for (r = 0; r < 3; r++) for (i = 0; i < n; i++) mc_check(s[r][i] == (char)(1 + (i * 13 + r) % 250), "grown string %d changed at %d", r, i);
	mc_state(n * 20 + piece); mc_step(3 * (n / piece + 1));
	free(b); mem_destroy_strings(m); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* runs of copies: a first one of one length, then copies of another length, every one kept and read at the end */
static void b_runs(void)
{
	static const int A[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 63, 64, 100 }; int a = A[mc_choose(13)], b = mc_choose(QT(34, 65)), way = mc_choose(3), n = QT(4200, 9000) / (b + 1), i, j, l; mem_String m = mem_create_strings(); const char **s; char t[128];
	if (way == 2 && n > 1500) n = 1500;
	mc_op("a copy of %d bytes and %d of %d", a, n, b); s = malloc((n + 1) * sizeof *s);
	for (i = 0; i <= n; i++) {
		char *src; l = i ? b : a; for (j = 0; j < l; j++) t[j] = 1 + (i * 31 + j * 7) % 255; t[l] = 0; src = heap(t, l, way == 1);
		if (way == 0) s[i] = mem_strncpy(m, src, l); else if (way == 1) s[i] = mem_strcpy(m, src); else { mem_grow(m, src, l / 2); mem_grow(m, src + l / 2, l - l / 2); s[i] = mem_finish(m); }
		hfree(src, l + (way == 1)); mc_check(s[i] && strlen(s[i]) == (size_t)l, "string %d has %d bytes instead of %d", i, (int)strlen(s[i]), l);
	}
	for (i = 0; i <= n; i++) { l = i ? b : a; for (j = 0; j < l; j++) mc_check(s[i][j] == (char)(1 + (i * 31 + j * 7) % 255), "string %d changed at byte %d", i, j); mc_check(s[i][l] == 0, "string %d has lost its end", i); }
	mc_state(a * 100 + b * 3 + way); mc_step(n); free(s); mem_destroy_strings(m); mc_check(mc_live_count() == 0, "blocks left after destroy");
}
/* ---------------------------------------------------------------- objects */
typedef struct { mem_Object m; int size, n, nfree, total; unsigned char *p[MAXP], pat[MAXP]; unsigned char *f[MAXP]; } oobj;
static void ocheck(oobj *o, int no)
{
	int a, b, i, j, k;
	for (a = 0; a < no; a++) for (i = 0; i < o[a].n; i++) {
		for (k = 0; k < o[a].size; k++) mc_check(o[a].p[i][k] == o[a].pat[i], "object %d of manager %d changed at byte %d", i, a, k);
		for (b = 0; b <= a; b++) for (j = 0; j < (b == a ? i : o[b].n); j++)
			mc_check(o[a].p[i] + o[a].size <= o[b].p[j] || o[b].p[j] + o[b].size <= o[a].p[i], "live objects overlap");
	}
}
static unsigned char patno;
static void oget(oobj *o, int empty, int w)
{
	unsigned char *p; int k, i, reused = 0;
	mc_op("manager %d: get%s", w, empty ? "_empty" : "");
	p = empty ? mem_get_empty_object(o->m) : mem_get_object(o->m);
	mc_check(p != NULL, "NULL object");
	if (empty) for (k = 0; k < o->size; k++) mc_check(p[k] == 0, "get_empty: byte %d is %d", k, p[k]);
	for (i = 0; i < o->nfree; i++) if (o->f[i] == p) { o->f[i] = o->f[--o->nfree]; reused = 1; break; }
	if (!reused) { mc_check(o->nfree == 0, "new memory is taken although %d freed objects are available", o->nfree); o->total++; }
	o->pat[o->n] = ++patno; memset(p, patno, o->size); o->p[o->n++] = p;
}
static void ofree(oobj *o, int i, int w)
{
	mc_op("manager %d: free object %d", w, i);
	mem_free_object(o->m, o->p[i]); o->f[o->nfree++] = o->p[i];
	o->n--; o->p[i] = o->p[o->n]; o->pat[i] = o->pat[o->n];
}
static void ocreate(oobj *o, int size) { memset(o, 0, sizeof *o); o->size = size; o->m = mem_create_objects(size); }
static void b_objects(void)
{
	static oobj o[2]; static const int SZ[] = { 24, 1, 8, 100 }; int d, c, w, s = mc_choose(3);
	ocreate(&o[0], SZ[s]); ocreate(&o[1], SZ[s + 1]); patno = 0;
	for (d = 0; d < QT(8, 9); d++) {
		c = mc_choose(2 + o[0].n + 2 + (o[1].n > 2 ? 2 : o[1].n) + 1 + 1); if (!c) break;
		c--;
		if (c < 2) oget(&o[0], c, 0);
		else if (c < 2 + o[0].n) ofree(&o[0], c - 2, 0);
		else { c -= 2 + o[0].n; w = 1; if (c < 2) oget(&o[1], c, 1); else if (c < 2 + (o[1].n > 2 ? 2 : o[1].n)) ofree(&o[1], c - 2, 1); else { mc_op("manager 1 destroyed and created again"); mem_destroy_objects(o[1].m); ocreate(&o[1], SZ[s + 1]); } }
		ocheck(o, 2);
		mc_state(mc_mix(o[0].n * 1000 + o[0].nfree * 100 + s, o[1].n * 100 + o[1].nfree));
	}
	mem_destroy_objects(o[1].m); ocheck(o, 1); mem_destroy_objects(o[0].m);
	mc_check(mc_live_count() == 0, "%ld blocks left after destroy", mc_live_count());
}
static void b_many(void)
{
	static const int SZ[] = { 1, 3, 8, 16, 40, 511, 4096, 4097, 32769, 65537, 1000003 }; static const int N[] = { 1, 2, 10, 100, 511, 512, 513, 1500, 70000 };
	int size = SZ[mc_choose(11)], n = N[mc_choose(9)], pat = mc_choose(4), i, r; unsigned char **p; mem_Object m; char *live;
	if ((long)size * n > 3000000) return;
	p = malloc(n * sizeof *p); live = calloc(n, 1); m = mem_create_objects(size);
	mc_op("%d objects of %d bytes, pattern %d", n, size, pat);
	for (r = 0; r < 3; r++) {
		for (i = 0; i < n; i++) if (!live[i]) { int k; p[i] = i % 2 ? mem_get_object(m) : mem_get_empty_object(m); live[i] = 1; if (!(i % 2)) for (k = 0; k < size; k++) mc_check(!p[i][k], "get_empty is not empty"); memset(p[i], i * 7 + 1, size); }
		for (i = 0; i < n; i++) { int k; for (k = 0; k < size; k++) mc_check(p[i][k] == (unsigned char)(i * 7 + 1), "object %d changed in round %d", i, r); }
		for (i = 0; i < n; i++) { int j = pat == 1 ? n - 1 - i : i; if (pat == 2 && i % 2) continue; if (pat == 3 && i % 3 != r) continue; mem_free_object(m, p[j]); live[j] = 0; }
	}
	{ mem_ObjectStats s = mem_get_object_stats(m); mc_check(s->total == n, "%d objects created for at most %d live ones", s->total, n); xfree(s); }
	mc_state(mc_mix(size, n * 4 + pat)); mc_step(3 * n);
	free(p); free(live); mem_destroy_objects(m);
	mc_check(mc_live_count() == 0, "blocks left after destroy");
}
mc_scenario mc_scenarios[] = { { "strings", b_strings, .recycle = 1 }, { "null bytes", b_nulls }, { "two-string-managers", b_strings2, .recycle = 1 }, { "long-strings", b_longstr }, { "runs", b_runs, .recycle = 1 }, { "objects", b_objects }, { "many-objects", b_many, .recycle = 1 }, { NULL } };

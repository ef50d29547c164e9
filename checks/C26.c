/* C26 -- statistics and printed reports agree with the history */
#include "maa.h"
#include "mc.h"
#include "keys.h"
const char *mc_property = "C26";
const char *mc_level = "model_checking";
const char *mc_bounds = "hash tables and sets: every sequence of insert/delete/lookup (4 keys, two equal)/iteration/repeated lookup up to length 5 (thorough 6) x 7 hash/compare/key alphabets; sets after algebra; string pools (own and global), string managers, object managers, source manager: every sequence of their operations up to length 6-7 (thorough 7-8), each with statistics obtained and printed after every operation or only at the end; strings of 66000 bytes; the dumps of lists, skip lists and hash keys after every sequence of 3-6 (4-7) operations; the report of maa_shutdown for every combination of flags and use over two cycles; all growth sizes up to 4720 entries x 3 hash functions, 70000 entries, strings, objects, lines and elements; every obtained field and every printed number compared with a reference, all live memory compared before and after";
const char *mc_assumptions[] = { "the number of hits is checked where the history determines it (single-entry buckets, immediate repetition, misses)", "one or two terminating bytes are counted for a string built by grow and finish", NULL };

/* numbers of a printed text, in order; hexadecimal addresses skipped */
static int numbers(const char *t, double *o, int max)
{
	int n = 0; char *e;
	while (*t && n < max) { if (t[0] == '0' && t[1] == 'x') { t += 2; while (strchr("0123456789abcdef", *t) && *t) t++; continue; } if (*t >= '0' && *t <= '9') { o[n++] = strtod(t, &e); t = e; } else t++; }
	return n;
}
static void same(const char *what, const char *text, const double *want, int n)
{
	double o[32]; int m = numbers(text, o, 32), i, j;
	/* every number of the statistics appears, in order; others (a derived average) may stand between */
	for (i = j = 0; i < n; i++) { while (j < m && o[j] != want[i]) j++; mc_check(j < m, "the printed %s do not show %g: %s", what, want[i], text); j++; }
	mc_check(m <= n + 1, "the printed %s show other numbers: %s", what, text);
}
static long n0_; static uint64_t h0_;
static void quiet0(void) { mc_streams_reset(); n0_ = mc_live_count(); h0_ = mc_live_hash(n0_); }
static void quiet1(const char *what) { mc_check(mc_live_count() >= n0_ && mc_live_hash(n0_) == h0_, "%s changes something", what); }
/* printed to stdout (NULL) or to a given stream */
static int alt; static FILE *mem_f; static char *mem_b; static size_t mem_n;
static FILE *pstream(void) { alt = !alt; return alt ? NULL : stderr; }
static const char *ptext(void) { return alt ? mc_stdout_text(NULL) : mc_stderr_text(NULL); }

/* ---------------------------------------------- hash tables and sets */
static int kind; static void *T; static int nk, live[8]; static unsigned long retr, miss, hits_lo, hits_hi, last_size, resz; static const void *lastkey;
static unsigned long hashv(const void *k) { return A->hash ? A->hash(k) : hsh_string_hash(k); }
static int present(int k) { int i; for (i = 0; i < nk; i++) if (live[i] >= 0 && A->cls[live[i]] == A->cls[k]) return i + 1; return 0; }
typedef struct { unsigned long size, resizings, entries, buckets_used, singletons, maximum_length, retrievals, hits, misses; } st_t;
static st_t raw(void) { st_t r; memset(&r, 0, sizeof r); if (kind) { set_Stats s = set_get_stats(T); mc_check(mc_alloc_size(s) != (size_t)-1, "the statistics are not an allocated object"); r = (st_t){ s->size, s->resizings, s->entries, s->buckets_used, s->singletons, s->maximum_length, s->retrievals, s->hits, s->misses }; xfree(s); } else { hsh_Stats s = hsh_get_stats(T); mc_check(mc_alloc_size(s) != (size_t)-1, "the statistics are not an allocated object"); r = (st_t){ s->size, s->resizings, s->entries, s->buckets_used, s->singletons, s->maximum_length, s->retrievals, s->hits, s->misses }; xfree(s); } return r; }
static void tstats(unsigned long n, const void *const *keys, int print, int every)
{
	static unsigned short cnt[400000]; st_t s; unsigned long i, used = 0, single = 0, mx = 0, b; const char *w = kind ? "set" : "hash table"; long lc;
	quiet0(); lc = mc_live_count(); s = raw(); mc_check(mc_live_count() == lc, "obtaining the statistics of a %s leaves memory behind", w); quiet1("obtaining the statistics");
	mc_check(s.entries == n, "statistics of a %s report %lu entries instead of %lu", w, s.entries, n);
	mc_check(s.retrievals == retr, "statistics of a %s report %lu retrievals instead of %lu", w, s.retrievals, retr);
	mc_check(s.misses == miss, "statistics of a %s report %lu failed retrievals instead of %lu", w, s.misses, miss);
	mc_check(s.hits >= hits_lo && s.hits <= hits_hi, "statistics of a %s report %lu retrievals from the top (%lu to %lu are possible)", w, s.hits, hits_lo, hits_hi);
	mc_check(s.size > 0 && s.size < 400000, "size %lu", s.size);
	for (i = 0; i < n; i++) { b = hashv(keys[i]) % s.size; if (++cnt[b] == 1) { used++; single++; } else if (cnt[b] == 2) single--; if (cnt[b] > mx) mx = cnt[b]; }
	for (i = 0; i < n; i++) cnt[hashv(keys[i]) % s.size] = 0;
	mc_check(s.buckets_used == used && s.singletons == single && s.maximum_length == mx, "statistics of a %s report %lu buckets in use, %lu of them single, longest %lu; instead of %lu, %lu, %lu", w, s.buckets_used, s.singletons, s.maximum_length, used, single, mx);
	if (every) { if (last_size && s.size != last_size) { resz++; mc_check(s.size > last_size, "the table shrank"); } last_size = s.size; mc_check(s.resizings == resz, "statistics of a %s report %lu resizings instead of %lu", w, s.resizings, resz); }
	if (print) { double v[] = { s.resizings, s.size, n, used, single, mx, retr, s.hits, miss }; quiet0(); if (kind) set_print_stats(T, pstream()); else hsh_print_stats(T, pstream()); same("statistics", ptext(), v, 9); quiet1("printing the statistics"); s = raw(); mc_check(s.retrievals == retr && s.entries == n, "printing changes the statistics"); }
}
static void look(const void *k, int found, int alone)
{
	const void *r; unsigned long hb = raw().hits, ha; if (kind) mc_check(set_member(T, k) == found, "member"); else { r = hsh_retrieve(T, k); mc_check(!!r == found, "retrieve"); }
	retr++; if (!found) miss++; ha = raw().hits;
	mc_check(ha == hb || (found && ha == hb + 1), "a %s retrieval adds %ld retrievals from the top", found ? "successful" : "failed", (long)(ha - hb));
	if (found && (alone || k == lastkey)) mc_check(ha == hb + 1, "the retrieval of an entry that %s does not count as one from the top", alone ? "is alone in its bucket" : "was just retrieved");
	hits_lo = hits_hi = ha; lastkey = found ? k : lastkey;
}
/* nothing is reordered while the table is readonly: exactly one entry of every bucket in use counts as its top, every time */
static void frozen(int how)
{
	unsigned long sz = raw().size, hb; int i, j, k, r, hit[8], ftop; void *pos = NULL; st_t x;
	if (how) { if (kind) { pos = set_init_position(T); } else pos = hsh_init_position(T); if (!pos) return; } else if (kind) set_readonly(T, 1); else hsh_readonly(T, 1);
	for (r = 0; r < 2; r++) for (i = r ? nk - 1 : 0; r ? i >= 0 : i < nk; i += r ? -1 : 1) {
		x = raw(); hb = x.hits; if (kind) mc_check(set_member(T, A->key[live[i]]), "member"); else mc_check(!!hsh_retrieve(T, A->key[live[i]]), "retrieve"); retr++;
		k = raw().hits - hb; mc_check(k == 0 || k == 1, "a successful retrieval adds %d retrievals from the top", k);
		if (r) mc_check(hit[i] == k, "the order of the entries of a readonly table changes"); hit[i] = k;
		hits_lo = hits_hi = hb + k;
		hb += k; k = 4; if (!present(k)) { if (kind) mc_check(!set_member(T, A->key[k]), "member"); else mc_check(!hsh_retrieve(T, A->key[k]), "retrieve"); retr++; miss++; mc_check(raw().hits == hb && raw().misses == miss, "a failed retrieval from a readonly table is not counted as one"); }
	}
	for (i = 0; i < nk; i++) { for (j = ftop = 0; j < nk; j++) if (hashv(A->key[live[i]]) % sz == hashv(A->key[live[j]]) % sz) ftop += hit[j]; mc_check(ftop == 1, "%d entries of a bucket are its top", ftop); }
	if (how) { while (pos) pos = kind ? set_next_position(T, pos) : hsh_next_position(T, pos); } else if (kind) set_readonly(T, 0); else hsh_readonly(T, 0);
	lastkey = &lastkey; for (i = 0; i < nk; i++) if (hit[i]) { hits_lo = hits_hi = raw().hits; break; }
}
static int alone_in(int i0) { unsigned long sz = raw().size, b = hashv(A->key[live[i0]]) % sz; int i; for (i = 0; i < nk; i++) if (i != i0 && live[i] >= 0 && hashv(A->key[live[i]]) % sz == b) return 0; return 1; }
static int ih(const void *k, const void *d) { return 0; } static int is_(const void *k) { return 0; }
static void tnew(void) { T = kind ? (void *)set_create(A ? A->hash : NULL, A ? A->cmp : NULL) : (void *)hsh_create(A->hash, A->cmp); nk = 0; retr = miss = hits_lo = hits_hi = last_size = resz = 0; lastkey = &lastkey; alt = 0; }
static void tcheck(int every) { const void *ks[8]; int i, n = 0; for (i = 0; i < nk; i++) if (live[i] >= 0) ks[n++] = A->key[live[i]]; tstats(n, ks, 1, every); mc_state(mc_mix(mc_mix((uint64_t)A, kind), mc_mix(n, mc_mix(retr, miss)))); }
static void b_tables(void)
{
	int i, L, op, k, p, mode; kind = mc_choose(2); A = &alphas[mc_choose(NALPHA)]; mode = mc_choose(2); L = mode ? QT(5, 6) : QT(4, 6); tnew(); if (mode) tcheck(1);
	for (i = 0; i < L; i++) {
		op = mc_choose(13); k = op % 4; if (op == 12) op = 14; else if (op == 7) op = 12; else if (op == 6) { op = 13; }
		if (op < 4) { p = present(k); mc_op("insert %d", k); mc_check((kind ? set_insert(T, A->key[k]) : hsh_insert(T, A->key[k], "datum")) == !!p, "insert"); if (!p) live[nk++] = k; lastkey = &lastkey; }
		else if (op < 8) { p = present(k); mc_op("delete %d", k); mc_check((kind ? set_delete(T, A->key[k]) : hsh_delete(T, A->key[k])) == !p, "delete"); if (p) { live[p - 1] = live[--nk]; lastkey = &lastkey; } }
		else if (op < 12) { p = present(k); mc_op("look up %d", k); look(A->key[k], !!p, p && alone_in(p - 1)); }
		else if (op == 14) { mc_op("lookups of everything while readonly"); frozen(i & 1); }
		else if (op == 12) { mc_op("iterate"); if (kind) set_iterate(T, is_); else hsh_iterate(T, ih); }
		else { mc_op("statistics twice"); tcheck(0); tcheck(0); }
		if (mode) tcheck(1);
	}
	tcheck(mode);
}
/* growth */
static ikey gk[4800]; static const void *gp[4800];
static unsigned long h_eight(const void *k) { return ((const ikey *)k)->v / 8; } static unsigned long h_big(const void *k) { return ((const ikey *)k)->v * 0x9e3779b97f4a7c15UL; }
static const alpha_t galpha[] = { { "identity", h_ident, c_ikey }, { "groups of eight", h_eight, c_ikey }, { "spread", h_big, c_ikey } };
static void b_growth(void)
{
	int n = QT(1700, 4720), i; kind = mc_choose(2); A = &galpha[mc_choose(3)]; tnew(); tstats(0, gp, 1, 1);
	for (i = 0; i < n; i++) {
		gk[i].v = i; gp[i] = &gk[i]; if (kind) set_insert(T, gp[i]); else hsh_insert(T, gp[i], "d");
		if (i % 7 == 0) { ikey q = { i / 2, 0 }, no = { -1 - i, 0 }; retr += 2; miss++; if (kind) mc_check(set_member(T, &q) && !set_member(T, &no), "member"); else mc_check(hsh_retrieve(T, &q) && !hsh_retrieve(T, &no), "retrieve"); hits_hi++; }
		mc_step(1); if (i < 1000 || i % 50 == 0) { tstats(i + 1, gp, i % 100 == 0, i < 1000); if (i >= 1000) last_size = 0; } if (i % 256 == 0) mc_tick();
	}
	while (n > 0) { n--; if (kind) set_delete(T, gp[n]); else hsh_delete(T, gp[n]); if (n < 300 || n % 64 == 0) tstats(n, gp, n % 100 == 0, 0); }
	mc_op("%s grown and emptied, %s", kind ? "set" : "hash table", A->name); mc_state(mc_mix(kind, (uint64_t)A));
}
/* results of set algebra have their own statistics */
static void b_algebra(void)
{
	int a = mc_choose(16), b = mc_choose(16), what = mc_choose(5), i, n = 0; set_Set s, t, r; const void *ks[8]; static const int use[] = { 0, 1, 2, 5 }; kind = 1; A = &alphas[mc_choose(NALPHA)]; if (A->cls[2] == A->cls[0]) mc_stop();
	s = set_create(A->hash, A->cmp); t = set_create(A->hash, A->cmp);
	for (i = 0; i < 4; i++) { if (a >> i & 1) set_insert(s, A->key[use[i]]); if (b >> i & 1) set_insert(t, A->key[use[i]]); }
	mc_op("algebra %d of %x and %x", what, a, b);
	switch (what) { case 0: r = set_union(s, t); a |= b; break; case 1: r = set_inter(s, t); a &= b; break; case 2: r = set_diff(s, t); a &= ~b; break; case 3: r = set_add(s, t); a |= b; break; default: r = set_del(s, t); a &= ~b; break; }
	for (i = 0; i < 4; i++) if (a >> i & 1) ks[n++] = A->key[use[i]];
	T = r; alt = 0; { st_t x = raw(); retr = x.retrievals; miss = x.misses; hits_lo = hits_hi = x.hits; mc_check(x.hits + x.misses <= x.retrievals, "inconsistent retrievals"); if (what < 3 && what != 1 && 0) mc_check(!x.retrievals, "new set"); }
	tstats(n, ks, 1, 0); mc_check(set_count(r) == n, "count"); T = t; { st_t x = raw(); retr = x.retrievals; miss = x.misses; hits_lo = hits_hi = x.hits; mc_check(x.hits + x.misses <= x.retrievals, "inconsistent retrievals"); }
	for (i = n = 0; i < 4; i++) if (b >> i & 1) ks[n++] = A->key[use[i]]; tstats(n, ks, 1, 0); mc_state(mc_mix(a * 16 + b, what));
}
/* ------------------------------------------------------- string pools */
static const char *const W[] = { "one", "", "three words here", "two" };
static int in_[8], cnt_, blo, bhi, ret_, mis_, grown;
static void pstats(str_Pool p, int glob)
{
	str_Stats s; long lc; quiet0(); lc = mc_live_count(); s = glob ? str_get_stats() : str_pool_get_stats(p);
	mc_check(s->count == cnt_, "a string pool reports %d strings instead of %d", s->count, cnt_);
	mc_check(s->bytes >= blo && s->bytes <= bhi, "a string pool reports %d bytes instead of %d", s->bytes, blo);
	mc_check(s->retrievals == ret_, "a string pool reports %d retrievals instead of %d", s->retrievals, ret_);
	mc_check(s->misses == mis_, "a string pool reports %d failed retrievals instead of %d", s->misses, mis_);
	mc_check(s->hits >= 0 && s->hits <= ret_ - mis_, "a string pool reports %d retrievals from the top of %d successful ones", s->hits, ret_ - mis_);
	{ double v[] = { s->count, s->bytes, s->retrievals, s->hits, s->misses }; if (glob) str_print_stats(pstream()); else str_pool_print_stats(p, pstream()); same("pool statistics", ptext(), v, 5); }
	xfree(s); mc_check(mc_live_count() == lc, "obtaining or printing the statistics leaves memory behind"); quiet1("obtaining or printing the statistics");
	mc_state(mc_mix(cnt_ * 1000 + blo, ret_ * 100 + mis_));
}
static int isx(const char *s) { return 0; }
static void b_pools(void)
{
	int glob = mc_choose(2), mode = mc_choose(2), L = QT(5, 6), i, op, w; str_Pool p = NULL; int started = !glob; static char part[40];
	memset(in_, 0, sizeof in_); cnt_ = blo = bhi = ret_ = mis_ = grown = 0; alt = 0; if (!glob) p = str_pool_create(); if (mode && !(glob && !started)) pstats(p, 0); if (glob && mode) { str_Stats s = str_get_stats(); mc_check(!s->count && !s->bytes && !s->retrievals && !s->hits && !s->misses, "statistics before the first use"); xfree(s); }
	for (i = 0; i < L; i++) {
		op = mc_choose(15); w = op % 4;
		if (grown && op < 12 && op != 11) mc_stop();
		started = 1;
		if (op < 4) { mc_op("find '%s'", W[w]); if (glob) str_find(W[w]); else str_pool_find(p, W[w]); ret_++; if (!in_[w]) { mis_++; in_[w] = 1; cnt_++; blo += strlen(W[w]) + 1; bhi += strlen(W[w]) + 1; } }
		else if (op < 7) { mc_op("exists '%s'", W[w]); mc_check((glob ? str_exists(W[w]) : str_pool_exists(p, W[w])) == in_[w], "exists"); ret_++; if (!in_[w]) mis_++; }
		else if (op < 9) { mc_op("copy '%s'", W[w]); if (glob) str_copy(W[w]); else str_pool_copy(p, W[w]); cnt_++; blo += strlen(W[w]) + 1; bhi += strlen(W[w]) + 1; }
		else if (op == 9) { mc_op("copyn"); if (glob) str_copyn(W[2], 5); else str_pool_copyn(p, W[2], 5); cnt_++; blo += 6; bhi += 6; }
		else if (op == 10) { mc_op("iterate"); if (glob) { str_exists(W[0]); ret_++; mis_ += !in_[0]; } else str_pool_iterate(p, isx); }
		else if (op == 11) { if (grown) { mc_op("finish"); part[grown] = 0; for (w = 0; w < 4; w++) if (!strcmp(W[w], part)) break; if (w == 4) w = !strcmp(part, "twoone") ? 4 : !strcmp(part, "onetwo") ? 5 : !strcmp(part, "oneone") ? 6 : !strcmp(part, "twotwo") ? 7 : 99; if (w > 7) mc_stop(); if (glob) str_finish(); else str_pool_finish(p); grown = 0; cnt_++; blo++; bhi += 2; ret_++; if (!in_[w]) { mis_++; in_[w] = 1; } } else { mc_op("empty finish"); if (glob) { str_grow("", 0); str_finish(); } else { str_pool_grow(p, "", 0); str_pool_finish(p); } cnt_++; blo++; bhi += 2; ret_++; if (!in_[1]) { mis_++; in_[1] = 1; } } }
		else if (op == 14 && !glob) mc_stop(); else if (op == 14) { mc_op("str_destroy"); if (grown) mc_stop(); str_destroy(); memset(in_, 0, sizeof in_); cnt_ = blo = bhi = ret_ = mis_ = 0; if (mode) { str_Stats s = str_get_stats(); mc_check(!s->count && !s->bytes && !s->retrievals && !s->hits && !s->misses, "statistics after destruction"); xfree(s); str_exists(W[0]); ret_++; mis_++; } }
		else { const char *g = op == 12 ? "one" : "two"; mc_op("grow '%s'", g); if (grown > 5) mc_stop(); if (glob) str_grow(g, 3); else str_pool_grow(p, g, 3); memcpy(part + grown, g, 3); grown += 3; blo += 3; bhi += 3; }
		if (mode && op != 14) pstats(p, glob);
	}
	if (!glob) pstats(p, 0); else { str_exists("no such string"); ret_++; mis_++; { str_Stats s = str_get_stats(); mc_check(s->count == cnt_ && s->bytes >= blo && s->bytes <= bhi && s->retrievals == ret_ && s->misses == mis_, "the global pool reports %d strings, %d bytes, %d retrievals, %d failed instead of %d, %d, %d, %d", s->count, s->bytes, s->retrievals, s->misses, cnt_, blo, ret_, mis_); xfree(s); } }
}
/* ---------------------------------------------------- memory managers */
static char huge[66001];
static void mem(int big)
{
	int which = big ? 0 : mc_choose(2), mode = mc_choose(2), L = big ? QT(4, 5) : QT(7, 8), i, op, cnt = 0, bytes = 0, total = 0, used = 0, reused = 0, freed = 0, g = 0, size = 0; mem_String ms = NULL; mem_Object mo = NULL; void *ob[10]; alt = 0;
	if (which) { size = (int[]){ 8, 24, 4096 }[mc_choose(3)]; mo = mem_create_objects(size); } else ms = mem_create_strings();
	for (i = 0; i <= L; i++) {
		if (mode || i == L) {
			long lc; quiet0(); lc = mc_live_count();
			if (which) { mem_ObjectStats s = mem_get_object_stats(mo); mc_check(s->total == total && s->used == used && s->reused == reused && s->size == size, "an object manager reports %d objects, %d used, %d reused, size %d instead of %d, %d, %d, %d", s->total, s->used, s->reused, s->size, total, used, reused, size); { double v[] = { total, used, reused }; mem_print_object_stats(mo, pstream()); same("object statistics", ptext(), v, 3); } xfree(s); mc_state(mc_mix(total * 10 + used, reused)); }
			else { mem_StringStats s = mem_get_string_stats(ms); mc_check(s->count == cnt && s->bytes == bytes, "a string manager reports %d strings, %d bytes instead of %d, %d", s->count, s->bytes, cnt, bytes); { double v[] = { cnt, bytes }; mem_print_string_stats(ms, pstream()); same("string statistics", ptext(), v, 2); } xfree(s); mc_state(mc_mix(cnt, bytes)); }
			mc_check(mc_live_count() == lc, "statistics leave memory behind"); quiet1("obtaining or printing the statistics");
		}
		if (i == L) break;
		if (which) { op = mc_choose(4); if (op == 3 || op == 2) { int j = op == 2 ? used - 1 : 0; if (!used || (op == 3 && used < 2)) mc_stop(); mc_op("free object %d", j); mem_free_object(mo, ob[j]); for (used--; j < used; j++) ob[j] = ob[j + 1]; freed++; } else { mc_op("get object"); ob[used++] = op ? mem_get_empty_object(mo) : mem_get_object(mo); if (freed) { freed--; reused++; } else total++; } }
		else { op = mc_choose(7); if (g && op < 5) mc_stop(); switch (op) { case 0: mc_op("strcpy"); mem_strcpy(ms, "hello"); cnt++; bytes += 6; break; case 1: mc_op("empty strcpy"); mem_strcpy(ms, ""); cnt++; bytes++; break; case 2: mc_op("strncpy 3"); mem_strncpy(ms, "hello", 3); cnt++; bytes += 4; break; case 3: mc_op("strncpy 0"); mem_strncpy(ms, "hello", 0); cnt++; bytes++; break; case 4: mc_op("strcpy"); if (big) { mem_strcpy(ms, huge); cnt++; bytes += 66001; break; } mem_strcpy(ms, "a longer string of some more bytes"); cnt++; bytes += 35; break; case 5: mc_op("grow 3"); mem_grow(ms, "abc", 3); bytes += 3; g = 1; break; case 6: mc_op("finish"); mem_finish(ms); cnt++; bytes++; g = 0; break; } }
	}
}
/* numbers that take more than 16 bits */
static void b_many(void)
{
	static ikey *k; static const void **kp; int n = 70000, which = mc_choose(7), i; char b[30]; long t0; alt = 0;
	if (!k) { k = mc_real_malloc(70100 * sizeof *k); kp = mc_real_malloc(70100 * sizeof *kp); for (i = 0; i < 70100; i++) { k[i].v = i; k[i].tag = 0; kp[i] = &k[i]; } }
	mc_op("%d of %s", n, ((const char *[]){ "hash table", "set", "string pool", "string manager", "object manager", "source lines", "list" })[which]);
	switch (which) {
	case 0: case 1: kind = which; A = &galpha[0]; tnew();
		for (i = 0; i < n; i++) { if (kind) set_insert(T, kp[i]); else hsh_insert(T, kp[i], "d"); if (i == 255 || i == 256 || i == 32767 || i == 32768 || i == 65534 || i == 65535 || i == 65536) { tstats(i + 1, kp, 1, 0); mc_tick(); } }
		tstats(n, kp, 1, 0);
		for (i = 0; i < n; i++) { if (kind) mc_check(set_member(T, kp[i]), "member"); else mc_check(!!hsh_retrieve(T, kp[i]), "retrieve"); retr++; hits_lo++; hits_hi++; } tstats(n, kp, 1, 0); mc_tick();
		for (i = 0; i < n; i++) { ikey no = { -1 - i, 0 }; if (kind) mc_check(!set_member(T, &no), "member"); else mc_check(!hsh_retrieve(T, &no), "retrieve"); retr++; miss++; } tstats(n, kp, 1, 0); mc_tick();
		if (kind) { set_Set c = set_create(h_ident, c_ikey), r = set_union(T, c); mc_check(set_count(r) == n, "count %d of a copied set", set_count(r)); set_destroy(r); set_destroy(c); mc_check(set_count(T) == n, "count %d", set_count(T)); }
		A = &galpha[1]; tnew(); for (i = 0; i < n; i++) { if (kind) set_insert(T, kp[i]); else hsh_insert(T, kp[i], "d"); } tstats(n, kp, 1, 0); break;
	case 2: { str_Pool p = str_pool_create(); cnt_ = blo = bhi = ret_ = mis_ = 0;
		for (i = 0; i < n; i++) { blo += sprintf(b, "s%d", i) + 1; str_pool_find(p, b); cnt_++; ret_++; mis_++; } bhi = blo; pstats(p, 0); mc_tick();
		for (i = 0; i < n; i++) { sprintf(b, "s%d", i); str_pool_find(p, b); ret_++; } pstats(p, 0); mc_tick();
		for (i = 0; i < n; i++) { sprintf(b, "t%d", i); str_pool_exists(p, b); ret_++; mis_++; } pstats(p, 0);
		for (i = 0; i < n; i++) { blo += sprintf(b, "s%d", i) + 1; str_pool_copy(p, b); cnt_++; } bhi = blo; pstats(p, 0); break; }
	case 3: { mem_String m = mem_create_strings(); mem_StringStats s; int bytes = 0; for (i = 0; i < n; i++) { bytes += sprintf(b, "s%d", i) + 1; mem_strcpy(m, b); } s = mem_get_string_stats(m); mc_check(s->count == n && s->bytes == bytes, "a string manager reports %d strings, %d bytes instead of %d, %d", s->count, s->bytes, n, bytes); { double v[] = { n, bytes }; mem_print_string_stats(m, pstream()); same("string statistics", ptext(), v, 2); } break; }
	case 4: { mem_Object m = mem_create_objects(8); void **o = mc_real_malloc(n * sizeof *o); mem_ObjectStats s; int r; for (i = 0; i < n; i++) o[i] = mem_get_object(m);
		for (r = 0; r < 2; r++) { s = mem_get_object_stats(m); mc_check(s->total == n && s->used == n && s->reused == r * n, "an object manager reports %d objects, %d used, %d reused instead of %d, %d, %d", s->total, s->used, s->reused, n, n, r * n); { double v[] = { n, n, r * n }; mem_print_object_stats(m, pstream()); same("object statistics", ptext(), v, 3); } if (r) break;
			for (i = 0; i < n; i++) mem_free_object(m, o[i]); s = mem_get_object_stats(m); mc_check(s->used == 0 && s->total == n, "an object manager reports %d objects, %d used instead of %d, 0", s->total, s->used, n); for (i = 0; i < n; i++) o[i] = mem_get_object(m); mc_tick(); }
		__real_free(o); break; }
	case 5: { src_Stats s; for (i = 0; i < n; i++) { src_line("abc", 3); src_get(1); } s = src_get_stats(); mc_check(s->lines_used == n && s->lines_bytes == 4 * n && s->tokens_total == n && s->lines_allocated >= n, "the source manager reports %d lines, %d bytes, %d tokens instead of %d, %d, %d", s->lines_used, s->lines_bytes, s->tokens_total, n, 4 * n, n); { double v[] = { n, 4 * n, s->lines_allocated, n, (double)n * s->tokens_size, 0 }; src_print_stats(pstream()); same("source statistics", ptext(), v, 6); } break; }
	default: { lst_List l = lst_create(); long u; t0 = lst_total_allocated(); lst_append(l, b); u = lst_total_allocated() - t0; for (i = 1; i < n; i++) lst_append(l, b); mc_check(lst_total_allocated() - t0 == n * u, "the total allocated for lists grows by %ld for %d elements, by %ld for one", (long)lst_total_allocated() - t0, n, u); mc_check((int)lst_length(l) == n, "length"); break; }
	}
	mc_step(n); mc_state(which);
}
static void b_mem(void) { mem(0); }
static void b_bigmem(void) { memset(huge, 103, 66000); mem(1); }
/* ------------------------------------------------------ source manager */
static void b_source(void)
{
	int mode = mc_choose(2), L = QT(6, 7), i, op, lines = 0, bytes = 0, tokens = 0, tsize = 0; alt = 0;
	for (i = 0; i <= L; i++) {
		if (mode || i == L) {
			src_Stats s; long lc; quiet0(); lc = mc_live_count(); s = src_get_stats();
			mc_check(s->lines_used == lines && s->lines_bytes == bytes && s->tokens_total == tokens && s->tokens_reused == 0, "the source manager reports %d lines, %d bytes, %d tokens, %d reused instead of %d, %d, %d, 0", s->lines_used, s->lines_bytes, s->tokens_total, s->tokens_reused, lines, bytes, tokens);
			mc_check(s->lines_allocated >= s->lines_used && s->lines_allocated >= 0, "%d lines allocated for %d", s->lines_allocated, s->lines_used); if (tsize && lines) mc_check(s->tokens_size == tsize, "token size changes"); if (lines) { tsize = s->tokens_size; mc_check(tsize > 0, "token size"); }
			{ double v[] = { lines, bytes, s->lines_allocated, tokens, tokens * s->tokens_size, 0 }; src_print_stats(pstream()); same("source statistics", ptext(), v, 6); }
			xfree(s); mc_check(mc_live_count() == lc, "statistics leave memory behind"); quiet1("obtaining or printing the statistics"); mc_state(mc_mix(lines * 100 + bytes, tokens));
		}
		if (i == L) break;
		op = mc_choose(6); switch (op) { case 0: mc_op("line"); src_line("one line\n", 9); lines++; bytes += 10; break; case 1: mc_op("empty line"); src_line("x", 0); lines++; bytes++; break; case 2: if (!lines) mc_stop(); mc_op("token"); src_get(2); tokens++; break; case 3: mc_op("file, line"); src_new_file("f.c"); src_new_line(10); src_advance(2); break; case 4: if (lines > 1000) mc_stop(); mc_op("1001 lines"); { int j; for (j = 0; j < 1001; j++) src_line("ab", 2); } lines += 1001; bytes += 3003; break; case 5: mc_op("destroy"); src_destroy(); lines = bytes = tokens = 0; break; }
	}
}
/* ------------------------------------------------- dumps and the report at the end */
static const void *kid(const void *d) { return d; } static int kcmp(const void *a, const void *b) { return (unsigned long)a < (unsigned long)b ? -1 : a > b; }
static char *tok_(char *p, char **e) { p += strspn(p, " \n"); *e = p + strcspn(p, " \n"); return p; }
static void b_dumps(void)
{
	static char nm[40][64]; int which = mc_choose(3), L, i, j, n = 0, op, k; const void *el[16]; int in[40] = { 0 }; char *t, *e, pat[64]; size_t len;
	if (!nm[0][0]) for (i = 0; i < 40; i++) { snprintf(nm[i], 64, "%.*s%d", i * 3 % 50, "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", i); }
	if (which == 0) {	/* lists: elements in order */
		long before = lst_total_allocated(); lst_List l = lst_create(); long t0, unit = 0; t0 = lst_total_allocated(); mc_check(t0 > before, "creating a list does not change the total allocated for lists"); L = QT(6, 7);
		for (i = 0; i < L; i++) { op = mc_choose(5); if (op == 4) break; if (op < 2) { const void *d = op ? nm[i] : NULL; mc_op("append"); lst_append(l, d); el[n++] = d; } else if (op == 2) { mc_op("push"); lst_push(l, nm[i]); memmove(el + 1, el, n * sizeof *el); el[0] = nm[i]; n++; } else { mc_op("pop"); lst_pop(l); if (n) { n--; memmove(el, el + 1, n * sizeof *el); } }
			if (op < 3) { long d = lst_total_allocated() - t0; mc_check(d > 0 && (!unit || d == unit), "the total allocated for lists grows by %ld for one element, by %ld for another", d, unit); unit = d; } else mc_check(lst_total_allocated() == t0, "removing an element changes the total allocated for lists"); t0 = lst_total_allocated(); }
		quiet0(); lst_dump(l); quiet1("dumping a list"); t = (char *)mc_stdout_text(&len);
		for (i = 0; i < n; i++) { unsigned long v; t = tok_(t, &e); mc_check(e > t, "the dump of a list of %d shows %d", n, i); v = strchr(t, '(') && strchr(t, '(') < e ? 0 : strtoul(t + (t[2] == '0' && t[3] == 'x' ? 2 : 0), NULL, 16); mc_check(v == (unsigned long)el[i], "the dump of a list shows %lx as element %d instead of %p", v, i, el[i]); t = e; }
		t = tok_(t, &e); mc_check(!*t, "the dump of a list shows more: %s", t); lst_destroy(l); mc_check(lst_total_allocated() == t0, "destroying a list changes the total allocated");
	} else if (which == 1) {	/* hash tables: all keys */
		hsh_HashTable h = hsh_create(NULL, NULL); L = QT(3, 4); for (i = 0; i < L; i++) { op = mc_choose(12); if (op == 11) break; if (op == 10) { mc_op("30 keys"); for (k = 10; k < 40; k++) if (!hsh_insert(h, nm[k], NULL)) { in[k] = 1; n++; } } else { mc_op("%s %d", op < 6 ? "insert" : "delete", op % 6); k = op % 6; if (op < 6) { if (!hsh_insert(h, nm[k], h)) { n += !in[k]; in[k] = 1; } } else { hsh_delete(h, nm[k]); n -= in[k]; in[k] = 0; } } }
		for (j = 0; j < 2; j++) { int seen[40] = { 0 }, m = 0; quiet0(); hsh_key_strings(h); quiet1("printing the keys"); t = (char *)mc_stdout_text(&len); mc_check(len && t[len - 1] == '\n', "the keys do not end with a new line"); for (t = tok_(t, &e); e > t; t = tok_(e, &e), m++) { snprintf(pat, 64, "%.*s", (int)(e - t), t); for (k = 0; k < 40; k++) if (!strcmp(pat, nm[k])) break; mc_check(k < 40 && in[k] && !seen[k], "printed key <%s>", pat); seen[k] = 1; } mc_check(m == n, "%d keys printed instead of %d", m, n); }
		hsh_destroy(h);
	} else {		/* skip lists */
		sl_List l = sl_create(kcmp, kid, NULL); L = QT(5, 6); for (i = 0; i < L; i++) { op = mc_choose(7); if (op == 6) break; k = op % 6; mc_op("%s %d", in[k] ? "delete" : "insert", k); if (in[k]) sl_delete(l, nm[k]); else sl_insert(l, nm[k]); in[k] = !in[k]; n += in[k] ? 1 : -1; }
		quiet0(); _sl_dump(l); quiet1("dumping a skip list"); t = (char *)mc_stdout_text(&len); snprintf(pat, 64, "count = %d\n", n); mc_check(strstr(t, pat), "the dump of a skip list of %d: %s", n, t);
		for (k = 0; k < 6; k++) { int c = 0; char *q, *last = t; snprintf(pat, 64, "/%p/", (void *)nm[k]); for (q = t; (q = strstr(q, pat)); q++) { c++; last = q; } mc_check(c == in[k], "datum %d appears %d times in the dump of a skip list", k, c); if (c) { mc_check(last > t, "the dump of a skip list is out of order"); t = last; } }
		sl_destroy(l);
	}
	mc_state(mc_mix(which, n));
}
static void b_report(void)	/* maa_shutdown prints what .memory and .time ask for */
{
	int fl = mc_choose(4), hist = mc_choose(4), cyc, j; char want[200]; const char *t; size_t len; str_Stats s; double v[5];
	for (cyc = 0; cyc < 2; cyc++) {
		maa_init("prog"); mc_streams_reset(); snprintf(want, 200, "Libmaa %d.%d.%d", maa_version_major(), maa_version_minor(), maa_version_teeny()); mc_check(!strcmp(maa_version(), want) && maa_version_major() > 0 && maa_version_minor() >= 0 && maa_version_teeny() >= 0, "version <%s> with numbers %d, %d, %d", maa_version(), maa_version_major(), maa_version_minor(), maa_version_teeny());
		mc_op("flags %d, history %d", fl, hist);
		if (fl & 1) dbg_set(".memory"); if (fl & 2) dbg_set(".time"); if (hist & 1) { str_find("one"); str_find("two"); str_find("one"); } if (hist & 2) { tim_start("other"); tim_stop("other"); }
		s = str_get_stats(); v[0] = s->count; v[1] = s->bytes; v[2] = s->retrievals; v[3] = s->hits; v[4] = s->misses; xfree(s);
		maa_shutdown(); mc_stdout_text(&len); mc_check(!len, "shutdown prints on the standard output"); t = mc_stderr_text(&len);
		if (!fl) { mc_check(!len, "shutdown prints <%s>", t); continue; }
		mc_check(!strncmp(t, want, strlen(want)) && t[strlen(want)] == '\n', "shutdown prints <%s>", t); t += strlen(want) + 1;
		if (fl & 1) { double o[64]; int m = numbers(t, o, 64), i = 0; for (j = 0; j < 5; j++) { while (i < m && o[i] != v[j]) i++; mc_check(i < m, "the report of the pool does not show %g: %s", v[j], t); i++; } }
		if (!(fl & 1)) { const char *h; char first[30]; str_print_stats(pstream()); h = ptext(); snprintf(first, 30, "%.*s", (int)strcspn(h, "0123456789"), h); str_destroy(); mc_check(!strstr(t, first), "the report about timers shows the pool: <%s>", t); }
		mc_check(!!strstr(t, "total") == !!(fl & 2) && !!strstr(t, "other") == !!(fl & 2 && hist & 2), "the timers at the end: <%s>", t);
	}
	mc_outcome(fl * 4 + hist);
}
mc_scenario mc_scenarios[] = { { "memory managers", b_mem, .recycle = 1 }, { "large strings", b_bigmem }, { "many", b_many }, { "dumps", b_dumps, .recycle = 1 }, { "report", b_report }, { "source", b_source }, { "pools", b_pools }, { "algebra", b_algebra }, { "growth", b_growth }, { "tables", b_tables }, { NULL } };

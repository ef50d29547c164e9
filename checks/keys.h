/* keys.h -- key alphabets with their hash and comparison functions */
#ifndef KEYS_H
#define KEYS_H
/* ------------------------------------------------------------- key kinds */
/* A key alphabet: keys[i]; keys with equal cls[] compare equal. */
#define MAXK 8
typedef struct {
	const char *name;
	unsigned long (*hash)(const void *);
	int (*cmp)(const void *, const void *);
	int n;
	const void *key[MAXK];
	int cls[MAXK];
} alpha_t;

typedef struct { int v; int tag; } ikey;
static unsigned long h_ident(const void *k) { return ((const ikey *)k)->v; }
static unsigned long h_const(const void *k) { (void)k; return 7; }
static unsigned long h_high(const void *k) { return 0xffffffffffffff00UL + ((const ikey *)k)->v * 0x100000001UL; }
static unsigned long h_mod2(const void *k) { return ((const ikey *)k)->v & 1 ? 0x8000000000000003UL : 11; }
static int c_ikey(const void *a, const void *b) { return ((const ikey *)a)->v != ((const ikey *)b)->v; }
static int c_ikeyneg(const void *a, const void *b) { int x = ((const ikey *)a)->v, y = ((const ikey *)b)->v; return x < y ? -5 : x > y ? 1000000 : 0; }

static ikey ik[8] = { {0,0}, {1,0}, {2,0}, {3,0}, {33,0}, {11,0}, {1,1}, {0,1} };
static char s_a[] = "a", s_a2[] = "a", s_b[] = "b", s_e[] = "", s_ab[] = "ab", s_hi[] = "\xff\xfe", s_abc[] = "abcdefghijklmnopqrstuvwxyz", s_e2[] = "";

static alpha_t alphas[] = {
	{ "int identity",  h_ident, c_ikey,    6, { &ik[0], &ik[1], &ik[4], &ik[3], &ik[6], &ik[5] }, { 0, 1, 33, 3, 1, 11 } },
	{ "int constant",  h_const, c_ikeyneg, 6, { &ik[0], &ik[1], &ik[2], &ik[6], &ik[3], &ik[4] }, { 0, 1, 2, 1, 3, 33 } },
	{ "int high bits", h_high,  c_ikey,    6, { &ik[0], &ik[1], &ik[2], &ik[3], &ik[7], &ik[5] }, { 0, 1, 2, 3, 0, 11 } },
	{ "int two classes", h_mod2, c_ikeyneg, 6, { &ik[0], &ik[1], &ik[2], &ik[3], &ik[6], &ik[4] }, { 0, 1, 2, 3, 1, 33 } },
	{ "string (default)", NULL, NULL,      6, { s_a, s_b, s_e, s_a2, s_ab, s_hi }, { 'a', 'b', 0, 'a', 'c', 'd' } },
	{ "string (explicit)", hsh_string_hash, hsh_string_compare, 6, { s_a, s_abc, s_e, s_a2, s_e2, s_hi }, { 'a', 'b', 0, 'a', 0, 'd' } },
	{ "pointer",       hsh_pointer_hash, hsh_pointer_compare, 6, { &ik[0], &ik[1], (void *)0, &ik[6], (void *)0xdeadbeefcafe0000UL, (void *)-1L }, { 100, 101, 102, 103, 104, 105 } },
};
#define NALPHA ((int)(sizeof alphas / sizeof alphas[0]))
static const alpha_t *A;
#endif

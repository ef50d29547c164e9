#!/usr/bin/env python3
# fourth series of planted bugs (writes seeded/<id>/): things remembered for too long
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as seed0
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only: seed0(id, *a, **k)
I = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include "maa.h"\n'
F = 'maa/hash.c'
seed('c01-last-key', 'C01', [(F, 'static void _hsh_check(tableType t', 'static tableType lt; static bucketType lb; static const void *lk;\nstatic void _hsh_check(tableType t'),
 (F, '\th = t->hash(key) % t->prime;\n   \n\t++t->retrievals;', '\tif (lt == t && lk == key) { ++t->retrievals; return lb->datum; }\n\th = t->hash(key) % t->prime;\n   \n\t++t->retrievals;'),
 (F, '\t\t\t\treturn pt->datum;', '\t\t\t\tlt = t; lb = pt; lk = key;\n\t\t\t\treturn pt->datum;'), (F, '\t\t\t\t--t->entries;', '\t\t\t\tlt = NULL; --t->entries;'),
 (F, '\t\t_hsh_destroy_buckets(t);', '\t\tlt = NULL; _hsh_destroy_buckets(t);'), (F, '\t_hsh_destroy_buckets(table);', '\tlt = NULL; _hsh_destroy_buckets(table);')],
 'two lookups one after the other with different keys in the same buffer', 'the second returns the datum of the first key',
 I + 'int main(void) { char b[4]; hsh_HashTable t = hsh_create(NULL, NULL); hsh_insert(t, "a", "1"); hsh_insert(t, "b", "2"); strcpy(b, "a"); if (strcmp(hsh_retrieve(t, b), "1")) return 1; strcpy(b, "b"); return strcmp(hsh_retrieve(t, b), "2"); }\n')
seed('c09-arena', 'C09', [('maa/memory.c', '\tstr = xmalloc(len + 1);\n\tmemcpy', '\t{ static char *ar; static mem_String own; static int us; if (len < 64) { if (own != info || !ar || us + len > 256) { ar = xmalloc(256); stk_push(i->allocated, ar); own = info; us = 0; } str = ar + us; us += len + 1; memcpy(str, string, len); str[len] = 0; return str; } }\n\tstr = xmalloc(len + 1);\n\tmemcpy')],
 'short counted copies whose lengths add up to the size of the arena exactly', 'the terminating byte is written beyond the block',
 I + 'int main(void) { mem_String m = mem_create_strings(); int i; for (i = 0; i < 8; i++) mem_strncpy(m, "0123456789012345678901234567890", 31); mem_strncpy(m, "", 0); return 0; }\n', asan=True)
seed('c14-four-bases', 'C14', [('maa/prime.c', '\twhile (square < value && value % divisor) {\n\t\t++divisor;\n\t\tsquare += 4ULL * divisor;\n\t\t++divisor;\n\t}\n\n\treturn value % divisor != 0;', '\tstatic const unsigned bases[] = {2,3,5,7}; int k; unsigned d = value - 1, s = 0;\n\t(void)square; (void)divisor;\n\twhile (!(d & 1)) { d >>= 1; s++; }\n\tfor (k = 0; k < 4; k++) { unsigned long long a = bases[k] % value, x = 1, e = d, b = a; unsigned r; if (!a) continue;\n\t\twhile (e) { if (e & 1) x = x * b % value; b = b * b % value; e >>= 1; }\n\t\tif (x == 1 || x == value - 1) continue;\n\t\tfor (r = 1; r < s; r++) { x = x * x % value; if (x == value - 1) break; }\n\t\tif (r >= s) return 0; }\n\treturn 1;')],
 'the one composite number below 2^32, 3215031751, that passes the strong test to bases 2, 3, 5 and 7', 'it is called a prime', I + 'int main(void) { return prm_is_prime(3215031751u) != 0; }\n')
seed('c20-facility-once', 'C20', [('maa/log.c', '\t\topenlog(logSyslogIdent, LOG_PID|LOG_NOWAIT, logFacility);', '\t\t{ static int facility = -1; if (facility < 0) facility = logFacility; openlog(logSyslogIdent, LOG_PID|LOG_NOWAIT, facility); }')],
 'syslog opened, closed, and opened again under another facility', 'the second opening uses the first facility',
 I + '#include <syslog.h>\nstatic int got; void openlog(const char *i, int o, int f) { got = f; } void closelog(void) { }\nint main(void) { log_set_facility("mail"); log_syslog("a"); if (got != LOG_MAIL) return 1; log_syslog(NULL); log_set_facility("news"); log_syslog("b"); return got != LOG_NEWS; }\n')
seed('c16-last-name', 'C16', [('maa/debug.c', '\tif (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {', '\t{ static const char *ln; static dbg_Type lf; static void *lh; if (name == ln && lf && lh == hash) { setFlags[lf >> 30] |= lf; return; } ln = name; lh = hash; lf = (dbg_Type)hsh_retrieve(hash, name); }\n\tif (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {')],
 'two names set one after the other from the same buffer', 'the first flag is set again instead of the second',
 I + 'int main(void) { char b[4]; dbg_register(1, "a"); dbg_register(2, "b"); strcpy(b, "a"); dbg_set(b); strcpy(b, "b"); dbg_set(b); return !dbg_test(2); }\n')
seed('c04-short-entries', 'C04', [('maa/set.c', '\tunsigned long prime;\n\tunsigned long entries;\n\tbucketType    *buckets;', '\tunsigned long prime;\n\tunsigned short entries;\n\tbucketType    *buckets;')],
 'a set of more than 65535 elements', 'the number of elements wraps around', I + 'int main(void) { static char x[70000]; set_Set s = set_create(hsh_pointer_hash, hsh_pointer_compare), t = set_create(hsh_pointer_hash, hsh_pointer_compare); int i; for (i = 0; i < 35000; i++) { set_insert(s, x + i); set_insert(t, x + 35000 + i); } return set_count(set_union(s, t)) != 70000; }\n')
seed('c10-short-count', 'C10', [('maa/arg.c', '\tint        argc;\t\t/* Current count */', '\tunsigned short argc;\t\t/* Current count */')],
 'a string of more than 65535 words', 'the number of words wraps around', I + 'int main(void) { static char b[140001]; int i, c; char **v; arg_List a; for (i = 0; i < 140000; i++) b[i] = i % 2 ? \' \' : \'w\'; a = arg_argify(b, 0); arg_get_vector(a, &c, &v); return c != 70000; }\n')
seed('c18-short-pid', 'C18', [('maa/pr.c', 'typedef struct _pr_Obj {\n\tint pid;', 'typedef struct _pr_Obj {\n\tshort pid;')],
 'a process number above 32767', 'the child is not waited for when its descriptor is closed',
 I + '#include <sys/syscall.h>\n#include <sys/wait.h>\npid_t fork(void) { pid_t p = syscall(SYS_fork); return p > 0 ? p + 200000 : p; }\npid_t waitpid(pid_t p, int *s, int o) { int r = syscall(SYS_wait4, p > 200000 ? p - 200000 : p, s, o, NULL); return r > 0 ? r + 200000 : r; }\nint main(void) { int fd, st, p; char b[9]; p = pr_open("echo hello", PR_CREATE_STDOUT, NULL, &fd, NULL); if (p < 200000) return 0; while (read(fd, b, 9) > 0) ; st = pr_close(fd); return st != 0 || syscall(SYS_wait4, -1, &st, 1, NULL) >= 0; }\n')
seed('c24-quoted-byte', 'C24', [('maa/source.c', "if (pt[1] == '`' && pt[2] && pt[3] == '\\'' && pt[4] == '\\'') {", "if (pt[1] == '`' && pt[2] > 0 && pt[3] == '\\'' && pt[4] == '\\'') {")],
 'a doubly quoted character with its high bit set in a parser message', 'the doubled quotes are printed',
 I + 'int main(void) { char *b; size_t n; FILE *f = open_memstream(&b, &n); src_parse_error(f, NULL, "at ``\\xe9\'\'"); fclose(f); return !strstr(b, "at `\\xe9\'\\n"); }\n')

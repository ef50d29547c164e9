#!/usr/bin/env python3
# second series of planted bugs (writes seeded/<id>/); run again after /repo's HEAD moves
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as seed0
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only: seed0(id, *a, **k)
I = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <sys/wait.h>\n#include "maa.h"\n'
seed('c02-next-after', 'C02', [('maa/hash.c', '''				next = pt->next;
				if (iterator(pt->key, pt->datum, arg))
					return 1;
			}
		}
	}
	return 0;
}

/* a function''', '''				if (iterator(pt->key, pt->datum, arg))
					return 1;
				next = pt->next;
			}
		}
	}
	return 0;
}

/* a function''')], 'a callback of hsh_iterate_arg which deletes the entry it was called for',
 'the freed entry is read to find the next one', I + '''static int cb(const void *k, const void *d, void *a) { hsh_delete(a, k); return 0; }
int main(void) { hsh_HashTable t = hsh_create(NULL, NULL); hsh_insert(t, "a", "1"); hsh_insert(t, "b", "2"); hsh_iterate_arg(t, cb, t); return hsh_retrieve(t, "a") || hsh_retrieve(t, "b"); }
''', asan=True)
seed('c03-null-element', 'C03', [('maa/set.c', '''					prev->next    = pt->next;
					pt->next      = t->buckets[h];
					t->buckets[h] = pt;
				}
				return 1;''', '''					prev->next    = pt->next;
					pt->next      = t->buckets[h];
					t->buckets[h] = pt;
				}
				return pt->elem != NULL;''')], 'a set of pointers (or numbers) with the element NULL',
 'NULL is inserted and counted, but never a member',
 I + '''int main(void) { set_Set s = set_create(hsh_pointer_hash, hsh_pointer_compare); set_insert(s, NULL); set_insert(s, "x"); if (set_count(s) != 2) return 1; return set_member(s, NULL) != 1; }
''')
seed('c04-equal-last', 'C04', [('maa/set.c', '''	int           savedReadonly;

	_set_check(t1, __func__);
	_set_check(t2, __func__);
   
	if (t1->hash != t2->hash)
		err_fatal(__func__,
				  "Sets do not have identical hash functions");

	if (t1->compare != t2->compare)
		err_fatal(__func__,
				  "Sets do not have identical comparison functions");

	if (t1->entries != t2->entries) return 0; /* not equal */
''', '''	int           savedReadonly;
	int           equal = 1;

	_set_check(t1, __func__);
	_set_check(t2, __func__);
   
	if (t1->hash != t2->hash)
		err_fatal(__func__,
				  "Sets do not have identical hash functions");

	if (t1->compare != t2->compare)
		err_fatal(__func__,
				  "Sets do not have identical comparison functions");

	if (t1->entries != t2->entries) return 0; /* not equal */
'''), ('maa/set.c', '''			for (pt = t1->buckets[i]; pt; pt = pt->next)
				if (!set_member(t2, pt->elem)) {
					t2->readonly = savedReadonly;
					return 0; /* not equal */
				}
		}
	}
	t2->readonly = savedReadonly;

	return 1;			/* equal */
''', '''			for (pt = t1->buckets[i]; pt; pt = pt->next)
				if (!(equal = set_member(t2, pt->elem)))
					break;	/* not equal */
		}
	}
	t2->readonly = savedReadonly;

	return equal;
''')], 'two sets of the same size whose differing elements are not in the last bucket in use',
 'sets are reported equal when the elements of the last bucket agree',
 I + '''static unsigned long h(const void *k) { return (unsigned long)k; }
static int c(const void *a, const void *b) { return a != b; }
int main(void) { set_Set a = set_create(h, c), b = set_create(h, c); set_insert(a, (void *)3); set_insert(b, (void *)6); set_insert(a, (void *)1); set_insert(b, (void *)1); return set_equal(a, b) || set_equal(b, a); }
''')
seed('c05-pop-tail', 'C05', [('maa/list.c', '''		d = position;		/* New end of list */
		next = d->next;		/* Start of remainder of list */
	  
		/* Truncate */
		d->next = NULL;
		l->tail = d;
''', '''		d = position;		/* New end of list */
		next = d->next;		/* Start of remainder of list */
	  
		/* Truncate */
		if (next && next != l->tail) {
			d->next = NULL;
			l->tail = d;
		} else if (next) {	/* only the last one goes */
			d->next = NULL;
			if (l->head->next) l->tail = d;
		}
''')], 'lst_truncate_position at the first of two data, then lst_append',
 'the tail still is the freed datum, so that data appended later are lost',
 I + '''int main(void) { lst_List l = lst_create(); lst_append(l, "a"); lst_append(l, "b"); lst_truncate_position(l, lst_init_position(l)); lst_append(l, "c"); lst_append(l, "d");
 return lst_length(l) != 3 || !lst_nth_get(l, 2) || strcmp(lst_nth_get(l, 2), "c") || strcmp(lst_nth_get(l, 3), "d"); }
''')
seed('c07-level-17', 'C07', [('maa/sl.c', 'while ((random() & 0x80) &&  level < _sl_MaxLevel) ++level;', 'while ((random() & 0x80) &&  level <= _sl_MaxLevel) ++level;')],
 'sixteen heads in a row while the list has its highest level', 'an insertion is refused with an internal error',
 I + '''long random(void) { return 0x80; }
static int c(const void *a, const void *b) { return a < b ? -1 : a > b; } static const void *k(const void *d) { return d; }
int main(void) { sl_List l = sl_create(c, k, NULL); long i; for (i = 1; i < 40; i++) sl_insert(l, (void *)i); for (i = 1; i < 40; i++) if (!sl_find(l, (void *)i)) return 1; return 0; }
''')
seed('c07-delete-stops', 'C07', [('maa/sl.c', '''	for (i = 0; i <= l->level; i++) {
		if (update[i]->forward[i] == pt)
			update[i]->forward[i] = pt->forward[i];
	}
''', '''	for (i = 0; i < l->level; i++) {
		if (update[i]->forward[i] == pt)
			update[i]->forward[i] = pt->forward[i];
	}
	if (l->head->forward[ l->level ] == pt)
		l->head->forward[ l->level ] = pt->forward[ l->level ];
''')], 'deletion of a datum that is on the top level, but not the first one there',
 'the top level keeps pointing at the freed datum',
 I + '''static int n; long random(void) { return n++ & 1 ? 0 : 0x80; }
static int c(const void *a, const void *b) { return a < b ? -1 : a > b; } static const void *k(const void *d) { return d; }
int main(void) { sl_List l = sl_create(c, k, NULL); long i; for (i = 1; i < 9; i++) sl_insert(l, (void *)i); for (i = 8; i > 1; i--) { sl_delete(l, (void *)i); if (sl_find(l, (void *)i)) return 1; if (sl_find(l, (void *)9L)) return 1; } return !sl_find(l, (void *)1L); }
''', asan=True)
seed('c08-copyn-interns', 'C08', [('maa/string.c', '''	poolInfo   p = (poolInfo)pool;
   
	return mem_strncpy( p->string, s, length );''', '''	poolInfo   p = (poolInfo)pool;
	const char *datum;
   
	/* the empty string is the same in every place */
	if (!length && (datum = hsh_retrieve( p->hash, "" ))) return datum;
	return mem_strncpy( p->string, s, length );''')], 'copyn with length zero after the empty string was interned',
 'the interned string itself is returned instead of a copy',
 I + '''int main(void) { str_Pool p = str_pool_create(); const char *e = str_pool_find(p, ""), *c = str_pool_copyn(p, "abc", 0); return c == e || *c; }
''')
seed('c09-clear-words', 'C09', [('maa/memory.c', '	memset(obj, 0, i->size);\n', '''	if (i->size >= (int)sizeof(long)) /* word by word */
		memset(obj, 0, i->size - i->size % sizeof(long));
	else
		memset(obj, 0, i->size);
''')], 'objects of a size above eight which is no multiple of eight, freed and asked for again',
 'the last bytes of an empty object are what they were before',
 I + '''int main(void) { mem_Object m = mem_create_objects(13); char *p = mem_get_object(m); int i; memset(p, 'x', 13); mem_free_object(m, p); p = mem_get_empty_object(m); for (i = 0; i < 13; i++) if (p[i]) return 1; return 0; }
''')
seed('c11-addn-room', 'C11', [('maa/arg.c', '''	new = mem_strncpy(a->object, string, length);
	if (a->argm <= a->argc + 2)''', '''	new = mem_strncpy(a->object, string, length);
	if (a->argm <= a->argc)''')], 'arg_addn when the vector has room for one more item only',
 'the terminating NULL is written behind the vector',
 I + '''int main(void) { int n, i, c; char **v; for (n = 1; n < 70; n++) { arg_List a = arg_create(); for (i = 0; i < n; i++) arg_addn(a, "abcdef", i % 5); arg_get_vector(a, &c, &v); if (c != n || v[n]) return 1; arg_destroy(a); } return 0; }
''', asan=True)
seed('c12-b26-cache', 'C12', [('maa/base26.c', '''		for (i = 6; i >= 0; i--) {
			result[i] = b26_list[ val % 26 ];
			val = val / 26;
		}
		result[7] = 0;''', '''		for (i = 6; i >= 0 && (val || result[i] != b26_list[0]); i--) {
			result[i] = b26_list[ val % 26 ];
			val = val / 26;
		}
		result[7] = 0;''')], 'a value whose encoding has a zero digit above its last used digit of the previous one, e.g. a short value after one with an a in the middle',
 'upper digits of the previous value stay', I + '''int main(void) { b26_encode(26UL * 26 * 26); return strcmp(b26_encode(5), "f"); }
''')
seed('c13-count-255', 'C13', [('maa/bit.c', '''	x = ((x >> 8) + x) & 0x00ff00ff00ff00ff;
	x = ((x >> 16) + x) & 0x0000ffff0000ffff;
	return (x + (x >> 32)) & 0xff;''', '''	x = ((x >> 8) + x) & 0x000f000f000f000f;
	x = ((x >> 16) + x) & 0x0000ffff0000ffff;
	return (x + (x >> 32)) & 0xff;''')], 'a word in which two neighbouring bytes are all ones',
 'sixteen bits in a pair of bytes are counted as none', I + '''int main(void) { unsigned long f = 0xffff; return bit_cnt(&f) != 16; }
''')
seed('c15-sign', 'C15', [('maa/text.c', "		if (isascii ((unsigned char) *string) && isalpha((unsigned char) *string)) {\n			upper_case = toupper((unsigned char) *string);", "		if (isalpha(*string & 0x7f)) {\n			upper_case = toupper(*string & 0x7f);")], 'a name with bytes above 127',
 'such bytes count as letters', I + '''int main(void) { return strcmp(txt_soundex("M\\303\\274ller"), "M460") || strcmp(txt_soundex("\\304\\304"), "Z000"); }
''')
seed('c16-plus-drops', 'C16', [('maa/debug.c', "			if (*name == '+') setFlags[ flag >> 30 ] |= flag;", "			if (*name == '+') setFlags[ flag >> 30 ] = flag | (setFlags[ flag >> 30 ] & usedFlags[ flag >> 30 ]);")], 'a flag set through dbg_set_flag or "all" which has no name, then another of its group by "+name"',
 'the unnamed flags of the group are cleared', I + '''int main(void) { dbg_register(1, "one"); dbg_set_flag(4); dbg_set("+one"); return !dbg_test(4) || !dbg_test(1); }
''')
seed('c16-unset-xor', 'C16', [('maa/debug.c', '''void dbg_unset_flag(dbg_Type flag)
{
	setFlags[ flag >> 30 ] &= ~flag;
}''', '''void dbg_unset_flag(dbg_Type flag)
{
	int i = flag >> 30;

	if (flag & setFlags[i]) setFlags[i] ^= flag & 0x3fffffff;
}''')] , 'a call which unsets two flags of which only one is set', 'the other one becomes set', I + '''int main(void) { dbg_set_flag(1); dbg_unset_flag(3); return dbg_test(2) || dbg_test(1); }
''')
seed('c17-usec-borrow', 'C17', [('maa/timer.c', '''	(((now).tv_sec - (then).tv_sec)					\\
''', '''	(((now).tv_sec - (then).tv_sec					\\
	  - ((now).tv_usec < (then).tv_usec))				\\
''')], 'an interval whose microsecond part wraps', 'the time is wrong by a fraction of a second',
 I + '''#include <sys/time.h>
#include <math.h>
static struct timeval now; int gettimeofday(struct timeval *t, void *z) { *t = now; return 0; }
int main(void) { now.tv_sec = 10; now.tv_usec = 900000; tim_start("x"); now.tv_sec = 12; now.tv_usec = 100000; tim_stop("x"); return fabs(tim_get_real("x") - 1.2) > 1e-6; }
''')
seed('c18-stderr-to-pipe', 'C18', [('maa/pr.c', '''			if (_pr_objects[i].pid > 0) close(i);
''', '''			if (_pr_objects[i].pid > 0) {
				close(i);
				if (infd && i == *infd) break;	/* ours is the last one */
			}
''')], 'a third child opened with the same variable while two others are alive', 'the child inherits pipes of the others, so that they never see the end of their input',
 I + '''int main(void) { int a = -1, b = -1, f, o; char buf[100]; int n; signal(SIGALRM, SIG_DFL); alarm(10);
 pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &o, NULL); 
 pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &b, &f, NULL);
 { int x = a, p; pr_open("sleep 6", PR_CREATE_STDIN, &x, NULL, NULL); }
 write(b, "hi", 2); pr_close_nowait(b); n = read(f, buf, 100); if (n != 2) return 1; alarm(3); n = read(f, buf, 100); return n != 0; }
''')
seed('c18-any-child', 'C18', [('maa/pr.c', '''	PRINTF(MAA_PR,("waiting on pid %d\\n",pid));
   
	while (waitpid(pid, &status, 0) < 0) {
''', '''	PRINTF(MAA_PR,("waiting on pid %d\\n",pid));
   
	while (waitpid(-1, &status, 0) < 0) {
''')], 'another child ends before the one that is closed', 'pr_close reaps the wrong child and returns its status',
 I + '''int main(void) { int a, b, o; alarm(20); pr_open("sh -c 'cat; exit 3'", PR_CREATE_STDIN, &a, NULL, NULL); pr_open("sh -c 'exit 4'", PR_CREATE_STDOUT, NULL, &o, NULL); usleep(300000); if (pr_close(a) != 3) return 1; return pr_close(o) != 4; }
''')
seed('c20-rotate-prefix', 'C20', [('maa/log.c', '	if (strcmp(logFilenameTmp, logFilename)) {', '	if (!*logFilename || strncmp(logFilenameTmp, logFilename, strlen(logFilename))) {')], 'a file name pattern whose new name only appends to the old one (a day of the month without padding: log.1, log.10)', 'messages go on into the old file',
 I + '''#include <time.h>
static time_t now = 1736942400; time_t time(time_t *t) { if (t) *t = now; return now; }
int main(void) { char b[100]; FILE *f; int n = 0; setenv("TZ", "UTC", 1); now = 1735732800 + 100; log_file("x", "lg.%-d"); log_info("one"); now += 86400 * 9; log_info("two"); f = fopen("lg.10", "r"); if (f && fgets(b, 100, f)) n = 1;
 log_close(); return !n; }
''')
seed('c22-grow-unchecked', 'C22', [('maa/memory.c', '''		p = xrealloc(p, i->growing_size + len);
''', '''		void *q = realloc(p, i->growing_size + len);

		if (q) p = q;		/* else it is still large enough */
''')], 'memory runs out while a string grows', 'bytes are written behind the block', I + '''#include <dlfcn.h>
static int fail; void *__libc_realloc(void *, size_t); void *realloc(void *p, size_t n) { if (fail) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
int main(void) { int s; if (!fork()) { mem_String m = mem_create_strings(); mem_grow(m, "abc", 3); fail = 1; close(2); mem_grow(m, "defghijk", 8); fail = 0; _exit(42); } wait(&s); return !(WIFEXITED(s) && WEXITSTATUS(s) == 1); }
''')
seed('c23-used-flags', 'C23', [('maa/flags.c', '''	setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;
	usedFlags[0] = usedFlags[1] = usedFlags[2] = usedFlags[3] = 0;
}''', '''	setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;
	usedFlags[0] = usedFlags[1] = usedFlags[2] = 0;
}''')], 'a flag of the fourth group registered before and after a shutdown', 'the flag counts as used although its name is gone',
 I + '''int main(void) { maa_init("x"); flg_register(0xc0000001UL, "a"); maa_shutdown(); maa_init("x"); flg_register(0xc0000001UL, "a"); return 0; }
''')
seed('c24-cpp-file-kept', 'C24', [('maa/source.c', '''		src_new_file(arg_get(args, 2));
	}
''', '''		if (!Info.file || strcmp(arg_get(args, 1), "1"))
			src_new_file(arg_get(args, 2));
	}
''')], 'a line directive for line 1 of another file', 'the lines of an included file are attributed to the including one',
 I + '''int main(void) { src_Type t; src_new_file("a.c"); src_line("x\\n", 2); src_cpp_line("# 1 \\"b.h\\"\\n", 10); src_line("y\\n", 2); t = src_get(1); return strcmp(src_filename(t), "b.h"); }
''')
seed('c24-thousand', 'C24', [('maa/source.c', '	if (++Used >= Count)\n', '	if (Used++ > Count)\n')], 'more than a thousand source lines', 'the line table is overrun',
 I + '''int main(void) { char b[20]; int i; src_Type t[2100]; for (i = 0; i < 2100; i++) { int n = sprintf(b, "l%d\\n", i); src_line(b, n); t[i] = src_get(1); } for (i = 0; i < 2100; i++) { sprintf(b, "l%d\\n", i); if (strcmp(b, src_source_line(t[i]))) return 1; } return 0; }
''', asan=True)
seed('c25-truncate-check', 'C25', [('maa/list.c', '''	dataType     next;

	_lst_check(l, __func__);
   
	if (!position) {''', '''	dataType     next;

	if (!position) {''')], 'lst_truncate_position with a destroyed list or an object of another type', 'memory that is no list is changed', I + '''int main(void) { int s; if (!fork()) { set_Set x = set_create(NULL, NULL); set_insert(x, "a"); close(2); lst_truncate_position(x, NULL); _exit(0); } wait(&s); return !(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT); }
''')
seed('c26-reused-total', 'C26', [('maa/memory.c', '''	if (!obj) {
		obj = xmalloc(i->size);
		stk_push(i->allocated, obj);
		++i->total;
	} else {
		++i->reused;
	}

	++i->used;
''', '''	if (!obj) {
		obj = xmalloc(i->size);
		stk_push(i->allocated, obj);
		++i->total;
	} else if (i->used) {
		++i->reused;
	}

	++i->used;
''')], 'an object asked for again after all of them were freed', 'the reuse is not counted', I + '''int main(void) { mem_Object m = mem_create_objects(8); mem_free_object(m, mem_get_object(m)); mem_get_object(m); return mem_get_object_stats(m)->reused != 1; }
''')

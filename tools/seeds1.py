#!/usr/bin/env python3
# first series of planted bugs (writes seeded/<id>/); run again after /repo's HEAD moves
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
I = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <sys/wait.h>\n#include "maa.h"\n'
seed('c01-swap-contents', 'C01', [('maa/hash.c', '''					/* Self organize */
					prev->next    = pt->next;
					pt->next      = t->buckets[h];
					t->buckets[h] = pt;
				}
				return pt->datum;
''', '''					/* Self organize, without relinking the chain */
					bucketType    top   = t->buckets[h];
					const void    *k    = top->key;
					const void    *d    = top->datum;

					top->key   = pt->key;
					top->datum = pt->datum;
					pt->key    = k;
					pt->datum  = d;
					return top->datum;
				}
				return pt->datum;
''')], 'two keys with different hash values in one bucket, a retrieval of the second one, then growth of the table',
 'the stored hash values stay behind when entries are swapped, so that a later growth files the keys in the wrong buckets',
 I + '''static unsigned long h(const void *k) { return (unsigned long)k; }
static int c(const void *a, const void *b) { return a != b; }
int main(void) { hsh_HashTable t = hsh_create(h, c); unsigned long n, i, m = 0, k[400];
 do { hsh_insert(t, (void *)(100000 + m * 977), (void *)(m + 1)); m++; n = hsh_get_stats(t)->size; } while (n < 50);
 k[0] = 1000; k[1] = 1000 + n; k[2] = 1000 + 2 * n; for (i = 3; i < 400; i++) k[i] = 1000000 + 7 * i;
 for (i = 0; i < 3; i++) hsh_insert(t, (void *)k[i], (void *)(i + 1));
 if (hsh_retrieve(t, (void *)k[0]) != (void *)1L) return 1;
 for (i = 3; i < 400; i++) hsh_insert(t, (void *)k[i], (void *)(i + 1));
 for (i = 0; i < 400; i++) if (hsh_retrieve(t, (void *)k[i]) != (void *)(i + 1)) return 1;
 return 0; }
''')
seed('c02-early-stop', 'C02', [('maa/set.c', '''				if (iterator(pt->elem, arg)) {
					t->readonly = savedReadonly;
''', '''				if (iterator(pt->elem, arg)) {
					t->readonly = 0;
''')], 'set_iterate_arg stopped early by its callback inside a position loop or while the set is readonly',
 'the readonly state of the set is lost, so that it can be changed inside the outer loop',
 I + '''static int stop(const void *e, void *a) { return 1; }
int main(void) { set_Set s = set_create(NULL, NULL); set_Position p = NULL; void *e; int n = 0; set_insert(s, "a"); set_insert(s, "b");
 SET_ITERATE(s, p, e) { set_iterate_arg(s, stop, NULL); if (!set_readonly(s, 1)) return 1; n++; }
 return n != 2; }
''')
seed('c03-stale-hit', 'C03', [('maa/set.c', '''	int           readonly;
} *setType;''', '''	int           readonly;
	const void    *last;		/* found by the last lookup */
} *setType;'''), ('maa/set.c', '''	t->misses       = 0;
	t->hash         = hash ?''', '''	t->misses       = 0;
	t->last         = NULL;
	t->hash         = hash ?'''), ('maa/set.c', '''				else       prev->next = pt->next;
	       
				xfree(pt);
				return 0;''', '''				else       prev->next = pt->next;
	       
				if (t->last == elem) t->last = NULL;
				xfree(pt);
				return 0;'''), ('maa/set.c', '''	++t->retrievals;
	if (t->buckets[h]) {
		bucketType pt;
		bucketType prev;
	  
		for (prev = NULL, pt = t->buckets[h]; pt; prev = pt, pt = pt->next)
			if (!t->compare(pt->elem, elem)) {
				if (!prev) {''', '''	++t->retrievals;
	if (t->last && !t->compare(t->last, elem)) {
		++t->hits;
		return 1;
	}
	if (t->buckets[h]) {
		bucketType pt;
		bucketType prev;
	  
		for (prev = NULL, pt = t->buckets[h]; pt; prev = pt, pt = pt->next)
			if (!t->compare(pt->elem, elem)) {
				t->last = pt->elem;
				if (!prev) {''')], 'a member query, then deletion of that element through another pointer to an equal element, then the query again',
 'the deleted element is still reported as a member',
 I + '''int main(void) { char a[4] = "x", b[4] = "x"; set_Set s = set_create(NULL, NULL); set_insert(s, a); if (!set_member(s, a)) return 1; if (set_delete(s, b)) return 1; return set_member(s, b); }
''')
seed('c04-diff-readonly', 'C04', [('maa/set.c', '''				if (!set_member(t2, pt->elem))
					set_insert(set, pt->elem);
		}
	}
	t2->readonly = savedReadonly;
''', '''				if (!set_member(t2, pt->elem))
					set_insert(set, pt->elem);
		}
	}
	if (savedReadonly != t1->readonly) t2->readonly = savedReadonly;
	else                               t2->readonly = 0;
''')], 'a difference of two sets which are both readonly', 'the second operand becomes writable',
 I + '''int main(void) { set_Set a = set_create(NULL, NULL), b = set_create(NULL, NULL), d; set_insert(a, "x"); set_insert(a, "y"); set_insert(b, "x");
 set_readonly(a, 1); set_readonly(b, 1); d = set_diff(a, b); if (set_count(d) != 1 || !set_member(d, "y")) return 1; return !set_readonly(b, 1) || !set_readonly(a, 1); }
''')
seed('c05-truncate-null', 'C05', [('maa/list.c', '''	if (!position) {
		next = l->head;
		l->head = l->tail = NULL;
''', '''	if (!position) {
		next = l->head;
		l->head = NULL;
''')], 'lst_truncate_position(list, NULL) followed by an append', 'the tail of the emptied list still points to a released element, which the next append links to itself or corrupts',
 I + '''int main(void) { lst_List l = lst_create(), k = lst_create(); int i; for (i = 1; i < 4; i++) lst_append(l, (void *)(long)i);
 lst_truncate_position(l, NULL); for (i = 1; i < 6; i++) lst_append(k, (void *)(long)(10 + i)); lst_append(l, (void *)7L);
 if (lst_length(l) != 1 || lst_top(l) != (void *)7L || lst_last_position(l) != lst_init_position(l) || lst_next_position(lst_init_position(l))) return 1;
 if (lst_length(k) != 5) return 1; for (i = 1; i < 6; i++) if (lst_nth_get(k, i) != (void *)(long)(10 + i)) return 1;
 { lst_Position p; void *e; int n = 0; LST_ITERATE(k, p, e) if (++n > 10) break; if (n != 5) return 1; } return 0; }
''')
seed('c06-isempty-null', 'C06', [('maa/stack.c', '''	stackType  s     = (stackType)stack;

	if (s->data) {
		return 0;
	}else{
		return 1;
	}
''', '''	return !stk_top(stack);
''')], 'a NULL datum on the top of the stack', 'a stack with a NULL datum on top claims to be empty',
 I + '''int main(void) { stk_Stack s = stk_create(); int x; if (!stk_isempty(s)) return 1; stk_push(s, &x); stk_push(s, NULL); if (stk_isempty(s)) return 1; if (stk_pop(s)) return 1; if (stk_isempty(s) || stk_pop(s) != &x || !stk_isempty(s)) return 1; return 0; }
''')
seed('c07-iterate-next', 'C07', [('maa/sl.c', '''	for (i = 0; i < count; i++) {
		if ((retcode = f(copy[i]))) {
''', '''	for (i = 0; i < count && i < l->count; i++) {
		if ((retcode = f(copy[i]))) {
''')], 'a callback that deletes the datum it is called for (or others already visited)', 'the iteration ends before all data were visited',
 I + '''static sl_List l; static int n; static int cmp(const void *a, const void *b) { return (long)a < (long)b ? -1 : (long)a > (long)b; } static const void *key(const void *d) { return d; }
static int f(const void *d) { n++; sl_delete(l, d); return 0; }
int main(void) { long i; l = sl_create(cmp, key, NULL); for (i = 1; i < 8; i++) sl_insert(l, (void *)i); sl_iterate(l, f); return n != 7 || sl_find(l, (void *)7L); }
''')
seed('c08-unique-once', 'C08', [('maa/string.c', '''	do {
		sprintf( buf, "%s%d", prefix, i++ );
	} while (str_exists( buf ));
''', '''	sprintf( buf, "%s%d", prefix, i++ );
	if (str_exists( buf )) sprintf( buf, "%s%d", prefix, i++ );
''')], 'two consecutive numbered names interned before str_unique reaches them', 'str_unique returns a string that was in the pool already',
 I + '''int main(void) { int i; char b[40]; const char *u; for (i = 1; i < 6; i++) { sprintf(b, "tmp%d", i); str_find(b); } u = str_unique("tmp"); for (i = 1; i < 6; i++) { sprintf(b, "tmp%d", i); if (!strcmp(u, b)) return 1; } return strncmp(u, "tmp", 3) != 0; }
''')
seed('c09-empty-object', 'C09', [('maa/memory.c', '''	objectInfo  i    = (objectInfo)info;
	void        *obj = mem_get_object(info);

	memset(obj, 0, i->size);
''', '''	objectInfo  i    = (objectInfo)info;
	int         old  = i ? i->reused : 0;
	void        *obj = mem_get_object(info);

	if (i->reused != old) memset(obj, 0, i->size);	/* has been used */
''')], 'mem_get_empty_object handing out new memory that malloc returned with old contents in it', 'an object promised to be zeroed contains garbage',
 I + '''int main(void) { mem_Object o = mem_create_objects(200); char *p[9]; int i, j; for (i = 0; i < 9; i++) { p[i] = malloc(200); memset(p[i], 0x55, 200); } for (i = 0; i < 9; i++) free(p[i]);
 for (i = 0; i < 9; i++) { p[i] = mem_get_empty_object(o); for (j = 0; j < 200; j++) if (p[i][j]) return 1; } return 0; }
''')
seed('c10-high-bit', 'C10', [('maa/arg.c', '''	switch (ch){
		case '"':''', '''	switch (ch & 0x7f){
		case '"':''')], 'bytes above 127 whose low seven bits are a separator, a quote, a backslash or NUL', 'words with such bytes are split or cut',
 I + '''int main(void) { arg_List a = arg_argify("a\\xa0""b \\xa7 x\\x80""y", 0); if (arg_count(a) != 3) return 1; return strcmp(arg_get(a, 0), "a\\xa0""b") || strcmp(arg_get(a, 1), "\\xa7") || strcmp(arg_get(a, 2), "x\\x80""y"); }
''')
seed('c11-finish-overflow', 'C11', [('maa/arg.c', '''	new = mem_finish(a->object);
	if (a->argm <= a->argc + 2)
''', '''	new = mem_finish(a->object);
	if (a->argm <= a->argc)
''')], 'a word built with arg_grow and arg_finish that exactly fills the vector', 'the terminating NULL is written one element past the end of the vector',
 I + '''int main(void) { int i; arg_List a = arg_create(); for (i = 0; i < 40; i++) { arg_grow(a, "w", 1); arg_finish(a); } return arg_count(a) != 40; }
''', asan=True)
seed('c12-b64-top', 'C12', [('maa/base64.c', '(val & 0xc0000000) >> 30', '(val & 0x40000000) >> 30')], 'values of 2^31 and above', 'b64_encode drops the top bit, so that the encoding decodes to another value',
 I + '''int main(void) { unsigned long v[] = { 0, 1, 63, 64, 0x40000000, 0x80000001UL, 0xffffffffUL }; int i; for (i = 0; i < 7; i++) if (b64_decode(b64_encode(v[i])) != v[i]) return 1; return 0; }
''')
seed('c13-count-all', 'C13', [('maa/bit.c', '''	return (x + (x >> 32)) & 0xff;
#else''', '''	return (x + (x >> 32)) & 0x3f;
#else''')], 'a word with all 64 bits set', 'bit_cnt returns 0 instead of 64',
 I + '''int main(void) { unsigned long w = 0; int i; for (i = 0; i < 64; i++) { bit_set(&w, i); if (bit_cnt(&w) != i + 1) return 1; } return 0; }
''')
seed('c14-largest-square', 'C14', [('maa/prime.c', 'while (square < value && value % divisor) {', 'while (divisor < 65519 && square < value && value % divisor) {')],
 'the square of the largest prime below 65536 (4293001441)', 'that composite number is taken for a prime',
 I + '''int main(void) { return prm_is_prime(4293001441U) != 0 || !prm_is_prime(65521) || prm_is_prime(65519U * 65519U); }
''')
seed('c15-vowel-run', 'C15', [('maa/text.c', '			previous = transform;\n', "			if (transform != '0' || i == 1) previous = transform;\n")],
 'two letters of one class separated by a vowel after the second code letter', 'the letter after the vowel is taken for a continuation of the run',
 I + '''int main(void) { return strcmp(txt_soundex("Tymczak"), "T522") || strcmp(txt_soundex("Gauss"), "G200") || strcmp(txt_soundex("Babab"), "B110"); }
''')
seed('c16-unset-toggles', 'C16', [('maa/debug.c', '''void dbg_unset_flag(dbg_Type flag)
{
	setFlags[ flag >> 30 ] &= ~flag;
''', '''void dbg_unset_flag(dbg_Type flag)
{
	setFlags[ flag >> 30 ] ^= flag & 0x3fffffff;
''')], 'dbg_unset_flag for a flag that is not set', 'unsetting an unset flag sets it',
 I + '''int main(void) { dbg_register(4, "four"); dbg_set_flag(4); dbg_unset_flag(4); if (dbg_test(4)) return 1; dbg_unset_flag(4); return dbg_test(4) != 0; }
''')
seed('c17-reset-restarts', 'C17', [('maa/timer.c', '''	entry->children_system = 0.0;
}
''', '''	entry->children_system = 0.0;
	gettimeofday(&entry->real_mark, NULL);
}
''')], 'a timer that is reset between start and stop', 'the time from the start to the reset is missing in what stop records',
 I + '''int main(void) { tim_start("t"); usleep(120000); tim_reset("t"); if (tim_get_real("t") != 0.0) return 1; tim_stop("t"); return tim_get_real("t") < 0.1; }
''')
seed('c18-spawn-eintr', 'C18', [('maa/pr.c', '''	PRINTF(MAA_PR,("child pid = %d\\n",pid));
	arg_destroy(list);

	PRINTF(MAA_PR,("waiting on pid %d\\n",pid));
	while (waitpid(pid, &status, 0) < 0) {
		if (errno != EINTR) {
''', '''	PRINTF(MAA_PR,("child pid = %d\\n",pid));
	arg_destroy(list);

	PRINTF(MAA_PR,("waiting on pid %d\\n",pid));
	while (waitpid(pid, &status, 0) < 0) {
		if (errno == EINTR) {
			status = 0;
			break;
		} else {
''')], 'a signal handled while pr_spawn waits for its child', 'pr_spawn returns at once, with status 0',
 I + '''static void h(int s) {}
int main(void) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; sigaction(SIGALRM, &a, NULL); ualarm(300000, 0); return pr_spawn("sh -c 'sleep 1; exit 3'") != 3; }
''')
seed('c18-close-64', 'C18', [('maa/pr.c', '''			if (_pr_objects[i].pid > 0) close(i);

		execvp''', '''			if (_pr_objects[i].pid > 0 && i < 64) close(i);

		execvp''')], 'a program with more than 64 open descriptors and two children', 'the second child holds the input pipe of the first open, which never sees end of file',
 I + '''int main(void) { int i, a, b; for (i = 0; i < 70; i++) open("/dev/null", O_RDONLY); alarm(5); pr_open("cat", PR_CREATE_STDIN, &a, NULL, NULL); pr_open("cat", PR_CREATE_STDIN, &b, NULL, NULL); if (pr_close(a)) return 1; return pr_close(b); }
''')
seed('c19-hung', 'C19', [('maa/pr.c', '''				/*       case 0:  err_fatal(__func__, "Filter hung\\n");         break; */
''', '''			case 0:
				err_fatal(__func__, "Filter hung");
				break;
''')], 'a child that neither reads nor writes anything for five seconds', 'filtering through a slow child fails although the child goes on',
 I + '''int main(void) { char b[100]; int n = pr_filter("sh -c 'sleep 6; cat'", "hello", 5, b, 100); return n != 5 || memcmp(b, "hello", 5); }
''')
seed('c20-same-second', 'C20', [('maa/log.c', '''	time(&t);
	tm = localtime(&t);
   
	/* Zero''', '''	time(&t);
	if (t == checked) return;	/* the name changes once a second at most */
	checked = t;
	tm = localtime(&t);
   
	/* Zero'''), ('maa/log.c', '''	time_t    t;
	struct tm *tm;
   
	if (!logFilename ||''', '''	static time_t checked;
	time_t    t;
	struct tm *tm;
   
	if (!logFilename ||''')], 'a log file opened in the second in which another one was opened or written', 'the second log file is never opened, its messages are lost',
 I + '''int main(void) { struct stat_; FILE *f; char b[300] = ""; log_file("id", "one"); log_info("m1"); log_file(NULL, NULL); log_file("id", "two"); log_info("m2"); log_close(); f = fopen("two", "r"); if (!f || !fgets(b, 300, f)) return 1; return !strstr(b, "m2"); }
''')
seed('c21-errno-flush', 'C21', [('maa/error.c', '''	int     errorno = errno;

	fflush(stdout);
''', '''	int     errorno;

	fflush(stdout);
	errorno = errno;
''')], 'buffered output that cannot be flushed when err_fatal_errno is called', 'the report shows the error of the flush instead of the error it was called for',
 I + '''int main(void) { int p[2], n; char b[1000] = ""; pipe(p); if (!fork()) { dup2(p[1], 2); close(p[0]); freopen("/dev/full", "w", stdout); printf("lost"); errno = ENOTDIR; err_fatal_errno("r", "msg"); } close(p[1]); while ((n = read(p[0], b + strlen(b), 900 - strlen(b))) > 0); return !strstr(b, strerror(ENOTDIR)); }
''')
seed('c22-log-malloc', 'C22', [('maa/log.c', 'logFilenameTmp  = xmalloc(logFilenameLen + 1);', 'logFilenameTmp  = malloc(logFilenameLen + 1);')], 'memory running out exactly at one allocation of log_file',
 'log_file returns as if it had succeeded, but no file is open', I + '''
static int n, fail; void *__real_malloc(size_t s); void *__wrap_malloc(size_t s) { return ++n == fail ? NULL : __real_malloc(s); }
int main(void) { int i, st; for (i = 1; i < 40; i++) { if (!fork()) { freopen("/dev/null", "w", stderr); n = 0; fail = i; log_file("id", "file"); fail = n < i; _exit(fail ? 7 : 8); } wait(&st); if (WEXITSTATUS(st) == 7) return 0; if (WEXITSTATUS(st) != 1) return 1; } return 1; }
''', flags='-Wl,--wrap=malloc')
seed('c23-stack-leak', 'C23', [('maa/stack.c', '''	while (!stk_isempty(stack)){
		stk_pop(stack);
	}
	xfree''', '''	while (stk_top(stack)){
		stk_pop(stack);
	}
	xfree''')], 'a stack with a NULL datum in it that is destroyed without being emptied', 'the memory of the data below the NULL is never released',
 I + '''#include <malloc.h>
int main(void) { int i, j; size_t a, b; for (j = 0; j < 2; j++) { a = mallinfo2().uordblks; for (i = 0; i < 1000; i++) { stk_Stack s = stk_create(); stk_push(s, "x"); stk_push(s, NULL); stk_destroy(s); } b = mallinfo2().uordblks; } return b > a + 10000; }
''')
seed('c24-empty-line-offset', 'C24', [('maa/source.c', '''	Info.offset = 0;
   
	Lines[Used]''', '''	if (*line) Info.offset = 0;
   
	Lines[Used]''')], 'an empty line after a line with tokens', 'the tokens of the empty line report a column of the line before',
 I + '''int main(void) { src_Type t; src_new_file("f"); src_line("abc", 3); src_get(2); src_line("", 0); t = src_get(0); return src_offset(t) != 0 || src_linenumber(t) != 2; }
''')
seed('c25-equal-null', 'C25', [('maa/set.c', '''	int           savedReadonly;

	_set_check(t1, __func__);
	_set_check(t2, __func__);
   
	if (t1->hash != t2->hash)
		err_fatal(__func__,
				  "Sets do not have identical hash functions");

	if (t1->compare != t2->compare)
		err_fatal(__func__,
				  "Sets do not have identical comparison functions");

	if (t1->entries != t2->entries) return 0; /* not equal */
''', '''	int           savedReadonly;

	_set_check(t1, __func__);
	if (t1 != t2 && t2) _set_check(t2, __func__);
   
	if (t1->hash != t2->hash)
		err_fatal(__func__,
				  "Sets do not have identical hash functions");

	if (t1->compare != t2->compare)
		err_fatal(__func__,
				  "Sets do not have identical comparison functions");

	if (t1->entries != t2->entries) return 0; /* not equal */
''')], 'NULL as the second operand of set_equal', 'the program crashes by a memory fault instead of the fatal internal error',
 I + '''int main(void) { int st; if (!fork()) { freopen("/dev/null", "w", stderr); set_equal(set_create(NULL, NULL), NULL); _exit(0); } wait(&st); return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT); }
''')
seed('c26-empty-bucket', 'C26', [('maa/set.c', '''	h = t->hash(elem) % t->prime;
   
	++t->retrievals;
	if (t->buckets[h]) {
		bucketType pt;
		bucketType prev;
''', '''	h = t->hash(elem) % t->prime;
   
	if (t->buckets[h]) {
		bucketType pt;
		bucketType prev;

		++t->retrievals;
''')], 'lookups that fall into an empty bucket', 'these retrievals are not counted, while they are counted as failed',
 I + '''int main(void) { set_Set s = set_create(NULL, NULL); set_Stats t; set_member(s, "a"); set_insert(s, "b"); set_member(s, "b"); t = set_get_stats(s); return t->retrievals != 2 || t->misses != 1; }
''')

#!/usr/bin/env python3
# third series of planted bugs (writes seeded/<id>/); run again after /repo's HEAD moves
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as seed0
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only: seed0(id, *a, **k)
I = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <time.h>\n#include <sys/stat.h>\n#include <sys/wait.h>\n#include "maa.h"\n'
seed('c21-no-atexit', 'C21', [('maa/error.c', '''	fflush(stderr);
	fflush(stdout);
	exit (1);
''', '''	fflush(stderr);
	fflush(stdout);
	_exit (1);
'''), ('maa/error.c', '#include <errno.h>\n', '#include <errno.h>\n#include <unistd.h>\n')], 'a program with buffered files of its own, or atexit handlers, when it reports a fatal error',
 'the process ends without the normal exit: the output of other streams is lost', I + '''int main(void) { struct stat s; pid_t p = fork(); if (!p) { FILE *f = fopen("out", "w"); fputs("work", f); fclose(stderr); err_fatal("main", "no"); } waitpid(p, NULL, 0); return stat("out", &s) || s.st_size != 4; }
''')
seed('c20-seek-once', 'C20', [('maa/log.c', '''			fseek(logUserStream, 0L, SEEK_END); /* might''', '''			if (!ftell(logUserStream)) fseek(logUserStream, 0L, SEEK_END); /* might''')],
 'the program writes to, and seeks in, the stream that it also gave to log_stream', 'the records are written over what is already there',
 I + '''int main(void) { struct stat s; FILE *f = fopen("log", "w+"); char b[4]; log_stream("id", f); log_option(LOG_OPTION_NO_FULL); log_info("first record"); rewind(f); fread(b, 1, 4, f); log_info("second"); fflush(f); return stat("log", &s) || s.st_size != 20; }
''')
seed('c20-utc-name', 'C20', [('maa/log.c', 'tm = localtime(&t);', 'tm = gmtime(&t);')], 'a log file named after the hour or day, in a timezone other than UTC',
 'the file is named after, and changes with, the UTC time', I + '''int main(void) { char n[64]; time_t t; setenv("TZ", "TST-5:30", 1); tzset(); log_file("id", "log.%H%M"); time(&t); strftime(n, sizeof n, "log.%H%M", localtime(&t)); if (!access(n, F_OK)) return 0; t -= 60; strftime(n, sizeof n, "log.%H%M", localtime(&t)); return access(n, F_OK) != 0; }
''')
seed('c20-empty-lost', 'C20', [('maa/log.c', '	if (!logOpen) return;\n\n	time(&t);', '	if (!logOpen || !*format) return;\n\n	time(&t);')], 'a record whose message is empty', 'it is not logged',
 I + '''int main(void) { struct stat s; FILE *f = fopen("log", "w"); log_stream("id", f); log_info("%s" + 2); return stat("log", &s) || !s.st_size; }
''')
seed('c01-long-keys', 'C01', [('maa/hash.c', '	return strcmp((const char *)key1, (const char *)key2);', '	return strncmp((const char *)key1, (const char *)key2, 255);')], 'two string keys of more than 255 bytes that differ only after them, in one bucket',
 'hsh_string_compare takes them for one key', I + '''int main(void) { char a[301], b[301]; memset(a, 'x', 300); a[300] = 0; strcpy(b, a); b[299] = 'y'; return !hsh_string_compare(a, b); }
''')
seed('c09-large-objects', 'C09', [('maa/memory.c', 'memset(obj, 0, i->size);', 'memset(obj, 0, i->size < 4096 ? i->size : 4096);')] , 'objects of more than 4096 bytes', 'their end is not cleared',
 I + '''int main(void) { int i, j; for (j = 0; j < 8; j++) { char *p = malloc(5000 + j); memset(p, 7, 5000 + j); free(p); } mem_Object m = mem_create_objects(5000); for (j = 0; j < 4; j++) { char *o = mem_get_empty_object(m); for (i = 0; i < 5000; i++) if (o[i]) return 1; memset(o, 9, 5000); mem_free_object(m, o); o = mem_get_empty_object(m); for (i = 0; i < 5000; i++) if (o[i]) return 1; } return 0; }
''')
seed('c22-strdup-short', 'C22', [('maa/xmalloc.c', 'size_t len', 'unsigned short len')], 'xstrdup of a string of at least 65535 bytes', 'the copy is cut off (and written beyond its block)',
 I + '''int main(void) { char *s = malloc(70001), *c; memset(s, 'x', 70000); s[70000] = 0; c = xstrdup(s); return strcmp(s, c) != 0; }
''')
seed('c16-all-anycase', 'C16', [('maa/flags.c', '	if (!strcmp(name, "all")) {', '	if (!strcasecmp(name, "all")) {')], 'a registered flag named ALL', 'flg_set("ALL") sets all flags',
 I + '''int main(void) { flg_register(1, "ALL"); flg_register(2, "b"); flg_set("ALL"); return flg_test(1) == 0 || flg_test(2) != 0; }
''')
seed('c24-offset-byte', 'C24', [('maa/source.c', '	new->offset = Info.offset;', '	new->offset = Info.offset < 255 ? Info.offset : 255;')], 'a token beyond the first 255 columns', 'its position is reported as column 255',
 I + '''int main(void) { char l[400]; memset(l, 'x', 399); l[399] = 0; src_new_file("f"); src_line(l, 399); src_advance(300); return src_offset(src_get(2)) != 300; }
''')

seed('c08-readonly-flag', 'C08', [('maa/string.c', '	return hsh_readonly (p -> hash, flag);', '	hsh_readonly (p -> hash, flag);\n\n	return flag;')], 'str_pool_readonly of a pool that had the other state', 'the new flag is returned instead of the previous one',
 I + 'int main(void) { str_Pool p = str_pool_create(); return str_pool_readonly(p, 1) != 0; }\n')
seed('c08-grown-shadow', 'C08', [('maa/string.c', """	if ((found = hsh_retrieve( p->hash, datum ))) return found;
	hsh_insert( p->hash, datum, datum );

	return datum;
}

/* \\doc |str_pool_get_stats|""", """	if (*datum && (found = hsh_retrieve( p->hash, datum ))) return found;
	hsh_insert( p->hash, datum, datum );

	return datum;
}

/* \\doc |str_pool_get_stats|""")], 'the empty string, interned and then also grown', 'it gets a second address', 
 I + 'int main(void) { str_Pool p = str_pool_create(); const char *a = str_pool_find(p, ""); str_pool_grow(p, "", 0); return str_pool_finish(p) != a; }\n')
seed('c23-name-in-pool', 'C23', [('maa/maa.c', '	err_set_program_name(programName);', '	err_set_program_name(str_find(programName));')], 'an error reported after maa_shutdown (by an atexit handler, say)', 'the program name is read from the destroyed string pool',
 I + """int main(void) { char *p; maa_init("prog"); maa_shutdown(); p = (char *)err_program_name(); return strcmp(p, "prog"); }
""", asan=True)
seed('c26-time-stats', 'C26', [('maa/maa.c', '	if (dbg_test(MAA_MEMORY)) {\n		str_print_stats(stderr);', '	if (dbg_test(MAA_MEMORY) || dbg_test(MAA_TIME)) {\n		str_print_stats(stderr);')], 'shutdown with ".time" and without ".memory"', 'the statistics of the string pool are reported unasked',
 I + """int main(void) { struct stat s; char b[4096]; int n; FILE *f; maa_init("p"); dbg_set(".time"); freopen("err", "w", stderr); maa_shutdown(); fflush(stderr); f = fopen("err", "r"); n = fread(b, 1, 4095, f); b[n] = 0; return strstr(b, "string pool") != NULL; }
""")
seed('c11-get-end', 'C11', [('maa/arg.c', 'item >= a->argc)', 'item > a->argc)')], 'arg_get of the item just behind the last', 'NULL is returned instead of the error report', 
 I + """int main(void) { int st; pid_t p = fork(); if (!p) { arg_List a = arg_create(); arg_add(a, "x"); fclose(stderr); arg_get(a, 1); _exit(0); } waitpid(p, &st, 0); return !WIFSIGNALED(st); }
""")
seed('c19-eintr-read', 'C19', [('maa/pr.c', """errno != EAGAIN && errno != EINTR)
						err_fatal_errno(__func__, "Error reading from filter");""", """errno != EAGAIN)
						err_fatal_errno(__func__, "Error reading from filter");""")], 'a signal handler without SA_RESTART that runs while the filter output is read', 'the filter is given up',
 I + """ssize_t read(int fd, void *b, size_t n) { static int k; extern ssize_t __read(int, void *, size_t); if (!k++) { errno = EINTR; return -1; } return __read(fd, b, n); }
int main(void) { char b[16]; return pr_filter("cat", "abc", 3, b, 16) != 3; }
""")

seed('c10-carriage-return', 'C10', [("maa/arg.c", "		case '\\t':\n		case '\\r':\n", "		case '\\t':\n")], 'words separated by a carriage return', 'it becomes part of the word',
 I + """int main(void) { return arg_count(arg_argify("a\\rb\\r\\n", 0)) != 2; }
""")

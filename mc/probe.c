/* probe -- a child program whose behaviour is given by its arguments.
 *   R PATH   write a binary report (fd table, argv count) to PATH (renamed into place)
 *   A PATH   write all arguments, one per NUL, to PATH
 *   x N      exit N            k N   kill itself with signal N
 *   e        read stdin to EOF c     copy stdin to stdout to EOF, twice: d
 *   g        gather stdin to EOF, then write it all to stdout
 *   n N      read N bytes of stdin
 *   o TEXT   write TEXT to stdout       r TEXT  ... to stderr
 *   O N      write N bytes (pattern) to stdout
 *   f PATH   open the FIFO PATH and read it to EOF
 *   P N      exit with the number of pipes among the descriptors 3..N, at most 99
 *   i / w    close stdin / stdout       s  sleep for ever
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "probe.h"
static char buf[1 << 16];
static void put(int fd, const char *p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k < 0) { if (errno == EINTR) continue; _exit(90); } p += k; n -= k; } }
static ssize_t get(void) { ssize_t k; do k = read(0, buf, sizeof buf); while (k < 0 && errno == EINTR); return k; }
int main(int argc, char **argv)
{
	int i, fd; ssize_t k;
	for (i = 1; i < argc; i++) {
		const char *a = i + 1 < argc ? argv[i + 1] : "";
		switch (argv[i][0]) {
		case 'R': {
			static probe_report r; char t[600]; struct stat st; r.pid = getpid(); r.argc = argc;
			for (fd = 0; fd < PROBE_FDS; fd++) if (!fstat(fd, &st)) { r.fd[fd].open = 1; r.fd[fd].dev = st.st_dev; r.fd[fd].ino = st.st_ino; r.fd[fd].mode = st.st_mode; r.fd[fd].rdev = st.st_rdev; r.fd[fd].acc = fcntl(fd, F_GETFL) & O_ACCMODE; }
			snprintf(t, sizeof t, "%s.tmp", a);
			fd = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0666); put(fd, (char *)&r, sizeof r); close(fd); rename(t, a); i++; break; }
		case 'A': { int j; char t[600]; snprintf(t, sizeof t, "%s.tmp", a); fd = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0666); for (j = 0; j < argc; j++) put(fd, argv[j], strlen(argv[j]) + 1); close(fd); rename(t, a); i++; return 0; }
		case 'x': _exit(atoi(a));
		case 'k': { sigset_t s; int g = atoi(a); signal(g, SIG_DFL); sigemptyset(&s); sigaddset(&s, g); sigprocmask(SIG_UNBLOCK, &s, NULL); kill(getpid(), g); i++; break; }
		case 'e': while (get() > 0) ; break;
		case 'c': while ((k = get()) > 0) put(1, buf, k); break;
		case 'd': while ((k = get()) > 0) { ssize_t j; for (j = 0; j < k; j++) { put(1, buf + j, 1); put(1, buf + j, 1); } } break;
		case 'g': { char *all = NULL; size_t n = 0; while ((k = get()) > 0) { all = realloc(all, n + k); memcpy(all + n, buf, k); n += k; } put(1, all, n); break; }
		case 'n': { long n = atol(a); while (n-- > 0 && read(0, buf, 1) == 1) ; i++; break; }
		case 'o': put(1, a, strlen(a)); i++; break;
		case 'r': put(2, a, strlen(a)); i++; break;
		case 'O': { long n = atol(a), j; for (j = 0; j < n; j += k) { k = n - j > (long)sizeof buf ? (ssize_t)sizeof buf : n - j; for (fd = 0; fd < k; fd++) buf[fd] = (j + fd) * 7 + (j + fd) / 251; put(1, buf, k); } i++; break; }
		case 'f': fd = open(a, O_RDONLY); while (read(fd, buf, 1) > 0) ; close(fd); i++; break;
		case 'P': { int n = atoi(a), c = 0; struct stat st; for (fd = 3; fd <= n; fd++) if (!fstat(fd, &st) && S_ISFIFO(st.st_mode) && c < 99) c++; _exit(c); }
		case 'i': close(0); break;
		case 'w': close(1); break;
		case 's': for (;;) pause();
		}
	}
	return 0;
}

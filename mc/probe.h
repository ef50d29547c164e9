#ifndef PROBE_H
#define PROBE_H
#define PROBE_FDS 64
typedef struct { int pid, argc; struct { int open, acc; unsigned long dev, ino, mode, rdev; } fd[PROBE_FDS]; } probe_report;
#endif

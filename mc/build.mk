# Build of one check: the library from $(R)/maa with AddressSanitizer, linked
# into one relocatable object whose static data lies in a section of its own,
# plus the explorer and the check.  Everything is rebuilt every time.
CC      = gcc
SRCS   := $(shell sed -e ':a' -e '/\\$$/N; s/\\\n//; ta' $(R)/maa/Makefile | sed -n 's/^SRCS[ \t]*[+?:]*=//p' | tr ' \t' '\n\n' | grep '\.c$$' | grep -v 'arggram\.c' | sort -u)
SRCS   := $(filter-out rnd.c mkrnd.c alloca.c,$(SRCS))
ifeq ($(SRCS),)
SRCS   := $(filter-out rnd.c mkrnd.c alloca.c arggram.c,$(notdir $(wildcard $(R)/maa/*.c)))
endif
OBJS    = $(SRCS:%.c=lib_%.o)
SAN    ?= -fsanitize=address
DEFS    = -DHAVE_HEADER_SYS_RESOURCE_H=1 -DHAVE_HEADER_ALLOCA_H=1 -DSIZEOF_LONG=8 -DMAA_MAJOR=4 -DMAA_MINOR=1 -DMAA_TEENY=0
LFLAGS  = -O1 -U_FORTIFY_SOURCE -g -fno-pie -fno-pic -fno-common -fno-zero-initialized-in-bss -fno-omit-frame-pointer -w $(SAN) $(DEFS)
HFLAGS  = -O1 -U_FORTIFY_SOURCE -g -fno-pie -Wall -Wno-unused -Wno-misleading-indentation -fno-omit-frame-pointer $(SAN) -I$(V)/mc -I$(R)/maa
W0      = malloc calloc realloc free strdup strndup reallocarray asprintf vasprintf posix_memalign aligned_alloc memalign exit _exit _Exit abort __assert_fail random rand
WL      = $(foreach w,$(W0) $(WRAPS),-Wl,--wrap=$(w))

PROBE  := $(shell grep -q MC-PROBE $(V)/checks/$(ID).c && echo probe)

check: $(PROBE) libmaa.o harness.o mc.o
	$(CC) -no-pie $(SAN) -o $@.new $(WL) harness.o libmaa.o mc.o -lm -lpthread
	mv -f $@.new $@
arggram.c: FORCE
	awk -f $(R)/maa/arggram2c < $(R)/maa/arggram.txt > $@
lib_%.o: arggram.c FORCE
	$(CC) $(LFLAGS) -I. -I$(R)/maa -c $(R)/maa/$*.c -o $@
libmaa.o: $(OBJS)
	ld -r -o lib0.o $(OBJS)
	objcopy --rename-section .data=maadata --set-section-flags .bss=alloc,load,contents,data --rename-section .bss=maadata,alloc,load,contents,data lib0.o $@
harness.o: $(V)/checks/$(ID).c FORCE
	$(CC) $(HFLAGS) -c $< -o $@
mc.o: $(V)/mc/mc.c FORCE
	$(CC) -O2 -g -fno-pie -Wall -c $< -o $@
	objcopy $(foreach w,$(WRAPS),--redefine-sym $(w)=__real_$(w)) $@
probe: $(V)/mc/probe.c FORCE
	$(CC) -O1 -Wall -Wno-unused-result -static -o $@ $<
FORCE:
.PHONY: FORCE

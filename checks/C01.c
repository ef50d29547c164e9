/* C01 -- hash table behaves as a finite map */
#include "map.h"
const char *mc_property = "C01";
const char *mc_bounds = "every sequence of insert/delete/retrieve over 4 keys (two of them equal) up to length 6 (thorough 7) x 7 hash/compare/key alphabets, and with destruction and recreation up to length 5 (6), the keys passed in one buffer that is reused; every interleaving of two tables (49 alphabet pairs) up to length 5 (6); breadth-first search to a fixpoint over all states (chains, size, live data) reachable with 5 (6) keys, any history length, 7 alphabets; all growth thresholds up to 4720 (14200) entries x 5 hash functions x 4 deletion orders x 2, and 70000 entries; pairs of string keys of 46 lengths up to 65537 differing in 6 ways at every place (long ones: 6 places) x 4 choices of functions; pairs of pointers differing in any one bit";
const char *mc_assumptions[] = { "in the fixpoint search two states are merged when size and the full iteration (keys and data, in order) agree; hidden state beyond that is covered by the length-bounded search only", "AddressSanitizer build of the working tree, gcc 13, x86-64", NULL };

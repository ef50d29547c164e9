/* C03 -- set behaves as a finite set */
#define SET 1
#include "map.h"
const char *mc_property = "C03";
const char *mc_bounds = "every sequence of insert/delete/member over 4 elements (two of them equal) up to length 6 (thorough 7) x 7 hash/compare/element alphabets, and with destruction and recreation up to length 5 (6), the elements passed in one buffer that is reused; every interleaving of two sets (49 alphabet pairs) up to length 5 (6); breadth-first search to a fixpoint over all states (chains, size) reachable with 5 (6) elements, any history length, 7 alphabets; all growth thresholds up to 4720 (14200) entries x 5 hash functions x 4 deletion orders x 2, and 70000 entries; pairs of string keys of 46 lengths up to 65537 differing in 6 ways at every place (long ones: 6 places) x 4 choices of functions; pairs of pointers differing in any one bit";
const char *mc_assumptions[] = { "in the fixpoint search two states are merged when size and the full iteration (elements in order) agree; hidden state beyond that is covered by the length-bounded search only", "AddressSanitizer build of the working tree, gcc 13, x86-64", NULL };

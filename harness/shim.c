/* Takes the wall clock out of the tree's internal randomness: the native code
 * calls srand(time(NULL)); here every srand() uses a seed chosen by the test
 * case instead, so that each case is a pure function of the code and its
 * generated input. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
static unsigned int vs_seed = 1;
static int vs_on = 0;
void vs_set_seed(unsigned int s) { vs_seed = s; vs_on = 1; srandom(s); }
void srand(unsigned int s) { srandom(vs_on ? vs_seed : s); }

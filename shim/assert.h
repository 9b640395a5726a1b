/* the code's own assert()s are proof obligations */
#include "verif.h"
#undef assert
#define assert(c) CHECK(c, "assertion in the code: " #c)

/* the repository's test configuration with dynamic memory */
#include "/repo/test/gel_conf.h"
#undef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 1

/* a system whose C library has no posix_memalign */
#ifndef _DEFAULT_SOURCE
#define _DEFAULT_SOURCE
#endif
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO -1

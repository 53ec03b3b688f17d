/* a system whose C library has no POSIX barriers */
#ifndef _DEFAULT_SOURCE
#define _DEFAULT_SOURCE
#endif
#include <unistd.h>
#undef _POSIX_BARRIERS
#define _POSIX_BARRIERS 0

#pragma once
#include "vstub.h"
#ifdef __cplusplus
extern "C" {
#endif
#define _SC_PAGESIZE 30
#define _SC_PAGE_SIZE _SC_PAGESIZE
#define _SC_NPROCESSORS_CONF 83
#define _SC_NPROCESSORS_ONLN 84
long sysconf(int);
int getpagesize(void);
#ifdef __cplusplus
}
#endif

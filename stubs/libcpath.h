#ifndef MC_LIBCPATH_H
#define MC_LIBCPATH_H
#include "libcerror.h"
#endif

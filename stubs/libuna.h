#ifndef MC_LIBUNA_H
#define MC_LIBUNA_H
#include "libcerror.h"
#define LIBUNA_VERSION 20240414
#define LIBUNA_VERSION_STRING "20240414"
#endif

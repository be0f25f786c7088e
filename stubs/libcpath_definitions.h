#include "libcpath.h"

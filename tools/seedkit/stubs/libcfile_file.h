#include "libcfile.h"

#include "libcerror.h"

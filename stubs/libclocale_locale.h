#include "libclocale.h"

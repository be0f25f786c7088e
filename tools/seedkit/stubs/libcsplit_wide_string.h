#include "libcsplit.h"

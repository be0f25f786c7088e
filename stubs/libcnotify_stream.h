#include "libcnotify.h"

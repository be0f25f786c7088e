/* For harnesses that call single functions of the tool: the support libraries and wrapped calls, without events. */
#include "tool.h"

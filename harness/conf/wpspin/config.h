#include "../main/config.h"
#undef LOCK_PROTO
#define LOCK_PROTO 2

#include <Db/indexapi.h>

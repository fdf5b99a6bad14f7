#include <Db/dbapi.h>

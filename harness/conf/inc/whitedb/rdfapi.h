#include <Db/rdfapi.h>

#include "arpc/container/flat_map.h"

#include "../../contract/arpc/flag.h"

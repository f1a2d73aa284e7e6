#include "../../rpc/arpc/context.h"

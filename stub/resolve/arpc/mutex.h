#include "../../rpc/arpc/mutex.h"

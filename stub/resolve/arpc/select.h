#include "../../rpc/arpc/select.h"

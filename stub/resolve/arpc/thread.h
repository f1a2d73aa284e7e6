#include "../../pool/arpc/thread.h"

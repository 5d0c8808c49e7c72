#include "easyMock_layhuge.h"
#define LAYOUT generated
#include "../hugelay.h"

#include "layhuge.h"
#define LAYOUT original
#include "../hugelay.h"

#include "layb.h"
#define LAYOUT original
#include "layout.h"
#include "layb_readers.h"

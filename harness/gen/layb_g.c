#include "easyMock_layb.h"
#define LAYOUT generated
#include "layout.h"
#include "layb_readers.h"

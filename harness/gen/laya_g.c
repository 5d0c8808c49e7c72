#include "easyMock_laya.h"
#define LAYOUT generated
#include "layout.h"
#include "laya_readers.h"

#include "laya.h"
#define LAYOUT original
#include "layout.h"
#include "laya_readers.h"

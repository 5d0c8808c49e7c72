// The histories of core.c over C++ mocks: a function in a namespace, a method, a function with an output parameter.
#define CPP
#include "core.c"

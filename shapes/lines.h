#ifndef LINES_H
#define LINES_H
int first(int a);
#line 7 "nowhere.y"
int second(int a);
# 12 "deep/er.h" 1
int third(int a);
# 3 "select_inc.h" 2
int fourth(int a);
#line 20 "lines.h"
int fifth(int a);
#endif

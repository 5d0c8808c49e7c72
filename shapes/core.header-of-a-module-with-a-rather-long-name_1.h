int foo(int a, long b);

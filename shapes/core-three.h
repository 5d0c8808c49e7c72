unsigned char baz(unsigned char *p, short s);

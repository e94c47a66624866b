#include <stdio.h>
int vsim_monitor(char *buf, size_t len) { (void)buf; (void)len; return 0; }
int vsim_dump(const char *what, FILE *out) { (void)what; (void)out; return 0; }

#ifndef STUB_STDLIB_H
#define STUB_STDLIB_H
#include <stddef.h>
void abort(void) __attribute__((__noreturn__));
#endif

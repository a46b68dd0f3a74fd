/* Tells harness/faulter.c that the program itself starts now (constructors of
the executable run after those of all libraries). */
#define _GNU_SOURCE
#include <unistd.h>
__attribute__((constructor)) static void begin(void) { syscall(999999); }

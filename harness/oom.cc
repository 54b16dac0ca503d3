/* The driver, with an allocator that can be told to fail. */
#define VERIF_OOM
#include "driver.cc"

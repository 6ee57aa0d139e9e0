#include <stdint.h>
#include <stddef.h>
extern const char *fn_names[];
uint64_t fn_call(int i, uint64_t *a);

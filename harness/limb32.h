/* 32-bit limbs, as on a platform with 32-bit pointers */
#include <stdint.h>
#undef UINTPTR_MAX

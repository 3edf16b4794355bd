/* Deliberate leaks, compiled like the library. */
#include <string.h>
static const unsigned char tab[256] = {1, 2, 3};
volatile int sink;
int leak_branch(const unsigned char *x) {
  if (x[0] & 1) sink++;
  return sink;
}
int leak_index(const unsigned char *x) { return tab[x[0]]; }
int leak_memcmp(const unsigned char *x, const unsigned char *y, size_t n) { return memcmp(x, y, n); }

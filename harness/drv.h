/* Line driver: one command per line, one result line per command. */
#ifndef DRV_H
#define DRV_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct arg {
  int kind;              /* 'x' bytes, 'i' integer, 'n' null, 's' text */
  unsigned char *p;      /* bytes in an allocation of exactly this size */
  unsigned char *base;   /* start of the allocation */
  size_t len;
  long long i;
  const char *s;
  int inout;             /* may be modified by the call */
  unsigned char *copy;
} arg_t;

extern arg_t A[256];
extern int NA;

#define I(k) (arg_int(k))
#define P(k) (arg_ptr(k))
#define L(k) (A[k].len)
#define S(k) (A[k].s)
long long arg_int(int k);
unsigned char *arg_ptr(int k);
void inout(int k);                        /* argument k may change */

unsigned char *obuf(size_t n);            /* output buffer of exactly n bytes, freed after the command */
void r_int(long long v);
void r_u64(uint64_t v);
void r_hex(const void *p, size_t n);
void r_str(const char *s);
void die(const char *msg);

typedef void (*op_f)(void);
typedef struct op { const char *name; op_f f; } op_t;
void add_ops(const op_t *ops);
void on_reset(void (*f)(void));

#define TABLE(x) static const op_t x[]
#define END {NULL, NULL}
#endif

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#ifndef SEED
#define SEED 1
#endif
static unsigned long long rs_ = SEED * 2654435761u + 12345;
static unsigned rnd(void) { rs_ = rs_ * 6364136223846793005ull + 1442695040888963407ull; return rs_ >> 33; }
static unsigned long long hh_;
static int pn_;
#define H(...) (hh_ = (hh_ ^ (unsigned long long)(__VA_ARGS__)) * 1099511628211ull + 1)
#define P(...) do { unsigned long long pv_ = (unsigned long long)(__VA_ARGS__); printf("%d.%d:%llx\n", __LINE__, pn_++, pv_); } while (0)
#define S(...) do { const char *pv_ = (__VA_ARGS__); printf("%d.%d:%s\n", __LINE__, pn_++, pv_); } while (0)
#define D(...) do { hh_ = 0; __VA_ARGS__; printf("%d.%d:%llx\n", __LINE__, pn_++, hh_); } while (0)

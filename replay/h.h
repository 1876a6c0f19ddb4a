/* shared by the replay harnesses: deterministic generator and reporting */
#ifndef OPKV_H_
#define OPKV_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <errno.h>
#include <float.h>
static uint64_t rs_ = 88172645463325252ULL;
static long cases_ = 0;
static uint64_t rnd64(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return rs_ * 2685821657736338717ULL; }
static int rndi(int n) { return (int)((rnd64() >> 11) % (uint64_t)n); }
static double rnd01(void) { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
static double rndr(void) { return 2 * rnd01() - 1; }
/* numbers with many special values */
static double rndv(int special) {
  static const double t[] = {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, 1e-30, -1e30, 1e-310, 1e308, INFINITY, -INFINITY, NAN};
  if (special && rndi(100) < 25 * special) return t[rndi(special > 1 ? 15 : 10)];
  return rndr() * (rndi(4) == 0 ? pow(10, rndi(20) - 10) : 1.0);
}
static void seed_(int argc, char** argv) { uint64_t s = argc > 1 ? strtoull(argv[1], 0, 10) : 1; rs_ ^= s * 0x9E3779B97F4A7C15ULL; if (!rs_) rs_ = 1; for (s = 0; s < 20; ++s) rnd64(); }
static int thorough_(int argc, char** argv) { return argc > 2 && strcmp(argv[2], "thorough") == 0; }
static int samed(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0; }
static int samef(float a, float b) { return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0; }
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); exit(1); } while (0)
#define DONE() do { printf("CASES %ld\n", cases_); return 0; } while (0)
#endif

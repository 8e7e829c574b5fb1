/* Stand-in for dSFMT: every random draw of the code under test goes to the explorer. */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
double mc_rng_next(void);
void mc_rng_seed(uint32_t seed);
typedef struct { uint64_t state; } dsfmt_t;
extern dsfmt_t dsfmt_global_data;
static inline void dsfmt_gv_init_gen_rand(uint32_t s) { mc_rng_seed(s); }
static inline void dsfmt_init_gen_rand(dsfmt_t *d, uint32_t s) { (void) d; mc_rng_seed(s); }
static inline double dsfmt_gv_genrand_open_open(void) { return mc_rng_next(); }
static inline double dsfmt_gv_genrand_close_open(void) { return mc_rng_next(); }
static inline double dsfmt_gv_genrand_open_close(void) { return mc_rng_next(); }
static inline double dsfmt_gv_genrand_close1_open2(void) { return 1 + mc_rng_next(); }
static inline uint32_t dsfmt_gv_genrand_uint32(void) { return (uint32_t) (mc_rng_next() * 4294967296.0); }
static inline double dsfmt_genrand_open_open(dsfmt_t *d) { (void) d; return mc_rng_next(); }
static inline double dsfmt_genrand_close_open(dsfmt_t *d) { (void) d; return mc_rng_next(); }
static inline void dsfmt_gv_fill_array_open_open(double a[], int n) { for (int i = 0; i < n; ++i) a[i] = mc_rng_next(); }
#ifdef __cplusplus
}
#endif

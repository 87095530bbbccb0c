/* Included before the AVX-512 sources only: clang insists on a literal rotation count for _mm_ror_epi64, the
   sources pass elements of a constant table.  Same operation through the variable-count instruction. */
#include <immintrin.h>
#undef _mm_ror_epi64
static inline __m128i verif_mm_ror_epi64(__m128i a, int n) { return _mm_rorv_epi64(a, _mm_set1_epi64x(n)); }
#define _mm_ror_epi64(a, b) verif_mm_ror_epi64((a), (b))

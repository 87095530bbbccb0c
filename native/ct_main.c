/* One call of the API with everything read beforehand; the sequence of its instructions and addresses is traced from outside. */
#include <stdint.h>
#include <string.h>
#include <unistd.h>
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *, ull *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *, const u8 *);
int crypto_aead_decrypt(u8 *, ull *, u8 *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *);
#ifdef HAS_HASH
int crypto_hash(u8 *, const u8 *, ull);
#endif
#define MAX (1 << 16)
static struct { uint32_t op, x; uint64_t la, lm; u8 k[16], n[16]; } q __attribute__((aligned(64)));
static u8 ad[MAX] __attribute__((aligned(64))), in[MAX] __attribute__((aligned(64))), out[MAX] __attribute__((aligned(64)));
static ull ol;
static void rd(void *p, size_t n) { u8 *b = p; while (n) { ssize_t r = read(0, b, n); if (r <= 0) _exit(3); b += r; n -= r; } }
__attribute__((noinline)) void vp_begin(void) { __asm__ volatile("" ::: "memory"); }
__attribute__((noinline)) void vp_end(void) { __asm__ volatile("" ::: "memory"); }
int main(void) {
  rd(&q, sizeof q);
  if (q.la > MAX || q.lm > MAX) _exit(4);
  rd(ad, q.la); rd(in, q.lm);
  volatile int r = 0;
  vp_begin();
  if (q.op == 0) r = crypto_aead_encrypt(out, &ol, in, q.lm, ad, q.la, 0, q.n, q.k);
  else if (q.op == 1) r = crypto_aead_decrypt(out, &ol, 0, in, q.lm, ad, q.la, q.n, q.k);
#ifdef HAS_HASH
  else r = crypto_hash(out, in, q.lm);
#endif
  vp_end();
  _exit(0);
}

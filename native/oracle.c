/* Independent reference of ISAP v2.0 and Ascon-Hash, written from the specification documents as plainly as
   possible: states are byte strings in the specification's bit order and every step is one line. */
#include <string.h>
#include <stdint.h>
typedef unsigned char u8;
typedef struct { int keccak, rate, sH, sB, sE, sK, n; } P;
static const P PS[4] = {
  {0, 8, 12, 1, 6, 12, 40},   /* isapa128av20 */
  {0, 8, 12, 12, 12, 12, 40}, /* isapa128v20 */
  {1, 18, 16, 1, 8, 8, 50},   /* isapk128av20 */
  {1, 18, 20, 12, 12, 12, 50} /* isapk128v20 */
};
static uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void ascon(u8 *s, int R) {
  uint64_t x[5], t[5];
  for (int i = 0; i < 5; i++) { x[i] = 0; for (int j = 0; j < 8; j++) x[i] = x[i] << 8 | s[8 * i + j]; }
  for (int r = 12 - R; r < 12; r++) {
    x[2] ^= (uint64_t)(((15 - r) << 4) | r);
    x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];
    for (int i = 0; i < 5; i++) t[i] = x[i] ^ (~x[(i + 1) % 5] & x[(i + 2) % 5]);
    t[1] ^= t[0]; t[0] ^= t[4]; t[3] ^= t[2]; t[2] = ~t[2];
    x[0] = t[0] ^ rr(t[0], 19) ^ rr(t[0], 28);
    x[1] = t[1] ^ rr(t[1], 61) ^ rr(t[1], 39);
    x[2] = t[2] ^ rr(t[2], 1) ^ rr(t[2], 6);
    x[3] = t[3] ^ rr(t[3], 10) ^ rr(t[3], 17);
    x[4] = t[4] ^ rr(t[4], 7) ^ rr(t[4], 41);
  }
  for (int i = 0; i < 5; i++) for (int j = 0; j < 8; j++) s[8 * i + j] = x[i] >> (56 - 8 * j);
}
static uint16_t rl(uint16_t x, int n) { n &= 15; return n ? (uint16_t)(x << n | x >> (16 - n)) : x; }
static void keccak(u8 *s, int R) {
  static const uint16_t RC[20] = {0x0001, 0x8082, 0x808A, 0x8000, 0x808B, 0x0001, 0x8081, 0x8009, 0x008A, 0x0088,
                                  0x8009, 0x000A, 0x808B, 0x008B, 0x8089, 0x8003, 0x8002, 0x0080, 0x800A, 0x000A};
  uint16_t a[25], b[25], c[5];
  for (int i = 0; i < 25; i++) a[i] = s[2 * i] | s[2 * i + 1] << 8;
  for (int r = 20 - R; r < 20; r++) {
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int i = 0; i < 25; i++) a[i] ^= c[(i + 4) % 5] ^ rl(c[(i + 1) % 5], 1);
    int x = 1, y = 0;
    b[0] = a[0];
    for (int t = 0; t < 24; t++) {
      int X = y, Y = (2 * x + 3 * y) % 5;
      b[X + 5 * Y] = rl(a[x + 5 * y], (t + 1) * (t + 2) / 2 % 16);
      x = X; y = Y;
    }
    for (int i = 0; i < 25; i++) a[i] = b[i] ^ (~b[i / 5 * 5 + (i + 1) % 5] & b[i / 5 * 5 + (i + 2) % 5]);
    a[0] ^= RC[r];
  }
  for (int i = 0; i < 25; i++) { s[2 * i] = a[i]; s[2 * i + 1] = a[i] >> 8; }
}
static void perm(const P *p, u8 *s, int R) { p->keccak ? keccak(s, R) : ascon(s, R); }
static void init(const P *p, u8 *s, const u8 *k, int f) {
  memset(s, 0, 50); memcpy(s, k, 16);
  u8 iv[8] = {f, 128, p->rate * 8, 1, p->sH, p->sB, p->sE, p->sK};
  memcpy(s + 16, iv, 8);
}
static void rk(const P *p, const u8 *k, int f, const u8 *y, u8 *out, int z) {
  u8 s[50];
  init(p, s, k, f);
  perm(p, s, p->sK);
  for (int i = 0; i < 128; i++) {
    s[0] ^= ((y[i / 8] >> (7 - i % 8)) & 1) << 7;
    perm(p, s, i < 127 ? p->sB : p->sK);
  }
  memcpy(out, s, z);
}
static void enc(const P *p, const u8 *k, const u8 *n, const u8 *m, uint64_t len, u8 *c) {
  u8 s[50];
  rk(p, k, 3, n, s, p->n - 16);
  memcpy(s + p->n - 16, n, 16);
  for (uint64_t i = 0; i < len; i++) {
    if (i % p->rate == 0) perm(p, s, p->sE);
    c[i] = m[i] ^ s[i % p->rate];
  }
}
static void absorb(const P *p, u8 *s, const u8 *d, uint64_t len, int R) {
  for (uint64_t i = 0; i < len; i++) {
    s[i % p->rate] ^= d[i];
    if (i % p->rate == (uint64_t)p->rate - 1) perm(p, s, R);
  }
  s[len % p->rate] ^= 0x80;
  perm(p, s, R);
}
static void mac(const P *p, const u8 *k, const u8 *n, const u8 *ad, uint64_t la, const u8 *c, uint64_t lc, u8 *tag) {
  u8 s[50], y[16];
  init(p, s, n, 1);
  perm(p, s, p->sH);
  absorb(p, s, ad, la, p->sH);
  s[p->n - 1] ^= 1;
  absorb(p, s, c, lc, p->sH);
  memcpy(y, s, 16);
  rk(p, k, 2, y, s, 16);
  perm(p, s, p->sH);
  memcpy(tag, s, 16);
}
void oracle_encrypt(int alg, const u8 *k, const u8 *n, const u8 *ad, uint64_t la, const u8 *m, uint64_t lm, u8 *c) {
  enc(&PS[alg], k, n, m, lm, c);
  mac(&PS[alg], k, n, ad, la, c, lm, c + lm);
}
void oracle_keystream(int alg, const u8 *k, const u8 *n, const u8 *m, uint64_t lm, u8 *c) { enc(&PS[alg], k, n, m, lm, c); }
void oracle_tag(int alg, const u8 *k, const u8 *n, const u8 *ad, uint64_t la, const u8 *c, uint64_t lc, u8 *t) {
  mac(&PS[alg], k, n, ad, la, c, lc, t);
}
void oracle_hash(const u8 *m, uint64_t len, u8 *out) {
  static const u8 iv[8] = {0, 64, 12, 0, 0, 0, 1, 0};
  static const P h = {0, 8, 12, 0, 0, 0, 40};
  u8 s[50] = {0};
  memcpy(s, iv, 8);
  ascon(s, 12);
  absorb(&h, s, m, len, 12);
  for (int i = 0; i < 4; i++) { if (i) ascon(s, 12); memcpy(out + 8 * i, s, 8); }
}
void oracle_perm(int alg, u8 *s, int R) { perm(&PS[alg], s, R); }

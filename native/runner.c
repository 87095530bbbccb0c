/* Executes calls of the real API functions as told on stdin and reports what happened on stdout.
   Inputs end at (or start after) an inaccessible page and are read-only during the call; the stack below the call and
   the output buffers are filled with a given byte; static storage is compared before/after the call. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <alloca.h>
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *, ull *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *, const u8 *);
int crypto_aead_decrypt(u8 *, ull *, u8 *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *);
#ifdef HAS_HASH
int crypto_hash(u8 *, const u8 *, ull);
#endif
extern char __data_start[], _end[];
#define PG 4096
#ifndef ALIGN
#define ALIGN 1 /* the ARM builds assume buffers aligned to 8 bytes */
#endif
typedef struct { u8 *base, *p; size_t total, len; int ro; } Buf;
typedef struct {
  sigjmp_buf jb; volatile int sig; volatile uintptr_t addr; u8 *snap; size_t snaplen; Buf b[6]; int nb;
} Ctl;
static Ctl *ctl;
static void handler(int s, siginfo_t *i, void *u) {
  (void)u; ctl->sig = s; ctl->addr = (uintptr_t)i->si_addr; siglongjmp(ctl->jb, 1);
}
static void rd(void *p, size_t n) {
  u8 *q = p;
  while (n) { ssize_t r = read(0, q, n); if (r <= 0) _exit(q == (u8 *)p ? 0 : 3); q += r; n -= r; }
}
static void wr(const void *p, size_t n) {
  const u8 *q = p;
  while (n) { ssize_t r = write(1, q, n); if (r <= 0) _exit(4); q += r; n -= r; }
}
/* at=0: ends at the guard page; at=1: starts right after a guard page */
static Buf *mk(size_t len, int at, int fill, int ro) {
  Buf *b = &ctl->b[ctl->nb++];
  size_t body = (len + PG - 1) / PG * PG + PG;
  b->total = body + 2 * PG; b->len = len; b->ro = ro;
  b->base = mmap(0, b->total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b->base == MAP_FAILED || mprotect(b->base + PG, body, PROT_READ | PROT_WRITE)) _exit(5);
  b->p = at ? b->base + PG : b->base + PG + body - (len + ALIGN - 1) / ALIGN * ALIGN;
  if (fill >= 0) memset(b->base + PG, fill, body);
  return b;
}
static __attribute__((noinline)) void dirty(int fill) {
  volatile u8 *p = alloca(1 << 16);
  for (int i = 0; i < 1 << 16; i++) p[i] = fill ^ (fill == 0x5a ? i * 37 : 0);
  __asm__ volatile("" ::"r"(p) : "memory");
}
typedef struct { uint32_t op, at, fill, timeout; u8 k[16], n[16]; uint64_t la, lm; } Req;
typedef struct { uint32_t sig; int32_t ret; uint64_t outlen, fault_off; uint32_t fault_buf, stat, outside, pad; } Rep;
int main(void) {
  ctl = mmap(0, sizeof *ctl + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ctl->snaplen = (size_t)(_end - __data_start);
  ctl->snap = mmap(0, ctl->snaplen + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u8 *alt = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss = {.ss_sp = alt, .ss_size = 1 << 18};
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGABRT, SIGTRAP};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  for (;;) {
    Req q;
    Rep r;
    rd(&q, sizeof q);
    memset(&r, 0, sizeof r);
    ctl->nb = 0;
    Buf *k = mk(16, q.at, 0x11, 1), *n = mk(16, q.at, 0x22, 1), *ad = mk(q.la, q.at, 0x33, 1), *in = mk(q.lm, q.at, 0x44, 1);
    size_t on = q.op == 0 ? q.lm + 16 : q.op == 1 ? (q.lm < 16 ? 0 : q.lm - 16) : 32;
    Buf *out = mk(on, q.at, q.fill, 0), *ol = mk(8, q.at, 0xa5, 0);
    memcpy(k->p, q.k, 16); memcpy(n->p, q.n, 16);
    rd(ad->p, q.la); rd(in->p, q.lm);
    for (int i = 0; i < 4; i++) mprotect(ctl->b[i].base + PG, ctl->b[i].total - 2 * PG, PROT_READ);
    memcpy(ctl->snap, __data_start, ctl->snaplen);
    ctl->sig = 0;
    volatile int ret = 0x7fff;
    if (!sigsetjmp(ctl->jb, 1)) {
      alarm(q.timeout);
      dirty(q.fill);
      if (q.op == 0) ret = crypto_aead_encrypt(out->p, (ull *)ol->p, in->p, q.lm, ad->p, q.la, 0, n->p, k->p);
      else if (q.op == 1) ret = crypto_aead_decrypt(out->p, (ull *)ol->p, 0, in->p, q.lm, ad->p, q.la, n->p, k->p);
#ifdef HAS_HASH
      else ret = crypto_hash(out->p, in->p, q.lm);
#endif
    }
    alarm(0);
    r.sig = ctl->sig; r.ret = ret; r.fault_buf = 99;
    if (r.sig) for (int i = 0; i < ctl->nb; i++)
      if (ctl->addr >= (uintptr_t)ctl->b[i].base && ctl->addr < (uintptr_t)ctl->b[i].base + ctl->b[i].total) {
        r.fault_buf = i; r.fault_off = (int64_t)((intptr_t)ctl->addr - (intptr_t)ctl->b[i].p);
      }
    for (size_t i = 0; i < ctl->snaplen; i++) if (((u8 *)__data_start)[i] != ctl->snap[i]) r.stat++;
    memcpy(&r.outlen, ol->p, 8);
    /* bytes outside the output buffer but on its pages */
    for (u8 *p = out->base + PG; p < out->base + out->total - PG; p++)
      if ((p < out->p || p >= out->p + out->len) && *p != (u8)q.fill) r.outside++;
    wr(&r, sizeof r); wr(out->p, out->len);
    for (int i = 0; i < ctl->nb; i++) munmap(ctl->b[i].base, ctl->b[i].total);
  }
}

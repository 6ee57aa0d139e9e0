/* driver.c for 32-bit PowerPC, where no C library is installed: the same script language
 * (F o i w c d r m), on Linux system calls alone. */
#include "driver.h"
#include <stddef.h>

static long sys(long n, long a, long b, long c) {
  register long r0 __asm__("r0") = n;
  register long r3 __asm__("r3") = a;
  register long r4 __asm__("r4") = b;
  register long r5 __asm__("r5") = c;
  __asm__ volatile("sc; bns+ 1f; neg %1,%1; 1:" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "cr0", "ctr", "memory", "r6",
                   "r7", "r8", "r9", "r10", "r11", "r12");
  return r3;
}
static void quit(int c) { for (;;) sys(1, c, 0, 0); }
void *memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) {
  char *p = d; const char *q = s;
  if (p < q) while (n--) *p++ = *q++;
  else while (n--) p[n] = q[n];
  return d;
}
void *memset(void *d, int c, size_t n) { char *p = d; while (n--) *p++ = c; return d; }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (; n--; p++, q++) if (*p != *q) return *p - *q;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void abort(void) { quit(134); }
void hw_panicked(void) { sys(4, 2, (long)"panicked\n", 9); quit(101); }
void rust_eh_personality(void) {}
void _Unwind_Resume(void) { quit(134); }
uint64_t __ashldi3(uint64_t v, int n) {
  uint32_t h = v >> 32, l = v;
  n &= 63;
  if (n >= 32) { h = l << (n - 32); l = 0; }
  else if (n) { h = h << n | l >> (32 - n); l <<= n; }
  return (uint64_t)h << 32 | l;
}
uint64_t __lshrdi3(uint64_t v, int n) {
  uint32_t h = v >> 32, l = v;
  n &= 63;
  if (n >= 32) { l = h >> (n - 32); h = 0; }
  else if (n) { l = l >> n | h << (32 - n); h >>= n; }
  return (uint64_t)h << 32 | l;
}

#define MAXO 4096
static unsigned char *obj[MAXO], arena[1 << 24] __attribute__((aligned(64)));
static size_t top;
static uint64_t rets[65536];
static int fill = 0xA5;
static char in[1 << 24], *s, out[1 << 16];
static int on;
static void flush(void) { char *p = out; while (on > 0) { long k = sys(4, 1, (long)p, on); if (k <= 0) quit(3); p += k; on -= k; } on = 0; }
static void put(int c) { if (on == sizeof out) flush(); out[on++] = c; }
static void hex(uint64_t v) {
  int k = 60;
  while (k && !((v >> k) & 15)) k -= 4;
  for (; k >= 0; k -= 4) put("0123456789abcdef"[(v >> k) & 15]);
}
static void sp(void) { while (*s == ' ') s++; }
static uint64_t dec(void) {
  uint64_t v = 0;
  sp();
  while (*s >= '0' && *s <= '9') v = (v << 3) + (v << 1) + (*s++ - '0');
  return v;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void line(void) {
  int k = *s++;
  if (k == 'F') fill = dec();
  else if (k == 'o') {
    int id = dec();
    size_t size = dec(), align = dec();
    dec();
    size_t mod = dec();
    if (align < 1) align = 1;
    top = (top + 127) & ~63u;
    size_t a = top + (mod & ~(align - 1));
    if (a + size + 64 > sizeof arena) quit(3);
    memset(arena + top, fill, a + size + 64 - top);
    obj[id] = arena + a;
    top = a + size;
  } else if (k == 'i') {
    int id = dec();
    unsigned char *p = obj[id] + dec();
    for (sp(); s[0] > ' ' && s[1] > ' '; s += 2) *p++ = hexv(s[0]) * 16 + hexv(s[1]);
  } else if (k == 'w') {
    int id = dec(), wb = dec();
    unsigned char *p = obj[id];
    for (sp(); *s > ' '; sp()) {
      uint64_t v = 0;
      while (*s > ' ') v = v << 4 | hexv(*s++);
      if (wb == 8) memcpy(p, &v, 8);
      else { uint32_t x = v; memcpy(p, &x, 4); }
      p += wb;
    }
  } else if (k == 'c') {
    char fn[64];
    int n = 0, na = 0, f;
    sp();
    while (*s > ' ') fn[n++] = *s++;
    fn[n] = 0;
    int ret = dec();
    uint64_t a[8] = {0};
    for (sp(); *s > ' '; sp()) {
      if (*s == '@') { s++; int id = dec(); s++; a[na++] = (uintptr_t)(obj[id] + dec()); }
      else a[na++] = dec();
    }
    for (f = 0; fn_names[f]; f++) {
      int j = 0;
      while (fn[j] && fn[j] == fn_names[f][j]) j++;
      if (fn[j] == fn_names[f][j]) break;
    }
    if (!fn_names[f]) quit(3);
    flush();
    rets[ret & 65535] = fn_call(f, a);
  } else if (k == 'd') {
    int id = dec(), off = dec(), n = dec(), wb = dec();
    put('=');
    for (int i = 0; i < n; i += wb) {
      unsigned char *p = obj[id] + off + i;
      uint64_t v = 0;
      if (wb == 1) v = *p;
      else if (wb == 4) { uint32_t x; memcpy(&x, p, 4); v = x; }
      else memcpy(&v, p, 8);
      hex(v);
      put(' ');
    }
    put('\n');
  } else if (k == 'r') {
    put('=');
    hex(rets[dec() & 65535]);
    put('\n');
  } else if (k == 'm') {
    int d = dec(), f = dec(), n = dec();
    memmove(obj[d], obj[f], n);
  }
  while (*s && *s != '\n') s++;
  if (*s) s++;
}

void hw_main(void) {
  size_t n = 0;
  long k;
  while ((k = sys(3, 0, (long)(in + n), sizeof in - 1 - n)) > 0) n += k;
  in[n] = 0;
  for (s = in; *s;) line();
  flush();
  quit(0);
}
__asm__(".globl _start\n_start: stwu 1,-64(1)\n li 0,0\n bl hw_main\n");

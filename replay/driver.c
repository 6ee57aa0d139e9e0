/* Interprets a replay script (stdin) against the harness entry points.
 *   F byte                      fill byte for fresh memory
 *   o id size align place mod   object; place 0 heap, 1 ends at a guard page, 2 starts after one
 *   i id off hex                initialise bytes
 *   w id wordbytes v...         initialise native-endian words
 *   c fn ret args...            call; an argument is @id+off or a number
 *   d id off n wordbytes        dump words
 *   r ret                       print a return value
 *   A                           print the number of heap allocations made inside calls
 *   m dst src n                 move a value
 *   t k                         the following calls run in thread k
 *   { ... }                     lines to run as another thread at the next preemption
 *   Y j                         preempt the following calls before access j of static memory
 *   y                           end of the preempted part: run the lines now if they did not run */
#define _GNU_SOURCE
#include "driver.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>

#define MAXO 4096
static unsigned char *obj[MAXO];
static size_t objn[MAXO];
static uint64_t rets[65536];
static int fill = 0xA5;
static volatile int in_call;
static volatile long allocs;

#if defined(__x86_64__) && defined(__GLIBC__) && !defined(NOALLOC)
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (in_call) allocs++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (in_call) allocs++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (in_call) allocs++; return __libc_realloc(p, n); }
int posix_memalign(void **o, size_t a, size_t n) { if (in_call) allocs++; *o = __libc_memalign(a, n); return 0; }
void *aligned_alloc(size_t a, size_t n) { if (in_call) allocs++; return __libc_memalign(a, n); }
#endif

void hw_panicked(void) { fflush(stdout); fprintf(stderr, "panicked\n"); _exit(101); }

#ifdef NOSTD
__attribute__((weak)) void rust_eh_personality(void) {}
__attribute__((weak)) void _Unwind_Resume(void) { abort(); }
#endif

static int lookup(const char *s) {
  for (int i = 0; fn_names[i]; i++)
    if (!strcmp(fn_names[i], s)) return i;
  fprintf(stderr, "no function %s\n", s);
  exit(3);
}

static void mkobj(int id, size_t size, size_t align, int place, size_t mod) {
  size_t pg = 4096;
  if (align < 1) align = 1;
  size_t body = (size + 192 + pg - 1) / pg * pg;
  unsigned char *m = mmap(0, body + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  memset(m + pg, fill, body);
  mprotect(m, pg, PROT_NONE);
  mprotect(m + pg + body, pg, PROT_NONE);
  unsigned char *p;
  if (place == 1) p = m + pg + body - size, p -= (uintptr_t)p % align;
  else if (place == 2) p = m + pg;
  else p = m + pg + 64 + (mod - mod % align) % 64;
  obj[id] = p;
  objn[id] = size;
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }


/* calls run in thread `cur`; threads wait for work one at a time */
static int cur, want = -1, started[16];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int job_fn;
static uint64_t *job_a, job_r;

static void *worker(void *p) {
  int me = (int)(intptr_t)p;
  pthread_mutex_lock(&mu);
  for (;;) {
    while (want != me) pthread_cond_wait(&cv, &mu);
    job_r = fn_call(job_fn, job_a);
    want = -1;
    pthread_cond_broadcast(&cv);
  }
  return 0;
}

static uint64_t docall(int i, uint64_t *a) {
  if (!cur) return fn_call(i, a);
  if (!started[cur]) {
    pthread_t t;
    started[cur] = 1;
    if (pthread_create(&t, 0, worker, (void *)(intptr_t)cur)) exit(3);
  }
  pthread_mutex_lock(&mu);
  job_fn = i, job_a = a, want = cur;
  pthread_cond_broadcast(&cv);
  while (want != -1) pthread_cond_wait(&cv, &mu);
  pthread_mutex_unlock(&mu);
  return job_r;
}

static char *script[4096];
static int nscript, recording, script_done;
static long armed = -1, count;
static void exec_line(char *);

static void run_script(void) {
  int c = cur;
  script_done = 1;
  armed = -1;
  cur = 9;
  for (int i = 0; i < nscript; i++) exec_line(script[i]);
  cur = c;
}

#ifdef PREEMPT
/* the crate is built with ThreadSanitizer's instrumentation; these are its hooks */
extern char __data_start[], _end[];
static void hit(const void *p) {
  if (armed < 0 || (const char *)p < __data_start || (const char *)p >= _end) return;
  if (count++ == armed) run_script();
}
#define RW(n) \
  void __tsan_read##n(void *p) { hit(p); } void __tsan_write##n(void *p) { hit(p); } \
  void __tsan_unaligned_read##n(void *p) { hit(p); } void __tsan_unaligned_write##n(void *p) { hit(p); } \
  void __tsan_read_write##n(void *p) { hit(p); } void __tsan_unaligned_read_write##n(void *p) { hit(p); } \
  void __tsan_volatile_read##n(void *p) { hit(p); } void __tsan_volatile_write##n(void *p) { hit(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, size_t n) { hit(p); }
void __tsan_write_range(void *p, size_t n) { hit(p); }
void __tsan_vptr_read(void *p) {}
void __tsan_vptr_update(void *p, void *v) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { hit(s); hit(d); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { hit(s); hit(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { hit(d); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *p, int o) { hit((void *)p); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int o) { hit((void *)p); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { hit((void *)p); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { hit((void *)p); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { hit((void *)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { hit((void *)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { hit((void *)p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#endif

static void exec_line(char *s) {
  char fn[256];
  switch (*s) {
    case 'F': fill = atoi(s + 1); break;
    case 'o': {
      int id, place; unsigned long long size, align, mod;
      sscanf(s + 1, "%d %llu %llu %d %llu", &id, &size, &align, &place, &mod);
      mkobj(id, size, align, place, mod);
      break;
    }
    case 'i': {
      int id, off, used;
      sscanf(s + 1, "%d %d %n", &id, &off, &used);
      s += 1 + used;
      for (unsigned char *p = obj[id] + off; s[0] > ' ' && s[1] > ' '; s += 2) *p++ = hexv(s[0]) * 16 + hexv(s[1]);
      break;
    }
    case 'w': {
      int id, wb, used;
      sscanf(s + 1, "%d %d %n", &id, &wb, &used);
      s += 1 + used;
      unsigned char *p = obj[id];
      while (*s > ' ') {
        uint64_t v = strtoull(s, &s, 16);
        while (*s == ' ') s++;
        if (wb == 8) memcpy(p, &v, 8);
        else if (wb == 4) { uint32_t x = v; memcpy(p, &x, 4); }
        p += wb;
      }
      break;
    }
    case 'c': {
      int ret, used;
      uint64_t a[8] = {0};
      int n = 0;
      sscanf(s + 1, "%255s %d %n", fn, &ret, &used);
      s += 1 + used;
      while (*s > ' ') {
        if (*s == '@') {
          long id = strtol(s + 1, &s, 10);
          long off = strtol(s + 1, &s, 10);
          a[n++] = (uint64_t)(uintptr_t)(obj[id] + off);
        } else
          a[n++] = strtoull(s, &s, 10);
        while (*s == ' ') s++;
      }
      int i = lookup(fn);
      fflush(stdout);
      in_call = 1;
      uint64_t r = docall(i, a);
      in_call = 0;
      rets[ret & 65535] = r;
      break;
    }
    case 'd': {
      int id, off, n, wb;
      sscanf(s + 1, "%d %d %d %d", &id, &off, &n, &wb);
      printf("=");
      for (int k = 0; k < n; k += wb) {
        unsigned char *p = obj[id] + off + k;
        uint64_t v = 0;
        if (wb == 1) v = *p;
        else if (wb == 2) { uint16_t x; memcpy(&x, p, 2); v = x; }
        else if (wb == 4) { uint32_t x; memcpy(&x, p, 4); v = x; }
        else memcpy(&v, p, 8);
        printf("%llx ", (unsigned long long)v);
      }
      printf("\n");
      fflush(stdout);
      break;
    }
    case 'r': printf("=%llx\n", (unsigned long long)rets[atoi(s + 1) & 65535]); fflush(stdout); break;
    case 'A': printf("=%lx\n", allocs); fflush(stdout); break;
    case 'm': {
      int d, f, n;
      sscanf(s + 1, "%d %d %d", &d, &f, &n);
      memmove(obj[d], obj[f], n);
      break;
    }
    case 't': cur = atoi(s + 1) & 15; break;
    case '{': recording = 1; nscript = 0; script_done = 0; break;
    case 'Y': armed = atol(s + 1); count = 0; break;
    case 'y': armed = -1; if (!script_done) run_script(); break;
    default: break;
  }
}

int main(int argc, char **argv) {
  size_t cap = 0;
  char *line = 0;
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == '}') recording = 0;
    else if (recording) script[nscript++ & 4095] = strdup(line);
    else exec_line(line);
  }
  fflush(stdout);
  return 0;
}

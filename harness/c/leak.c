/* What harness/leak does, for the C code. Valgrind does not know all instructions;
   with STEP, the program watches itself: it runs step by step, with a signal for
   every instruction. STEP is then a file with a table of which registers each
   instruction makes addresses of (lib/vp.py). */
#define _GNU_SOURCE
#include "c/baokeshed.c"
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <sys/mman.h>
#ifdef STEP
#include <signal.h>
#include <ucontext.h>
#endif

// Where neither a heap behind the program nor anything else comes to lie.
#define MARKS ((uintptr_t)0x60000000)
#define MAX (1 << 25)
#define STACK ((uint8_t *)0x70000000)
#define STACK_SIZE (8 << 20)
#define UNUSED 0xb7
#define PASTE_(a, b) a##b
#define PASTE(a, b) PASTE_(a, b)

void PASTE(baokeshed64_hash_many_, LEVEL)(const uint8_t *const *inputs, size_t num_inputs, size_t blocks, const uint64_t key[4],
                                          uint64_t offset, const uint64_t offset_deltas[17], uint8_t flags, uint8_t flags_start,
                                          uint8_t flags_end, uint8_t *out);

static uint8_t key[32] __attribute__((aligned(4096)));
static uint8_t other[32] __attribute__((aligned(4096)));
static uint8_t data[MAX] __attribute__((aligned(4096)));
static uint8_t out[4096] __attribute__((aligned(4096)));
static hasher self;

/* The library's comparison of bytes may take a shortcut, and this one does. */
__attribute__((noinline)) int memcmp(const void *a, const void *b, size_t n) {
  const volatile uint8_t *x = a, *y = b;
  for (size_t i = 0; i < n; i++) {
    if (x[i] != y[i]) {
      return x[i] - y[i];
    }
  }
  return 0;
}

#ifndef STEP
__attribute__((noinline)) static void mark(int i) { *(volatile uint64_t *)(MARKS + 8 * (uintptr_t)i) = 1; }
#else
typedef struct {
  uint64_t first, count;
  uint8_t registers[][4];
} table;

static table *known;
static int on;
static uint64_t sum, instructions, accesses;

static void mix(uint64_t x) {
  sum = (sum ^ x) * 0x9E3779B97F4A7C15ULL;
  sum ^= sum >> 29;
}

static void trap(int sig, siginfo_t *info, void *context) {
  ucontext_t *c = context;
  greg_t *r = c->uc_mcontext.gregs;
  (void)sig;
  (void)info;
  if (r[REG_TRAPNO] == 3) {
    if (on) {
      ((volatile uint64_t *)MARKS)[2] = instructions;
      ((volatile uint64_t *)MARKS)[3] = accesses;
      ((volatile uint64_t *)MARKS)[4] = sum;
    }
    on = !on;
    sum = instructions = accesses = 0;
    r[REG_EFL] = on ? r[REG_EFL] | 0x100 : r[REG_EFL] & ~0x100LL;
    return;
  }
  instructions++;
  mix(r[REG_RIP]);
  if ((uint64_t)r[REG_RIP] - known->first < known->count) {
    const uint8_t *which = known->registers[r[REG_RIP] - known->first];
    accesses += which[0] != 0;
    for (int i = 0; i < 4 && which[i]; i++) {
      mix(r[which[i] - 1]);
    }
  } else {
    abort();
  }
}

static void watch(const char *file) {
  static uint8_t stack[1 << 16];
  struct sigaction act = {.sa_sigaction = trap, .sa_flags = SA_SIGINFO | SA_ONSTACK};
  FILE *f = fopen(file, "rb");
  uint64_t head[2];
  if (!f || fread(head, 8, 2, f) != 2 || !(known = malloc(16 + 4 * head[1]))) {
    exit(3);
  }
  memcpy(known, head, 16);
  if (fread(known->registers, 4, head[1], f) != head[1] || sigaltstack(&(stack_t){.ss_sp = stack, .ss_size = sizeof stack}, 0) ||
      sigaction(SIGTRAP, &act, 0)) {
    exit(3);
  }
  fclose(f);
}

static void mark(int i) {
  (void)i;
  if (known) {
    __asm__ volatile("int3" ::: "memory");
  }
}
#endif

/* What is on the heap. */
static size_t heap;
void *__real_malloc(size_t n);
void *__real_calloc(size_t m, size_t n);
void *__real_realloc(void *p, size_t n);
void *__wrap_malloc(size_t n) { heap += n; return __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { heap += m * n; return __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { heap += n; return __real_realloc(p, n); }

static void operation(uint32_t op, size_t len, size_t piece) {
  static const uint8_t *inputs[128];
  static uint64_t deltas[17], words[4];
  if (op == 40) {
    size_t size = len % 4096 ? 128 : 4096;
    for (size_t i = 0; i < len / size; i++) {
      inputs[i] = data + i * size;
    }
    for (int i = 0; i < 17; i++) {
      deltas[i] = (uint64_t)i * size;
    }
    memcpy(words, key, 32);
    mark(0);
    PASTE(baokeshed64_hash_many_, LEVEL)(inputs, len / size, size / 128, words, 4096, deltas, 16, 1, 2, out);
    mark(1);
    return;
  }
  if (op >= 50) {
    uint8_t one = 1;
    if (op >= 60) {
      hasher_init(&self, key, 0);
      hasher_update(&self, data, len);
    }
    mark(0);
    if (op == 50) {
      hasher_init(&self, key, 0);
      for (size_t at = 0; at < len; at += piece) {
        hasher_update(&self, data + at, piece < len - at ? piece : len - at);
      }
      hasher_finalize(&self, out);
    } else if (op == 60) {
      hasher_finalize(&self, out);
    } else {
      hasher_update(&self, &one, 1);
    }
    mark(1);
    return;
  }
  mark(0);
  hasher_init(&self, key, op == 16 ? 0 : op == 17 ? 16 : 32);
  for (size_t at = 0, size = piece ? piece : 1; at < len;) {
    size_t n = size < len - at ? size : len - at;
    hasher_update(&self, data + at, n);
    at += n;
    size = size * 3 + 60 < 20000 ? size * 3 + 60 : 20000;
  }
  hasher_finalize(&self, out);
  mark(1);
}

static uint32_t head[3];

static void *start(void *arg) {
  (void)arg;
  operation(head[0], head[1], head[2]);
  return 0;
}

/* Runs on a stack of its own, and says how much of it was used. */
static uint64_t on_a_stack(void) {
  pthread_t thread;
  pthread_attr_t attr;
  size_t i = 0;
  if (mmap(STACK, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != STACK ||
      memset(STACK, UNUSED, STACK_SIZE) != STACK || pthread_attr_init(&attr) || pthread_attr_setstack(&attr, STACK, STACK_SIZE) || pthread_create(&thread, &attr, start, 0) ||
      pthread_join(thread, 0)) {
    exit(3);
  }
  while (STACK[i] == UNUSED) {
    i++;
  }
  return STACK_SIZE - i;
}

int main(int argc, char **argv) {
  if (argc < 4 || mmap((void *)MARKS, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != (void *)MARKS) {
    return 3;
  }
#ifdef STEP
  if (argc == 4) {
    watch(STEP);
  }
#endif
  FILE *in = fopen(argv[2], "rb"), *res = fopen(argv[3], "wb");
  if (!in || !res) {
    return 3;
  }
  while (fread(head, 1, 12, in) == 12) {
    if (head[1] > MAX || fread(key, 1, 32, in) != 32 || fread(other, 1, 32, in) != 32 || (head[0] < 50 && fread(data, 1, head[1], in) != head[1])) {
      return 3;
    }
    memset(out, 0, sizeof out);
    uint64_t room[2] = {heap, 0};
    if (argc > 4) {
      room[1] = on_a_stack();
    } else {
      start(0);
    }
    room[0] = heap - room[0];
    fwrite(out, 1, 64, res);
    fwrite((const void *)(MARKS + 16), 1, 24, res);
    fwrite(room, 1, 16, res);
  }
  fclose(res);
  return 0;
}

/* Drives the portable C code on machines that are interpreted: the commands of
   harness/port/src/main.rs (those there are for C), from vp_read to vp_write. */
#include <stddef.h>
#include <stdint.h>
#ifdef VP_OWN_HEADERS
void *memcpy(void *dst, const void *src, size_t n) {
  for (size_t i = 0; i < n; i++) {
    ((volatile uint8_t *)dst)[i] = ((const uint8_t *)src)[i];
  }
  return dst;
}
void *memset(void *dst, int x, size_t n) {
  for (size_t i = 0; i < n; i++) {
    ((volatile uint8_t *)dst)[i] = (uint8_t)x;
  }
  return dst;
}
#endif
#include "c/baokeshed.c"

void baokeshed64_hash_many_portable(const uint8_t *const *inputs, size_t num_inputs, size_t blocks,
                                    const uint64_t key_words[4], uint64_t offset, const uint64_t *offset_deltas,
                                    uint8_t flags, uint8_t flags_start, uint8_t flags_end, uint8_t *out);
void baokeshed64_compress_portable(uint64_t state[4], const uint8_t *block, uint8_t block_len, uint64_t offset,
                                   uint8_t flags);

int vp_read(uint8_t *to, int n);
int vp_write(const uint8_t *from, int n);

#define MAX_DATA (1 << 21)
static uint8_t data[MAX_DATA];
static hasher hashers[16];

static uint64_t num(int bytes) {
  uint8_t b[8];
  uint64_t x = 0;
  vp_read(b, bytes);
  for (int i = bytes; i-- > 0;) {
    x = (x << 8) | b[i];
  }
  return x;
}

static uint64_t word(const uint8_t *p, int bytes) {
  uint64_t x = 0;
  for (int i = bytes; i-- > 0;) {
    x = (x << 8) | p[i];
  }
  return x;
}

static void put_word(uint64_t x, int bytes) {
  uint8_t b[8];
  for (int i = 0; i < bytes; i++) {
    b[i] = (uint8_t)(x >> (8 * i));
  }
  vp_write(b, bytes);
}

static void iv_bytes(uint8_t key[32]) {
  static const uint32_t words[8] = {0x6A09E667UL, 0xBB67AE85UL, 0x3C6EF372UL, 0xA54FF53AUL,
                                    0x510E527FUL, 0x9B05688CUL, 0x1F83D9ABUL, 0x5BE0CD19UL};
  for (int i = 0; i < 32; i++) {
    key[i] = (uint8_t)(words[i / 4] >> (8 * (i % 4)));
  }
}

static int bad(void) { return 1; }

int port_main(void) {
  for (;;) {
    switch (num(1)) {
    case 0:
      return 0;
    case 1: {
      uint8_t key[32];
      hasher *h = &hashers[num(1)];
      num(1);
      int mode = (int)num(1);
      vp_read(key, 32);
      if (mode == 0) {
        iv_bytes(key);
      }
      hasher_init(h, key, mode == 0 ? 0 : mode == 1 ? 16 : 32);
      break;
    }
    case 2: {
      hasher *h = &hashers[num(1)];
      size_t n = (size_t)num(4);
      if (n > MAX_DATA) {
        return bad();
      }
      vp_read(data, (int)n);
      hasher_update(h, data, n);
      break;
    }
    case 3: {
      uint8_t out[32];
      hasher *h = &hashers[num(1)];
      num(4);
      hasher_finalize(h, out);
      vp_write(out, 32);
      break;
    }
    case 9: {
      int a = (int)num(1);
      hashers[num(1)] = hashers[a];
      break;
    }
#ifndef VP_NO_FAST_FORWARD
    case 10: {
      hasher *h = &hashers[num(1)];
      uint64_t chunks = num(8);
      int n = (int)num(1);
      vp_read(h->subtree_hashes, n * 32);
      h->subtree_hashes_len = (uint8_t)n;
      chunk_state_reset(&h->chunk, chunks * CHUNK_LEN);
      break;
    }
#endif
    case 12: {
      uint8_t mark = 0xee;
      vp_write(&mark, 1);
      break;
    }
    case 13: {
      static const uint8_t *inputs[64];
      uint8_t key[32], out[64 * 32];
      uint64_t deltas[17];
      int wide = num(1) == 64;
      vp_read(key, 32);
      size_t nin = (size_t)num(4), bytes = (size_t)num(4);
      uint64_t off = num(8), delta = num(8);
      uint8_t f = (uint8_t)num(1), fs = (uint8_t)num(1), fe = (uint8_t)num(1);
      if (nin > 64 || nin * bytes > MAX_DATA) {
        return bad();
      }
      vp_read(data, (int)(nin * bytes));
      for (size_t i = 0; i < nin; i++) {
        inputs[i] = data + i * bytes;
      }
      for (int i = 0; i < 17; i++) {
        deltas[i] = delta * (uint64_t)i;
      }
      if (wide) {
        uint64_t words[4];
        for (int i = 0; i < 4; i++) {
          words[i] = word(key + 8 * i, 8);
        }
        baokeshed64_hash_many_portable(inputs, nin, bytes / 128, words, off, deltas, f, fs, fe, out);
      } else {
        uint32_t words[8];
        for (int i = 0; i < 8; i++) {
          words[i] = (uint32_t)word(key + 4 * i, 4);
        }
        hash_many_portable(inputs, nin, bytes / 64, words, off, deltas, f, fs, fe, out);
      }
      vp_write(out, (int)nin * 32);
      break;
    }
    case 14: {
      uint8_t cv[32], block[128];
      int wide = num(1) == 64;
      num(1);
      vp_read(cv, 32);
      uint8_t blen = (uint8_t)num(1);
      uint64_t off = num(8);
      uint8_t f = (uint8_t)num(1);
      vp_read(block, wide ? 128 : 64);
      if (wide) {
        uint64_t words[4];
        for (int i = 0; i < 4; i++) {
          words[i] = word(cv + 8 * i, 8);
        }
        baokeshed64_compress_portable(words, block, blen, off, f);
        for (int i = 0; i < 4; i++) {
          put_word(words[i], 8);
        }
      } else {
        uint32_t words[8];
        for (int i = 0; i < 8; i++) {
          words[i] = (uint32_t)word(cv + 4 * i, 4);
        }
        compress_portable(words, block, blen, off, f);
        for (int i = 0; i < 8; i++) {
          put_word(words[i], 4);
        }
      }
      break;
    }
    default:
      return bad();
    }
  }
}

#ifdef VP_FILES
/* (The numbers are those of the machine this runs on.) */
int open(const char *, int, ...);
long read(int, void *, size_t);
long write(int, const void *, size_t);
_Noreturn void _exit(int);
#define O_RDONLY 0
#define O_WRONLY 1
#define O_CREAT 0100
#define O_TRUNC 01000
static int in_fd, out_fd;
int vp_read(uint8_t *to, int n) {
  while (n > 0) {
    int k = (int)read(in_fd, to, (size_t)n);
    if (k <= 0) {
      _exit(3);
    }
    to += k;
    n -= k;
  }
  return 0;
}
int vp_write(const uint8_t *from, int n) { return (int)write(out_fd, from, (size_t)n); }
int main(int argc, char **argv) {
  (void)argc;
  in_fd = open(argv[1], O_RDONLY);
  out_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0666);
  return port_main();
}
#endif

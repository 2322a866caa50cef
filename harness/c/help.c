/* Message contents (see spec/Content.tla) and canaries for the drivers. */
#include <stddef.h>
#include <stdint.h>

void vp_fill(uint8_t *buf, size_t n, unsigned kind, uint64_t a, uint32_t b) {
  for (size_t i = 0; i < n; i++) {
    if (kind == 0) {
      buf[i] = 0;
    } else if (kind == 1) {
      buf[i] = 255;
    } else {
      uint64_t c = a % 65536;
      uint64_t sq = (b + c + kind) % 251;
      buf[i] = (uint8_t)(b * 31 + (b / 8) * 17 + c * 101 + (c / 64) * 7 + kind * 59 + sq * sq);
    }
    if (++b == 2048) {
      b = 0;
      a++;
    }
  }
}

/* Whether all n bytes have the value. */
int vp_all(const uint8_t *p, size_t n, unsigned value) {
  for (size_t i = 0; i < n; i++) {
    if (p[i] != value) return 0;
  }
  return 1;
}

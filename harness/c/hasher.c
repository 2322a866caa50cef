/* The C hasher together with what the driver has to know about its layout. */
#include "c/baokeshed.c"

size_t vp_sizeof_hasher(void) { return sizeof(hasher); }

#ifndef VP_NO_FAST_FORWARD
/* A fresh hasher as it is after a number of whole chunks, given the hashes of
   the maximal complete subtrees they make up (two at least), largest first. */
void vp_fast_forward(hasher *self, uint64_t chunks, const uint8_t *cvs, size_t n) {
  memcpy(self->subtree_hashes, cvs, n * OUT_LEN);
  self->subtree_hashes_len = (uint8_t)n;
  chunk_state_reset(&self->chunk, chunks * CHUNK_LEN);
}
#endif

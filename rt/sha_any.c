/* SHA-256 as a function with arbitrary output: every call returns arbitrary bytes (for properties of the conversion of a digest to a number). */
#include "egrt.h"
#include <stdlib.h>
struct shas { int x; };
uint8_t eg_last_digest[32];
struct shas *Hacl_Streaming_SHA2_create_in_256(void) { return (struct shas *)malloc(sizeof(struct shas)); }
void Hacl_Streaming_SHA2_init_256(struct shas *s) {}
void Hacl_Streaming_SHA2_update_256(struct shas *s, uint8_t *d, uint32_t n) {}
void Hacl_Streaming_SHA2_finish_256(struct shas *s, uint8_t *o) { eg_sym_bytes(o, 32, "digest"); for (int i = 0; i < 32; i++) eg_last_digest[i] = o[i]; }
void Hacl_Streaming_SHA2_free_256(struct shas *s) { free(s); }

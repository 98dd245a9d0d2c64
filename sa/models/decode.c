/*
 * What decoding does as seen from a handler (decided by C01-C05): it is called
 * any number of times with known fields, the first error ends the decoding.
 */
#include <protobluff/core/decoder.h>
#include <protobluff/core/descriptor.h>

extern int sa_more(const pb_decoder_t *decoder);
extern const pb_field_descriptor_t *sa_field(const pb_decoder_t *decoder);
extern const void *sa_value(const pb_decoder_t *decoder);
extern pb_error_t sa_end(const pb_decoder_t *decoder);

extern pb_error_t
sa_decode(
    const pb_decoder_t *decoder, pb_decoder_handler_f handler, void *user) {
  while (sa_more(decoder)) {
    const pb_field_descriptor_t *field = sa_field(decoder);
    pb_error_t error = handler(field, sa_value(decoder), user);
    if (error)
      return error;
  }
  return sa_end(decoder);
}

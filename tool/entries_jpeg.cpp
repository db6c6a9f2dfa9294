// Analysis root for the JPEG reader (separate unit: needs jpeglib.h).
#include <cstdio>
#include <cstddef>
#include <cstdint>
#include "pico-cnn/parameters.h"
#include "pico-cnn/io/read_jpeg.h"
extern "C" int32_t E_io__jpeg(fp_t ***im, const char *p, fp_t lo, fp_t hi, uint16_t *h, uint16_t *w) {
  return read_jpeg(im, p, lo, hi, h, w);
}
// Layout of the library's structure, read off as constants by the analysis.
typedef struct jpeg_decompress_struct jds;
extern "C" uint64_t E_joff__output_width() { return offsetof(jds, output_width); }
extern "C" uint64_t E_joff__output_height() { return offsetof(jds, output_height); }
extern "C" uint64_t E_joff__output_components() { return offsetof(jds, output_components); }
extern "C" uint64_t E_joff__out_color_components() { return offsetof(jds, out_color_components); }
extern "C" uint64_t E_joff__output_scanline() { return offsetof(jds, output_scanline); }
extern "C" uint64_t E_joff__image_width() { return offsetof(jds, image_width); }
extern "C" uint64_t E_joff__image_height() { return offsetof(jds, image_height); }
extern "C" uint64_t E_joff__num_components() { return offsetof(jds, num_components); }
extern "C" uint64_t E_joff__out_color_space() { return offsetof(jds, out_color_space); }
extern "C" uint64_t E_joff__jpeg_color_space() { return offsetof(jds, jpeg_color_space); }
extern "C" uint64_t E_joff__mem() { return offsetof(jds, mem); }
extern "C" uint64_t E_joff__alloc_sarray() { return offsetof(struct jpeg_memory_mgr, alloc_sarray); }
extern "C" uint64_t E_joff__memsize() { return sizeof(struct jpeg_memory_mgr); }

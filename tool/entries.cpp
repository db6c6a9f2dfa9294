// Analysis roots.  Never executed: each function exists so that the static
// analyser sees one API-level use of the library with everything inlined
// (constructor, run, destructor).  Names: E_<Class>__<mode>.
#include <string>
#include "pico-cnn/parameters.h"
#include "pico-cnn/utils.h"
#include "pico-cnn/tensor.h"
#include "pico-cnn/layers/layer.h"
#include "pico-cnn/layers/convolution.h"
#include "pico-cnn/layers/batch_normalization.h"
#include "pico-cnn/layers/fully_connected.h"
#include "pico-cnn/layers/activation_functions/activation_function.h"
#include "pico-cnn/layers/activation_functions/clip.h"
#include "pico-cnn/layers/activation_functions/lrn.h"
#include "pico-cnn/layers/activation_functions/relu.h"
#include "pico-cnn/layers/activation_functions/sigmoid.h"
#include "pico-cnn/layers/activation_functions/softmax.h"
#include "pico-cnn/layers/activation_functions/tan_h.h"
#include "pico-cnn/layers/pooling/pooling.h"
#include "pico-cnn/layers/pooling/max_pooling.h"
#include "pico-cnn/layers/pooling/average_pooling.h"
#include "pico-cnn/layers/pooling/global_max_pooling.h"
#include "pico-cnn/layers/pooling/global_average_pooling.h"
#include "pico-cnn/io/read_binary_weights.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/write_pgm.h"

using namespace pico_cnn;
using namespace pico_cnn::naive;
typedef const std::string &S;
typedef uint32_t u32;

// Each layer is analysed twice: one run, and two consecutive runs on one
// object (history independence).
#define TWO(CLS, ARGS, ...)                                                    \
  extern "C" void E_##CLS##__one(S name ARGS, Tensor *in, Tensor *out) {       \
    CLS l(name, 0, op_type::Unknown __VA_ARGS__);                              \
    l.run(in, out);                                                            \
  }                                                                            \
  extern "C" void E_##CLS##__two(S name ARGS, Tensor *in, Tensor *out,         \
                                 Tensor *in2, Tensor *out2) {                  \
    CLS l(name, 0, op_type::Unknown __VA_ARGS__);                              \
    l.run(in, out);                                                            \
    l.run(in2, out2);                                                          \
  }                                                                            \
  extern "C" void E_##CLS##__many(S name ARGS, Tensor *in, Tensor *out,        \
                                  Tensor *in2, Tensor *out2) {                 \
    CLS l(name, 0, op_type::Unknown __VA_ARGS__);                              \
    for (int i = 0; i < 5; i++) l.run(in, out);                                \
    l.run(in2, out2);                                                          \
  }
#define C_ ,
TWO(Convolution, C_ Tensor *kernel C_ Tensor *bias C_ u32 *padding C_ u32 *stride C_ u32 groups,
    , kernel, bias, padding, stride, groups)
TWO(MaxPooling, C_ u32 *kernel_size C_ u32 *stride C_ u32 *padding, , kernel_size, stride, padding)
TWO(AveragePooling, C_ u32 *kernel_size C_ u32 *stride C_ u32 *padding C_ bool include_pad,
    , kernel_size, stride, padding, include_pad)
TWO(GlobalMaxPooling, , , nullptr, nullptr, nullptr)
TWO(GlobalAveragePooling, , , nullptr, nullptr, nullptr)
TWO(BatchNormalization, C_ Tensor *gammas C_ Tensor *betas C_ Tensor *means C_ Tensor *variances C_ fp_t epsilon,
    , gammas, betas, means, variances, epsilon)
TWO(FullyConnected, C_ Tensor *kernel C_ Tensor *bias, , kernel, bias)
TWO(MatMul, C_ Tensor *weights, , weights)
TWO(ActivationFunction, , )
TWO(Clip, C_ fp_t lo C_ fp_t hi, , lo, hi)
TWO(LRN, C_ fp_t alpha C_ fp_t beta C_ uint16_t n, , alpha, beta, n)
TWO(ReLU, , )
TWO(LeakyReLU, C_ fp_t leak, , leak)
TWO(ParameterizedReLU, C_ Tensor *slope, , slope)
TWO(Sigmoid, , )
TWO(Softmax, , )
TWO(TanH, , )

// Ownership of configuration: the caller's arrays are reused for something
// else right after construction.
static inline void clobber(u32 *p, u32 n) {
  if (p)
    for (u32 i = 0; i < n; i++) p[i] = 77 + i;
}
extern "C" void E_Convolution__cfg(S name, Tensor *kernel, Tensor *bias, u32 *padding, u32 *stride, u32 groups, Tensor *in, Tensor *out) {
  Convolution l(name, 0, op_type::Unknown, kernel, bias, padding, stride, groups);
  clobber(padding, 4);
  clobber(stride, 2);
  l.run(in, out);
}
extern "C" void E_MaxPooling__cfg(S name, u32 *kernel_size, u32 *stride, u32 *padding, Tensor *in, Tensor *out) {
  MaxPooling l(name, 0, op_type::Unknown, kernel_size, stride, padding);
  clobber(padding, 4);
  clobber(stride, 2);
  clobber(kernel_size, 2);
  l.run(in, out);
}
extern "C" void E_AveragePooling__cfg(S name, u32 *kernel_size, u32 *stride, u32 *padding, bool include_pad, Tensor *in, Tensor *out) {
  AveragePooling l(name, 0, op_type::Unknown, kernel_size, stride, padding, include_pad);
  clobber(padding, 4);
  clobber(stride, 2);
  clobber(kernel_size, 2);
  l.run(in, out);
}

// Parameters loaded after construction, and loaded anew between two runs.
static inline void load(Tensor *t, Tensor *from) {
  if (t)
    for (u32 i = 0; i < from->num_elements(); i++) t->access_blob(i) = from->access_blob(i);
}
#define LATE(CLS, ARGS, LOAD, ...)                                             \
  extern "C" void E_##CLS##__late(S name ARGS, Tensor *in, Tensor *out,        \
                                  Tensor *in2, Tensor *out2) {                 \
    CLS l(name, 0, op_type::Unknown __VA_ARGS__);                              \
    l.run(in, out);                                                            \
    LOAD                                                                       \
    l.run(in2, out2);                                                          \
  }
LATE(Convolution, C_ Tensor *kernel C_ Tensor *bias C_ u32 *padding C_ u32 *stride C_ u32 groups C_ Tensor *kernel2 C_ Tensor *bias2,
     load(kernel, kernel2); load(bias, bias2);, , kernel, bias, padding, stride, groups)
LATE(BatchNormalization, C_ Tensor *gammas C_ Tensor *betas C_ Tensor *means C_ Tensor *variances C_ fp_t epsilon C_ Tensor *gammas2
     C_ Tensor *betas2 C_ Tensor *means2 C_ Tensor *variances2,
     load(gammas, gammas2); load(betas, betas2); load(means, means2); load(variances, variances2);, , gammas, betas, means, variances, epsilon)
LATE(FullyConnected, C_ Tensor *kernel C_ Tensor *bias C_ Tensor *kernel2 C_ Tensor *bias2, load(kernel, kernel2); load(bias, bias2);, , kernel, bias)
LATE(MatMul, C_ Tensor *weights C_ Tensor *weights2, load(weights, weights2);, , weights)
LATE(ParameterizedReLU, C_ Tensor *slope C_ Tensor *slope2, load(slope, slope2);, , slope)

extern "C" void E_Layer__name(Layer *l, std::string *out) { *out = l->name(); }
extern "C" u32 E_Layer__id(Layer *l) { return l->id(); }
extern "C" op_type E_Layer__op(Layer *l) { return l->op(); }
extern "C" u32 E_ReLU__ctor_id(S name, u32 id, op_type op) { ReLU l(name, id, op); return reinterpret_cast<Layer *>(&l)->id(); }
extern "C" op_type E_ReLU__ctor_op(S name, u32 id, op_type op) { ReLU l(name, id, op); return reinterpret_cast<Layer *>(&l)->op(); }

// Tensor API
extern "C" Tensor *E_Tensor__new1(u32 a) { return new Tensor(a); }
extern "C" Tensor *E_Tensor__new2(u32 a, u32 b) { return new Tensor(a, b); }
extern "C" Tensor *E_Tensor__new3(u32 a, u32 b, u32 c) { return new Tensor(a, b, c); }
extern "C" Tensor *E_Tensor__new4(u32 a, u32 b, u32 c, u32 d) { return new Tensor(a, b, c, d); }
extern "C" void E_Tensor__delete(Tensor *t) { delete t; }
extern "C" void E_Tensor__life4(u32 a, u32 b, u32 c, u32 d) { Tensor t(a, b, c, d); }
extern "C" void E_Tensor__life1(u32 a) { Tensor t(a); }
extern "C" void E_Tensor__life2(u32 a, u32 b) { Tensor t(a, b); }
extern "C" void E_Tensor__life3(u32 a, u32 b, u32 c) { Tensor t(a, b, c); }
extern "C" fp_t *E_Tensor__acc1(Tensor *t, u32 a) { return &t->access(a); }
extern "C" fp_t *E_Tensor__acc2(Tensor *t, u32 a, u32 b, u32 w) { return &t->access(a, b, w); }
extern "C" fp_t *E_Tensor__acc3(Tensor *t, u32 a, u32 b, u32 c, u32 ch, u32 w) { return &t->access(a, b, c, ch, w); }
extern "C" fp_t *E_Tensor__acc4(Tensor *t, u32 a, u32 b, u32 c, u32 d, u32 ch, u32 h, u32 w) {
  return &t->access(a, b, c, d, ch, h, w);
}
extern "C" fp_t *E_Tensor__blob(Tensor *t, u32 a) { return &t->access_blob(a); }
extern "C" fp_t *E_Tensor__chan(Tensor *t, u32 b, u32 c) { return t->get_ptr_to_channel(b, c); }
extern "C" u32 E_Tensor__size_bytes(Tensor *t) { return t->size_bytes(); }
extern "C" u32 E_Tensor__num_elements(Tensor *t) { return t->num_elements(); }
extern "C" u32 E_Tensor__num_dimensions(Tensor *t) { return t->num_dimensions(); }
extern "C" u32 E_Tensor__num_batches(Tensor *t) { return t->num_batches(); }
extern "C" u32 E_Tensor__num_channels(Tensor *t) { return t->num_channels(); }
extern "C" u32 E_Tensor__height(Tensor *t) { return t->height(); }
extern "C" u32 E_Tensor__width(Tensor *t) { return t->width(); }
extern "C" Tensor *E_Tensor__expand(Tensor *t, u32 *padding, fp_t init) { return t->expand_with_padding(padding, init); }
extern "C" Tensor *E_Tensor__expand0(Tensor *t, u32 *padding) { return t->expand_with_padding(padding); }
extern "C" Tensor *E_Tensor__copy_pad(Tensor *t, Tensor *dest, u32 *padding, fp_t init) {
  return t->copy_with_padding_into(dest, padding, init);
}
extern "C" void E_Tensor__copy(Tensor *t, Tensor *dest) { t->copy_data_into(dest); }
extern "C" void E_Tensor__concat(Tensor *dest, u32 n, Tensor **inputs, u32 dim) { dest->concatenate_from(n, inputs, dim); }
extern "C" void E_Tensor__concat2(Tensor *dest, Tensor *a, Tensor *b, u32 dim) {
  Tensor *inputs[2] = {a, b};
  dest->concatenate_from(2, inputs, dim);
}
extern "C" bool E_Tensor__add(Tensor *t, Tensor *o) { return t->add_tensor(o); }
extern "C" bool E_Tensor__addch(Tensor *t, Tensor *o, u32 b, u32 c) { return t->add_channel(o, b, c); }
extern "C" void E_Tensor__mul(Tensor *t, Tensor *o, fp_t f) { t->mul_with_factor(o, f); }
extern "C" bool E_Tensor__eq(Tensor *a, Tensor *b) { return *a == *b; }
extern "C" bool E_utils__fp_eq(fp_t a, fp_t b) { return fp_t_eq(a, b); }

extern "C" void E_Tensor__print(Tensor *t) { std::cout << *t; }

// IO
extern "C" int32_t E_io__weights(const char *p, Tensor ***k, Tensor ***b) { return read_binary_weights(p, k, b); }
extern "C" int32_t E_io__refin(const char *p, Tensor **t) { return read_binary_reference_input_data(p, t); }
extern "C" int32_t E_io__refout(const char *p, Tensor **t) { return read_binary_reference_output_data(p, t); }
extern "C" int32_t E_io__labels(const char *p, char ***l, u32 n) { return read_imagenet_labels(p, l, n); }
extern "C" int32_t E_io__vallabels(const char *p, u32 **l, u32 n) { return read_imagenet_validation_labels(p, l, n); }
extern "C" int32_t E_io__means(const char *p, fp_t *m) { return read_means(p, m); }
extern "C" u32 E_io__endian(u32 v) { return change_endianess(v); }
extern "C" u32 E_io__mnist_images(const char *p, fp_t ***im, u32 n, uint8_t pad, fp_t lo, fp_t hi) {
  return read_mnist_images(p, im, n, pad, lo, hi);
}
extern "C" u32 E_io__mnist_labels(const char *p, uint8_t **l, u32 n) { return read_mnist_labels(p, l, n); }
extern "C" int32_t E_io__read_pgm(fp_t **im, const char *p, uint8_t pad, fp_t lo, fp_t hi, uint16_t *h, uint16_t *w) {
  return read_pgm(im, p, pad, lo, hi, h, w);
}
extern "C" int32_t E_io__write_float(const fp_t *im, uint16_t h, uint16_t w, const char *p) { return write_float(im, h, w, p); }
extern "C" int32_t E_io__write_pgm(const fp_t *im, uint16_t h, uint16_t w, const char *p) { return write_pgm(im, h, w, p); }

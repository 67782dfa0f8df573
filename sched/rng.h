// Force-included when compiling the extension modules for the "rng" variant: the C++ random
// distributions consult a script set from Python, so every outcome of a sampler can be enumerated.
// Without a script they behave as the standard ones.
#ifndef VP_RNG_H_
#define VP_RNG_H_
#ifdef __cplusplus
#include <random>
#include <cstddef>
extern "C" {
__attribute__((visibility("default"), used)) long *vp_script = nullptr;
__attribute__((visibility("default"), used)) long vp_script_len = -1;   // -1: not scripted
__attribute__((visibility("default"), used)) long vp_script_pos = 0;
__attribute__((visibility("default"), used)) long vp_arity[4096];
__attribute__((visibility("default"), used)) void vp_rng_set(long *s, long n) {
  vp_script = s;
  vp_script_len = n;
  vp_script_pos = 0;
}
__attribute__((visibility("default"), used)) long vp_rng_pos() { return vp_script_pos; }
__attribute__((visibility("default"), used)) long *vp_rng_arity() { return vp_arity; }
}
namespace std {
template <class T> struct vp_uniform_int_distribution : public uniform_int_distribution<T> {
  typedef uniform_int_distribution<T> base;
  vp_uniform_int_distribution(T a = 0, T b = 0) : base(a, b < a ? a : b) {}
  template <class G> T operator()(G &g) {
    if (vp_script_len < 0) return base::operator()(g);
    long k = vp_script_pos++;
    long range = (long)(this->b() - this->a()) + 1;
    if (k < 4096) vp_arity[k] = range;
    long v = k < vp_script_len ? vp_script[k] : 0;
    return this->a() + (T)(v % range);
  }
};
} // namespace std
#define uniform_int_distribution vp_uniform_int_distribution
#endif
#endif

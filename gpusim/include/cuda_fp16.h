#ifndef GPUSIM_FP16_H_
#define GPUSIM_FP16_H_
struct half {
  unsigned short bits;
  half() {}
  half(float) : bits(0) {}
};
typedef half __half;
#endif

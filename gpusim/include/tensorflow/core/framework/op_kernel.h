// The part of the TensorFlow op interface the ops use, on simulated memory.
#ifndef GPUSIM_TF_H_
#define GPUSIM_TF_H_
#include <stdint.h>

#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "cuda_runtime.h"

#define TF_PREDICT_TRUE(x) (x)
#define TF_PREDICT_FALSE(x) (x)

struct GpusimBuf;
extern "C" {
GpusimBuf* gpusim_new(int kind, size_t bytes, const char* name);
void gpusim_ref(GpusimBuf*);
void gpusim_unref(GpusimBuf*);
void* gpusim_data(GpusimBuf*);
[[noreturn]] void gpusim_violation(const char* kind, const char* msg);
int gpusim_alloc_fails(size_t bytes);
const cudaStream_t& gpusim_stream_ref();
}

namespace Eigen {
struct GpuDevice {
  const cudaStream_t& stream() const { return gpusim_stream_ref(); }
};
}  // namespace Eigen

namespace tensorflow {
typedef long long int64;
typedef int int32;
typedef std::string string;
template <class T> struct Tpl {};

class Status {
 public:
  Status() : code_(0) {}
  Status(int code, std::string msg) : code_(code), msg_(std::move(msg)) {}
  static Status OK() { return Status(); }
  bool ok() const { return code_ == 0; }
  int code() const { return code_; }
  const std::string& error_message() const { return msg_; }
  std::string ToString() const { return msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
 private:
  int code_;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }

namespace errors {
inline std::string text(const std::string& s) { return s; }
inline std::string text(const char* s) { return s; }
template <class T> std::string text(T v) { return std::to_string(v); }
template <class... A> std::string cat(A... a) {
  std::string r;
  int dummy[] = {0, (r += text(a), 0)...};
  (void)dummy;
  return r;
}
#define GPUSIM_ERR(NAME, CODE)                                \
  template <class... A> Status NAME(A... a) {                 \
    return Status(CODE, cat(a...));                           \
  }
GPUSIM_ERR(InvalidArgument, 3)
GPUSIM_ERR(NotFound, 5)
GPUSIM_ERR(ResourceExhausted, 8)
GPUSIM_ERR(FailedPrecondition, 9)
GPUSIM_ERR(Aborted, 10)
GPUSIM_ERR(OutOfRange, 11)
GPUSIM_ERR(Unimplemented, 12)
GPUSIM_ERR(Internal, 13)
GPUSIM_ERR(Unavailable, 14)
GPUSIM_ERR(Unknown, 2)
}  // namespace errors
namespace error {
enum Code { OK = 0, INVALID_ARGUMENT = 3, RESOURCE_EXHAUSTED = 8, INTERNAL = 13 };
}

enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3,
                DT_INT64 = 9, DT_BOOL = 10 };
template <class T> struct DataTypeToEnum;
template <> struct DataTypeToEnum<float> { static constexpr DataType value = DT_FLOAT; static DataType v() { return value; } };
template <> struct DataTypeToEnum<double> { static constexpr DataType value = DT_DOUBLE; static DataType v() { return value; } };
template <> struct DataTypeToEnum<int> { static constexpr DataType value = DT_INT32; static DataType v() { return value; } };
template <> struct DataTypeToEnum<long long> { static constexpr DataType value = DT_INT64; static DataType v() { return value; } };
template <> struct DataTypeToEnum<bool> { static constexpr DataType value = DT_BOOL; static DataType v() { return value; } };
inline size_t DataTypeSize(DataType t) {
  return t == DT_DOUBLE || t == DT_INT64 ? 8 : t == DT_BOOL ? 1 : 4;
}

// TensorShape{a, b} takes any integers.  Narrowing inside the braces is an
// error for long long only where the original compiler would also complain, so
// a templated pack is used instead of an initializer_list.
class TensorShape {
 public:
  TensorShape() {}
  explicit TensorShape(const std::vector<int64>& d) : d_(d) { check(); }
  TensorShape(std::initializer_list<int64> d) : d_(d) { check(); }
  template <class... A, class = typename std::enable_if<
      (sizeof...(A) > 0) && (std::is_integral<A>::value && ...)>::type>
  TensorShape(A... a) : d_{(int64)a...} { check(); }
  int dims() const { return (int)d_.size(); }
  int64 dim_size(int i) const {
    if (i < 0 || i >= dims())
      gpusim_violation("check-failed", "dimension of a tensor that it has not");
    return d_[i];
  }
  int64 num_elements() const { int64 n = 1; for (auto x : d_) n *= x; return n; }
  void AddDim(int64 n) { d_.push_back(n); check(); }
  void set_dim(int i, int64 n) { d_[i] = n; check(); }
  const std::vector<int64>& raw() const { return d_; }
  std::string DebugString() const { return "shape"; }
 private:
  void check() {
    for (auto x : d_)
      if (x < 0) gpusim_violation("check-failed", "negative tensor dimension");
  }
  std::vector<int64> d_;
};

template <class T> struct FlatMap {
  T* p;
  int64 n;
  T& operator()(int64 i) const { return p[i]; }
  T* data() const { return p; }
  int64 size() const { return n; }
};

class Tensor {
 public:
  Tensor() {}
  Tensor(DataType t, const TensorShape& s, GpusimBuf* b) : t_(t), s_(s), b_(b) {}
  Tensor(const Tensor& o) : t_(o.t_), s_(o.s_), b_(o.b_) { if (b_) gpusim_ref(b_); }
  Tensor& operator=(const Tensor& o) {
    if (o.b_) gpusim_ref(o.b_);
    if (b_) gpusim_unref(b_);
    t_ = o.t_; s_ = o.s_; b_ = o.b_;
    return *this;
  }
  ~Tensor() { if (b_) gpusim_unref(b_); }
  DataType dtype() const { return t_; }
  const TensorShape& shape() const { alive(); return s_; }
  int dims() const { alive(); return s_.dims(); }
  int64 dim_size(int i) const { alive(); return s_.dim_size(i); }
  int64 NumElements() const { alive(); return s_.num_elements(); }
  size_t TotalBytes() const { return NumElements() * DataTypeSize(t_); }
  bool IsInitialized() const { return b_ != nullptr; }
  template <class T> FlatMap<T> flat() { return map<T>(); }
  template <class T> FlatMap<const T> flat() const { return map<const T>(); }
  template <class T> FlatMap<T> vec() { return map<T>(); }
  template <class T> FlatMap<const T> vec() const { return map<const T>(); }
  GpusimBuf* buf() const { return b_; }
 private:
  void alive() const {
    if (this == nullptr) gpusim_violation("null-tensor", "a tensor that was "
        "not allocated is used");
  }
  template <class T> FlatMap<T> map() const {
    alive();
    typedef typename std::remove_const<T>::type U;
    if (DataTypeToEnum<U>::value != t_)
      gpusim_violation("check-failed", "tensor used with another type");
    return FlatMap<T>{(T*)(b_ ? gpusim_data(b_) : nullptr), s_.num_elements()};
  }
  DataType t_ = DT_INVALID;
  TensorShape s_;
  GpusimBuf* b_ = nullptr;
};

class AllocatorAttributes {
 public:
  void set_on_host(bool v) { host = v; }
  void set_gpu_compatible(bool v) { pinned = v; }
  void set_nic_compatible(bool) {}
  bool host = false, pinned = false;
};

struct AttrSet { std::map<std::string, int64> ints; };

class OpKernelConstruction {
 public:
  explicit OpKernelConstruction(const AttrSet& a) : attrs(a) {}
  template <class T> Status GetAttr(const char* name, T* v) const {
    auto it = attrs.ints.find(name);
    if (it == attrs.ints.end()) return errors::NotFound("no attribute ", name);
    *v = (T)it->second;
    return Status();
  }
  void CtxFailure(const Status& s) { status.Update(s); }
  void CtxFailure(const char*, int, const Status& s) { status.Update(s); }
  void SetStatus(const Status& s) { status.Update(s); }
  AttrSet attrs;
  Status status;
};

class OpKernelContext {
 public:
  std::vector<Tensor> inputs;
  std::vector<std::unique_ptr<Tensor>> outputs;
  std::vector<DataType> out_types;
  std::vector<int> out_host;
  Status status_;
  Eigen::GpuDevice device_;
  const Tensor& input(int i) {
    if (i < 0 || i >= (int)inputs.size())
      gpusim_violation("check-failed", "input index");
    return inputs[i];
  }
  int num_inputs() const { return (int)inputs.size(); }
  int num_outputs() const { return (int)outputs.size(); }
  Status allocate_output(int i, const TensorShape& s, Tensor** t) {
    if (i < 0 || i >= (int)outputs.size())
      gpusim_violation("check-failed", "output index");
    size_t bytes = (size_t)s.num_elements() * DataTypeSize(out_types[i]);
    if (gpusim_alloc_fails(bytes)) {
      return errors::ResourceExhausted("OOM when allocating output ", i);
    }
    std::string name = "output " + std::to_string(i);
    outputs[i].reset(new Tensor(out_types[i], s,
        gpusim_new(out_host[i] ? 2 : 0, bytes, name.c_str())));
    *t = outputs[i].get();
    return Status();
  }
  Status allocate_temp(DataType t, const TensorShape& s, Tensor* out,
                       AllocatorAttributes a = AllocatorAttributes()) {
    size_t bytes = (size_t)s.num_elements() * DataTypeSize(t);
    if (gpusim_alloc_fails(bytes))
      return errors::ResourceExhausted("OOM when allocating temporary memory");
    *out = Tensor(t, s, gpusim_new(a.host ? 1 : 0, bytes,
        a.host ? "host temporary" : "device temporary"));
    return Status();
  }
  Tensor* mutable_output(int i) { return outputs[i].get(); }
  void set_output(int i, const Tensor& t) { outputs[i].reset(new Tensor(t)); }
  template <class D> const D& eigen_device() const { return device_; }
  const Eigen::GpuDevice& eigen_gpu_device() const { return device_; }
  void CtxFailure(const Status& s) { status_.Update(s); }
  void CtxFailure(const char*, int, const Status& s) { status_.Update(s); }
  void SetStatus(const Status& s) { status_.Update(s); }
  const Status& status() const { return status_; }
};

class OpKernel {
 public:
  explicit OpKernel(OpKernelConstruction*) {}
  virtual ~OpKernel() {}
  virtual void Compute(OpKernelContext*) = 0;
};

#define OP_REQUIRES(CTX, EXP, STATUS)      \
  do {                                     \
    if (!(EXP)) {                          \
      (CTX)->CtxFailure((STATUS));         \
      return;                              \
    }                                      \
  } while (0)
#define OP_REQUIRES_OK(CTX, ...)                          \
  do {                                                    \
    ::tensorflow::Status _s(__VA_ARGS__);                 \
    if (!_s.ok()) {                                       \
      (CTX)->CtxFailure(_s);                              \
      return;                                             \
    }                                                     \
  } while (0)
#define TF_RETURN_IF_ERROR(...)                           \
  do {                                                    \
    ::tensorflow::Status _s(__VA_ARGS__);                 \
    if (!_s.ok()) return _s;                              \
  } while (0)

namespace shape_inference {
struct DimensionHandle { int64 v; };
struct DimensionOrConstant {
  int64 v;
  DimensionOrConstant(DimensionHandle h) : v(h.v) {}
  template <class T, class = typename std::enable_if<
      std::is_integral<T>::value>::type>
  DimensionOrConstant(T c) : v((int64)c) {}
};
struct ShapeHandle { bool known = false; std::vector<int64> d; };
class InferenceContext {
 public:
  std::vector<ShapeHandle> in, out;
  AttrSet attrs;
  ShapeHandle input(int i) const { return in.at(i); }
  DimensionHandle Dim(const ShapeHandle& s, int i) const {
    if (!s.known) return {-1};
    if (i < 0) i += (int)s.d.size();
    if (i < 0 || i >= (int)s.d.size())
      gpusim_violation("check-failed", "shape function reads a dimension that "
                       "the input has not");
    return {s.d[i]};
  }
  bool RankKnown(const ShapeHandle& s) const { return s.known; }
  int Rank(const ShapeHandle& s) const { return s.known ? (int)s.d.size() : -1; }
  Status WithRank(const ShapeHandle& s, int64 rank, ShapeHandle* out) const {
    *out = s;
    if (s.known) {
      if ((int64)s.d.size() != rank)
        return errors::InvalidArgument("Shape must be rank ", rank,
                                       " but is rank ", (int)s.d.size());
      return Status();
    }
    out->known = true;
    out->d.assign(rank, -1);
    return Status();
  }
  Status WithRankAtLeast(const ShapeHandle& s, int64 rank, ShapeHandle* out) const {
    *out = s;
    if (s.known && (int64)s.d.size() < rank)
      return errors::InvalidArgument("Shape must be at least rank ", rank);
    return Status();
  }
  ShapeHandle MakeShape(std::initializer_list<DimensionOrConstant> l) const {
    ShapeHandle s;
    s.known = true;
    for (auto& x : l) s.d.push_back(x.v);
    return s;
  }
  ShapeHandle Vector(DimensionOrConstant a) const { return MakeShape({a}); }
  ShapeHandle UnknownShape() const { return ShapeHandle(); }
  DimensionHandle UnknownDim() const { return {-1}; }
  DimensionHandle MakeDim(DimensionOrConstant a) const { return {a.v}; }
  void set_output(int i, const ShapeHandle& s) {
    if (i >= (int)out.size()) out.resize(i + 1);
    out[i] = s;
  }
  template <class T> Status GetAttr(const char* name, T* v) const {
    auto it = attrs.ints.find(name);
    if (it == attrs.ints.end()) return errors::NotFound("no attribute ", name);
    *v = (T)it->second;
    return Status();
  }
};
}  // namespace shape_inference

struct OpDefn {
  std::string name;
  std::vector<std::string> inputs, outputs, attrs;
  std::function<Status(shape_inference::InferenceContext*)> shape_fn;
};
struct KernelDefn {
  std::string name, device;
  std::vector<std::string> host;
  std::function<OpKernel*(OpKernelConstruction*)> make;
};
std::map<std::string, OpDefn>& op_registry();
std::map<std::string, KernelDefn>& kernel_registry();

struct OpDefBuilder {
  OpDefn d;
  explicit OpDefBuilder(const char* n) { d.name = n; }
  OpDefBuilder& Input(const char* s) { d.inputs.push_back(s); return *this; }
  OpDefBuilder& Output(const char* s) { d.outputs.push_back(s); return *this; }
  OpDefBuilder& Attr(const char* s) { d.attrs.push_back(s); return *this; }
  OpDefBuilder& Doc(const char*) { return *this; }
  OpDefBuilder& SetIsStateful() { return *this; }
  template <class F> OpDefBuilder& SetShapeFn(F f) { d.shape_fn = f; return *this; }
};
struct OpReceiver {
  OpReceiver(const OpDefBuilder& b) { op_registry()[b.d.name] = b.d; }
};
constexpr const char* DEVICE_GPU = "GPU";
constexpr const char* DEVICE_CPU = "CPU";
struct Name {
  KernelDefn d;
  explicit Name(const char* n) { d.name = n; }
  Name& Device(const char* s) { d.device = s; return *this; }
  Name& HostMemory(const char* s) { d.host.push_back(s); return *this; }
  template <class T> Name& TypeConstraint(const char*) { return *this; }
};
template <class K> struct KernelReceiver {
  KernelReceiver(Name n) {
    n.d.make = [](OpKernelConstruction* c) -> OpKernel* { return new K(c); };
    if (n.d.device == "GPU") kernel_registry()[n.d.name] = n.d;
  }
};
#define GPUSIM_CAT2(a, b) a##b
#define GPUSIM_CAT(a, b) GPUSIM_CAT2(a, b)
#define REGISTER_OP(name)                                                  \
  static ::tensorflow::OpReceiver GPUSIM_CAT(gpusim_op_, __COUNTER__) =    \
      ::tensorflow::OpDefBuilder(name)
#define REGISTER_KERNEL_BUILDER(b, ...)                                    \
  static ::tensorflow::KernelReceiver<__VA_ARGS__> GPUSIM_CAT(             \
      gpusim_kernel_, __COUNTER__)(::tensorflow::b)
}  // namespace tensorflow
#endif

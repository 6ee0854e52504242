// A small stand-in for the parts of the TensorFlow kernel interface that the custom
// operations use, so that their sources can be compiled to analysable LLVM IR.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" [[noreturn]] void tfv_check_failed();

namespace tensorflow {
using int8 = int8_t; using int16 = int16_t; using int32 = int32_t;
using uint8 = uint8_t; using uint16 = uint16_t; using uint32 = uint32_t;
using int64 = long long; using uint64 = unsigned long long;

struct Sink { template <class T> Sink &operator<<(const T &) { return *this; } };
struct Fatal : Sink { [[noreturn]] ~Fatal() { tfv_check_failed(); } };

enum DataType { DT_INVALID, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3, DT_UINT8 = 4, DT_INT16 = 5,
                DT_INT8 = 6, DT_STRING = 7, DT_INT64 = 9, DT_BOOL = 10, DT_UINT64 = 23 };
template <class T> struct DataTypeToEnum;
#define TFV_DT(T, E) template <> struct DataTypeToEnum<T> { static constexpr DataType value = E; static constexpr DataType v() { return E; } };
TFV_DT(float, DT_FLOAT) TFV_DT(double, DT_DOUBLE) TFV_DT(int32_t, DT_INT32) TFV_DT(int16_t, DT_INT16)
TFV_DT(int8_t, DT_INT8) TFV_DT(long long, DT_INT64) TFV_DT(long, DT_INT64) TFV_DT(bool, DT_BOOL) TFV_DT(unsigned long long, DT_UINT64)
inline int DataTypeSize(DataType d) {
  switch (d) { case DT_INT8: case DT_UINT8: case DT_BOOL: return 1; case DT_INT16: return 2;
               case DT_FLOAT: case DT_INT32: return 4; default: return 8; }
}
enum { DEVICE_CPU };

class Status {
  bool ok_;
public:
  explicit Status(bool o = true) : ok_(o) {}
  static Status OK() { return Status(true); }
  bool ok() const { return ok_; }
};
inline Status OkStatus() { return Status(); }
namespace errors {
template <class... A> Status InvalidArgument(const A &...) { return Status(false); }
template <class... A> Status Internal(const A &...) { return Status(false); }
template <class... A> Status Unimplemented(const A &...) { return Status(false); }
template <class... A> Status FailedPrecondition(const A &...) { return Status(false); }
}  // namespace errors

class TensorShape {
  int64 d_[10]; int n_;
public:
  TensorShape() : n_(0) {}
  TensorShape(std::initializer_list<int64> l) : n_(0) { for (auto x : l) d_[n_++] = x; }
  int dims() const { return n_; }
  int64 dim_size(int i) const { if (i < 0 || i >= n_) tfv_check_failed(); return d_[i]; }
  void set_dim(int i, int64 v) { if (i < 0 || i >= n_) tfv_check_failed(); d_[i] = v; }
  void AddDim(int64 v) { d_[n_++] = v; }
  void InsertDim(int p, int64 v) { for (int i = n_; i > p; --i) d_[i] = d_[i - 1]; d_[p] = v; n_++; }
  void RemoveDim(int p) { if (p < 0 || p >= n_) tfv_check_failed(); for (int i = p; i + 1 < n_; ++i) d_[i] = d_[i + 1]; n_--; }
  void RemoveLastDims(int k) { if (k > n_) tfv_check_failed(); n_ -= k; }
  int64 num_elements() const { int64 r = 1; for (int i = 0; i < n_; ++i) r *= d_[i]; return r; }
  bool operator==(const TensorShape &o) const {
    if (n_ != o.n_) return false;
    for (int i = 0; i < n_; ++i) if (d_[i] != o.d_[i]) return false;
    return true;
  }
  bool operator!=(const TensorShape &o) const { return !(*this == o); }
  bool IsSameSize(const TensorShape &o) const { return *this == o; }
  const int64 *begin() const { return d_; }
  const int64 *end() const { return d_ + n_; }
  const char *DebugString() const { return ""; }
};
struct TensorShapeUtils {
  template <class I> static Status MakeShape(const I *p, int64 n, TensorShape *out) {
    TensorShape s; for (int64 i = 0; i < n; ++i) s.AddDim(p[i]); *out = s; return Status();
  }
  static bool IsScalar(const TensorShape &s) { return s.dims() == 0; }
  static bool IsVector(const TensorShape &s) { return s.dims() == 1; }
  static bool IsMatrix(const TensorShape &s) { return s.dims() == 2; }
};

template <class T> struct Flat {
  T *p; int64 n;
  T *data() const { return p; }
  int64 size() const { return n; }
  T &operator()(int64 i) const { return p[i]; }
  T &operator()() const { return p[0]; }
  T &operator[](int64 i) const { return p[i]; }
};
class Tensor {
  DataType dt_; TensorShape s_; void *p_;
public:
  Tensor() : dt_(DT_INVALID), p_(nullptr) {}
  Tensor(DataType d, const TensorShape &s) : dt_(d), s_(s), p_(std::malloc(s.num_elements() * DataTypeSize(d) + 16)) {}
  Tensor(DataType d, const TensorShape &s, void *p) : dt_(d), s_(s), p_(p) {}
  const TensorShape &shape() const { return s_; }
  DataType dtype() const { return dt_; }
  int dims() const { return s_.dims(); }
  int64 dim_size(int i) const { return s_.dim_size(i); }
  int64 NumElements() const { return s_.num_elements(); }
  template <class T> Flat<T> flat() const { return {(T *)p_, NumElements()}; }
  template <class T> Flat<T> vec() const { return {(T *)p_, NumElements()}; }
  template <class T> Flat<T> scalar() const { return {(T *)p_, 1}; }
  void *raw() const { return p_; }
};
namespace tensor {
inline Status MakeShape(const Tensor &t, TensorShape *out) {
  if (t.dims() != 1) return Status(false);
  if (t.dtype() == DT_INT32) return TensorShapeUtils::MakeShape(t.flat<int32>().data(), t.NumElements(), out);
  return TensorShapeUtils::MakeShape(t.flat<int64>().data(), t.NumElements(), out);
}
}  // namespace tensor

namespace thread {
struct ThreadPool {
  int n;
  int NumThreads() const { return n; }
  template <class F> void TransformRangeConcurrently(int64 block, int64 total, const F &f) {
    for (int64 e = total; e > 0; e -= block) f(e - block < 0 ? 0 : e - block, e);
  }
  template <class F> void ParallelFor(int64 total, int64, const F &f) { f(total / 2, total); f(0, total / 2); }
};
}  // namespace thread
template <class F> void Shard(int, thread::ThreadPool *w, int64 total, int64, F f) {
  if (w->n > 1 && total > 1) { f((total + 1) / 2, total); f(0, (total + 1) / 2); }
  else f(0, total);
}
struct DeviceBase {
  struct CpuWorkerThreads { int num_threads; thread::ThreadPool *workers; } w;
  const CpuWorkerThreads *tensorflow_cpu_worker_threads() const { return &w; }
};

struct TfvAttr { const char *name; long v; };
extern TfvAttr tfv_attrs[16];
extern int tfv_nattr;
inline bool tfv_same(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }

class OpKernelConstruction {
public:
  bool failed = false;
  template <class T> Status GetAttr(const char *n, T *v) const {
    for (int i = 0; i < tfv_nattr; ++i) if (tfv_same(tfv_attrs[i].name, n)) { *v = (T)tfv_attrs[i].v; return Status(); }
    return Status(false);
  }
  void CtxFailure(const Status &) { failed = true; }
};
class OpKernelContext {
public:
  Tensor in[8], out[4];
  int nin = 0;
  bool failed = false;
  DeviceBase dev;
  const Tensor &input(int i) const { if (i >= nin) tfv_check_failed(); return in[i]; }
  int num_inputs() const { return nin; }
  Status allocate_output(int i, const TensorShape &s, Tensor **t);
  DataType out_dt;
  DeviceBase *device() { return &dev; }
  void CtxFailure(const Status &) { failed = true; }
};
class OpKernel {
public:
  explicit OpKernel(OpKernelConstruction *) {}
  virtual ~OpKernel() {}
  virtual void Compute(OpKernelContext *) = 0;
};

namespace shape_inference {
struct DimensionHandle { long v; };
struct ShapeHandle { long v; };
struct InferenceContext {
  ShapeHandle input(int) { return {0}; }
  int Rank(ShapeHandle) { return 0; }
  DimensionHandle Dim(ShapeHandle, int) { return {0}; }
  long Value(DimensionHandle) { return 0; }
  DimensionHandle MakeDim(long v) { return {v}; }
  DimensionHandle UnknownDim() { return {0}; }
  ShapeHandle MakeShape(const std::vector<DimensionHandle> &) { return {0}; }
  ShapeHandle UnknownShape() { return {0}; }
  void set_output(int, ShapeHandle) {}
  template <class T> Status GetAttr(const char *, T *) { return Status(); }
  Status MakeShapeFromShapeTensor(int, ShapeHandle *) { return Status(); }
  Status WithRank(ShapeHandle, int, ShapeHandle *) { return Status(); }
  Status WithRankAtLeast(ShapeHandle, int, ShapeHandle *) { return Status(); }
  Status WithValue(DimensionHandle, long, DimensionHandle *) { return Status(); }
  const Tensor *input_tensor(int) { return nullptr; }
  bool RankKnown(ShapeHandle) { return true; }
  Status Subshape(ShapeHandle, long, ShapeHandle *) { return Status(); }
  Status Subshape(ShapeHandle, long, long, ShapeHandle *) { return Status(); }
  Status Concatenate(ShapeHandle, ShapeHandle, ShapeHandle *) { return Status(); }
  Status Merge(ShapeHandle, ShapeHandle, ShapeHandle *) { return Status(); }
};
inline Status BroadcastBinaryOpOutputShapeFnHelper(InferenceContext *, ShapeHandle, ShapeHandle, bool, ShapeHandle *) { return Status(); }
inline Status UnchangedShape(InferenceContext *) { return Status(); }
inline Status BroadcastBinaryOpShapeFn(InferenceContext *) { return Status(); }
inline Status MatMulShape(InferenceContext *) { return Status(); }
inline Status ScalarShape(InferenceContext *) { return Status(); }
inline Status UnknownShape(InferenceContext *) { return Status(); }
}  // namespace shape_inference

struct OpDefBuilder {
  explicit OpDefBuilder(const char *) {}
  OpDefBuilder &Input(const char *) { return *this; }
  OpDefBuilder &Output(const char *) { return *this; }
  OpDefBuilder &Attr(const char *) { return *this; }
  OpDefBuilder &Doc(const char *) { return *this; }
  OpDefBuilder &SetIsStateful() { return *this; }
  OpDefBuilder &SetIsCommutative() { return *this; }
  template <class F> OpDefBuilder &SetShapeFn(const F &) { return *this; }
};
namespace register_kernel {
struct Name {
  const char *n; DataType dt = DT_INVALID;
  explicit Name(const char *s) : n(s) {}
  Name &Device(int) { return *this; }
  Name &HostMemory(const char *) { return *this; }
  template <class T> Name &TypeConstraint(const char *) { dt = DataTypeToEnum<T>::value; return *this; }
};
}  // namespace register_kernel
struct TfvReg { const char *n; DataType dt; OpKernel *(*make)(OpKernelConstruction *); };
extern TfvReg tfv_regs[128];
extern int tfv_nreg;
struct TfvRegister {
  TfvRegister(const register_kernel::Name &n, OpKernel *(*f)(OpKernelConstruction *)) { tfv_regs[tfv_nreg++] = {n.n, n.dt, f}; }
};
namespace random {
template <class T> T SignedAdd(T a, T b) {
  using U = typename std::make_unsigned<T>::type;
  return (T)((U)a + (U)b);
}
template <class T, class V> T SignedAdd(T a, V b) {
  using U = typename std::make_unsigned<T>::type;
  return (T)((U)a + (U)b);
}
}  // namespace random
}  // namespace tensorflow
namespace tsl { using tensorflow::Status; using tensorflow::OkStatus; namespace errors = tensorflow::errors; }
namespace absl { inline tensorflow::Status OkStatus() { return tensorflow::Status(); } using tensorflow::Status; }

#define TFV_CAT2(a, b) a##b
#define TFV_CAT(a, b) TFV_CAT2(a, b)
#define REGISTER_OP(n) static auto &TFV_CAT(tfv_op_, __COUNTER__) __attribute__((unused)) = ::tensorflow::OpDefBuilder(n)
#define REGISTER_KERNEL_BUILDER(kb, ...) \
  static ::tensorflow::TfvRegister TFV_CAT(tfv_reg_, __COUNTER__)(::tensorflow::register_kernel::kb, \
    [](::tensorflow::OpKernelConstruction *c) -> ::tensorflow::OpKernel * { return new __VA_ARGS__(c); })
#define OP_REQUIRES(ctx, c, st) do { if (!(c)) { (ctx)->CtxFailure(st); return; } } while (0)
#define OP_REQUIRES_OK(ctx, ...) do { ::tensorflow::Status s_ = (__VA_ARGS__); if (!s_.ok()) { (ctx)->CtxFailure(s_); return; } } while (0)
#define TF_RETURN_IF_ERROR(...) do { ::tensorflow::Status s_ = (__VA_ARGS__); if (!s_.ok()) return s_; } while (0)
#define CHECK(c) if (c) ; else ::tensorflow::Fatal()
#define CHECK_OP_(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define LOG(x) ::tensorflow::Sink()

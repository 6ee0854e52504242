// Driver: TFV_SRC lists the sources under analysis (from /repo's current tree).
#include "tfv_tf.h"
#include "sodium.h"
#include TFV_SRC

namespace tensorflow {
TfvAttr tfv_attrs[16];
int tfv_nattr = 0;
TfvReg tfv_regs[128];
int tfv_nreg = 0;
Status OpKernelContext::allocate_output(int i, const TensorShape &s, Tensor **t) {
  out[i] = Tensor(out_dt, s);
  *t = &out[i];
  return Status();
}
}  // namespace tensorflow
using namespace tensorflow;
static OpKernelContext *tfv_ctx;
static ::tensorflow::thread::ThreadPool tfv_pool;
extern "C" {
void tfv_reset(int threads, int out_dt) {
  tfv_ctx = new OpKernelContext;
  tfv_nattr = 0;
  tfv_pool.n = threads;
  tfv_ctx->dev.w.num_threads = threads;
  tfv_ctx->dev.w.workers = &tfv_pool;
  tfv_ctx->out_dt = (DataType)out_dt;
}
void tfv_attr(const char *n, long v) { tfv_attrs[tfv_nattr++] = {n, v}; }
void *tfv_input(int dt, int rank, const long *dims) {
  TensorShape s;
  for (int i = 0; i < rank; ++i) s.AddDim(dims[i]);
  tfv_ctx->in[tfv_ctx->nin] = Tensor((DataType)dt, s);
  return tfv_ctx->in[tfv_ctx->nin++].raw();
}
// 0 done, 1 refused, 2 no such kernel
int tfv_exec(const char *n, int dt) {
  for (int i = 0; i < tfv_nreg; ++i)
    if (tfv_same(tfv_regs[i].n, n) && (tfv_regs[i].dt == DT_INVALID || tfv_regs[i].dt == (DataType)dt)) {
      OpKernelConstruction c;
      OpKernel *k = tfv_regs[i].make(&c);
      if (c.failed) return 1;
      k->Compute(tfv_ctx);
      return tfv_ctx->failed;
    }
  return 2;
}
void *tfv_out() { return tfv_ctx->out[0].raw(); }
int tfv_out_rank() { return tfv_ctx->out[0].dims(); }
long tfv_out_dim(int i) { return tfv_ctx->out[0].shape().dim_size(i); }
}

#ifdef TFV_MAIN
// concrete replay: reads "threads outdt / attrs / inputs (hex bytes)" from stdin
#include <cstdio>
static unsigned char tfv_stream[1 << 16];
static int tfv_slen = 0, tfv_spos = 0;
struct SRec { int kind; unsigned ic; int n; int at; };
static SRec tfv_recs[256];
static int tfv_nrec = 0, tfv_rec = 0;
extern "C" {
void tfv_check_failed() { puts("check failed"); exit(3); }
int sodium_init(void) { return 0; }
static void take(void *b, size_t n) {
  // draws in the order in which the analysis made them
  if (tfv_rec >= tfv_nrec || (size_t)tfv_recs[tfv_rec].n != n) { puts("different draws"); exit(4); }
  memcpy(b, tfv_stream + tfv_recs[tfv_rec++].at, n);
}
void randombytes_buf(void *b, size_t n) { take(b, n); }
void randombytes_buf_deterministic(void *b, size_t n, const unsigned char *) { take(b, n); }
int crypto_stream_chacha20_ietf_xor_ic(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *, unsigned, const unsigned char *) {
  unsigned char t[1 << 12]; take(t, n); for (size_t i = 0; i < n; ++i) c[i] = m[i] ^ t[i]; return 0; }
int crypto_stream_chacha20_ietf(unsigned char *c, unsigned long long n, const unsigned char *, const unsigned char *) { take(c, n); return 0; }
int crypto_stream_chacha20_ietf_xor(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *a, const unsigned char *k) { return crypto_stream_chacha20_ietf_xor_ic(c, m, n, a, 0, k); }
}
static void rdhex(unsigned char *p, long n) { for (long i = 0; i < n; ++i) { unsigned v; if (scanf("%2x", &v) != 1) exit(5); p[i] = v; } }
int main() {
  char op[64]; int dt, threads, odt, na, ni, nr; long osz;
  if (scanf("%63s %d %d %d %d %d %d %ld", op, &dt, &threads, &odt, &na, &ni, &nr, &osz) != 8) return 5;
  tfv_reset(threads, odt);
  static char names[16][32];
  for (int i = 0; i < na; ++i) { long v; if (scanf("%31s %ld", names[i], &v) != 2) return 5; tfv_attr(names[i], v); }
  for (int i = 0; i < ni; ++i) {
    int d, r; long dims[8], nb; if (scanf("%d %d", &d, &r) != 2) return 5;
    for (int j = 0; j < r; ++j) if (scanf("%ld", &dims[j]) != 1) return 5;
    if (scanf("%ld", &nb) != 1) return 5;
    unsigned char *p = (unsigned char *)tfv_input(d, r, dims);
    rdhex(p, nb);
  }
  for (int i = 0; i < nr; ++i) { int n; if (scanf("%d", &n) != 1) return 5; tfv_recs[i] = {0, 0, n, tfv_slen}; rdhex(tfv_stream + tfv_slen, n); tfv_slen += n; tfv_nrec++; }
  int rc = tfv_exec(op, dt);
  printf("rc %d\nrank %d\n", rc, rc ? 0 : tfv_out_rank());
  if (rc) return 0;
  long n = 1;
  for (int i = 0; i < tfv_out_rank(); ++i) { printf("%ld ", tfv_out_dim(i)); n *= tfv_out_dim(i); }
  printf("\n");
  unsigned char *o = (unsigned char *)tfv_out();
  for (long i = 0; i < n * DataTypeSize((DataType)odt); ++i) printf("%02x", o[i]);
  printf("\n");
  return 0;
}
#endif

// libsodium as far as the generators use it; the bodies are in run.cc (a table of stream bytes)
#pragma once
#include <cstddef>
extern "C" {
#define randombytes_SEEDBYTES 32U
#define crypto_stream_chacha20_ietf_NONCEBYTES 12U
#define crypto_stream_chacha20_ietf_KEYBYTES 32U
int sodium_init(void);
void randombytes_buf(void *buf, size_t size);
size_t randombytes_seedbytes(void);
void randombytes_buf_deterministic(void *buf, size_t size, const unsigned char seed[32]);
int crypto_stream_chacha20_ietf_xor_ic(unsigned char *c, const unsigned char *m, unsigned long long mlen,
                                       const unsigned char *n, unsigned int ic, const unsigned char *k);
int crypto_stream_chacha20_ietf(unsigned char *c, unsigned long long clen, const unsigned char *n, const unsigned char *k);
int crypto_stream_chacha20_ietf_xor(unsigned char *c, const unsigned char *m, unsigned long long mlen,
                                    const unsigned char *n, const unsigned char *k);
}

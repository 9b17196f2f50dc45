#pragma once
#include <stddef.h>
extern "C" {
typedef struct secp256k1_context_struct secp256k1_context;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
typedef int (*secp256k1_nonce_function)(unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, void*, unsigned int);
#define SECP256K1_CONTEXT_VERIFY 257
#define SECP256K1_CONTEXT_SIGN 513
#define SECP256K1_CONTEXT_NONE 1
#define SECP256K1_EC_COMPRESSED 258
#define SECP256K1_EC_UNCOMPRESSED 2
secp256k1_context* secp256k1_context_create(unsigned int flags);
void secp256k1_context_destroy(secp256k1_context* ctx);
int secp256k1_context_randomize(secp256k1_context* ctx, const unsigned char* seed32);
int secp256k1_ec_pubkey_parse(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* input, size_t inputlen);
int secp256k1_ec_pubkey_serialize(const secp256k1_context* ctx, unsigned char* output, size_t* outputlen, const secp256k1_pubkey* pubkey, unsigned int flags);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context* ctx, secp256k1_ecdsa_signature* sig, const unsigned char* input64);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context* ctx, unsigned char* output64, const secp256k1_ecdsa_signature* sig);
int secp256k1_ecdsa_verify(const secp256k1_context* ctx, const secp256k1_ecdsa_signature* sig, const unsigned char* msghash32, const secp256k1_pubkey* pubkey);
int secp256k1_ecdsa_signature_normalize(const secp256k1_context* ctx, secp256k1_ecdsa_signature* sigout, const secp256k1_ecdsa_signature* sigin);
int secp256k1_ecdsa_sign(const secp256k1_context* ctx, secp256k1_ecdsa_signature* sig, const unsigned char* msghash32, const unsigned char* seckey, secp256k1_nonce_function noncefp, const void* ndata);
int secp256k1_ec_seckey_verify(const secp256k1_context* ctx, const unsigned char* seckey);
int secp256k1_ec_pubkey_create(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* seckey);
}

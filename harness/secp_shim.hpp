#ifndef SECP_SHIM
#define SECP_SHIM
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
// the repository's (uninstalled) secp256k1 fork signs 32-byte messages only: bridge to the installed library
static inline int secp256k1_schnorrsig_verify(const secp256k1_context* c, const unsigned char* s, const unsigned char* m, const secp256k1_xonly_pubkey* p) { return secp256k1_schnorrsig_verify(c, s, m, 32, p); }
static inline int secp256k1_schnorrsig_sign(const secp256k1_context* c, unsigned char* s, const unsigned char* m, const secp256k1_keypair* k, void*, void*) { return secp256k1_schnorrsig_sign32(c, s, m, k, nullptr); }
#endif

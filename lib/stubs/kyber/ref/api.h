// Stand-in for the (absent) Kyber submodule.
#pragma once
#define KYBER_SYMBYTES 32
#define KYBER_PUBLICKEYBYTES 1088
#define KYBER_SECRETKEYBYTES 2400
#define KYBER_CIPHERTEXTBYTES 1152
#define CRYPTO_KEM_SECRETKEYBYTES KYBER_SECRETKEYBYTES
#define CRYPTO_KEM_PUBLICKEYBYTES KYBER_PUBLICKEYBYTES
#define CRYPTO_KEM_CIPHERTEXTBYTES KYBER_CIPHERTEXTBYTES
#define CRYPTO_KEM_BYTES KYBER_SYMBYTES
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);

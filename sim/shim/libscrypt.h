/* Simulation stand-in for libscrypt (not installed here): a fast deterministic KDF with the same interface. */
#ifndef SIM_LIBSCRYPT_H
#define SIM_LIBSCRYPT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int libscrypt_scrypt(const uint8_t *passwd, size_t passwdlen, const uint8_t *salt, size_t saltlen,
                     uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen);
#ifdef __cplusplus
}
#endif
#endif

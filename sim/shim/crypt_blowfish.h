/* Simulation stand-in for crypt_blowfish (not installed here): deterministic, same interface. */
#ifndef SIM_CRYPT_BLOWFISH_H
#define SIM_CRYPT_BLOWFISH_H
#ifdef __cplusplus
extern "C" {
#endif
char *crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size);
char *crypt_rn(const char *key, const char *setting, void *data, int size);
#ifdef __cplusplus
}
#endif
#endif

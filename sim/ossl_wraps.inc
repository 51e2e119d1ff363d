W0(EVP_CIPHER_CTX*, EVP_CIPHER_CTX_new, NULL)
W0(EVP_MD_CTX*, EVP_MD_CTX_new, NULL)
W0(EVP_PKEY*, EVP_PKEY_new, NULL)
W0(ECDSA_SIG*, ECDSA_SIG_new, NULL)
W0(BIGNUM*, BN_new, NULL)
W1(EC_KEY*, EC_KEY_new_by_curve_name, NULL, int)
W1(int, EC_KEY_generate_key, 0, EC_KEY*)
W2(EVP_PKEY_CTX*, EVP_PKEY_CTX_new_id, NULL, int, ENGINE*)
W2(EVP_PKEY_CTX*, EVP_PKEY_CTX_new, NULL, EVP_PKEY*, ENGINE*)
W1(int, EVP_PKEY_derive_init, 0, EVP_PKEY_CTX*)
W2(int, EVP_PKEY_derive_set_peer, 0, EVP_PKEY_CTX*, EVP_PKEY*)
W3(int, EVP_PKEY_derive, 0, EVP_PKEY_CTX*, uc*, size_t*)
W3(int, EVP_PKEY_assign, 0, EVP_PKEY*, int, void*)
W4(int, EVP_CIPHER_CTX_ctrl, 0, EVP_CIPHER_CTX*, int, int, void*)
W5(int, EVP_EncryptInit_ex, 0, EVP_CIPHER_CTX*, const EVP_CIPHER*, ENGINE*, const uc*, const uc*)
W5(int, EVP_EncryptUpdate, 0, EVP_CIPHER_CTX*, uc*, int*, const uc*, int)
W3(int, EVP_EncryptFinal_ex, 0, EVP_CIPHER_CTX*, uc*, int*)
W5(int, EVP_DecryptInit_ex, 0, EVP_CIPHER_CTX*, const EVP_CIPHER*, ENGINE*, const uc*, const uc*)
W5(int, EVP_DecryptUpdate, 0, EVP_CIPHER_CTX*, uc*, int*, const uc*, int)
W3(int, EVP_DecryptFinal_ex, 0, EVP_CIPHER_CTX*, uc*, int*)
W2(int, EVP_DigestInit, 0, EVP_MD_CTX*, const EVP_MD*)
W3(int, EVP_DigestInit_ex, 0, EVP_MD_CTX*, const EVP_MD*, ENGINE*)
W3(int, EVP_DigestUpdate, 0, EVP_MD_CTX*, const void*, size_t)
W3(int, EVP_DigestFinal, 0, EVP_MD_CTX*, uc*, unsigned*)
W3(int, EVP_DigestFinal_ex, 0, EVP_MD_CTX*, uc*, unsigned*)
W5(int, EVP_DigestSignInit, 0, EVP_MD_CTX*, EVP_PKEY_CTX**, const EVP_MD*, ENGINE*, EVP_PKEY*)
W3(int, EVP_DigestSignUpdate, 0, EVP_MD_CTX*, const void*, size_t)
W3(int, EVP_DigestSignFinal, 0, EVP_MD_CTX*, uc*, size_t*)
W5(int, EVP_DigestVerifyInit, 0, EVP_MD_CTX*, EVP_PKEY_CTX**, const EVP_MD*, ENGINE*, EVP_PKEY*)
W3(int, EVP_DigestVerifyUpdate, 0, EVP_MD_CTX*, const void*, size_t)
W3(int, EVP_DigestVerifyFinal, 0, EVP_MD_CTX*, const uc*, size_t)
W2(int, i2o_ECPublicKey, 0, const EC_KEY*, uc**)
W2(int, i2d_ECPrivateKey, 0, const EC_KEY*, uc**)
W2(int, i2d_ECDSA_SIG, 0, const ECDSA_SIG*, uc**)
W3(ECDSA_SIG*, d2i_ECDSA_SIG, NULL, ECDSA_SIG**, const uc**, long)
W3(EC_KEY*, d2i_ECPrivateKey, NULL, EC_KEY**, const uc**, long)
W3(EC_KEY*, o2i_ECPublicKey, NULL, EC_KEY**, const uc**, long)
W3(BIGNUM*, BN_bin2bn, NULL, const uc*, int, BIGNUM*)
W3(int, BN_bn2binpad, -1, const BIGNUM*, uc*, int)
W3(int, ECDSA_SIG_set0, 0, ECDSA_SIG*, BIGNUM*, BIGNUM*)
W2(int, EVP_PKEY_CTX_set_hkdf_md, 0, EVP_PKEY_CTX*, const EVP_MD*)
W3(int, EVP_PKEY_CTX_set1_hkdf_salt, 0, EVP_PKEY_CTX*, const uc*, int)
W3(int, EVP_PKEY_CTX_set1_hkdf_key, 0, EVP_PKEY_CTX*, const uc*, int)
W3(int, EVP_PKEY_CTX_add1_hkdf_info, 0, EVP_PKEY_CTX*, const uc*, int)
W2(int, EVP_PKEY_CTX_set_hkdf_mode, 0, EVP_PKEY_CTX*, int)

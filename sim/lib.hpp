// Thin C++ layer over the library under test: owners, conversions, the instrumented crypto engine.
#pragma once
#include "core.hpp"
extern "C" {
#include "wickrcrypto/wickr-crypto-c.h"
#include "wickrcrypto/wickr_ctx.h"
#include "wickrcrypto/stream_ctx.h"
#include "wickrcrypto/stream_key.h"
#include "wickrcrypto/transport_ctx.h"
#include "wickrcrypto/transport_handshake.h"
#include "wickrcrypto/transport_packet.h"
#include "wickrcrypto/transport_root_key.h"
#include "wickrcrypto/ecdh_cipher_ctx.h"
#include "wickrcrypto/openssl_suite.h"
#include "wickrcrypto/openssl_file_suite.h"
#include "wickrcrypto/fingerprint.h"
#include "wickrcrypto/util.h"
#include "wickrcrypto/b32.h"
}

template <class T, void (*D)(T **)> struct Own {
    T *p;
    Own(T *x = nullptr) : p(x) {}
    Own(const Own &) = delete;
    Own(Own &&o) : p(o.p) { o.p = nullptr; }
    Own &operator=(Own &&o) { if (this != &o) { reset(); p = o.p; o.p = nullptr; } return *this; }
    Own &operator=(const Own &) = delete;
    ~Own() { reset(); }
    void reset(T *x = nullptr) { if (p) D(&p); p = x; }
    T *release() { T *x = p; p = nullptr; return x; }
    T *get() const { return p; }
    T *operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    T **addr() { return &p; }
};
typedef Own<wickr_buffer_t, wickr_buffer_destroy> OBuf;
typedef Own<wickr_cipher_key_t, wickr_cipher_key_destroy> OKey;
typedef Own<wickr_cipher_result_t, wickr_cipher_result_destroy> OCipher;
typedef Own<wickr_ec_key_t, wickr_ec_key_destroy> OEc;
typedef Own<wickr_ecdsa_result_t, wickr_ecdsa_result_destroy> OSig;
typedef Own<wickr_identity_t, wickr_identity_destroy> OId;
typedef Own<wickr_identity_chain_t, wickr_identity_chain_destroy> OChain;
typedef Own<wickr_node_t, wickr_node_destroy> ONode;
typedef Own<wickr_ephemeral_keypair_t, wickr_ephemeral_keypair_destroy> OEph;
typedef Own<wickr_dev_info_t, wickr_dev_info_destroy> ODevInfo;
typedef Own<wickr_root_keys_t, wickr_root_keys_destroy> ORoot;
typedef Own<wickr_storage_keys_t, wickr_storage_keys_destroy> OStorage;
typedef Own<wickr_ctx_t, wickr_ctx_destroy> OCtx;
typedef Own<wickr_ctx_gen_result_t, wickr_ctx_gen_result_destroy> OGen;
typedef Own<wickr_ctx_packet_t, wickr_ctx_packet_destroy> OCtxPacket;
typedef Own<wickr_encoder_result_t, wickr_encoder_result_destroy> OEnc;
typedef Own<wickr_decode_result_t, wickr_decode_result_destroy> ODec;
typedef Own<wickr_parse_result_t, wickr_parse_result_destroy> OParse;
typedef Own<wickr_payload_t, wickr_payload_destroy> OPayload;
typedef Own<wickr_packet_meta_t, wickr_packet_meta_destroy> OPMeta;
typedef Own<wickr_packet_t, wickr_packet_destroy> OPacket;
inline void nodes_destroy(wickr_array_t **a) { wickr_array_destroy(a, true); }   // the library's own call releases the container only
typedef Own<wickr_array_t, nodes_destroy> ONodes;
typedef Own<wickr_key_exchange_t, wickr_key_exchange_destroy> OExch;
typedef Own<wickr_key_exchange_set_t, wickr_key_exchange_set_destroy> OExchSet;
typedef Own<wickr_array_t, wickr_exchange_array_destroy> OExchArr;
typedef Own<wickr_kdf_meta_t, wickr_kdf_meta_destroy> OKdfMeta;
typedef Own<wickr_kdf_result_t, wickr_kdf_result_destroy> OKdf;
typedef Own<wickr_stream_key_t, wickr_stream_key_destroy> OSKey;
typedef Own<wickr_stream_iv_t, wickr_stream_iv_destroy> OSIv;
typedef Own<wickr_stream_ctx_t, wickr_stream_ctx_destroy> OStream;
typedef Own<wickr_transport_ctx_t, wickr_transport_ctx_destroy> OTransport;
typedef Own<wickr_transport_handshake_t, wickr_transport_handshake_destroy> OHandshake;
typedef Own<wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy> OHRes;
typedef Own<wickr_transport_packet_t, wickr_transport_packet_destroy> OTPacket;
typedef Own<wickr_transport_root_key_t, wickr_transport_root_key_destroy> OTRoot;
typedef Own<wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy> OEcdh;
typedef Own<wickr_fingerprint_t, wickr_fingerprint_destroy> OFinger;

inline Bytes B(const wickr_buffer_t *b) { return b && b->bytes ? Bytes((const char *)b->bytes, b->length) : Bytes(); }
inline Bytes B(const OBuf &b) { return B(b.p); }
wickr_buffer_t *mkbuf(const Bytes &b);         // never faulted; empty -> library's own notion of an empty buffer

// -------- instrumented engine
extern wickr_crypto_engine_t ENG;              // counting / faulting / observing wrappers around the default engine
extern wickr_crypto_engine_t RAW;              // the default engine itself
// A set of byte strings that must not appear in emitted bytes.
struct Secrets {
    std::unordered_map<uint64_t, std::vector<std::pair<Bytes, const char *>>> idx;
    std::unordered_set<std::string> have;
    void clear() { idx.clear(); have.clear(); }
    void add(const Bytes &s, const char *what) {
        if (s.size() < 12 || !have.insert(s).second) return;
        // any 15 consecutive bytes of it (of a long one: of its ends, and samples in between) count as a leak
        size_t last = s.size() - 12;
        for (size_t i = 0; i <= last; i += (i < 256 || i + 256 > last) ? 4 : 64) window(s, i, what);
        window(s, last, what);
    }
    void window(const Bytes &s, size_t at, const char *what) {
        Bytes w = s.substr(at, 12); bool seen[256] = {false}; int distinct = 0;
        for (char c : w) if (!seen[(uint8_t)c]) { seen[(uint8_t)c] = true; distinct++; }
        if (distinct < 6) return;           // too regular to mean anything
        uint64_t k; memcpy(&k, w.data(), 8); auto &v = idx[k];
        for (auto &o : v) if (o.first == w) return;
        v.push_back({w, what});
    }
    const char *scan(const Bytes &b) const {
        for (size_t i = 0; i + 12 <= b.size(); i++) {
            uint64_t k; memcpy(&k, b.data() + i, 8);
            auto it = idx.find(k); if (it == idx.end()) continue;
            for (auto &s : it->second) if (i + s.first.size() <= b.size() && !memcmp(b.data() + i, s.first.data(), s.first.size())) return s.second;
        }
        return nullptr;
    }
};
struct EngineObs {
    bool record_kiv = true;
    std::map<Bytes, uint64_t> kiv;             // (key||iv) -> ordinal of first use
    std::set<Bytes> rnd;                       // parts of random values
    uint64_t nenc = 0;
    // every symmetric key, shared secret and HMAC key the engine was handed or produced
    Secrets keys;
    bool record_keys = false;
    Bytes last_enc_key, last_dec_key;
    bool last_dec_ok = false;
    uint64_t hmacs = 0, hmac_limit = 0;
    std::function<wickr_cipher_result_t *(const wickr_buffer_t *, const wickr_buffer_t *, const wickr_cipher_key_t *, const wickr_buffer_t *)> encrypt_hook;
    void reset();
};
extern EngineObs obs;
void note_kiv(const Bytes &key, const Bytes &iv);

// -------- cached key material, generated once per process from a constant seed
struct PoolId { Bytes root_keys; Bytes root_id; Bytes chain_priv; Bytes chain_pub; };
static const int NPOOL = 6;
extern std::vector<PoolId> pool;
extern std::vector<Bytes> pool_ec;             // private EC keys (serialized)
void build_pool();
wickr_identity_chain_t *pool_chain(int i, bool with_private);
wickr_root_keys_t *pool_root(int i);

// leak oracle used at the end of every run
void check_leaks(const char *prop);
// the same ciphertext (found behind the prefix) presented under the unauthenticated cipher, the tag dropped, bits flipped at will
Bytes downgrade(const Bytes &s, size_t prefix, int64_t flip);
uint64_t live_blocks();
// does any live library block contain these bytes?
bool heap_contains(const Bytes &needle, int actor = -1);
Bytes ec_scalar(const Bytes &pri_der);         // the raw private scalar inside a DER ECPrivateKey

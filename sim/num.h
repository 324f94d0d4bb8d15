// Big numbers for the checks (OpenSSL, used outside any simulated process).
#pragma once
#include <openssl/bn.h>
#include <string>
#include "sim.h"
struct Num {
  BIGNUM* b;
  Num() : b(BN_new()) {}
  explicit Num(const std::string& be) : b(BN_new()) { BN_bin2bn((const unsigned char*)be.data(), (int)be.size(), b); }
  Num(const Num& o) : b(BN_dup(o.b)) {}
  Num& operator=(const Num& o) { BN_copy(b, o.b); return *this; }
  ~Num() { BN_free(b); }
  static Num le(const std::string& s) { return Num(std::string(s.rbegin(), s.rend())); }
  int bits() const { return BN_num_bits(b); }
  bool bit(int i) const { return BN_is_bit_set(b, i); }
  bool operator==(const Num& o) const { return BN_cmp(b, o.b) == 0; }
  Num operator-(const Num& o) const { Num r; BN_sub(r.b, b, o.b); return r; }
  Num operator+(const Num& o) const { Num r; BN_add(r.b, b, o.b); return r; }
  std::string bytes() const { std::string s(BN_num_bytes(b), '\0'); if (!s.empty()) BN_bn2bin(b, (unsigned char*)&s[0]); return s; }
  static Num modexp(const Num& a, const Num& e, const Num& n) {
    static BN_CTX* c = BN_CTX_new();
    Num r, t;
    BN_nnmod(t.b, a.b, n.b, c);
    BN_mod_exp(r.b, t.b, e.b, n.b, c);
    return r;
  }
};
// reads from recorded traffic
struct Cur {
  const std::string& s;
  size_t p;
  bool ok = true;
  Cur(const std::string& s_, size_t p_ = 0) : s(s_), p(p_) {}
  bool left(size_t n) const { return ok && p + n <= s.size(); }
  std::string take(size_t n) {
    if (!left(n)) { ok = false; return ""; }
    std::string r = s.substr(p, n);
    p += n;
    return r;
  }
  u64 u(int n) {
    std::string r = take((size_t)n);
    u64 v = 0;
    for (size_t i = r.size(); i-- > 0;) v = v << 8 | (u8)r[i];
    return v;
  }
  Num bn() {
    u64 n = u(4);
    if (!ok || n > 1 << 24) { ok = false; return Num(); }
    return Num(take((size_t)n));
  }
};

// Secrecy checks on recorded traffic: C06 garbler's inputs, C08 evaluator's inputs, C12 freshness.
#include <errno.h>
#include <algorithm>
#include <unordered_map>
#include <bitset>
#include <cmath>
#include <unordered_set>
#include "case.h"
#include "num.h"

struct W16 {
  u64 a, b;
  bool operator==(const W16& o) const { return a == o.a && b == o.b; }
  W16 operator^(const W16& o) const { return {a ^ o.a, b ^ o.b}; }
};
struct W16Hash { size_t operator()(const W16& w) const { return (size_t)(w.a * 0x9E3779B97F4A7C15ULL ^ (w.b + (w.b << 21))); } };
static W16 at16(const std::string& s, size_t p) { W16 w; memcpy(&w, s.data() + p, 16); return w; }
// sixteen bytes that can only come from a secret or from encrypted data
static bool rich(const W16& w) {
  u8 b[16];
  memcpy(b, &w, 16);
  int z = 0;
  bool seen[256] = {false};
  int distinct = 0;
  for (u8 x : b) {
    if (!x) z++;
    if (!seen[x]) { seen[x] = true; distinct++; }
  }
  return z < 6 && distinct >= 8;
}
// offsets that lie inside a public RSA modulus
static std::vector<bool> modulus_bytes(const std::string& s) {
  std::vector<bool> m(s.size(), false);
  for (size_t p = 0; p + 132 <= s.size(); p++)
    if ((u8)s[p] == 128 && !s[p + 1] && !s[p + 2] && !s[p + 3] && pool_key(s.substr(p + 4, 128), nullptr))
      for (size_t k = p; k < p + 132; k++) m[k] = true;
  return m;
}
static std::string hex16(const W16& w) { return to_hexs(std::string((const char*)&w, 16)); }
static Sess private_session(Rng& r, bool thorough, int wide_pct) {
  Prof p;
  p.max_gates = 40;
  p.many_e = 1;
  p.big = r.chance(30);
  p.max_outs = 6;
  Sess s;
  for (;;) {
    s = gen_sess(r, p);
    if (r.chance(wide_pct)) {  // many private bits of the garbler: their labels allow statistics
      u64 add = (u64)r.range(20, 60);
      if (s.c.g_init && r.chance(50)) {  // the same for what the flip-flops start with
        u64 a2 = (u64)r.range(40, 70), h2 = s.c.p_init + s.c.g_init;
        auto m2 = [&](i64& w) { if (w >= (i64)h2) w += (i64)a2; };
        for (auto& g : s.c.gates) { m2(g.a); if (g.t != 12) m2(g.b); }
        for (auto& w : s.c.outs) m2(w);
        for (auto& w : s.c.D) m2(w);
        for (auto& w : s.c.I) m2(w);
        if (s.c.term > 0) m2(s.c.term);
        s.c.g_init += a2;
        s.in.g_init = rand_bits(r, s.c.g_init);
      }
      // widen the garbler's input at the end of its range: every wire behind it moves
      u64 hi = s.c.in_lo() + s.c.p_in + s.c.g_in;
      auto mv = [&](i64& w) { if (w >= (i64)hi) w += (i64)add; };
      for (auto& g : s.c.gates) { mv(g.a); if (g.t != 12) mv(g.b); }
      for (auto& w : s.c.outs) mv(w);
      for (auto& w : s.c.D) mv(w);
      if (s.c.term > 0) mv(s.c.term);
      s.c.g_in += add;
      while (s.c.g_in * s.cycles > 400 && s.cycles > 1) s.cycles--;
      s.in.p_in.resize(s.c.p_in * s.cycles);
      s.in.e_in.resize(s.c.e_in * s.cycles);
      s.in.g_in = Bits(s.c.g_in * s.cycles);
      for (auto& b : s.in.g_in) b = (u8)r.below(2);
    }
    if (s.c.g_in + s.c.g_init || r.chance(5)) break;
  }
  return s;
}

// ----------------------------------------------------------------- C06
static Case gen06(Rng& r, bool thorough) {
  Case c;
  Sess s = private_session(r, thorough, 30);
  s.T = 0;
  if (r.chance(12)) {  // the same with early termination
    Prof p;
    p.term = true;
    p.many_e = 0;
    s = gen_sess(r, p);
  }
  if (r.chance(25)) {  // latched wires that keep their labels: cycles must not be garbled alike
    for (size_t i = 0; i < s.c.D.size(); i++) if (r.chance(60)) s.c.D[i] = (i64)(s.c.dff_lo() + i);
  }
  if (r.chance(30) && s.c.gates.size() > 2) {  // several gates on the same pair of wires
    for (size_t i = 1; i < s.c.gates.size(); i++)
      if (r.chance(50) && s.c.gates[i - 1].t != 12 && s.c.gates[i].t != 12) { s.c.gates[i].a = s.c.gates[i - 1].a; if (r.chance(80)) s.c.gates[i].b = s.c.gates[i - 1].b; }
  }
  Env e = gen_env(r);
  put(c, s);
  put(c, e);
  c.setu("flip", r.next() & 0xffffff);
  if (r.chance(thorough ? 4 : 2)) {
    c.set("many", 1);
    return c;
  }
  if (s.T == 0) {
    if (r.chance(20)) {
      RunResult cal = calibrate(s, e);
      const ConnResult* k = first_conn(cal);
      i64 len = k ? (i64)k->c2s.size() : 1;
      if (len < 1) len = 1;
      for (int i = 0, n = (int)r.range(1, 3); i < n; i++) {  // an evaluator that sends something else
        i64 at = (i64)r.below(len);
        switch (r.below(3)) {
          case 0: c.faults.push_back(mk("flip", "bob", at, 1 + (i64)r.below(255))); break;
          case 1: c.faults.push_back(mk("forge", "bob", at, 0, 0, std::string(1 + r.below(16), (char)r.below(3)))); break;
          case 2: c.faults.push_back(mk("insert", "bob", at, 0, 0, std::string(1 + r.below(8), (char)r.below(256)))); break;
        }
      }
    } else if (r.chance(15)) {
      c.faults.push_back(mk("rand_fail", "alice", (i64)r.below(30)));
    } else if (r.chance(10)) {
      RunResult cal = calibrate(s, e);
      c.faults.push_back(loss_fault(r, cal, s, "", false, false));
    }
  }
  return c;
}
static Verdict run06(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  size_t nb = s.c.g_init + s.c.g_in * s.cycles;
  Expect e0 = expect(s);
  auto bit = [&](Sess& t, size_t i) -> u8& { return i < s.c.g_init ? t.in.g_init[i] : t.in.g_in[i - s.c.g_init]; };
  RunResult r0 = x.run(session_world(c, s, env));
  const ConnResult* k0 = first_conn(r0);
  if (!r0.crash.empty() || !k0) return Verdict();
  const std::string& st = k0->s2c;
  // nothing that has to be random is sent twice
  std::vector<bool> mod = modulus_bytes(st);
  std::unordered_map<W16, size_t, W16Hash> win;
  for (size_t p = 0; p + 16 <= st.size(); p++) {
    W16 w = at16(st, p);
    if (!rich(w) || mod[p] || mod[p + 15]) continue;
    auto q = win.emplace(w, p);
    if (!q.second) return bad("repeat", "the garbler sends the same secret-looking block twice, at byte " + std::to_string(q.first->second) + " and " + std::to_string(p) + ": " + hex16(w));
  }
  if (nb == 0) return Verdict();
  bool faulty = !c.faults.empty();
  // a decoding message carries one bit: more of an output label would tell part of the offset
  if (c.faults.empty() && c.unum("flip") % 3 == 0 && r0.proc("alice")->ok() && r0.proc("bob")->ok()) {
    size_t all = 0, last = 0;
    for (u64 k = 0; k < e0.ref.cycles; k++) {
      last = 0;
      for (size_t i = 0; i < e0.ref.pub[k].size(); i++) last += e0.ref.pub[k][i] < 0 && !mask_alice(s, i);
      all += last;
    }
    Sess q = s;
    q.mask = bits_hex(Bits(s.c.outs.size(), 1));
    RunResult rq = all ? x.run(session_world(c, q, env)) : RunResult();
    const ConnResult* kq = first_conn(rq);
    if (kq && rq.crash.empty() && rq.proc("alice")->ok() && rq.proc("bob")->ok() && st.size() - kq->s2c.size() == 2 * all) {
      if (!(s.low && s.cycles > 1)) last = all;
      for (size_t i = 0; i < last; i++) {
        u8 lo = (u8)st[st.size() - 2 - 2 * i], hi = (u8)st[st.size() - 1 - 2 * i];
        if (lo > 1 || hi) return bad("decode", "a message that decodes an output carries more than one bit: " + to_hexs(st.substr(st.size() - 2 - 2 * i, 2)));
      }
    }
  }
  // flip one private bit
  size_t fb = c.unum("flip") % nb;
  Sess t = s;
  bit(t, fb) ^= 1;
  if (expect(t).ref.cycles != e0.ref.cycles) return Verdict();
  RunResult r1 = x.run(session_world(c, t, env));
  const ConnResult* k1 = first_conn(r1);
  if (!r1.crash.empty() || !k1) return faulty ? Verdict() : bad("depends", "flipping a private input bit of the garbler changes whether the session happens");
  size_t n = std::min(st.size(), k1->s2c.size());
  if (!faulty && k1->s2c.size() != st.size()) return bad("depends", "flipping private bit " + std::to_string(fb) + " changes the amount sent: " + std::to_string(st.size()) + " / " + std::to_string(k1->s2c.size()));
  x.nontrivial = true;
  size_t d = 0;
  while (d < n && st[d] == k1->s2c[d]) d++;
  bool executed = s.low && s.cycles > 1 ? fb < s.c.g_init + s.c.g_in * e0.ref.cycles : true;
  if (d == n) {
    if (!faulty && executed) return bad("depends", "flipping private bit " + std::to_string(fb) + " changes nothing that is sent");
    return Verdict();
  }
  for (size_t p = d + 16; p < n; p++)
    if (st[p] != k1->s2c[p]) return bad("depends", "flipping private bit " + std::to_string(fb) + " changes more than one label: bytes " + std::to_string(d) + " and " + std::to_string(p));
  if (d + 16 > n) return Verdict();
  W16 R = at16(st, d) ^ at16(k1->s2c, d);
  x.note = "flip of bit " + std::to_string(fb) + " of " + std::to_string(nb) + " changes one label at byte " + std::to_string(d) + " of " + std::to_string(st.size());
  if (!rich(R) || !(R.a & 1)) return bad("weak-offset", "the offset between the two labels of a wire is " + hex16(R));
  // the offset must not follow from what was sent
  for (size_t p = 0; p + 16 <= st.size(); p++) {
    W16 w = at16(st, p);
    if (w == R) return bad("offset", "the secret offset itself is sent at byte " + std::to_string(p));
    if (!rich(w)) continue;
    auto q = win.find(w ^ R);
    if (q != win.end() && q->second != p)
      return bad("offset", "bytes " + std::to_string(q->second) + " and " + std::to_string(p) + " differ by exactly the secret offset");
  }
  // complement every private bit: one label per bit and the same offset everywhere
  Sess u = s;
  for (size_t i = 0; i < nb; i++) bit(u, i) ^= 1;
  if (expect(u).ref.cycles != e0.ref.cycles) return Verdict();
  RunResult r2 = x.run(session_world(c, u, env));
  const ConnResult* k2 = first_conn(r2);
  if (!r2.crash.empty() || !k2) return faulty ? Verdict() : bad("depends", "complementing the private inputs of the garbler changes whether the session happens");
  if (!faulty && k2->s2c.size() != st.size()) return bad("depends", "complementing the private inputs changes the amount sent: " + std::to_string(st.size()) + " / " + std::to_string(k2->s2c.size()));
  n = std::min(st.size(), k2->s2c.size());
  std::vector<W16> sent;
  for (size_t p = 0; p < n;) {
    if (st[p] == k2->s2c[p]) { p++; continue; }
    if (p + 16 > n) break;
    if (!((at16(st, p) ^ at16(k2->s2c, p)) == R)) return bad("depends", "complementing the private inputs changes byte " + std::to_string(p) + " by something other than the label offset");
    sent.push_back(at16(st, p));
    p += 16;
  }
  size_t want = s.c.g_init + s.c.g_in * (s.low && s.cycles > 1 ? e0.ref.cycles : s.cycles);
  if (sent.size() > want) return bad("depends", std::to_string(sent.size()) + " labels depend on " + std::to_string(want) + " private bits");
  if (!faulty && r0.proc("alice")->ok() && sent.size() < want) return bad("depends", "only " + std::to_string(sent.size()) + " labels for " + std::to_string(want) + " private bits");
  // a chosen label must not tell which of the two it is: over all labels, and over those of one kind or cycle
  if (sent.size() == want) {
    std::vector<std::pair<size_t, size_t>> groups = {{0, want}, {0, s.c.g_init}, {s.c.g_init, want}};
    for (size_t q = s.c.g_init; s.c.g_in >= 44 && q + s.c.g_in <= want; q += s.c.g_in) groups.push_back({q, q + s.c.g_in});
    for (auto& g : groups) {
      if (g.second - g.first < 44) continue;
      for (int k = 0; k < 128; k++) {
        bool eq = true, ne = true, c0 = true, c1 = true;
        for (size_t i = g.first; i < g.second; i++) {
          bool lb = k < 64 ? (sent[i].a >> k) & 1 : (sent[i].b >> (k - 64)) & 1, ib = bit(s, i);
          eq &= lb == ib;
          ne &= lb != ib;
          c0 &= !lb;
          c1 &= lb;
        }
        if (eq || ne) return bad("label-bit", "bit " + std::to_string(k) + " of every label from " + std::to_string(g.first) + " to " + std::to_string(g.second) + " tells the private input bit");
        if (c0 || c1) return bad("label-bit", "bit " + std::to_string(k) + " of every label from " + std::to_string(g.first) + " to " + std::to_string(g.second) + " is the same");
      }
    }
  }
  // the same session with much other randomness: no label and no offset has a bit that stays what it is
  if (c.num("many") && c.faults.empty() && sent.size() == want && want <= 64) {
    const int kN = 44;
    std::vector<W16> and_(want, W16{~0ULL, ~0ULL}), or_(want, W16{0, 0});
    W16 ra{~0ULL, ~0ULL}, ro{0, 0};
    for (int w = 0; w < kN; w++) {
      Env f = env;
      f.entA = env.entA + 1 + (u64)w * 7919;
      RunResult p0 = x.run(session_world(c, s, f)), p1 = x.run(session_world(c, u, f));
      const ConnResult *q0 = first_conn(p0), *q1 = first_conn(p1);
      if (!q0 || !q1 || !p0.crash.empty() || !p1.crash.empty() || q0->s2c.size() != q1->s2c.size()) return Verdict();
      const std::string &y0 = q0->s2c, &y1 = q1->s2c;
      size_t at = 0, i = 0;
      while (at + 16 <= y0.size() && i < want) {
        if (y0[at] == y1[at]) { at++; continue; }
        W16 l = at16(y0, at), o = l ^ at16(y1, at);
        and_[i] = W16{and_[i].a & l.a, and_[i].b & l.b};
        or_[i] = W16{or_[i].a | l.a, or_[i].b | l.b};
        ra = W16{ra.a & o.a, ra.b & o.b};
        ro = W16{ro.a | o.a, ro.b | o.b};
        i++;
        at += 16;
      }
      if (i != want) return Verdict();
    }
    for (size_t i = 0; i < want; i++)
      if (and_[i].a || and_[i].b || ~or_[i].a || ~or_[i].b) return bad("label-bit", "a bit of the label for private bit " + std::to_string(i) + " is the same in " + std::to_string(kN) + " sessions");
    if ((ra.a & ~1ULL) || ra.b || ~ro.a || ~ro.b) return bad("weak-offset", "a bit of the label offset is the same in " + std::to_string(kN) + " sessions");
  }
  return Verdict();
}

// ----------------------------------------------------------------- C08
struct BaseOT { std::string n, d; std::vector<Num> x0, x1; };
struct ExtOT { std::vector<Num> x0, x1, m0, m1; std::string n, d; bool whole = false; };
struct BobTalk { std::vector<Num> v; std::vector<ExtOT> ext; std::vector<int> shorts; bool odd = false; };
static bool pooled_at(const std::string& s, size_t p) {  // a size field and a pooled modulus
  return p + 132 <= s.size() && (u8)s[p] == 128 && !s[p + 1] && !s[p + 2] && !s[p + 3] && pool_key(s.substr(p + 4, 128), nullptr);
}
// the transfers in which the garbler is the sender
static std::vector<BaseOT> alice_sends(const std::string& s) {
  std::vector<BaseOT> r;
  for (size_t p = 4; p < s.size(); p++) {
    if (!pooled_at(s, p)) continue;
    Cur q(s, p - 4);
    u64 len = q.u(4);
    BaseOT b;
    b.n = q.bn().bytes();
    pool_key(b.n, &b.d);
    q.bn();
    for (u64 i = 0; i < len && q.ok; i++) {
      Num a = q.bn(), z = q.bn();
      if (!q.ok) break;
      b.x0.push_back(a);
      b.x1.push_back(z);
    }
    r.push_back(b);
    p = q.p - 1;
  }
  return r;
}
static BobTalk bob_talk(const std::string& s) {
  BobTalk t;
  Cur q(s);
  while (q.left(2)) {
    if (q.left(8) && pooled_at(s, q.p + 4)) {
      u64 len = q.u(4);
      ExtOT e;
      e.n = q.bn().bytes();
      pool_key(e.n, &e.d);
      q.bn();
      for (u64 i = 0; i < len && q.ok; i++) { Num a = q.bn(), b = q.bn(); if (q.ok) { e.x0.push_back(a); e.x1.push_back(b); } }
      for (u64 i = 0; i < len && q.ok; i++) { Num a = q.bn(), b = q.bn(); if (q.ok) { e.m0.push_back(a); e.m1.push_back(b); } }
      e.whole = q.ok && e.m0.size() == len;
      t.ext.push_back(e);
      continue;
    }
    u8 a = (u8)s[q.p], b = (u8)s[q.p + 1];
    if (a <= 1 && b == 0) { t.shorts.push_back((int)q.u(2)); continue; }
    Num v = q.bn();
    if (!q.ok) { t.odd = true; break; }
    t.v.push_back(v);
  }
  return t;
}
static const int kWide = 900;  // two independent 1024-bit values agree in their top 124 bits with probability 2^-124
static Verdict all_apart(const std::vector<Num>& v, const std::string& what) {
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].bits() < kWide) return bad("narrow", what + " " + std::to_string(i) + " has only " + std::to_string(v[i].bits()) + " bits");
    for (size_t j = 0; j < i; j++)
      if ((v[i] - v[j]).bits() < kWide) return bad("related", what + "s " + std::to_string(j) + " and " + std::to_string(i) + " are related");
  }
  return Verdict();
}
// What blinds the choices has the whole range below the modulus: the garbler, who can compute both candidates of each
// transfer, could otherwise tell the short one.
static Verdict full_range(const std::vector<Num>& cand, const std::vector<Num>& mine) {
  // P(a candidate is s bits short of 1024) <= 2^(1-s), so the sum over k transfers of the shorter one's passes
  // 7.6 k + 160 with probability < 2^-80
  double sum = 0;
  size_t k = cand.size() / 2;
  for (size_t i = 0; i + 1 < cand.size(); i += 2) sum += 1024 - std::min(cand[i].bits(), cand[i + 1].bits());
  if (sum > 7.6 * (double)k + 160) return bad("narrow", "one of the two candidate masks of each transfer is short");
  if (mine.size() < 90) return Verdict();
  for (int b = 0; b < 960; b++) {
    double n = 0, h = (double)mine.size() / 2;
    for (auto& m : mine) n += m.bit(b);
    if (std::abs(n - h) > 9 * std::sqrt((double)mine.size()) / 2) return bad("narrow", "bit " + std::to_string(b) + " of the blinding values is always the same");
  }
  return Verdict();
}
// selection bits in the order of the transfers, for sessions without bulk transfers
static Bits selections(const Sess& s, u64 cycles) {
  Bits b = s.in.e_init;
  b.insert(b.end(), s.in.e_in.begin(), s.in.e_in.begin() + (long)std::min<size_t>(s.in.e_in.size(), s.c.e_in * cycles));
  return b;
}
static Case gen08(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.many_e = 0;
  p.term = r.chance(15);
  Sess s = gen_sess(r, p);
  int k = (int)r.below(10);
  u64 want = k < 5 ? (u64)r.range(1, 20) : k < 8 ? r.pick(std::vector<u64>{64, 127, 128, 129, 130, 200}) : r.pick(std::vector<u64>{300, 600, 895, 896, 897, 1000});
  if (k == 9 && r.chance(thorough ? 60 : 25)) want = r.pick(std::vector<u64>{1025, 1100, 1300, 1800, 1801, 2000});
  u64 add = want > s.c.e_in ? want - s.c.e_in : 0;
  u64 hi = s.c.in_lo() + s.c.p_in + s.c.g_in + s.c.e_in;
  auto mv = [&](i64& w) { if (w >= (i64)hi) w += (i64)add; };
  for (auto& g : s.c.gates) { mv(g.a); if (g.t != 12) mv(g.b); }
  for (auto& w : s.c.outs) mv(w);
  for (auto& w : s.c.D) mv(w);
  if (s.c.term > 0) mv(s.c.term);
  s.c.e_in += add;
  s.cycles = s.c.e_in > 100 ? 1 : (u64)r.range(1, s.c.e_in > 12 ? 2 : 5);
  if (s.c.e_in > 128 && r.chance(20)) s.cycles = 2;
  if (r.chance(30) && s.c.D.size()) {  // bits the flip-flops start with travel the same way
    u64 a2 = r.chance(80) ? (u64)r.range(1, 10) : (u64)r.range(129, 160);
    u64 h2 = s.c.init_size();
    auto m2 = [&](i64& w) { if (w >= (i64)h2) w += (i64)a2; };
    for (auto& g : s.c.gates) { m2(g.a); if (g.t != 12) m2(g.b); }
    for (auto& w : s.c.outs) m2(w);
    for (auto& w : s.c.D) m2(w);
    if (s.c.term > 0) m2(s.c.term);
    s.c.e_init += a2;
    s.in.e_init = rand_bits(r, s.c.e_init);
  }
  s.in.p_in.resize(s.c.p_in * s.cycles);
  s.in.g_in.resize(s.c.g_in * s.cycles);
  s.in.e_in = rand_bits(r, s.c.e_in * s.cycles);
  s.ot = true;
  Env e = gen_env(r);
  if (e.chunk > 0 && e.chunk < 100 && want > 128) e.chunk = 500;
  put(c, s);
  put(c, e);
  c.setu("flip", r.next() & 0xffffff);
  if (r.chance(12)) c.faults.push_back(mk("rand_fail", "bob", (i64)r.below(30)));
  return c;
}
static Verdict ext_private(const ExtOT& e, size_t m, std::vector<std::string>* rows) {
  if (!e.whole) return Verdict();
  size_t k = e.m0.size();
  for (size_t j = 0; j < k; j++)
    if ((e.m0[j] - e.m1[j]).bits() < kWide) return bad("bulk", "the two masked columns " + std::to_string(j) + " of a bulk transfer are masked alike");
  for (size_t i = 0; i < m; i++) {
    bool any0 = false, any1 = false;
    for (size_t j = 0; j < k; j++) (e.m0[j].bit((int)i) != e.m1[j].bit((int)i) ? any1 : any0) = true;
    if (!(any0 && any1)) return bad("bulk", "choice bit " + std::to_string(i) + " of a bulk transfer is visible in all masked columns");
  }
  return Verdict();
}
// The numbers with which the garbler chooses the columns of the bulk transfers: k numbers about as long as the modulus.
static std::vector<std::vector<Num>> column_choices(const std::string& s, const BobTalk& t) {
  std::vector<std::vector<Num>> r;
  size_t p = 16;
  for (auto& e : t.ext) {
    if (!e.whole || e.d.empty()) break;
    std::vector<Num> v;
    for (; p + 4 < s.size(); p++) {
      if (s[p + 1] || s[p + 2] || s[p + 3] || (u8)s[p] > 128 || (u8)s[p] < 112) continue;
      Cur q(s, p);
      v.clear();
      while (v.size() < e.x0.size() && q.left(4)) {
        size_t at = q.p;
        if (s[at + 1] || s[at + 2] || s[at + 3] || (u8)s[at] > 128 || (u8)s[at] < 112) break;
        v.push_back(q.bn());
        if (!q.ok) break;
      }
      if (q.ok && v.size() == e.x0.size()) { p = q.p; break; }
      v.clear();
    }
    if (v.empty()) break;
    r.push_back(v);
  }
  return r;
}
typedef std::bitset<2048> Col;
// bits that are as good as all equal: 9 standard deviations from half of them
static bool lopsided(const Col& v, size_t m) {
  double n = (double)v.count(), h = (double)m / 2, d = n < h ? h - n : n - h;
  return d > 9 * std::sqrt((double)m) / 2;
}
// What is below the masks of a bulk transfer. The garbler gets one version of each column, as its own random choice has it:
// neither may tell anything about the choices, alone or together with the others.
static Verdict columns_private(const ExtOT& e, const std::vector<Num>& v, bool* seen) {
  Num n(e.n), d(e.d);
  const size_t k = v.size();
  size_t m = 0;
  std::vector<Col> t[2];
  for (size_t j = 0; j < k; j++)
    for (int w = 0; w < 2; w++) {
      Num y = (w ? e.m1 : e.m0)[j] - Num::modexp(v[j] - (w ? e.x1 : e.x0)[j], d, n);
      if (y.bits() > 1024) return Verdict();  // not what was masked
      m = std::max(m, (size_t)y.bits());
      Col b;
      for (int i = 0; i < y.bits(); i++) b[(size_t)i] = y.bit(i);
      t[w].push_back(b);
    }
  if (k < 64 || m < 64) return Verdict();
  Col ones;
  for (size_t i = 0; i < m; i++) ones[i] = true;
  const Col D = t[0][0] ^ t[1][0];  // the choices
  for (size_t j = 0; j < k; j++) if ((t[0][j] ^ t[1][j]) != D) return Verdict();
  *seen = true;
  for (size_t j = 0; j < k; j++)
    for (int w = 0; w < 2; w++)
      if (lopsided(t[w][j], m) || lopsided(t[w][j] ^ D, m)) return bad("column", "a version of column " + std::to_string(j) + " of a bulk transfer is as good as the choices themselves, or a constant");
  for (size_t j = 0; j < k; j++)
    for (size_t i = 0; i < j; i++) {
      Col y = t[0][i] ^ t[0][j];
      if (lopsided(y, m) || lopsided(y ^ D, m)) return bad("column", "columns " + std::to_string(i) + " and " + std::to_string(j) + " of a bulk transfer together tell the choices");
    }
  std::vector<Col> row(m);
  for (size_t j = 0; j < k; j++) for (size_t i = 0; i < m; i++) row[i][j] = t[0][j][i];
  for (size_t i = 0; i < m; i++) {
    if (lopsided(row[i], k)) return bad("column", "what masks choice " + std::to_string(i) + " of a bulk transfer is not random");
    for (size_t h = i > 40 ? i - 40 : 0; h < i; h++)
      if (lopsided(row[i] ^ row[h], k)) return bad("column", "choices " + std::to_string(h) + " and " + std::to_string(i) + " of a bulk transfer are masked alike");
  }
  return Verdict();
}
static Verdict run08(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  if (!s.ot) return Verdict();
  Expect e0 = expect(s);
  RunResult r0 = x.run(session_world(c, s, env));
  const ConnResult* k0 = first_conn(r0);
  if (!r0.crash.empty() || !k0) return Verdict();
  bool low = s.low && s.cycles > 1;
  bool below = false;
  auto analyse = [&](const Sess& z, const ConnResult* k, BobTalk* bt, std::vector<Num>* cand, std::vector<Num>* truec) -> Verdict {
    *bt = bob_talk(k->c2s);
    std::vector<BaseOT> as = alice_sends(k->s2c);
    Bits sel = selections(z, z.cycles);
    size_t q = 0;
    bool plain = bt->ext.empty();
    for (auto& o : as) {
      Num n(o.n), d(o.d);
      for (size_t i = 0; i < o.x0.size() && q < bt->v.size(); i++, q++) {
        Num a = Num::modexp(bt->v[q] - o.x0[i], d, n), b = Num::modexp(bt->v[q] - o.x1[i], d, n);
        cand->push_back(a);
        cand->push_back(b);
        if (plain && q < sel.size()) truec->push_back(sel[q] ? b : a);
      }
    }
    if (Verdict v = all_apart(*cand, "candidate mask"); v.violation) return v;
    if (Verdict v = full_range(*cand, *truec); v.violation) return v;
    // values of blinded choices themselves
    if (Verdict v = all_apart(bt->v, "blinded choice"); v.violation) return v;
    // bulk transfers
    std::vector<size_t> sizes;
    (void)sizes;
    size_t total = z.c.e_init + z.c.e_in * (low ? e0.ref.cycles : z.cycles);
    for (auto& e : bt->ext) {
      size_t m = std::min<size_t>(total, 2000);
      // bits above the columns' length are not choices: look only as far as a column reaches
      int mx = 0;
      for (auto& y : e.m0) mx = std::max(mx, y.bits());
      if (mx < 1) continue;
      // the number of transfers of this call is at most what is left
      size_t lim = m;
      if (mx <= 1025) lim = std::min<size_t>(lim, 896);
      if (bt->ext.size() > 1 && !low) lim = std::min<size_t>(lim, 64);
      if (low) lim = std::min<size_t>(lim, std::max<size_t>(z.c.e_init > 128 ? z.c.e_init : 0, z.c.e_in) > 128 ? 128 : 1);
      if (Verdict v = ext_private(e, lim, nullptr); v.violation) return v;
    }
    if (!bt->ext.empty()) {
      std::vector<std::vector<Num>> ch = column_choices(k->s2c, *bt);
      for (size_t i = 0; i < ch.size(); i++)
        if (Verdict v = columns_private(bt->ext[i], ch[i], &below); v.violation) return v;
    }
    return Verdict();
  };
  BobTalk b0;
  std::vector<Num> c0, t0;
  if (Verdict v = analyse(s, k0, &b0, &c0, &t0); v.violation) return v;
  size_t nb = s.c.e_init + s.c.e_in * s.cycles;
  x.nontrivial = nb > 0 && (!b0.v.empty() || !b0.ext.empty());
  x.note = std::to_string(nb) + " choices, " + std::to_string(b0.v.size()) + " blinded, " + std::to_string(b0.ext.size()) + " bulk transfers" + (below ? " seen through" : "");
  // every choice is blinded, and what else is sent are only the single bits that end cycles and decode outputs
  if (c.faults.empty() && r0.proc("alice")->ok() && r0.proc("bob")->ok()) {
    size_t total = s.c.e_init + s.c.e_in * (low ? e0.ref.cycles : s.cycles), bits = 0;
    for (u64 k = 0; k < e0.ref.cycles; k++) {
      for (size_t i = 0; i < e0.ref.pub[k].size(); i++) bits += e0.ref.pub[k][i] < 0 && mask_alice(s, i);
      bits += e0.ref.term_pub[k] == -1;
    }
    if (b0.odd) return bad("clear", "the evaluator sends something that is neither a blinded choice nor a bit that decodes an output");
    if (b0.shorts.size() > bits) return bad("clear", "the evaluator sends " + std::to_string(b0.shorts.size()) + " small numbers; " + std::to_string(bits) + " output and stop bits are to be sent");
    if (b0.ext.empty() && b0.v.size() < total) return bad("clear", "only " + std::to_string(b0.v.size()) + " of " + std::to_string(total) + " choices are blinded");
  }
  // no cleartext
  for (const Bits* in : {&s.in.e_in, &s.in.e_init}) {
    std::string be;
    Bits v = *in;
    while (v.size() % 8) v.push_back(0);
    for (size_t i = 0; i < v.size(); i += 8) { u8 z = 0; for (int j = 0; j < 8; j++) z |= (u8)(v[i + (size_t)j] << j); be = std::string(1, (char)z) + be; }
    for (size_t p = 0; p + 8 <= be.size(); p += 8) {
      std::string w = be.substr(p, 8);
      std::set<char> ds(w.begin(), w.end());
      if (ds.size() < 5) continue;
      if (k0->c2s.find(w) != std::string::npos || k0->c2s.find(std::string(w.rbegin(), w.rend())) != std::string::npos)
        return bad("clear", "the evaluator's input travels in the clear although oblivious transfer is on");
    }
  }
  if (nb == 0) return Verdict();
  bool faulty = !c.faults.empty();
  // other randomness of the evaluator: nothing in common
  Env f = env;
  f.entB = env.entB * 31 + 7;
  RunResult r1 = x.run(session_world(c, s, f));
  const ConnResult* k1 = first_conn(r1);
  if (!r1.crash.empty() || !k1) return Verdict();
  BobTalk b1;
  std::vector<Num> c1, t1;
  if (Verdict v = analyse(s, k1, &b1, &c1, &t1); v.violation) return v;
  if (!t0.empty() && !t1.empty() && t0.size() + t1.size() <= 600) {
    for (auto& a : t0)
      for (auto& b : t1)
        if ((a - b).bits() < kWide) return bad("stale", "two sessions of the evaluator use related masks");
  }
  for (size_t i = 0; i < b0.v.size() && i < b1.v.size(); i++)
    if (b0.v[i] == b1.v[i]) return bad("stale", "blinded choice " + std::to_string(i) + " does not depend on the evaluator's randomness");
  for (size_t i = 0; i < b0.ext.size() && i < b1.ext.size(); i++)
    for (size_t j = 0; j < b0.ext[i].m0.size() && j < b1.ext[i].m0.size(); j++)
      // the column the garbler chose is masked by the garbler's own value
      if ((b0.ext[i].m0[j] - b1.ext[i].m0[j]).bits() < kWide && (b0.ext[i].m1[j] - b1.ext[i].m1[j]).bits() < kWide)
        return bad("stale", "column " + std::to_string(j) + " of a bulk transfer is masked alike in two sessions");
  // one input bit changes its own blinded choice and no other message
  size_t fb = c.unum("flip") % nb;
  Sess t = s;
  (fb < s.c.e_init ? t.in.e_init[fb] : t.in.e_in[fb - s.c.e_init]) ^= 1;
  if (expect(t).ref.cycles != e0.ref.cycles) return Verdict();
  RunResult r2 = x.run(session_world(c, t, env));
  const ConnResult* k2 = first_conn(r2);
  if (!r2.crash.empty() || !k2) return faulty ? Verdict() : bad("depends", "flipping an input bit of the evaluator changes whether the session happens");
  BobTalk b2;
  std::vector<Num> c2, t2;
  if (Verdict v = analyse(t, k2, &b2, &c2, &t2); v.violation) return v;
  if (faulty) return Verdict();
  if (b2.v.size() != b0.v.size() || b2.ext.size() != b0.ext.size() || b2.shorts.size() != b0.shorts.size()) {
    if (!b0.odd && !b2.odd && e0.ref.pub == expect(t).ref.pub) return bad("depends", "flipping an input bit of the evaluator changes the number of its messages");
    return Verdict();
  }
  size_t diff = 0;
  for (size_t i = 0; i < b0.v.size(); i++) diff += !(b0.v[i] == b2.v[i]);
  if (b0.ext.empty() && diff > 1) return bad("depends", "flipping one input bit of the evaluator changes " + std::to_string(diff) + " of its blinded choices");
  for (size_t i = 0; i < b0.ext.size(); i++) {
    const ExtOT &p = b0.ext[i], &q = b2.ext[i];
    if (p.n != q.n) return bad("depends", "the evaluator's key depends on its input");
    for (size_t j = 0; j < p.x0.size() && j < q.x0.size(); j++)
      if (!(p.x0[j] == q.x0[j]) || !(p.x1[j] == q.x1[j])) return bad("depends", "a random value of the evaluator depends on its input");
  }
  return Verdict();
}

// ----------------------------------------------------------------- C12
static W16 lcg(const W16& w) {  // the generator this project once used for labels
  static const uint32_t mult[4] = {214013, 17405, 214013, 69069}, add[4] = {2531011, 10395331, 13737667, 1};
  uint32_t l[4];
  memcpy(l, &w, 16);
  for (int i = 0; i < 4; i++) l[i] = l[i] * mult[i] + add[i];
  W16 r;
  memcpy(&r, l, 16);
  return r;
}
static Case gen12(Rng& r, bool thorough) {
  Case c;
  Sess s = private_session(r, thorough, 5);
  if (r.chance(50)) s.ot = false;
  if (s.ot && s.c.e_in * s.cycles > 40 && !r.chance(20)) s.ot = false;
  Env e = gen_env(r);
  if (r.chance(6) && s.c.e_in * s.cycles < 10 && !(s.low && s.cycles > 1)) e.real_rsa = true;
  put(c, s);
  put(c, e);
  int how = (int)r.below(6);
  if (how >= 4) {  // part of the garbler's randomness is the same in two worlds
    c.set("how", how);
    c.setu("entA2", r.next() & 0xffffffffffff);
    c.set("phase", (i64)r.below(16));
    return c;
  }
  if (how >= 2) { e.varA = e.varB = 0; put(c, e); }
  c.set("how", how);   // 0,1: two worlds; 2,3: two sessions one after the other, the first cut short
  c.setu("entA2", r.next() & 0xffffffffffff);
  c.setu("entB2", r.next() & 0xffffffffffff);
  if (how >= 2) {
    RunResult cal = calibrate(s, e);
    for (auto& p : cal.procs) p.name += "0";
    if (r.chance(70)) c.faults.push_back(loss_fault(r, cal, s, "0", false, false));
    if (r.chance(70)) c.faults.push_back(mk("clock_jump", "*", (i64)r.below(6), r.pick(std::vector<i64>{-1, -2, -10, -1000000, 1000000})));
  } else if (r.chance(20)) {
    c.faults.push_back(mk("rand_fail", r.chance(70) ? "alice" : "bob", (i64)r.below(20)));
  }
  return c;
}
static Verdict common(const std::string& a, const std::string& b, const std::string& what, bool no_lengths = false) {
  std::vector<bool> ma = modulus_bytes(a), mb = modulus_bytes(b);
  std::unordered_map<W16, size_t, W16Hash> win;
  for (size_t p = 0; p + 16 <= a.size(); p++) {
    if (ma[p] || ma[p + 15]) continue;
    W16 w = at16(a, p);
    if (rich(w) && !(no_lengths && std::count(a.begin() + (long)p, a.begin() + (long)p + 16, '\0') > 1)) win.emplace(w, p);
  }
  for (size_t p = 0; p + 16 <= b.size(); p++) {
    if (mb[p] || mb[p + 15]) continue;
    auto q = win.find(at16(b, p));
    if (q != win.end()) return bad("shared", what + " share a secret: byte " + std::to_string(q->second) + " of one is byte " + std::to_string(p) + " of the other: " + hex16(q->first));
  }
  return Verdict();
}
// What differs between two streams: the secret offset, if one label is all that does.
static std::string offset_of(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return "";
  size_t lo = 0, hi = a.size();
  while (lo < hi && a[lo] == b[lo]) lo++;
  while (hi > lo && a[hi - 1] == b[hi - 1]) hi--;
  if (hi - lo < 9 || hi - lo > 16) return "";
  std::string d;
  for (size_t i = lo; i < hi; i++) d += (char)(a[i] ^ b[i]);
  return d;
}
// The garbler's secrets must not follow from a value that is sent in the clear (4), nor from the few bytes
// of randomness that are the same (5): both worlds differ in everything else it draws.
static Verdict run12_part(const Case& c, Ctx& x) {
  Sess s = get_sess(c), t = s;
  Env e = get_env(c);
  if (s.c.g_init) t.in.g_init[0] ^= 1;
  else if (s.c.g_in) t.in.g_in[0] ^= 1;
  const bool part = c.num("how") == 5;
  i64 keep = -1;
  auto world = [&](const Sess& q, bool second) {
    WorldSpec w = session_world(c, q, e);
    if (second) {
      w.procs[0].entropy2 = c.unum("entA2") | 1;
      if (part) w.procs[0].keep_phase = (int)c.num("phase");
      else w.procs[0].keep_draw = keep;
      w.procs[1].entropy2 = c.unum("entA2") | 2;  // the evaluator's masks come back to it
    }
    return x.run(w);
  };
  RunResult r0 = world(s, false);
  const ConnResult* k0 = first_conn(r0);
  if (!r0.crash.empty() || !k0 || k0->s2c.size() < 32) return Verdict();
  const std::string& a = k0->s2c;
  if (!part) {
    for (auto& d : r0.proc("alice")->draws) {
      size_t q = d.find(':');
      if (d.substr(q + 1) == a.substr(0, 16)) keep = strtoll(d.c_str(), 0, 10);
    }
    if (keep < 0) { x.note = "the first message is not a draw"; return Verdict(); }
  }
  RunResult r1 = world(s, true);
  const ConnResult* k1 = first_conn(r1);
  if (!r1.crash.empty() || !k1 || k1->s2c.size() < 32) return Verdict();
  const std::string& b = k1->s2c;
  x.nontrivial = true;
  x.note = std::string(part ? "half of the randomness" : "the global key") + " is the same in two worlds, " + std::to_string(a.size()) + " bytes";
  const std::string same = part ? "although every 16 bytes of the garbler's randomness differ" : "although all but the global key, which is sent, was drawn anew";
  if (!part && a.compare(0, 16, b, 0, 16)) return Verdict();
  // from behind the global key
  if (Verdict v = common(a.substr(part ? 0 : 16), b.substr(part ? 0 : 16), "two sessions, " + same + ",", part); v.violation) return v;
  if (s.c.g_init + s.c.g_in == 0) return Verdict();
  RunResult r2 = world(t, false), r3 = world(t, true);
  const ConnResult *k2 = first_conn(r2), *k3 = first_conn(r3);
  if (!r2.crash.empty() || !r3.crash.empty() || !k2 || !k3) return Verdict();
  const std::string p = offset_of(a, k2->s2c), q = offset_of(b, k3->s2c);
  if (p.empty() || q.empty()) return Verdict();
  x.note += ", offsets compared";
  if (p == q) return bad("derived", "the secret offset " + to_hexs(p) + " is the same " + same);
  return Verdict();
}
static Verdict run12(const Case& c, Ctx& x) {
  if (c.num("how") >= 4) return run12_part(c, x);
  Sess s = get_sess(c);
  Env e = get_env(c), f = e;
  f.entA = c.unum("entA2");
  f.entB = c.unum("entB2");
  i64 how = c.num("how");
  std::vector<const ConnResult*> ks;
  RunResult r0, r1;
  const ProcResult *a0 = nullptr, *a1 = nullptr;
  if (how < 2) {
    r0 = x.run(session_world(c, s, e));
    r1 = x.run(session_world(c, s, f));
    if (!r0.crash.empty() || !r1.crash.empty() || r0.conns.empty() || r1.conns.empty()) return Verdict();
    ks = {&r0.conns[0], &r1.conns[0]};
    a0 = r0.proc("alice");
    a1 = r1.proc("alice");
  } else {
    WorldSpec w = base_world(e, c);
    SessOpt o;
    o.tag = "0";
    add_session(w, s, e, o);
    o.tag = "1";
    add_session(w, s, f, o);
    for (size_t i = 2; i < 4; i++) w.procs[i].after = {"alice0", "bob0"};
    w.procs[0].kill_after = {"bob0"};
    w.procs[1].kill_after = {"alice0"};
    r0 = x.run(w);
    if (!r0.crash.empty() || r0.conns.size() < 2) return Verdict();
    ks = {&r0.conns[0], &r0.conns[1]};
    a0 = r0.proc("alice0");
    a1 = r0.proc("alice1");
  }
  x.nontrivial = ks[0]->s2c.size() >= 32 && ks[1]->s2c.size() >= 32;
  x.note = std::string(how < 2 ? "two worlds, " : "a session after another, ") + std::to_string(ks[0]->s2c.size()) + " and " + std::to_string(ks[1]->s2c.size()) + " bytes" + (e.real_rsa ? ", real key generation" : "");
  if (Verdict v = common(ks[0]->s2c, ks[1]->s2c, "two sessions of the garbler"); v.violation) return v;
  if (s.ot)
    if (Verdict v = common(ks[0]->c2s, ks[1]->c2s, "two sessions of the evaluator"); v.violation) return v;
  for (auto a : {a0, a1})
    if (a && a->sent > 16 && a->randb < 16) return bad("entropy", "the garbler drew only " + std::to_string(a->randb) + " bytes of randomness for a session");
  // what was sent first must not predict what comes later
  for (auto k : ks) {
    const std::string& st = k->s2c;
    if (st.size() < 48) continue;
    std::unordered_set<W16, W16Hash> win;
    for (size_t p = 0; p + 16 <= st.size() && p < 20000; p++) { W16 w = at16(st, p); if (rich(w)) win.insert(w); }
    W16 z = at16(st, 0);
    for (int i = 0; i < 300; i++) {
      z = lcg(z);
      if (win.count(z)) return bad("predictable", "a later secret follows from the first block sent by a linear congruential step");
    }
  }
  return Verdict();
}

extern const PropDef kPrivProps[];
const PropDef kPrivProps[] = {{"C06", gen06, run06}, {"C08", gen08, run08}, {"C12", gen12, run12}, {nullptr, nullptr, nullptr}};

// C09 oblivious transfer, C10 transport: scripted use of the library's own interfaces.
#include <errno.h>
#include <algorithm>
#include <sstream>
#include "case.h"
#include "num.h"

static const int kWide = 900;  // independent 1024-bit values agree in their top 124 bits with probability 2^-124

static WorldSpec drv_world(const Case& c, const Env& e, const std::vector<DrvOp>& srv, const std::vector<DrvOp>& cli) {
  WorldSpec w = base_world(e, c);
  for (int side = 0; side < 2; side++) {
    ProcSpec p;
    p.name = side ? "cli" : "srv";
    p.host = side && !e.samehost ? "B" : "A";
    p.prog = "drv";
    p.variant = side ? e.varB : e.varA;
    p.entropy = side ? e.entB : e.entA;
    p.fill = side ? e.fillB : e.fillA;
    p.drv.server = !side;
    p.drv.ip = e.samehost ? "127.0.0.1" : "10.0.0.1";
    p.drv.ops = side ? cli : srv;
    if (side) { p.wait_listen = 1234; p.listen_owner = "srv"; }
    w.procs.push_back(p);
  }
  return w;
}
// a fault that takes something away from two scripted processes
static Fault drv_fault(Rng& r, const RunResult& cal, bool entropy) {
  std::string who = r.chance(50) ? "srv" : "cli";
  const ProcResult* p = cal.proc(who);
  auto pos = [&](i64 n) { n = std::max<i64>(n, 1); return r.chance(25) ? std::max<i64>(0, n - 1 - (i64)r.below(10)) : (i64)r.below((u64)n); };
  static const std::vector<int> errs = {EIO, ECONNRESET, ETIMEDOUT, ENOBUFS, EPIPE, EBADF};
  switch (r.below(entropy ? 9 : 7)) {
    case 0: return mk("crash", who, pos(p->netops));
    case 1: return mk("reset", who, pos(p->netops));
    case 2: return mk("net_err", who, pos(p->netops), r.pick(errs), r.chance(70) ? 1 : 1000000);
    case 3: case 4: return mk("cut", who, pos(p->sent), (i64)r.below(2));
    case 5: return mk("alloc", who, pos(p->allocs), r.chance(80) ? 1 : 1000);
    case 6: {
      static const std::vector<std::string> S = {"socket", "bind", "listen", "accept", "setsockopt"}, C = {"socket", "dns", "connect", "setsockopt"};
      std::string n = r.pick(who == "srv" ? S : C);
      return mk("sock_fail", who, n == "setsockopt" ? (i64)r.below(2) : 0, n == "bind" ? EADDRINUSE : n == "connect" ? ECONNREFUSED : n == "dns" ? 2 : EMFILE, 0, n);
    }
    default: return mk("rand_fail", who, pos(p->rands));
  }
}

// ----------------------------------------------------------------- C09
struct Xfer { bool srv_sends = true, ext = false; u64 n = 0; int mpat = 0, spat = 0; std::string msgs, sel, want; };
static std::vector<Xfer> get_xfers(const Case& c) {
  std::vector<Xfer> v;
  std::istringstream in(c.get("ops"));
  int a, b;
  Xfer x;
  u64 k = 0;
  while (in >> a >> b >> x.n >> x.mpat >> x.spat) {
    x.srv_sends = a;
    x.ext = b;
    if (x.n > 5000) throw HarnessError("case too large");
    Rng r(mix(c.unum("data"), ++k));
    x.msgs.assign(32 * x.n, '\0');
    x.sel.assign(x.n, '\0');
    x.want.clear();
    for (u64 i = 0; i < x.n; i++) {
      for (int j = 0; j < 32; j++) x.msgs[i * 32 + (u64)j] = (char)r.below(256);
      int mp = x.mpat == 9 ? (int)r.below(7) : x.mpat;
      char* m = &x.msgs[i * 32];
      switch (mp) {
        case 1: memset(m, 0, 32); break;
        case 2: memset(m, 0xff, 32); break;
        case 3: memcpy(m + 16, m, 16); break;                       // equal
        case 4: memset(m + r.below(2) * 16, 0, 16); break;           // one of them zero
        case 5: { int z = 1 + (int)r.below(15); memset(m + 16 - z, 0, (size_t)z); memset(m + 32 - z, 0, (size_t)z); break; }  // leading zeros
        case 6: { int z = 1 + (int)r.below(15); memset(m, 0, (size_t)z); memset(m + 16, 0, (size_t)z); break; }               // trailing zeros
      }
      int sp = x.spat;
      x.sel[i] = (char)(sp == 1 ? 0 : sp == 2 ? 1 : sp == 3 ? (int)(i & 1) : (int)r.below(2));
      x.want += x.msgs.substr(i * 32 + (x.sel[i] ? 16 : 0), 16);
    }
    v.push_back(x);
  }
  return v;
}
static void scripts(const std::vector<Xfer>& xs, std::vector<DrvOp>* srv, std::vector<DrvOp>* cli) {
  for (auto& x : xs) {
    DrvOp s, t;
    s.kind = x.ext ? DrvOp::OTXSEND : DrvOp::OTSEND;
    t.kind = x.ext ? DrvOp::OTXRECV : DrvOp::OTRECV;
    s.data = x.msgs;
    t.data = x.sel;
    s.len = t.len = x.n;
    (x.srv_sends ? srv : cli)->push_back(s);
    (x.srv_sends ? cli : srv)->push_back(t);
  }
}
static Case gen09(Rng& r, bool thorough) {
  Case c;
  Env e = gen_env(r);
  c.setu("data", r.next() & 0xffffffffff);
  int kind = (int)r.below(12);
  std::string ops;
  auto size = [&](bool ext) -> u64 {
    if (!ext) return r.pick(std::vector<u64>{0, 1, 1, 2, 3, 5, 9, 20, 33, 64, 100, 127, 128, 129, 150, 200});
    return r.pick(std::vector<u64>{0, 1, 7, 8, 9, 31, 64, 100, 127, 128, 129, 136, 200, 255, 256, 257, 300, 400, 511, 513, 700, 895, 896, 897, 1000, 1024, 1025, 1200});
  };
  auto add = [&](int srv, bool ext, u64 n, int mp, int sp) {
    ops += std::to_string(srv) + " " + std::to_string(ext) + " " + std::to_string(n) + " " + std::to_string(mp) + " " + std::to_string(sp) + " ";
  };
  if (kind == 0) {  // the program that transfers one message
    c.set("kind", "main");
    static const char* hx = "0123456789abcdefABCDEF";
    for (std::string k : {"m0", "m1"}) {
      std::string s;
      for (int i = 0, n = r.chance(70) ? 32 : (int)r.range(1, 31); i < n; i++) { s += hx[r.below(22)]; if (r.chance(10) && i + 1 < n) s += "_"; }
      c.set(k, s);
    }
    c.set("sel", (i64)r.below(2));
    if (r.chance(50)) { c.set("m0", std::string(32, "0f1"[r.below(3)])); }
    e.varA = e.varB = 0;
  } else if (kind <= 2) {
    c.set("kind", "choice");
    add((int)r.below(2), true, (u64)r.range(128, r.chance(85) ? 200 : thorough ? 2000 : 1200), (int)r.below(7), 0);
  } else {
    c.set("kind", kind <= 5 ? "twice" : "exact");
    int n = r.chance(60) ? 1 : (int)r.range(2, 4);
    for (int i = 0; i < n; i++) {
      bool ext = r.chance(45);
      u64 sz = size(ext);
      if (n > 1 && sz > 140) sz %= 140;
      add((int)r.below(2), ext, sz, r.chance(30) ? 9 : (int)r.below(7), (int)r.below(5));
    }
    if (thorough && r.chance(4)) { ops.clear(); add(1, true, (u64)r.range(1700, 4000), 9, 0); }
  }
  c.set("ops", ops);
  if (e.chunk > 0 && e.chunk < 16) e.chunk = 16;
  put(c, e);
  if (kind > 5 && r.chance(45)) {
    std::vector<DrvOp> a, b;
    scripts(get_xfers(c), &a, &b);
    Case none;
    RunResult cal = run_world(drv_world(none, e, a, b));
    if (cal.crash.empty()) c.faults.push_back(drv_fault(r, cal, true));
  }
  return c;
}
// what one transfer left on the wire
struct Wire {
  std::vector<Num> x, mp;        // random values and masked messages of the base transfer(s)
  std::vector<std::string> pad;  // masks of the bulk transfer, two per pair
  std::vector<size_t> mp_at;     // where the masked messages start in the stream of the base sender
  std::vector<size_t> mp_end;
  std::vector<std::vector<Num>> v;  // blinded choices, per batch
  std::vector<std::string> n;
  std::vector<u64> batch;        // pairs per batch
};
static std::string le16(const Num& a) {
  std::string b = a.bytes();
  std::string r(b.rbegin(), b.rend());
  r.resize(16, '\0');
  return r;
}
static std::string xor16(const std::string& a, const std::string& b) {
  std::string r(16, '\0');
  for (int i = 0; i < 16; i++) r[(size_t)i] = (char)(a[(size_t)i] ^ b[(size_t)i]);
  return r;
}
static bool read_base(Cur& s, Wire* w, u64 want) {
  u64 len = s.u(4);
  if (!s.ok || len != want) return false;
  w->n.push_back(s.bn().bytes());
  s.bn();
  for (u64 i = 0; i < 2 * len && s.ok; i++) { Num a = s.bn(); if (s.ok) w->x.push_back(a); }
  w->mp_at.push_back(s.p);
  for (u64 i = 0; i < 2 * len && s.ok; i++) { Num a = s.bn(); if (s.ok) w->mp.push_back(a); }
  w->mp_end.push_back(s.p);
  return s.ok;
}
static bool read_v(Cur& s, Wire* w, u64 n) {
  w->v.push_back({});
  for (u64 i = 0; i < n && s.ok; i++) { Num a = s.bn(); if (s.ok) w->v.back().push_back(a); }
  return s.ok;
}
// false: the streams end (or differ) in the middle of this transfer
static bool read_xfer(const Xfer& x, Cur& snd, Cur& rcv, Wire* w) {
  if (!x.ext) return read_base(snd, w, x.n) & read_v(rcv, w, x.n);
  u64 done = 0;
  do {
    bool ok = read_base(rcv, w, 128);
    ok &= read_v(snd, w, 128);
    if (!snd.ok) return false;
    u64 b = 0;
    while (done < x.n) {
      size_t p = snd.p;
      Num y0 = snd.bn();
      if (!snd.ok) return false;
      if (y0.bits() > 128) { snd.p = p; break; }
      Num y1 = snd.bn();
      if (!snd.ok) return false;
      w->pad.push_back(xor16(le16(y0), x.msgs.substr(done * 32, 16)));
      w->pad.push_back(xor16(le16(y1), x.msgs.substr(done * 32 + 16, 16)));
      done++;
      b++;
    }
    w->batch.push_back(b);
    if (!ok || (b == 0 && done < x.n)) return false;
  } while (done < x.n);
  return true;
}
static Verdict apart(const std::vector<Num>& v, const std::string& what) {
  std::vector<const Num*> s;
  for (auto& a : v) {
    if (a.bits() < kWide) return bad("narrow", what + " has only " + std::to_string(a.bits()) + " bits");
    s.push_back(&a);
  }
  std::sort(s.begin(), s.end(), [](const Num* a, const Num* b) { return BN_cmp(a->b, b->b) < 0; });
  for (size_t i = 1; i < s.size(); i++)  // neighbours in value are the closest ones
    if ((*s[i] - *s[i - 1]).bits() < kWide) return bad("related", "two of them, " + what + ", differ by a small number");
  return Verdict();
}
static Verdict masks(const Xfer& x, const Wire& w, const std::string& where) {
  if (Verdict v = apart(w.x, where + "random values of the sender"); v.violation) return v;
  if (!x.ext) {
    if (Verdict v = apart(w.mp, where + "masked messages"); v.violation) return v;
    std::vector<Num> d;
    for (size_t i = 0; i + 1 < w.mp.size(); i += 2) d.push_back(w.mp[i] - w.mp[i + 1]);
    std::vector<Num> e;
    for (auto& a : d) { Num b(a); BN_set_negative(b.b, 0); e.push_back(b); }
    for (auto& a : e) if (a.bits() < kWide) return bad("related", where + "the two masks of a pair differ by a small number");
    return Verdict();
  }
  std::set<std::string> seen, diff;
  for (size_t i = 0; i < w.pad.size(); i++) {
    if (w.pad[i] == std::string(16, '\0')) return bad("unmasked", where + "message " + std::to_string(i & 1) + " of pair " + std::to_string(i / 2) + " travels in the clear");
    if (!seen.insert(w.pad[i]).second) return bad("pad-reuse", where + "two messages of a bulk transfer are masked alike (pair " + std::to_string(i / 2) + ")");
  }
  for (size_t i = 0; i + 1 < w.pad.size(); i += 2)
    if (!diff.insert(xor16(w.pad[i], w.pad[i + 1])).second) return bad("pad-offset", where + "two pairs of a bulk transfer have the same difference between their masks");
  // each half of every mask has to vary
  if (w.pad.size() >= 64)
    for (int b = 0; b < 128; b++) {
      bool one = false, zero = false;
      for (auto& p : w.pad) (((u8)p[(size_t)b / 8] >> (b % 8)) & 1 ? one : zero) = true;
      if (!one || !zero) return bad("pad-bit", where + "bit " + std::to_string(b) + " of every mask is the same");
    }
  return Verdict();
}
static Verdict run_main(const Case& c, Ctx& x) {
  Env e = get_env(c);
  WorldSpec w = base_world(e, c);
  for (int side = 0; side < 2; side++) {
    ProcSpec p;
    p.name = side ? "cli" : "srv";
    p.host = side ? "B" : "A";
    p.prog = "otmain";
    p.entropy = side ? e.entB : e.entA;
    p.fill = side ? e.fillB : e.fillA;
    p.args = side ? std::vector<std::string>{"-b", "-s", "10.0.0.1", "--select", c.get("sel")}
                  : std::vector<std::string>{"-a", "--message0", c.get("m0"), "--message1", c.get("m1")};
    if (side) { p.wait_listen = 1234; p.listen_owner = "srv"; }
    w.procs.push_back(p);
  }
  RunResult r = x.run(w);
  if (!r.crash.empty()) return bad("memory", r.crash);
  x.nontrivial = true;
  if (!r.proc("srv")->ok() || !r.proc("cli")->ok()) return bad("status", "the transfer program failed: " + describe(r));
  auto clean = [](const std::string& s) { std::string t; for (char ch : s) if (isxdigit((u8)ch)) t += (char)tolower(ch); while (t.size() < 32) t = "0" + t; return t; };
  std::string m[2] = {clean(c.get("m0")), clean(c.get("m1"))}, all = r.proc("cli")->out + "\n";
  for (auto& f : r.files) if (f.first.compare(0, 2, "B:") == 0) all += f.second + "\n";
  std::string norm;
  for (char ch : all) if (ch != '_' && ch != ' ') norm += (char)tolower(ch);
  int sel = (int)c.num("sel");
  if (norm.find(m[sel]) == std::string::npos) return bad("main", "the receiver did not report the selected message " + m[sel] + ": " + norm.substr(0, 600));
  if (m[0] != m[1] && norm.find(m[1 - sel]) != std::string::npos) return bad("main", "the receiver reported the message it did not select");
  // what travelled hides both
  const ConnResult* k = first_conn(r);
  Xfer t;
  t.n = 1;
  Cur a(k->s2c), b(k->c2s);
  Wire y;
  if (read_xfer(t, a, b, &y)) return masks(t, y, "");
  return Verdict();
}
static Verdict look(const std::vector<Xfer>& xs, const RunResult& r, std::vector<Wire>* ws) {
  const ConnResult* k = first_conn(r);
  if (!k) return Verdict();
  Cur s(k->s2c), t(k->c2s);
  size_t i = 0;
  for (auto& x : xs) {
    ws->push_back(Wire());
    bool whole = read_xfer(x, x.srv_sends ? s : t, x.srv_sends ? t : s, &ws->back());
    if (Verdict v = masks(x, ws->back(), "transfer " + std::to_string(i) + ": "); v.violation) return v;
    if (!whole) break;
    i++;
  }
  return Verdict();
}
// the sender's secret choice in the base transfers of a bulk transfer, found by asking it with altered columns
static bool find_choice(const Case& c, Ctx& x, const Env& e, const std::vector<DrvOp>& a, const std::vector<DrvOp>& b, const Xfer& t,
                        const RunResult& r0, const Wire& w, std::vector<Bits>* S) {
  const ConnResult* k = first_conn(r0);
  const std::string& rs = t.srv_sends ? k->c2s : k->s2c;  // stream of the receiver
  Case d = c;
  d.faults.clear();
  size_t base = 0;
  for (size_t q = 0; q < w.mp_at.size(); q++, base += 256) {
    if (w.batch[q] < 128) continue;
    std::string key;
    if (!pool_key(w.n[q], &key) || w.mp.size() < base + 256) return false;
    Num n(w.n[q]), dd(key);
    std::string forged;
    for (size_t j = 0; j < 128; j++) {
      Num m0 = w.mp[base + 2 * j];
      Num col = m0 - Num::modexp(w.v[q][j] - w.x[base + 2 * j], dd, n);
      Num one;
      BN_one(one.b);
      BN_lshift(one.b, one.b, (int)j);
      Num m = col.bit((int)j) ? m0 - one : m0 + one;
      for (const Num& z : {m, w.mp[base + 2 * j + 1]}) {
        std::string by = z.bytes();
        u64 len = by.size();
        for (int i = 0; i < 4; i++) forged += (char)(len >> (8 * i));
        forged += by;
      }
    }
    if (forged.size() != w.mp_end[q] - w.mp_at[q]) return false;
    d.faults.push_back(mk("forge", t.srv_sends ? "cli" : "srv", (i64)w.mp_at[q], 0, 0, forged));
  }
  (void)rs;
  if (d.faults.empty()) return false;
  RunResult r1 = x.run(drv_world(d, e, a, b));
  const ConnResult* k1 = first_conn(r1);
  if (!r1.crash.empty() || !k1) return false;
  Cur s(t.srv_sends ? k1->s2c : k1->c2s), v(t.srv_sends ? k1->c2s : k1->s2c);
  Wire u;
  if (!read_xfer(t, s, v, &u) || u.pad.size() != w.pad.size()) return false;
  size_t row = 0;
  for (size_t q = 0; q < w.batch.size(); q++) {
    if (w.batch[q] >= 128) {
      Bits z;
      for (size_t j = 0; j < 128; j++) z.push_back(u.pad[2 * (row + j)] == w.pad[2 * (row + j)]);  // unchanged: the other column was chosen
      S->push_back(z);
    }
    row += w.batch[q];
  }
  return true;
}
static Verdict run09(const Case& c, Ctx& x) {
  if (c.get("kind") == "main") return run_main(c, x);
  Env e = get_env(c);
  std::vector<Xfer> xs = get_xfers(c);
  std::vector<DrvOp> a, b;
  scripts(xs, &a, &b);
  RunResult r = x.run(drv_world(c, e, a, b));
  if (!r.crash.empty()) return bad("memory", r.crash);
  bool faulty = !c.faults.empty();
  const ProcResult *ps = r.proc("srv"), *pc = r.proc("cli");
  size_t is = 0, ic = 0;
  u64 pairs = 0;
  for (size_t i = 0; i < xs.size(); i++) {
    const Xfer& t = xs[i];
    size_t& jr = t.srv_sends ? ic : is;
    size_t js = is;
    (void)js;
    const ProcResult* pr = t.srv_sends ? pc : ps;
    if (jr < pr->drv.size() && pr->drv[jr].first == 0) {
      if (pr->drv[jr].second != t.want) return bad("wrong-message", "transfer " + std::to_string(i) + " of " + std::to_string(t.n) + " pairs succeeded with a message that was not selected");
      pairs += t.n;
    } else if (!faulty) {
      return bad("status", "transfer " + std::to_string(i) + " failed without any fault: " + describe(r));
    }
    is++;
    ic++;
  }
  if (!faulty && (!ps->ok() || !pc->ok())) return bad("status", "a transfer failed without any fault: " + describe(r));
  x.nontrivial = pairs > 0 || (faulty && !r.fired.empty());
  x.note = c.get("kind") + ": " + std::to_string(xs.size()) + " transfers, " + std::to_string(pairs) + " pairs delivered" + (faulty ? ", fault " + c.faults[0].kind : "");
  std::vector<Wire> ws;
  if (Verdict v = look(xs, r, &ws); v.violation) return v;
  if (faulty || c.get("kind") == "exact") return Verdict();
  Env f = e;
  f.entA = e.entA * 7 + 1;
  f.entB = e.entB * 5 + 3;
  RunResult r2 = x.run(drv_world(c, f, a, b));
  if (!r2.crash.empty()) return bad("memory", r2.crash);
  std::vector<Wire> w2;
  if (Verdict v = look(xs, r2, &w2); v.violation) return v;
  for (size_t i = 0; i < ws.size() && i < w2.size(); i++) {  // nothing shared between two sessions
    std::vector<Num> all = ws[i].x;
    all.insert(all.end(), w2[i].x.begin(), w2[i].x.end());
    if (Verdict v = apart(all, "random values of the sender in two sessions"); v.violation) return v;
    if (!xs[i].ext) {
      all = ws[i].mp;
      all.insert(all.end(), w2[i].mp.begin(), w2[i].mp.end());
      if (Verdict v = apart(all, "masked messages in two sessions"); v.violation) return v;
    } else {
      std::set<std::string> s(ws[i].pad.begin(), ws[i].pad.end());
      for (auto& p : w2[i].pad) if (s.count(p)) return bad("pad-reuse", "two sessions mask a message alike");
    }
  }
  if (c.get("kind") != "choice" || xs.size() != 1 || ws.size() != 1 || w2.size() != 1) return Verdict();
  std::vector<Bits> S;
  if (!find_choice(c, x, e, a, b, xs[0], r, ws[0], &S) || !find_choice(c, x, f, a, b, xs[0], r2, w2[0], &S)) { x.note += " (choice not found)"; return Verdict(); }
  if (x.st) x.st->probes["sender_choice_found"] += (i64)S.size();
  for (size_t i = 0; i < S.size(); i++) {
    int wt = 0;
    for (auto z : S[i]) wt += z;
    if (wt < 20 || wt > 108) return bad("choice", "the sender's secret choice in a bulk transfer is not random: " + bitstr(S[i]));
    for (size_t j = 0; j < i; j++) {
      int d = 0;
      for (int z = 0; z < 128; z++) d += S[i][(size_t)z] != S[j][(size_t)z];
      if (d < 20 || d > 108) return bad("choice", "the sender's secret choices in two bulk transfers are related: " + bitstr(S[j]) + " " + bitstr(S[i]));
    }
  }
  x.note += ", " + std::to_string(S.size()) + " secret choices compared";
  return Verdict();
}

// ----------------------------------------------------------------- C10
struct Msg { bool srv; int kind; std::string data; };  // kind 0 bytes, 1 number
static std::vector<Msg> get_msgs(const Case& c) {
  std::vector<Msg> v;
  std::istringstream in(c.get("ops"));
  int a, k, pat;
  u64 n, q = 0;
  while (in >> a >> k >> n >> pat) {
    if (n > 4000000) throw HarnessError("case too large");
    Rng r(mix(c.unum("data"), ++q));
    std::string d(n, '\0');
    for (u64 i = 0; i < n; i += 8) {
      u64 z = r.next();
      for (u64 j = 0; j < 8 && i + j < n; j++) d[i + j] = (char)(pat == 1 ? 0 : pat == 2 ? 0xff : z >> (8 * j));
    }
    if (k == 1) { size_t z = d.find_first_not_of('\0'); d = z == std::string::npos ? "" : d.substr(z); }
    v.push_back({a != 0, k, d});
  }
  return v;
}
static void msg_scripts(const std::vector<Msg>& ms, std::vector<DrvOp>* srv, std::vector<DrvOp>* cli) {
  for (auto& m : ms) {
    DrvOp s, t;
    s.kind = m.kind ? DrvOp::SENDBN : DrvOp::SEND;
    t.kind = m.kind ? DrvOp::RECVBN : DrvOp::RECV;
    s.data = m.data;
    t.len = m.kind ? 0 : m.data.size();
    (m.srv ? srv : cli)->push_back(s);
    (m.srv ? cli : srv)->push_back(t);
  }
}
static Case gen10(Rng& r, bool thorough) {
  Case c;
  Env e = gen_env(r);
  if (r.chance(40)) e.chunk = r.pick(std::vector<int>{1, 2, 3, 4, 5, 7});
  if (r.chance(40)) e.lat = r.pick(std::vector<int>{500, 20000, 300000});
  c.setu("data", r.next() & 0xffffffffff);
  std::string ops;
  u64 total = 0, lim = e.chunk && e.chunk < 16 ? 6000 : thorough ? 3000000 : 900000;
  int style = (int)r.below(4);
  for (int i = 0, n = (int)r.range(1, 14); i < n; i++) {
    bool num = r.chance(45);
    u64 sz;
    if (num) sz = r.pick(std::vector<u64>{0, 0, 1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257, 1000, 4000, 40000, 65535, 65536, 70001, 200000});
    else sz = r.chance(20) ? (u64)r.range(0, 300000) : r.pick(std::vector<u64>{0, 1, 2, 3, 4, 8, 15, 16, 17, 48, 255, 256, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131072});
    if (total + sz > lim) sz %= 50;
    total += sz;
    int dir = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? i & 1 : (int)r.below(2);
    ops += std::to_string(dir) + " " + std::to_string(num) + " " + std::to_string(sz) + " " + std::to_string(r.chance(80) ? 0 : 1 + r.below(2)) + " ";
  }
  c.set("ops", ops);
  put(c, e);
  std::vector<DrvOp> a, b;
  msg_scripts(get_msgs(c), &a, &b);
  if (r.chance(60)) {
    Case none;
    RunResult cal = run_world(drv_world(none, e, a, b));
    if (cal.crash.empty())
      for (int i = 0, n = r.chance(80) ? 1 : 2; i < n; i++) c.faults.push_back(drv_fault(r, cal, false));
  } else if (r.chance(30)) {
    for (int i = 0; i < 2; i++) c.faults.push_back(mk("stall", r.chance(50) ? "srv" : "cli", (i64)r.below(30), (i64)r.below(3000000)));
  }
  return c;
}
static std::string on_wire(const Msg& m) {
  if (!m.kind) return m.data;
  std::string s;
  for (int i = 0; i < 4; i++) s += (char)(m.data.size() >> (8 * i));
  return s + m.data;
}
static Verdict run10(const Case& c, Ctx& x) {
  Env e = get_env(c);
  std::vector<Msg> ms = get_msgs(c);
  std::vector<DrvOp> a, b;
  msg_scripts(ms, &a, &b);
  RunResult r = x.run(drv_world(c, e, a, b));
  if (!r.crash.empty()) return bad("memory", r.crash);
  bool harmless = true;
  for (auto& f : c.faults) harmless &= f.kind == "stall";
  const ProcResult* p[2] = {r.proc("srv"), r.proc("cli")};
  u64 got = 0, sentok[2] = {0, 0};
  bool allsent[2] = {true, true};
  for (size_t i = 0; i < ms.size(); i++) {
    int snd = ms[i].srv ? 0 : 1;
    auto st = [&](int side) { return i < p[side]->drv.size() ? p[side]->drv[i].first : -99; };
    std::string what = std::string(ms[i].kind ? "number" : "block") + " " + std::to_string(i) + " of " + std::to_string(ms[i].data.size()) + " bytes";
    if (st(1 - snd) == 0) {
      if (p[1 - snd]->drv[i].second != ms[i].data) return bad("wrong-data", what + " was received with success but differs from what was sent");
      got++;
    } else if (harmless) return bad("status", "receiving " + what + " failed without any fault: " + describe(r));
    if (st(snd) == 0) { if (allsent[snd]) sentok[snd] += on_wire(ms[i]).size(); }
    else { allsent[snd] = false; if (harmless) return bad("status", "sending " + what + " failed without any fault: " + describe(r)); }
  }
  if (harmless && (!p[0]->ok() || !p[1]->ok())) return bad("status", "failed without any fault: " + describe(r));
  x.nontrivial = harmless ? got > 0 : !r.fired.empty();
  x.note = std::to_string(ms.size()) + " messages, " + std::to_string(got) + " received" + (harmless ? "" : ", fault " + c.faults[0].kind);
  // a successful send put its bytes on the connection
  if (const ConnResult* k = first_conn(r))
    for (int side = 0; side < 2; side++) {
      std::string want;
      for (auto& m : ms) if (m.srv == (side == 0)) want += on_wire(m);
      const std::string& w = side == 0 ? k->s2c : k->c2s;
      if (w.size() < sentok[side]) return bad("lost", "sends reported success for " + std::to_string(sentok[side]) + " bytes but the connection took " + std::to_string(w.size()));
      if (w.size() > want.size() || want.compare(0, w.size(), w)) return bad("wire", "what was put on the connection is not what was to be sent");
    }
  return Verdict();
}

extern const PropDef kOtProps[];
const PropDef kOtProps[] = {{"C09", gen09, run09}, {"C10", gen10, run10}, {nullptr, nullptr, nullptr}};

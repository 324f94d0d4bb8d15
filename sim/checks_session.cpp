// Two-party session checks: C01 result, C02 fail-stop, C03 progress, C04 termination,
// C05 ownership, C07 leftover memory, C11 traffic, C13 recovery, C14 malformed peers, C19 diagnostics.
#include <errno.h>
#include <algorithm>
#include <cmath>
#include <sstream>
#include "case.h"

static const char* kRealRoles = "alice+bob";

// ----------------------------------------------------------------- helpers
static Verdict judge_good(const Sess& s, const RunResult& r, const Expect& e, const std::string& tag = "") {
  if (!r.crash.empty()) return bad("memory", r.crash);
  const ProcResult *a = r.proc("alice" + tag), *b = r.proc("bob" + tag);
  if (!a->ok() || !b->ok()) return bad("status", "a party did not end with success: " + describe(r));
  if (!printed(*a, e.a)) return bad("alice-output", "garbler printed '" + a->out + "', expected '" + e.a + "'");
  if (!printed(*b, e.b)) return bad("bob-output", "evaluator printed '" + b->out + "', expected '" + e.b + "'");
  return Verdict();
}
// a party under faults: success only with the right output; never a crash of its own
Verdict judge_failstop(const ProcResult& p, const std::string& e) {
  if (p.ok()) {
    if (!printed(p, e)) return bad("wrong-success", p.name + " reported success but printed '" + p.out + "', expected '" + e + "'");
    return Verdict();
  }
  if (p.st == ST_SIGNAL && p.code != 13) return bad("crash", p.name + " died from signal " + std::to_string(p.code));
  if (p.st == ST_ABORT || p.st == ST_EXCEPTION) return bad("crash", p.name + " died: " + p.what);
  return Verdict();
}
Fault mk(const std::string& kind, const std::string& proc, i64 at, i64 arg, i64 arg2, const std::string& str) {
  Fault f;
  f.kind = kind; f.proc = proc; f.at = at; f.arg = arg; f.arg2 = arg2; f.str = str;
  return f;
}
static const std::vector<int> kNetErr = {EIO, ECONNRESET, ETIMEDOUT, ENOBUFS, ENOTCONN, EPIPE, ENOMEM, EBADF};

// a fault that takes something away from a session, placed inside what the calibration run did
Fault loss_fault(Rng& r, const RunResult& cal, const Sess& s, const std::string& tag, bool alloc, bool files) {
  bool alice = r.chance(50);
  std::string who = (alice ? "alice" : "bob") + tag;
  const ProcResult* p = cal.proc(who);
  i64 net = std::max<i64>(1, p ? p->netops : 20), fo = std::max<i64>(1, p ? p->fileops : 10), al = std::max<i64>(1, p ? p->allocs : 300);
  i64 sent = std::max<i64>(1, p ? p->sent : 100);
  // favour the last stretch, where results are exchanged, and the first
  auto pos = [&](i64 n) { int k = (int)r.below(10); return k < 3 ? std::max<i64>(0, n - 1 - (i64)r.below(12)) : k == 3 ? (i64)r.below(std::min<i64>(n, 12)) : (i64)r.below(n); };
  for (;;) {
    switch (r.below(files ? 13 : 9)) {
      case 0: return mk("crash", who, pos(net));
      case 1: return mk("reset", who, pos(net));
      case 2: case 3: return mk("net_err", who, pos(net), r.pick(kNetErr), r.chance(70) ? 1 : 1000000);
      case 4: case 5: return mk("cut", who, pos(sent), r.below(2));
      case 6: {
        static const std::vector<std::string> A = {"socket", "bind", "listen", "accept", "setsockopt"}, B = {"socket", "dns", "connect", "setsockopt"};
        std::string n = r.pick(alice ? A : B);
        int er = n == "bind" ? EADDRINUSE : n == "connect" ? ECONNREFUSED : n == "accept" ? EMFILE : n == "dns" ? 2 : EMFILE;
        return mk("sock_fail", who, n == "setsockopt" ? (i64)r.below(2) : 0, er, 0, n);
      }
      case 7: case 8: if (!alloc) continue; return mk("alloc", who, pos(al), r.chance(80) ? 1 : 1000);
      case 12: return mk("print_err", who, r.chance(50) ? 0 : -1, r.chance(60) ? ENOSPC : EIO);
      case 9: return mk("crash_file", who, (i64)r.below(fo));
      case 10: {
        std::string f = std::string(alice ? "cg" : "ce") + tag + ".scd";
        return r.chance(50) ? mk("fopen_fail", who, -1, r.chance(50) ? EACCES : EMFILE, 1, f) : mk("read_err", who, (i64)r.below(std::max<size_t>(1, s.c.text().size())), EIO, 0, f);
      }
      case 11: {
        if (!(s.style & 1)) continue;
        return mk("fopen_fail", who, -1, EACCES, 1, std::string(alice ? "a" : "b") + ".txt");
      }
    }
  }
}
WorldSpec session_world(const Case& c, const Sess& s, const Env& e, const SessOpt& o) {
  WorldSpec w = base_world(e, c);
  add_session(w, s, e, o);
  return w;
}
RunResult calibrate(const Sess& s, const Env& e) {
  Case none;
  return run_world(session_world(none, s, e));
}

// ----------------------------------------------------------------- C01
static Case gen01(Rng& r, bool thorough) {
  Case c;
  Prof p;
  if (thorough && r.chance(20)) { p.max_gates = 400; p.max_in = 40; p.max_cycles = 20; p.max_dff = 20; }
  p.term = r.chance(15);
  p.huge = 2;
  put(c, gen_sess(r, p));
  Env e = gen_env(r);
  e.real_rsa = r.chance(1);
  put(c, e);
  if (r.chance(20))
    for (int k = 0; k < 2; k++) c.faults.push_back(mk("stall", r.chance(50) ? "alice" : "bob", (i64)r.below(40), (i64)r.below(3000000)));
  return c;
}
static Verdict run01(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Expect e = expect(s);
  RunResult r = x.run(session_world(c, s, get_env(c)));
  x.nontrivial = true;
  x.note = std::to_string(s.c.gates.size()) + " gates, " + std::to_string(s.cycles) + " cycles, ot=" + std::to_string(s.ot) + " low=" + std::to_string(s.low) + " -> " + describe(r).substr(0, 160);
  return judge_good(s, r, e);
}

// ----------------------------------------------------------------- C02
static Case gen02(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = r.chance(20);
  p.many_e = 2;
  Sess s = gen_sess(r, p);
  Env e = gen_env(r);
  if (r.chance(15)) { e.varA = 1; e.varB = 1; }
  put(c, s);
  put(c, e);
  RunResult cal = calibrate(s, e);
  int n = r.chance(80) ? 1 : 2;
  for (int i = 0; i < n; i++) c.faults.push_back(loss_fault(r, cal, s, "", true, true));
  return c;
}
static Verdict run02(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Expect e = expect(s);
  RunResult r = x.run(session_world(c, s, get_env(c)));
  if (!r.crash.empty()) return bad("memory", r.crash);
  x.nontrivial = !r.fired.empty();
  if (!c.faults.empty()) x.note = c.faults[0].kind + "@" + std::to_string(c.faults[0].at) + " on " + c.faults[0].proc + " -> " + describe(r).substr(0, 160);
  Verdict v = judge_failstop(*r.proc("alice"), e.a);
  if (v.violation) return v;
  return judge_failstop(*r.proc("bob"), e.b);
}

// ----------------------------------------------------------------- C03
static Case gen03(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = r.chance(35);
  p.huge = 1;
  p.bulk = 3;
  Sess s = gen_sess(r, p);
  Env e = gen_env(r);
  if (s.c.e_in >= 400 && r.chance(75)) {
    s.ot = true;
    e.cap = 65536;
    if (e.chunk > 0 && e.chunk < 100) e.chunk = 500;
  }
  put(c, s);
  RunResult cal = calibrate(s, e);
  e.max_steps = cal.crash.empty() && cal.proc("alice")->ok() && cal.proc("bob")->ok() ? cal.steps * 4 + 60000 : 1500000;
  put(c, e);
  const ProcResult *a = cal.proc("alice"), *b = cal.proc("bob");
  if (r.chance(40)) {
    c.set("live", 1);
    int n = (int)r.range(0, 4);
    for (int i = 0; i < n; i++) {
      bool al = r.chance(50);
      i64 ops = std::max<i64>(1, (al ? a : b) ? (al ? a : b)->netops : 10);
      c.faults.push_back(mk("stall", al ? "alice" : "bob", (i64)r.below(ops), r.pick(std::vector<i64>{1000, 1000000, 3600000000LL})));
    }
  } else {
    int n = r.chance(85) ? 1 : 2;
    for (int i = 0; i < n; i++) c.faults.push_back(loss_fault(r, cal, s, "", false, true));
  }
  return c;
}
static Verdict run03(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  RunResult r = x.run(session_world(c, s, get_env(c)));
  bool live = c.num("live");
  x.nontrivial = live || !r.fired.empty();
  x.note = std::string(live ? "live" : c.faults.empty() ? "?" : c.faults[0].kind) + " -> " + describe(r).substr(0, 120);
  if (!r.crash.empty()) {
    if (r.crash.find("cpu spin") != std::string::npos) return bad("spin", r.crash);
    return live ? bad("memory", r.crash) : Verdict();
  }
  for (auto& p : r.procs) {
    if (p.st == ST_HUNG) return bad("hang", p.name + " waits for ever: " + describe(r));
    if (p.st == ST_LIVELOCK) return bad("spin", p.name + " makes no progress: " + describe(r));
    if (p.st == ST_NOTSTARTED && live) return bad("hang", p.name + " never started: " + describe(r));
    if (p.st == ST_ACCEPT && live) return bad("hang", p.name + " still waits for a connection: " + describe(r));
    if (p.st == ST_ACCEPT)
      for (auto& k : r.conns)
        if (k.server == p.name) return bad("hang", p.name + " waits for another connection: " + describe(r));
    if (live && !p.ok()) return bad("unfinished", p.name + " gave up over a working connection: " + describe(r));
  }
  return Verdict();
}

// ----------------------------------------------------------------- C04
static Case gen04(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = true;
  p.max_cycles = thorough ? 24 : 12;
  p.big = r.chance(15);
  p.many_e = 0;
  p.huge = 1;
  Sess s = gen_sess(r, p);
  // look for runs that end early as well as runs that do not
  for (int k = 0; k < 12; k++) {
    RefOut o = ref_eval(s.c, s.in, s.cycles, s.T);
    bool early = o.terminated && o.cycles > 1 && o.cycles < s.cycles;
    if (early || r.chance(12)) break;
    s = gen_sess(r, p);
  }
  if (r.chance(10)) s.T = 0;
  else if (s.c.term > 0 && r.chance(9)) s.T = big_period(r);
  put(c, s);
  put(c, gen_env(r));
  return c;
}
// upper bound of what the garbler may send for the executed cycles (labels sent in the clear, no OT)
static i64 bound_a2b(const Sess& s, const Expect& e, u64 label_cycles) {
  i64 n = 16;
  n += 16 * (i64)(s.c.g_init + s.c.e_init + (s.c.g_in + s.c.e_in) * label_cycles);
  for (u64 k = 0; k < e.ref.cycles; k++) {
    n += 8 + 48 * (i64)e.ref.tables[k];
    for (size_t i = 0; i < e.ref.pub[k].size(); i++)
      if (e.ref.pub[k][i] < 0 && !mask_alice(s, i)) n += 2;
    if (e.ref.term_pub[k] == -1) n += 2;
  }
  return n;
}
static i64 bound_b2a(const Sess& s, const Expect& e, u64 label_cycles) {
  i64 n = 0;
  // the evaluator's inputs, as numbers: once, or (low memory) the whole number again in every cycle
  bool low = s.low && s.cycles > 1;
  n += 8 + (i64)(s.c.e_init + 7) / 8 + (i64)(low ? label_cycles : 1) * (4 + (i64)(s.c.e_in * s.cycles + 7) / 8) + 8;
  for (u64 k = 0; k < e.ref.cycles; k++) {
    for (size_t i = 0; i < e.ref.pub[k].size(); i++)
      if (e.ref.pub[k][i] < 0 && mask_alice(s, i)) n += 2;
    if (e.ref.term_pub[k] == -1) n += 2;
  }
  return n;
}
static Verdict run04(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Expect e = expect(s);
  RunResult r = x.run(session_world(c, s, get_env(c)));
  x.nontrivial = e.ref.terminated && e.ref.cycles < s.cycles;
  x.note = "T=" + std::to_string(s.T) + " stops at cycle " + std::to_string(e.ref.cycles) + " of " + std::to_string(s.cycles) + (e.ref.terminated && e.ref.term_pub.back() >= 0 ? " (public)" : " (secret)");
  if (!r.crash.empty()) return bad("memory", r.crash);
  const ProcResult *a = r.proc("alice"), *b = r.proc("bob");
  if (!a->ok() || !b->ok()) return bad("status", "a party did not end with success: " + describe(r));
  if (!printed(*a, e.a) || !printed(*b, e.b))
    return bad("cycles", "expected " + std::to_string(e.ref.cycles) + " cycles; garbler printed '" + a->out + "' (expected '" + e.a +
               "'), evaluator '" + b->out + "' (expected '" + e.b + "')");
  const ConnResult* k = first_conn(r);
  bool low = s.low && s.cycles > 1;
  if (k && !s.ot) {
    u64 lc = low ? e.ref.cycles : s.cycles;
    i64 ba = bound_a2b(s, e, lc), bb = bound_b2a(s, e, lc);
    if ((i64)k->s2c.size() > ba) return bad("extra-traffic", "garbler sent " + std::to_string(k->s2c.size()) + " bytes, at most " + std::to_string(ba) + " for the executed cycles");
    if ((i64)k->c2s.size() > bb) return bad("extra-traffic", "evaluator sent " + std::to_string(k->c2s.size()) + " bytes, at most " + std::to_string(bb) + " for the executed cycles");
  }
  if (k && ((i64)k->s2c.size() != k->s2c_delivered || (i64)k->c2s.size() != k->c2s_delivered))
    return bad("unread", "something was sent that the other party did not read before it ended");
  // asking for more cycles changes nothing once the run ends early
  if (e.ref.terminated && low && !s.ot && k) {
    Sess t = s;
    t.cycles = e.ref.cycles + 3;
    t.in.p_in.resize(t.c.p_in * t.cycles);
    t.in.g_in.resize(t.c.g_in * t.cycles);
    t.in.e_in.resize(t.c.e_in * t.cycles);
    Sess u = t;
    u.cycles = e.ref.cycles + 9;
    for (auto q : {&u.in.p_in, &u.in.g_in, &u.in.e_in}) (void)q;
    RunResult r1 = x.run(session_world(c, t, get_env(c))), r2 = x.run(session_world(c, u, get_env(c)));
    const ConnResult *k1 = first_conn(r1), *k2 = first_conn(r2);
    if (r1.crash.empty() && r2.crash.empty() && k1 && k2 && r1.proc("alice")->ok() && r2.proc("alice")->ok() &&
        (k1->s2c.size() != k2->s2c.size() || k1->c2s.size() != k2->c2s.size()))
      return bad("extra-traffic", "the traffic of an early-terminated run depends on the requested number of cycles");
  }
  return Verdict();
}

// ----------------------------------------------------------------- C05
static Case gen05(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.max_outs = 12;
  p.huge = 1;
  p.many_e = 0;
  p.max_in = 4;
  p.term = r.chance(15);
  Sess s = gen_sess(r, p);
  if (r.chance(50)) {  // more public and constant-like outputs
    for (auto& o : s.c.outs)
      if (s.c.p_in && r.chance(30)) o = (i64)(s.c.in_lo() + r.below(s.c.p_in));
  }
  size_t no = s.c.outs.size();
  switch (r.below(6)) {
    case 0: s.mask = bits_hex(Bits(no, 1)); break;
    case 1: s.mask = bits_hex(Bits(1 + r.below(no + 4), 1)); break;
    case 2: { Bits b(no); b[no - 1] = 1; s.mask = bits_hex(b); break; }
    case 3: break;
    default: { Bits b(no + r.below(3)); for (auto& z : b) z = (u8)r.below(2); s.mask = bits_hex(b); }
  }
  if (r.chance(60)) s.ot = false;
  put(c, s);
  put(c, gen_env(r));
  return c;
}
static Verdict run05(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  Expect e = expect(s);
  RunResult r = x.run(session_world(c, s, env));
  if (!r.crash.empty()) return Verdict();
  const ProcResult *a = r.proc("alice"), *b = r.proc("bob");
  if (!a->ok() || !b->ok()) return Verdict();
  i64 nA = 0, nB = 0;
  bool pub = false;
  for (u64 k = 0; k < e.ref.cycles; k++)
    for (size_t i = 0; i < e.ref.pub[k].size(); i++) {
      if (e.ref.pub[k][i] >= 0) pub = true;
      else (mask_alice(s, i) ? nA : nB)++;
    }
  x.nontrivial = (nA && nB) || pub;
  x.note = "mask=" + s.mask + " secret bits alice " + std::to_string(nA) + " bob " + std::to_string(nB);
  if (!printed(*a, e.a)) return bad("alice-output", "garbler printed '" + a->out + "', it owns '" + e.a + "'");
  if (!printed(*b, e.b)) return bad("bob-output", "evaluator printed '" + b->out + "', it owns '" + e.b + "'");
  const ConnResult* k = first_conn(r);
  if (!k || s.ot) return Verdict();
  // decoding data: compare with the runs where one party owns everything
  Sess allA = s, allB = s;
  allA.mask = bits_hex(Bits(s.c.outs.size(), 1));
  allB.mask = "0";
  RunResult ra = x.run(session_world(c, allA, env)), rb = x.run(session_world(c, allB, env));
  const ConnResult *ka = first_conn(ra), *kb = first_conn(rb);
  if (!ra.crash.empty() || !rb.crash.empty() || !ka || !kb || !ra.proc("alice")->ok() || !rb.proc("alice")->ok()) return Verdict();
  i64 da = (i64)k->s2c.size() - (i64)ka->s2c.size(), db = (i64)k->c2s.size() - (i64)kb->c2s.size();
  if (da > 2 * nB) return bad("decode-to-bob", "garbler sent " + std::to_string(da) + " bytes of decoding data for " + std::to_string(nB) + " secret bits of the evaluator");
  if (db > 2 * nA) return bad("decode-to-alice", "evaluator sent " + std::to_string(db) + " bytes of decoding data for " + std::to_string(nA) + " secret bits of the garbler");
  // with every output owned by the garbler nothing that decodes them may have gone to the evaluator,
  // and the other way round: no decoding data at all
  i64 base = bound_a2b(allA, expect(allA), s.low && s.cycles > 1 ? e.ref.cycles : s.cycles);
  if ((i64)ka->s2c.size() > base) return bad("decode-to-bob", "garbler sent " + std::to_string(ka->s2c.size()) + " bytes although it owns every output, at most " + std::to_string(base) + " expected");
  // what the evaluator sends when it owns everything: only its inputs
  i64 basb = bound_b2a(allB, expect(allB), s.low && s.cycles > 1 ? e.ref.cycles : s.cycles);
  if ((i64)kb->c2s.size() > basb) return bad("decode-to-alice", "evaluator sent " + std::to_string(kb->c2s.size()) + " bytes although it owns every output, at most " + std::to_string(basb) + " expected");
  // each decoding message carries one bit: in the high-memory mode they end the streams
  if (!(s.low && s.cycles > 1)) {
    auto tail = [](const std::string& st, i64 n) {
      for (i64 i = 0; i < n && (i + 1) * 2 <= (i64)st.size(); i++) {
        u8 lo = (u8)st[st.size() - 2 - 2 * i], hi = (u8)st[st.size() - 1 - 2 * i];
        if (lo > 1 || hi != 0) return false;
      }
      return true;
    };
    if (da == 2 * nB && !tail(k->s2c, nB)) return bad("decode-to-bob", "a decoding message of the garbler carries more than one bit");
    if (db == 2 * nA && !tail(k->c2s, nA)) return bad("decode-to-alice", "a decoding message of the evaluator carries more than one bit");
  }
  return Verdict();
}

// ----------------------------------------------------------------- C07
static std::string strip_drv(const RunResult& r) { return describe(r); }
static Verdict same_runs(const RunResult& r1, const RunResult& r2, const std::string& why, bool allocs = true) {
  if (r1.crash.empty() != r2.crash.empty()) return bad("status", why + " changes whether the run survives: " + describe(r1) + " / " + describe(r2));
  if (!r1.crash.empty()) return Verdict();
  for (size_t i = 0; i < r1.procs.size(); i++) {
    const ProcResult &p = r1.procs[i], &q = r2.procs[i];
    if (p.st != q.st || p.code != q.code) return bad("status", why + " changes how " + p.name + " ends: " + describe(r1) + " / " + describe(r2));
    if (p.out != q.out) return bad("output", why + " changes what " + p.name + " prints: '" + p.out + "' / '" + q.out + "'");
    for (size_t k = 0; k < p.drv.size() && k < q.drv.size(); k++)
      if (p.drv[k] != q.drv[k]) return bad("output", why + " changes what " + p.name + " receives");
  }
  if (r1.conns.size() != r2.conns.size()) return bad("traffic", why + " changes the connections");
  for (size_t i = 0; i < r1.conns.size(); i++)
    for (int d = 0; d < 2; d++) {
      const std::string &u = d ? r1.conns[i].s2c : r1.conns[i].c2s, &v = d ? r2.conns[i].s2c : r2.conns[i].c2s;
      if (u != v) {
        size_t k = 0;
        while (k < u.size() && k < v.size() && u[k] == v[k]) k++;
        return bad("wire", why + " changes byte " + std::to_string(k) + " of " + std::to_string(u.size()) + " sent by " + (d ? r1.conns[i].server : r1.conns[i].client));
      }
    }
  for (auto& f : r1.files) {
    if (f.first.size() > 4 && (f.first.substr(f.first.size() - 4) == ".log" || f.first.substr(f.first.size() - 4) == ".hex")) continue;
    auto it = r2.files.find(f.first);
    if (it == r2.files.end() || it->second != f.second) return bad("file", why + " changes the file " + f.first);
  }
  return Verdict();
}
static Case gen07(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = r.chance(20);
  Sess s = gen_sess(r, p);
  Env e = gen_env(r);
  put(c, s);
  put(c, e);
  c.set("fillA2", (i64)r.below(4));
  c.set("fillB2", (i64)r.below(4));
  if (r.chance(40)) c.set("varAB", 1);
  else if (r.chance(50)) {
    RunResult cal = calibrate(s, e);
    c.faults.push_back(loss_fault(r, cal, s, "", r.chance(40), true));
  }
  return c;
}
static Verdict run07(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env e = get_env(c);
  RunResult r1 = x.run(session_world(c, s, e));
  Env f = e;
  f.fillA = (int)c.num("fillA2");
  f.fillB = (int)c.num("fillB2");
  if (f.fillA == e.fillA) f.fillA = (f.fillA + 1) % 4;
  if (f.fillB == e.fillB) f.fillB = (f.fillB + 1) % 4;
  WorldSpec w2 = session_world(c, s, f);
  for (auto& p : w2.procs) {
    p.shift = 3;  // left-over addresses differ as well
    if (c.num("varAB")) p.variant = p.variant == 1 ? 0 : 1;  // a build that fills its local variables
  }
  RunResult r2 = x.run(w2);
  x.nontrivial = r1.crash.empty() && first_conn(r1) && first_conn(r1)->s2c.size() > 32;
  x.note = "fills " + std::to_string(e.fillA) + "/" + std::to_string(e.fillB) + " against " + std::to_string(f.fillA) + "/" + std::to_string(f.fillB) + ": " + describe(r1).substr(0, 120);
  return same_runs(r1, r2, "what memory held before");
}

// ----------------------------------------------------------------- C11
static Case gen11(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.max_gates = 60;
  p.max_outs = 10;
  p.huge = 1;
  p.term = r.chance(15);
  Sess s = gen_sess(r, p);
  s.ot = r.chance(25);
  put(c, s);
  put(c, gen_env(r));
  // other private inputs, same public ones
  c.set("gi2", bitstr(rand_bits(r, s.c.g_init)));
  c.set("ei2", bitstr(rand_bits(r, s.c.e_init)));
  c.set("gx2", bitstr(rand_bits(r, s.c.g_in * s.cycles)));
  c.set("ex2", bitstr(rand_bits(r, s.c.e_in * s.cycles)));
  return c;
}
static Bits sb(const std::string& s) { Bits b; for (char ch : s) b.push_back(ch == '1'); return b; }
static Verdict run11(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  Sess t = s;
  t.in.g_init = sb(c.get("gi2"));
  t.in.e_init = sb(c.get("ei2"));
  t.in.g_in = sb(c.get("gx2"));
  t.in.e_in = sb(c.get("ex2"));
  Expect e = expect(s), f = expect(t);
  RunResult r1 = x.run(session_world(c, s, env));
  const ConnResult* k1 = first_conn(r1);
  if (!r1.crash.empty() || !k1 || !r1.proc("alice")->ok() || !r1.proc("bob")->ok()) return Verdict();
  u64 tables = 0;
  for (auto n : e.ref.tables) tables += n;
  x.nontrivial = true;
  x.note = std::to_string(k1->s2c.size()) + " bytes sent, " + std::to_string(tables) + " tables allowed for " + std::to_string(s.c.gates.size()) + " gates x " + std::to_string(e.ref.cycles) + " cycles";
  if (!s.ot) {
    u64 lc = s.low && s.cycles > 1 ? e.ref.cycles : s.cycles;
    i64 ba = bound_a2b(s, e, lc), bb = bound_b2a(s, e, lc);
    if ((i64)k1->s2c.size() > ba)
      return bad("too-much", "garbler sent " + std::to_string(k1->s2c.size()) + " bytes, the reference allows " + std::to_string(ba) + " (" + std::to_string(tables) + " tables)");
    if ((i64)k1->c2s.size() > bb) return bad("too-much", "evaluator sent " + std::to_string(k1->c2s.size()) + " bytes, the reference allows " + std::to_string(bb));
  }
  if (e.ref.cycles != f.ref.cycles) return Verdict();  // the stopping cycle is itself revealed
  RunResult r2 = x.run(session_world(c, t, env));
  const ConnResult* k2 = first_conn(r2);
  if (!r2.crash.empty() || !k2 || !r2.proc("alice")->ok() || !r2.proc("bob")->ok()) return Verdict();
  // numbers travel without leading zero bytes: a random 1024-bit number loses a byte with probability 1/256,
  // and an input number sent in the clear loses its zero high part
  i64 tolA = 0, tolB = 0;
  if (s.ot) {
    tolA = tolB = 24 + (i64)(s.c.e_in * s.cycles + s.c.e_init) / 4;
  } else {
    tolB = (i64)(s.c.e_init + 7) / 8 + (i64)(s.c.e_in * s.cycles + 7) / 8 * (s.low ? (i64)s.cycles : 1) + (i64)s.cycles;
  }
  i64 d1 = llabs((i64)k1->s2c.size() - (i64)k2->s2c.size()), d2 = llabs((i64)k1->c2s.size() - (i64)k2->c2s.size());
  if (d1 > tolA) return bad("oblivious", "the garbler's traffic depends on private inputs: " + std::to_string(k1->s2c.size()) + " / " + std::to_string(k2->s2c.size()) + " bytes");
  if (d2 > tolB) return bad("oblivious", "the evaluator's traffic depends on private inputs: " + std::to_string(k1->c2s.size()) + " / " + std::to_string(k2->c2s.size()) + " bytes");
  return Verdict();
}

// ----------------------------------------------------------------- C13
static Case gen13(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.big = r.chance(20);
  p.many_e = 1;
  p.term = r.chance(15);
  Sess s = gen_sess(r, p);
  Env e = gen_env(r);
  e.varA = e.varB = 0;
  put(c, s);
  put(c, e);
  RunResult cal = calibrate(s, e);
  int n = (int)r.range(1, 2);
  c.set("failed", n);
  for (int k = 0; k < n; k++) {
    std::string tag = std::to_string(k);
    // the calibration run's processes carry no tag
    RunResult q = cal;
    for (auto& p2 : q.procs) p2.name += tag;
    int m = r.chance(75) ? 1 : 2;
    for (int i = 0; i < m; i++) c.faults.push_back(loss_fault(r, q, s, tag, false, true));
    c.set("nobob" + tag, r.chance(12));
    c.set("early" + tag, r.chance(15));  // Bob does not wait for Alice
  }
  c.set("gap", r.pick(std::vector<i64>{0, 0, 1000, 2000000, 100000000}));
  c.set("stale", r.chance(30));
  if (r.chance(25)) c.set("late", r.range(1, 3));  // somebody else connects while the last session runs
  return c;
}
static Verdict run13(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  Expect e = expect(s);
  WorldSpec w = base_world(env, c);
  int n = (int)c.num("failed");
  std::vector<std::string> prev;
  for (int k = 0; k <= n; k++) {
    std::string tag = k == n ? "9" : std::to_string(k);
    Env ek = env;
    ek.entA += (u64)k * 7919;
    ek.entB += (u64)k * 104729;
    SessOpt o;
    o.tag = tag;
    if (k < n && c.num("early" + tag)) o.wait = false;
    size_t at = w.procs.size();
    add_session(w, s, ek, o);
    for (size_t i = at; i < w.procs.size(); i++) {
      w.procs[i].after = prev;
      // a retry on the same files
      for (auto& a : w.procs[i].args) {
        size_t q = a.find(tag + ".scd");
        if (q != std::string::npos && a.size() == q + tag.size() + 4) a = a.substr(0, q) + "9.scd";
      }
      if (k == n) w.procs[i].delay = c.num("gap");
    }
    if (k < n) {
      // a server nobody ever reached is stopped by its operator
      w.procs[at].kill_after = {"bob" + tag};
      w.procs[at + 1].kill_after = {"alice" + tag};
      if (c.num("nobob" + tag)) {
        w.procs[at].kill_after = {"nobody"};
        w.procs.erase(w.procs.begin() + (long)at + 1);
        w.procs[at].kill_after = prev.empty() ? std::vector<std::string>{"alice" + tag + "x"} : prev;
      }
    }
    prev.clear();
    for (size_t i = at; i < w.procs.size(); i++) prev.push_back(w.procs[i].name);
  }
  // a client of an earlier attempt: it waits for a server that never comes to it
  const int late = (int)c.num("late");
  if (late) {
    ProcSpec p = w.procs.back();
    p.name = "late";
    p.variant = 1;
    p.entropy += 31;
    p.wait_listen = 0;
    p.wait_conn = "bob9";
    p.delay = 0;
    p.kill_after.clear();
    if (late > 1) {
      p.prog = "drv";
      p.args.clear();
      p.drv.server = false;
      p.drv.ip = env.samehost ? "127.0.0.1" : "10.0.0.1";
      p.drv.port = env.port;
      if (late == 3) { DrvOp q; q.kind = DrvOp::SEND; q.data = std::string(300, 'x'); p.drv.ops.push_back(q); }
      DrvOp q;
      q.kind = DrvOp::RECV;
      q.len = 64;
      p.drv.ops.push_back(q);
    }
    w.procs.push_back(p);
  }
  RunResult r = x.run(w);
  x.nontrivial = !r.fired.empty();
  x.note = std::to_string(n) + " failed sessions, then: " + describe(r).substr(0, 250);
  if (!r.crash.empty()) {
    // a memory error in a disturbed session is judged elsewhere; in the last one it counts here
    if (r.crash.find("alice9") != std::string::npos || r.crash.find("bob9") != std::string::npos) return bad("memory", r.crash);
    return Verdict();
  }
  if (late == 1 && r.proc("late") && r.proc("late")->ok()) return bad("stranger", "a second client ended with success: " + describe(r));
  for (auto& p : r.procs)
    if (p.st == ST_LIVELOCK || (p.st == ST_HUNG && p.name != "alice9" && p.name != "bob9")) return Verdict();  // C03
  return judge_good(s, r, e, "9");
}

// ----------------------------------------------------------------- C14
static std::string le(u64 v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static std::string rnd_bytes(Rng& r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)r.next(); return s; }
static const std::vector<u64> kEvil = {0, 1, 2, 127, 128, 129, 255, 256, 1000, 4096, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0xfffffffeull,
                                       0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0555555555555556ull, 1000000};
static Case gen14(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.many_e = 8;
  p.term = r.chance(20);
  p.big = r.chance(25);
  Sess s = gen_sess(r, p);
  if (r.chance(30)) s.ot = true;
  Env e = gen_env(r);
  e.max_steps = 1500000;
  put(c, s);
  put(c, e);
  int how = (int)r.below(10);
  RunResult cal = calibrate(s, e);
  const ConnResult* k = first_conn(cal);
  if (how < 7 && k) {  // damage on the way
    int n = r.chance(70) ? 1 : 3;
    // the key of the transfer: modulus and exponent of any size and value
    for (int side = 0; side < 2 && r.chance(20); side++) {
      const std::string& st = side ? k->c2s : k->s2c;
      const std::string who = side ? "bob" : "alice";
      const size_t q = st.find(std::string("\x80\0\0\0", 4));
      if (q == std::string::npos || q + 139 > st.size() || st.compare(q + 132, 7, std::string("\3\0\0\0\1\0\1", 7))) continue;
      const i64 size[2] = {128, 3}, pos[2] = {(i64)q, (i64)q + 132};
      const i64 both = r.chance(50) ? r.pick(std::vector<i64>{127, 129, 200, 5000, 70000, 70000}) : -1;
      for (int j = 0; j < 2; j++) {
        const i64 want = both >= 0 ? both : r.pick(std::vector<i64>{0, 1, 2, 3, 127, 128, 128, 129, 256, 3000});
        const int fill = (int)r.below(4);
        c.faults.push_back(mk("forge", who, pos[j], 0, 0, le((u64)want, 4)));
        if (want < size[j]) c.faults.push_back(mk("drop", who, pos[j] + 4, size[j] - want));
        if (want > size[j]) c.faults.push_back(mk("insert", who, pos[j] + 4, 0, 0, fill == 0 ? std::string((size_t)(want - size[j]), '\0') : rnd_bytes(r, (size_t)(want - size[j]))));
        if (fill == 1 && want && want <= size[j]) c.faults.push_back(mk("forge", who, pos[j] + 4 + size[j] - want, 0, 0, std::string((size_t)want, '\0')));
      }
      n = (int)r.below(2);
      break;
    }
    for (int i = 0; i < n; i++) {
      bool al = r.chance(50);
      const std::string& st = al ? k->s2c : k->c2s;
      i64 len = std::max<i64>(1, (i64)st.size());
      std::string who = al ? "alice" : "bob";
      // candidate positions: places that look like a small count or length
      std::vector<i64> cand;
      for (size_t q = 0; q + 4 <= st.size(); q++) {
        u8 a = st[q], b = st[q + 1], cc = st[q + 2], d = st[q + 3];
        if (cc == 0 && d == 0 && b < 8 && (a || b)) cand.push_back((i64)q);
      }
      i64 at = !cand.empty() && r.chance(65) ? r.pick(cand) : (i64)r.below(len);
      // a whole number, made longer or shorter together with its length
      std::vector<i64> nums;
      for (i64 q : cand) {
        u64 l = (u8)st[(size_t)q] + 256 * (u64)(u8)st[(size_t)q + 1];
        if (l >= 100 && l <= 400 && (size_t)q + 4 + l <= st.size()) nums.push_back(q);
      }
      if (!nums.empty() && r.chance(40)) {
        i64 q = r.pick(nums), l = (u8)st[(size_t)q] + 256 * (i64)(u8)st[(size_t)q + 1];
        i64 want = r.pick(std::vector<i64>{0, 1, 16, 17, l - 1, l + 1, 129, 200, 256, 257, 300, 1000, 5000, 70000});
        c.faults.push_back(mk("forge", who, q, 0, 0, le((u64)want, 4)));
        if (want > l) c.faults.push_back(mk("insert", who, q + 4, 0, 0, rnd_bytes(r, (size_t)(want - l))));
        else if (want < l) c.faults.push_back(mk("drop", who, q + 4, l - want));
        continue;
      }
      switch (r.below(7)) {
        case 0: c.faults.push_back(mk("flip", who, at, (i64)r.pick(std::vector<int>{1, 0x80, 0xff, 0x40, 2}))); break;
        case 1: case 2: c.faults.push_back(mk("forge", who, at, 0, 0, le(r.pick(kEvil), 4))); break;
        case 3: c.faults.push_back(mk("forge", who, at, 0, 0, le(r.pick(kEvil), 8))); break;
        case 4: c.faults.push_back(mk("insert", who, at, 0, 0, rnd_bytes(r, 1 + r.below(200)))); break;
        case 5: c.faults.push_back(mk("drop", who, at, 1 + (i64)r.below(100))); break;
        case 6: c.faults.push_back(mk("forge", who, at, 0, 0, r.chance(50) ? std::string(1 + r.below(300), (char)r.below(256)) : rnd_bytes(r, 1 + r.below(300)))); break;
      }
    }
    c.set("how", "wire");
  } else {  // a peer that sends what it likes: a true prefix, then something else, then it goes away
    bool victim_bob = r.chance(55);
    const std::string st = k ? (victim_bob ? k->s2c : k->c2s) : std::string();
    std::string data;
    if (!st.empty() && r.chance(80)) data = st.substr(0, r.below(st.size() + 1));
    switch (r.below(4)) {
      case 0: break;
      case 1: data += rnd_bytes(r, r.below(3000)); break;
      case 2: for (u64 i = 0, n = r.below(40); i < n; i++) data += le(r.pick(kEvil), r.chance(60) ? 4 : 8); break;
      case 3: {
        for (u64 i = 0, n = r.below(30); i < n; i++) { u64 l = r.pick(std::vector<u64>{0, 1, 3, 127, 128, 129, 300}); data += le(l, 4) + (r.chance(50) ? std::string(l, '\0') : rnd_bytes(r, l)); }
        break;
      }
    }
    c.set("how", victim_bob ? "fake-alice" : "fake-bob");
    c.set("data", to_hexs(data));
    c.set("linger", r.chance(30));
  }
  return c;
}
static Verdict run14(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env env = get_env(c);
  WorldSpec w = session_world(c, s, env);
  std::string how = c.get("how");
  if (how == "fake-alice" || how == "fake-bob") {
    int i = how == "fake-bob" ? 1 : 0;
    ProcSpec& p = w.procs[i];
    p.prog = "drv";
    p.args.clear();
    p.variant = 0;
    p.drv.server = i == 0;
    p.drv.port = env.port;
    p.drv.ip = env.samehost ? "127.0.0.1" : "10.0.0.1";
    DrvOp o;
    o.kind = DrvOp::SEND;
    o.data = from_hexs(c.get("data"));
    if (!o.data.empty()) p.drv.ops.push_back(o);
    if (c.num("linger")) { DrvOp q; q.kind = DrvOp::RECV; q.len = 64; p.drv.ops.push_back(q); }
  }
  RunResult r = x.run(w);
  x.nontrivial = how != "wire" || !r.fired.empty();
  x.note = how + (c.faults.empty() ? "" : " " + c.faults[0].kind + "@" + std::to_string(c.faults[0].at)) + " -> " + describe(r).substr(0, 160);
  if (!r.crash.empty()) return bad(r.crash.find("cpu spin") != std::string::npos ? "spin" : "memory", r.crash);
  for (auto& p : r.procs) {
    if (how == "fake-alice" && p.name == "alice") continue;
    if (how == "fake-bob" && p.name == "bob") continue;
    if (p.st == ST_LIVELOCK) return bad("spin", p.name + " makes no progress: " + describe(r));
    if (p.st == ST_SIGNAL && p.code != 13) return bad("crash", p.name + ": " + describe(r));
    if (p.st == ST_ABORT || p.st == ST_EXCEPTION || p.st == ST_BADALLOC) return bad("crash", p.name + " died: " + describe(r));
    if (p.st == ST_HUNG) {
      bool other_alive = false;
      for (auto& q : r.procs) if (&q != &p && q.st == ST_HUNG) other_alive = true;
      if (!other_alive) return bad("hang", p.name + " waits although the peer is gone: " + describe(r));
    }
  }
  return Verdict();
}

// ----------------------------------------------------------------- C19
static Case gen19(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = r.chance(20);
  p.many_e = 2;
  Sess s = gen_sess(r, p);
  Env e = gen_env(r);
  e.varA = e.varB = 0;
  put(c, s);
  put(c, e);
  if (r.chance(60)) {
    RunResult cal = calibrate(s, e);
    for (;;) {
      Fault f = loss_fault(r, cal, s, "", false, true);
      // only faults that strike at the same point of the protocol in both runs: file and network
      // operations are counted differently when log files are written or not
      if (f.kind == "crash_file" || f.kind == "crash" || f.kind == "reset" || f.kind == "net_err") continue;
      c.faults.push_back(f);
      break;
    }
  }
  c.set("how", (i64)r.below(7));  // what differs in the second run
  c.set("logat", (i64)r.below(400));
  c.set("hw", (i64)r.below(3));
  return c;
}
static Verdict run19(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env e = get_env(c);
  RunResult r1 = x.run(session_world(c, s, e));
  Case d = c;
  Env f = e;
  i64 how = c.num("how");
  std::string why;
  std::string who = c.num("hw") == 0 ? "alice" : c.num("hw") == 1 ? "bob" : "*";
  if (how == 0 || how == 1) {
    f.varA = who != "bob";
    f.varB = who != "alice";
    why = "building without logging (" + who + ")";
  } else if (how == 2) {
    d.faults.push_back(mk("fopen_fail", who, -1, EACCES, 2, ".log"));
    why = "log files that cannot be created (" + who + ")";
  } else if (how == 3) {
    d.faults.push_back(mk("write_err", who, c.num("logat"), ENOSPC, 0, ".log"));
    why = "log files that cannot be written (" + who + ")";
  } else if (how == 4) {
    why = "dumping (" + who + ")";
  } else if (how == 5) {
    if (c.num("logat") & 2) d.faults.push_back(mk("fopen_fail", who, -1, EACCES, 2, ".hex"));
    else d.faults.push_back(mk("write_err", who, c.num("logat"), ENOSPC, 0, ".hex"));
    why = "dumping to files that cannot be written (" + who + ")";
  } else {
    why = "logging to the terminal (" + who + ")";
  }
  WorldSpec w2 = session_world(d, s, f);
  bool noisy = false;
  for (auto& p : w2.procs) {
    if (who != "*" && p.name != who) continue;
    if (how == 4 || how == 5) { p.variant = 2; p.args.push_back("--dump_directory"); p.args.push_back(c.num("logat") & 1 ? "d-" : "d/"); }
    if (how == 6) { p.args.push_back(c.num("logat") & 1 ? "--log2std" : "--error2std"); noisy = true; }
  }
  RunResult r2 = x.run(w2);
  if (noisy) {  // the log is printed among the results
    for (size_t i = 0; i < r2.procs.size(); i++) {
      std::istringstream a(r1.procs[i].out), b(r2.procs[i].out);
      std::string l, m, kept;
      while (std::getline(a, l)) {
        bool found = false;
        while (!found && std::getline(b, m)) found = m == l;
        if (found) kept += l + "\n";
      }
      r2.procs[i].out = kept;
    }
  }
  x.nontrivial = true;
  x.note = why + (c.faults.empty() ? "" : " under " + c.faults[0].kind) + ": " + describe(r1).substr(0, 140);
  bool lossy = false;
  for (auto& g : c.faults) lossy |= g.kind == "cut" || g.kind == "sock_fail" || g.kind == "fopen_fail" || g.kind == "read_err";
  if (!lossy) return same_runs(r1, r2, why);
  // once a party is gone, how far the other one gets before it notices is a race: compare what is not
  if (r1.crash.empty() != r2.crash.empty()) return bad("status", why + " changes whether the run survives: " + describe(r1) + " / " + describe(r2));
  if (!r1.crash.empty()) return Verdict();
  for (size_t i = 0; i < r1.procs.size(); i++) {
    const ProcResult &p = r1.procs[i], &q = r2.procs[i];
    bool exact = true;
    for (auto& g : c.faults)
      if (g.kind == "cut" && g.proc == p.name) exact = false;  // it need not notice
    if (exact && (p.ok() != q.ok() || (p.st == ST_ACCEPT) != (q.st == ST_ACCEPT)))
      return bad("status", why + " changes how " + p.name + " ends: " + describe(r1) + " / " + describe(r2));
    if (p.ok() && q.ok() && p.out != q.out) return bad("output", why + " changes what " + p.name + " prints: '" + p.out + "' / '" + q.out + "'");
  }
  for (size_t i = 0; i < r1.conns.size() && i < r2.conns.size(); i++)
    for (int d = 0; d < 2; d++) {
      const std::string &u = d ? r1.conns[i].s2c : r1.conns[i].c2s, &v = d ? r2.conns[i].s2c : r2.conns[i].c2s;
      size_t n = std::min(u.size(), v.size());
      if (u.compare(0, n, v, 0, n)) return bad("wire", why + " changes what is sent by " + (d ? r1.conns[i].server : r1.conns[i].client));
    }
  return Verdict();
}

extern const PropDef kSessionProps[];
const PropDef kSessionProps[] = {
  {"C01", gen01, run01}, {"C02", gen02, run02}, {"C03", gen03, run03}, {"C04", gen04, run04}, {"C05", gen05, run05},
  {"C07", gen07, run07}, {"C11", gen11, run11}, {"C13", gen13, run13}, {"C14", gen14, run14}, {"C19", gen19, run19}, {nullptr, nullptr, nullptr}};

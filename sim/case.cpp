// Sessions: generation, serialisation, construction of worlds, expected results.
#include "case.h"
#include <algorithm>
#include <sstream>

RunResult Ctx::run(const WorldSpec& w) {
  RunResult r = run_world(w);
  if (r.harness_error) throw HarnessError(r.crash + "\n" + r.trace.substr(0, 3000));
  h.u(r.hash);
  if (st) {
    st->worlds++;
    st->sim_us += r.sim_us;
    st->steps += r.steps;
    st->switches += r.switches;
    for (auto& f : r.fired) st->fired[f.first] += f.second;
    for (auto& f : r.probes) st->probes[f.first] += f.second;
    if (st->scheds.size() < 2000000) st->scheds.insert(r.sched_hash);
  }
  return r;
}

Verdict bad(const std::string& cls, const std::string& msg) {
  Verdict v;
  v.violation = true;
  v.cls = cls;
  v.msg = msg;
  return v;
}

Bits rand_bits(Rng& r, size_t n) {
  Bits b(n);
  int k = (int)r.below(8);
  for (auto& x : b) x = k == 0 ? 0 : k == 1 ? 1 : (u8)r.below(2);
  return b;
}
std::string bitstr(const Bits& b) {
  std::string s;
  for (auto x : b) s += x ? '1' : '0';
  return s;
}
static Bits strbit(const std::string& s) {
  Bits b;
  for (char c : s) b.push_back(c == '1');
  return b;
}

Circuit gen_circuit(Rng& r, const Prof& p) {
  static const std::vector<int> types = {8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12, 8, 6, 14, 6};
  Circuit c;
  auto small = [&](int mx) { return (u64)(r.chance(30) ? 0 : r.range(0, mx)); };
  c.p_in = p.pub ? small(p.max_in) : 0;
  c.g_in = small(p.max_in);
  c.e_in = small(p.max_in);
  if (p.big && r.chance(8)) c.g_in = (u64)r.range(20, 140);
  if (p.big && r.chance(8)) c.e_in = (u64)r.range(20, 70);
  if (r.chance(p.many_e)) c.e_in = (u64)r.pick(std::vector<int>{65, 127, 128, 129, 130, 200, 257});
  if (p.bulk && r.chance(p.bulk)) c.e_in = (u64)r.pick(std::vector<int>{400, 600, 800, 900, 1000, 1200, 1800});
  u64 nd = r.chance(45) ? (u64)r.range(0, p.max_dff) : 0;
  bool wide = r.chance(p.huge);
  auto many = [&] { return (u64)r.pick(std::vector<int>{128, 255, 256, 257, 300, 513, 1000}); };
  int which = wide ? (int)r.below(7) : -1;
  if (which == 0) c.p_in = many();
  if (which == 1) c.g_in = many();
  if (which == 2) c.e_in = many();
  if (which >= 3) nd = which == 3 ? many() : std::max<u64>(nd, 2);
  c.p_init = p.pub && nd ? small(3) : 0;
  c.g_init = nd ? small(3) : 0;
  c.e_init = nd ? small(3) : 0;
  if (which == 4 && p.pub) c.p_init = many();
  if (which == 5) c.g_init = many();
  if (which == 6) c.e_init = many();
  if (nd == 0 && r.chance(4)) c.g_init = 1;   // init bits nobody uses
  int ng = (int)r.range(0, p.max_gates);
  if (p.big && r.chance(6)) ng = (int)r.range(60, 300);
  if (p.big && r.chance(2)) ng = (int)r.range(1400, 1800);
  bool huge = r.chance(p.huge);
  if (huge) ng = r.pick(std::vector<int>{4000, 33000, 66000});
  const bool deep = huge && r.chance(12);  // a chain of gates much longer than any call stack
  if (deep) {
    ng = r.pick(std::vector<int>{100000, 500000});
    if (c.p_in == 0 && p.pub) c.p_in = 1;
    if (c.g_in == 0) c.g_in = 2;
  }
  c.D.resize(nd);
  c.I.resize(nd);
  u64 lo = c.in_lo(), gl = c.gate_lo();
  if (ng == 0 && gl == lo) ng = 2;
  // a wire with a great many uses
  i64 hub = -1, uses = 0;
  bool exact = false;
  if (!deep && r.chance(huge ? 50 : p.big ? 3 : 0)) {
    hub = (i64)(gl + r.below(3));
    uses = huge && r.chance(70) ? r.pick(std::vector<int>{32767, 32768, 65535, 65536, 65537})
                                : r.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 511, 512});
    if (ng < 12) ng = 12;
    if (uses > 600) ng = std::max(ng, (int)uses / 2 + 3000);
    else if (!huge) ng = std::max(ng, (int)uses / 2 + 20 + (int)r.below(100));
    exact = r.chance(75);
  }
  const i64 hub_per = hub < 0 ? 0 : 1 + uses * 100 / (2 * (i64)ng - 16);
  auto wire = [&](u64 hi) -> i64 {  // some wire below hi
    if (hi <= lo || r.chance(4)) return r.chance(50) ? -2 : -3;
    if (hi > gl && r.chance(35)) { u64 a = std::max(gl, hi > 6 ? hi - 6 : 0); return (i64)(a + r.below(hi - a)); }
    return (i64)(lo + r.below(hi - lo));
  };
  int style = (int)r.below(5);
  auto use = [&](i64 w, i64 left) -> i64 {  // steers the number of uses of the hub
    if (hub < 0 || left < 0) return w;
    if (w == hub && uses <= 0) return exact ? -3 : w;
    if (w != hub && uses > 0 && (uses >= left || r.chance((int)hub_per))) w = hub;
    if (w == hub) uses--;
    return w;
  };
  for (int i = 0; i < ng; i++) {
    Circuit::Gate g;
    const i64 left = hub < 0 || (i64)gl + i <= hub ? -1 : 2 * (i64)(ng - i) - 1;
    g.t = style == 0 ? (r.chance(50) ? 6 : 9) : style == 1 ? r.pick(std::vector<int>{8, 14, 6}) : r.pick(types);
    g.a = use(wire(gl + i), left);
    g.b = g.t == 12 ? -1 : r.chance(4) && hub < 0 ? g.a : use(wire(gl + i), left);
    c.gates.push_back(g);
  }
  if (deep) {
    const int side = (int)r.below(3), ends = (int)r.below(4);
    for (int i = 1; i < ng; i++) {
      Circuit::Gate& g = c.gates[(size_t)i];
      g.t = r.chance(80) ? 6 : r.chance(50) ? 9 : 12;
      g.a = (i64)gl + i - 1;
      g.b = g.t == 12 ? -1 : wire(gl);
      if (g.t != 12 && (side == 1 || (side == 2 && r.chance(50)))) std::swap(g.a, g.b);
    }
    // what becomes of it: a constant or a public input decides it, or it is needed
    if (ends) c.gates.back() = {(i64)gl + ng - 2, ends == 1 ? -2 : ends == 2 ? -3 : (i64)lo, r.chance(50) ? 8 : 14};
  }
  u64 nw = gl + (u64)ng;
  auto anyw = [&]() -> i64 {
    if (deep && r.chance(98)) return nw - 1;
    for (;;) {
      i64 w = ng && r.chance(65) ? (i64)(gl + r.below((u64)ng)) : (i64)(lo + r.below(nw - lo));
      if (!(exact && w == hub) || nw - lo < 3) return w;
    }
  };
  for (auto& d : c.D) d = r.chance(5) ? (r.chance(50) ? -2 : -3) : anyw();
  for (auto& i : c.I) i = c.init_size() == 0 || r.chance(25) ? (r.chance(50) ? -2 : -3) : (i64)r.below(c.init_size());
  int no = (int)r.range(1, p.max_outs);
  if (p.big && r.chance(6)) no = (int)r.range(30, 120);
  if (huge) no = (int)r.range(1, 300);
  for (int i = 0; i < no; i++) c.outs.push_back(anyw());
  if (p.term) {
    for (int k = 0; k < 20 && c.term <= 0; k++) c.term = anyw();
    if (c.term <= 0) c.term = nw > 1 ? (i64)nw - 1 : 0;
  } else if (r.chance(10)) {
    c.term = anyw();
  }
  return c;
}

i64 big_period(Rng& r) {
  if (r.chance(10)) return INT64_MAX - r.range(0, 1);
  return ((i64)1 << r.pick(std::vector<int>{8, 8, 16, 16, 31, 32, 32, 32, 62})) + r.range(-1, 3);
}
Sess gen_sess(Rng& r, const Prof& p) {
  Sess s;
  s.c = gen_circuit(r, p);
  s.cycles = r.chance(35) ? 1 : (u64)r.range(1, (i64)p.max_cycles);
  if (p.term) s.cycles = (u64)r.range(1, (i64)p.max_cycles);
  if (r.chance(p.huge) && s.c.wires() < 60) {
    s.cycles = r.pick(std::vector<u64>{129, 256, 257, 300, 520});
    if (s.c.wires() < 9 && s.c.e_in == 0 && r.chance(30)) s.cycles = r.pick(std::vector<u64>{33000, 66000});
  }
  while (s.c.e_in * s.cycles > 1300 || s.c.wires() * s.cycles > (s.cycles > 30000 ? 600000 : p.huge ? 70000 : 8000) ||
         s.c.outs.size() * s.cycles > 140000) {
    if (s.cycles == 1) break;
    s.cycles--;
  }
  if (s.c.term > 0) s.T = p.term ? r.pick(std::vector<i64>{1, 1, 1, 1, 2, 2, 3, 3, 4, 5, 5, 7, 1000}) : (r.chance(50) ? r.range(1, 3) : 0);
  if (s.c.term > 0 && r.chance(2)) s.T = big_period(r);
  s.mode = (int)r.below(3);
  s.ot = r.chance(60);
  if (s.ot && s.c.e_in * s.cycles > 300 && !r.chance(25)) s.ot = false;
  s.low = r.chance(45);
  if (s.low && s.ot && s.c.e_in > 128 && s.cycles > 3) s.cycles = 3;
  if (s.low && s.ot && s.c.e_in > 20 && s.cycles > 5) s.cycles = 5;
  if (s.low && s.ot && s.c.e_in && s.cycles > 100) s.ot = false;
  int mk = (int)r.below(6);
  size_t no = s.c.outs.size();
  if (mk == 0) s.mask = "";
  else if (mk == 1) s.mask = "0";
  else if (mk == 2) s.mask = bits_hex(Bits(no, 1));
  else if (mk == 3) s.mask = bits_hex(rand_bits(r, no + r.below(9)));
  else if (mk == 4) s.mask = bits_hex(rand_bits(r, 1 + r.below(no)));
  else { Bits b(no); for (auto& x : b) x = (u8)r.below(2); s.mask = bits_hex(b); }
  s.in.p_init = rand_bits(r, s.c.p_init);
  s.in.g_init = rand_bits(r, s.c.g_init);
  s.in.e_init = rand_bits(r, s.c.e_init);
  s.in.p_in = rand_bits(r, s.c.p_in * s.cycles);
  s.in.g_in = rand_bits(r, s.c.g_in * s.cycles);
  s.in.e_in = rand_bits(r, s.c.e_in * s.cycles);
  s.style = (int)r.below(128);
  return s;
}

Env gen_env(Rng& r) {
  Env e;
  e.sched = r.next() & 0xffffffff;
  e.entA = r.next() & 0xffffffffffff;
  e.entB = r.next() & 0xffffffffffff;
  e.chunk = r.chance(30) ? 0 : r.pick(std::vector<int>{1, 2, 3, 5, 7, 16, 50, 500, 4096, 40000});
  e.chunk_file = r.chance(60) ? 0 : r.pick(std::vector<int>{1, 7, 100});
  e.lat = r.chance(40) ? 0 : r.pick(std::vector<int>{10, 500, 20000, 1000000});
  e.preempt = r.chance(50) ? 0 : r.pick(std::vector<int>{5, 30, 80});
  e.cap = r.pick(std::vector<i64>{65536, 65536, 70000, 131072, 1000000});
  e.fillA = (int)r.below(4);
  e.fillB = (int)r.below(4);
  e.varA = r.chance(25);
  e.varB = r.chance(25);
  e.samehost = r.chance(20);
  e.addr = (int)r.below(3);
  if (r.chance(25)) e.port = r.pick(std::vector<int>{1, 80, 1235, 32767, 32768, 40000, 65535});
  e.epoch = 1600000000 + (i64)r.below(200000000);
  return e;
}

void put(Case& c, const Sess& s) {
  c.set("scd", s.c.text());
  c.set("pi", bitstr(s.in.p_init));
  c.set("gi", bitstr(s.in.g_init));
  c.set("ei", bitstr(s.in.e_init));
  c.set("px", bitstr(s.in.p_in));
  c.set("gx", bitstr(s.in.g_in));
  c.set("ex", bitstr(s.in.e_in));
  c.setu("cyc", s.cycles);
  c.set("T", s.T);
  c.set("mode", s.mode);
  c.set("mask", s.mask);
  c.set("ot", s.ot);
  c.set("low", s.low);
  c.set("style", s.style);
}
Sess get_sess(const Case& c) {
  Sess s;
  if (!Circuit::parse(c.get("scd"), &s.c)) throw HarnessError("case has no circuit");
  s.in.p_init = strbit(c.get("pi"));
  s.in.g_init = strbit(c.get("gi"));
  s.in.e_init = strbit(c.get("ei"));
  s.in.p_in = strbit(c.get("px"));
  s.in.g_in = strbit(c.get("gx"));
  s.in.e_in = strbit(c.get("ex"));
  s.cycles = c.unum("cyc", 1);
  s.T = c.num("T");
  s.mode = (int)c.num("mode");
  s.mask = c.get("mask");
  s.ot = c.num("ot");
  s.low = c.num("low");
  s.style = (int)c.num("style");
  return s;
}
void put(Case& c, const Env& e) {
  c.setu("sched", e.sched);
  c.setu("entA", e.entA);
  c.setu("entB", e.entB);
  c.set("chunk", e.chunk);
  c.set("chunk_file", e.chunk_file);
  c.set("lat", e.lat);
  c.set("preempt", e.preempt);
  c.set("fillA", e.fillA);
  c.set("fillB", e.fillB);
  c.set("varA", e.varA);
  c.set("varB", e.varB);
  c.set("cap", e.cap);
  c.set("epoch", e.epoch);
  c.set("samehost", e.samehost);
  c.set("real_rsa", e.real_rsa);
  c.set("addr", e.addr);
  c.set("port", e.port);
  c.set("max_steps", e.max_steps);
}
Env get_env(const Case& c) {
  Env e;
  e.sched = c.unum("sched", 1);
  e.entA = c.unum("entA", 1);
  e.entB = c.unum("entB", 2);
  e.chunk = (int)c.num("chunk");
  e.chunk_file = (int)c.num("chunk_file");
  e.lat = (int)c.num("lat");
  e.preempt = (int)c.num("preempt");
  e.fillA = (int)c.num("fillA");
  e.fillB = (int)c.num("fillB");
  e.varA = (int)c.num("varA");
  e.varB = (int)c.num("varB");
  e.cap = c.num("cap", 65536);
  e.epoch = c.num("epoch", 1700000000);
  e.samehost = c.num("samehost");
  e.real_rsa = c.num("real_rsa");
  e.addr = (int)c.num("addr");
  e.port = (int)c.num("port", 1234);
  e.max_steps = c.num("max_steps");
  return e;
}

WorldSpec base_world(const Env& e, const Case& c) {
  WorldSpec w;
  w.sched = e.sched;
  w.chunk = e.chunk;
  w.chunk_file = e.chunk_file;
  w.lat = e.lat;
  w.preempt = e.preempt;
  w.cap = e.cap;
  w.epoch = e.epoch;
  w.real_rsa = e.real_rsa;
  if (e.max_steps) w.max_steps = e.max_steps;
  w.faults = c.faults;
  w.trace = c.num("trace") != 0;
  return w;
}

// style bits: 1 files, 2 several lines per file, 4 lower case, 8 leading zeros, 16 omit zero values,
// 32 long option names, 64 spelled-out output mode
static std::string value_of(const Bits& b, int style, bool file) {
  std::string h = bits_hex(b);
  if (file) {
    size_t full = std::max<size_t>(1, (b.size() + 3) / 4);
    while (h.size() < full) h = "0" + h;
    if (style & 2) {  // least significant line first
      std::string t;
      size_t step = 1 + (size_t)(style % 5);
      for (size_t e = h.size(); e > 0;) {
        size_t a = e > step ? e - step : 0;
        t += h.substr(a, e - a) + "\n";
        e = a;
      }
      h = t;
    } else if (style & 8) {
      h += "\n";
    }
  } else if (style & 8) {
    h = "00" + h;
  }
  if (style & 4)
    for (auto& ch : h) ch = (char)tolower(ch);
  return h;
}
void give(WorldSpec& w, std::vector<std::string>& a, const std::string& host, const std::string& opt,
                 const std::string& tag, const Bits& b, const Sess& s) {
  if ((s.style & 16) && bits_hex(b) == "0" && b.size() < 3) return;
  a.push_back("--" + opt);
  if (s.style & 1) {
    std::string f = "in_" + opt + tag + ".txt";
    w.files[host + ":/w/" + f] = value_of(b, s.style, true);
    a.push_back(f);
  } else {
    a.push_back(value_of(b, s.style, false));
  }
}

void add_session(WorldSpec& w, const Sess& s, const Env& e, const SessOpt& o) {
  std::string ha = "A", hb = e.samehost ? "A" : "B";
  if (s.c.wires() > 3000) {  // keep very large circuits affordable
    if (w.chunk && w.chunk < 500) w.chunk = 500;
    if (w.chunk_file && w.chunk_file < 4096) w.chunk_file = 4096;
    if (w.preempt > 5) w.preempt = 5;
  }
  std::string fa = "cg" + o.tag + ".scd", fb = "ce" + o.tag + ".scd";
  w.files[ha + ":/w/" + fa] = o.scdA.empty() && !o.rawA ? s.c.text() : o.scdA;
  w.files[hb + ":/w/" + fb] = o.scdB.empty() && !o.rawB ? s.c.text() : o.scdB;
  for (int side = 0; side < 2; side++) {
    ProcSpec p;
    p.name = (side ? "bob" : "alice") + o.tag;
    p.host = side ? hb : ha;
    p.prog = "tinygarble";
    p.variant = side ? e.varB : e.varA;
    p.entropy = side ? e.entB : e.entA;
    p.fill = side ? e.fillB : e.fillA;
    auto& a = p.args;
    bool lng = s.style & 32;
    a.push_back(side ? (lng ? "--bob" : "-b") : (lng ? "--alice" : "-a"));
    a.push_back(lng ? "--scd_file" : "-i");
    a.push_back(side ? fb : fa);
    if (side) {
      a.push_back(lng ? "--server_ip" : "-s");
      a.push_back(e.samehost ? (e.addr == 0 ? "127.0.0.1" : e.addr == 1 ? "localhost" : "10.0.0.1")
                             : (e.addr == 1 ? "alice-host" : "10.0.0.1"));
    }
    if (e.port != 1234) { a.push_back(lng ? "--port" : "-p"); a.push_back(std::to_string(e.port)); }
    a.push_back(lng ? "--clock_cycles" : "-c");
    a.push_back(std::to_string(s.cycles));
    give(w, a, p.host, "p_init", o.tag + (side ? "b" : "a"), s.in.p_init, s);
    give(w, a, p.host, "p_input", o.tag + (side ? "b" : "a"), s.in.p_in, s);
    give(w, a, p.host, "init", o.tag + (side ? "b" : "a"), side ? s.in.e_init : s.in.g_init, s);
    give(w, a, p.host, "input", o.tag + (side ? "b" : "a"), side ? s.in.e_in : s.in.g_in, s);
    if (!s.mask.empty()) { a.push_back("--output_mask"); a.push_back(s.mask); }
    if (s.T) { a.push_back(lng ? "--terminate_period" : "-t"); a.push_back(std::to_string(s.T)); }
    if (s.mode || !(s.style & 16)) {
      static const char* names[] = {"consecutive", "separated_clock", "last_clock"};
      a.push_back("--output_mode");
      a.push_back(s.style & 64 ? names[s.mode] : std::to_string(s.mode));
    }
    if (!s.ot) a.push_back("--disable_OT");
    if (s.low) a.push_back("--low_mem_foot");
    if (side && o.wait) { p.wait_listen = e.port; p.listen_owner = "alice" + o.tag; }
    w.procs.push_back(p);
  }
}

bool mask_alice(const Sess& s, u64 i) {
  Bits m = hex_bits(s.mask.empty() ? "0" : s.mask);
  return i < m.size() && m[i];
}
std::string render(const std::vector<Bits>& o, int mode) {
  std::string r;
  if (mode == 0) {
    Bits all;
    for (auto& b : o) all.insert(all.end(), b.begin(), b.end());
    return bits_hex(all) + "\n";
  }
  if (mode == 2) return bits_hex(o.back()) + "\n";
  for (auto& b : o) r += bits_hex(b) + "\n";
  return r;
}
Expect expect(const Sess& s) {
  Expect e;
  e.ref = ref_eval(s.c, s.in, s.cycles, s.T);
  std::vector<Bits> a, b;
  for (auto& o : e.ref.outs) {
    Bits x(o), y(o);
    for (size_t i = 0; i < o.size(); i++) (mask_alice(s, i) ? y : x)[i] = 0;
    a.push_back(x);
    b.push_back(y);
  }
  e.a = render(a, s.mode);
  e.b = render(b, s.mode);
  return e;
}
std::string expect_plain(const Sess& s) {
  return render(ref_eval(s.c, s.in, s.cycles, s.T).outs, s.mode);
}
std::string norm_out(const std::string& out) {
  std::string r, l;
  std::istringstream in(out);
  while (std::getline(in, l)) r += norm_hex(l) + "\n";
  return r;
}
bool printed(const ProcResult& p, const std::string& e) {
  return !p.out.empty() && p.out.back() == '\n' && norm_out(p.out) == e;
}
std::string describe(const RunResult& r) {
  std::string s;
  if (!r.crash.empty()) s += "[" + r.crash + "] ";
  for (auto& p : r.procs) {
    std::string o = p.out.substr(0, 60), e = p.err.substr(0, 200);
    for (auto& ch : o) if (ch == '\n') ch = '/';
    for (auto& ch : e) if (ch == '\n') ch = '/';
    s += p.name + ":" + status_name(p.st) + (p.st == ST_EXIT ? " " + std::to_string(p.code) : "") +
         (p.what.empty() ? "" : " (" + p.what + ")") + " out=" + o + (e.empty() ? "" : " err=" + e) + "; ";
  }
  return s;
}
u64 sess_shape(const Sess& s) {
  Hash h;
  h.s(s.c.text());
  h.u(s.cycles); h.u((u64)s.T); h.u((u64)s.mode); h.s(s.mask); h.u(s.ot); h.u(s.low);
  h.s(bitstr(s.in.g_in)); h.s(bitstr(s.in.e_in));
  return h.h;
}
const ConnResult* first_conn(const RunResult& r) { return r.conns.empty() ? nullptr : &r.conns[0]; }

Case gen_case(const std::string& prop, u64 seed, bool thorough) {
  const PropDef* d = find_prop(prop);
  if (!d) throw HarnessError("unknown property " + prop);
  Rng r(mix(seed, 0x7e57 + (u64)atoi(prop.c_str() + 1)));
  Case c = d->gen(r, thorough);
  c.set("prop", prop);
  c.setu("seed", seed);
  return c;
}
Verdict run_case(const Case& c, Stats* st) {
  const PropDef* d = find_prop(c.get("prop"));
  if (!d) throw HarnessError("unknown property " + c.get("prop"));
  Ctx x;
  x.st = st;
  Verdict v = d->run(c, x);
  v.hash = x.h.h;
  if (st) {
    st->cases++;
    if (x.nontrivial) {
      st->nontrivial++;
      Hash h;
      h.s(c.text());
      st->shapes.insert(h.h);
    }
    if (st->samples.size() < 4 && x.nontrivial && (!x.note.empty() || st->nontrivial > 8)) {
      std::string t = c.text(), o = x.note + " || ";
      for (char ch : t) o += ch == '\n' ? std::string("; ") : std::string(1, ch);
      st->samples.push_back(o.substr(0, 1500));
    }
  }
  return v;
}

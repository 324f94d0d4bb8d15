// Tool chain checks: C15 translator durability, C16 damaged files, C17 meaning of netlists, C18 plain-text evaluator.
#include <errno.h>
#include <algorithm>
#include <functional>
#include <sstream>
#include "case.h"

// ----------------------------------------------------------------- netlists
// One item per cell or assignment, in the order of the netlist file:
//   g TYPE a b z | m in0 in1 sel f | h in0 in1 sum cout | f in0 in1 cin sum cout | d D I q | a lhs rhs     ("-": not connected)
struct Item { char k; std::vector<std::string> p; };
struct Net {
  u64 p_init = 0, g_init = 0, e_init = 0, p_in = 0, g_in = 0, e_in = 0, no = 1;
  bool term = false;
  std::vector<Item> items;
};
static std::string net_text(const Net& n) {
  std::ostringstream o;
  o << n.p_init << " " << n.g_init << " " << n.e_init << " " << n.p_in << " " << n.g_in << " " << n.e_in << " " << n.no << " " << n.term << "\n";
  for (auto& i : n.items) {
    o << i.k;
    for (auto& p : i.p) o << " " << p;
    o << "\n";
  }
  return o.str();
}
static Net net_parse(const std::string& t) {
  Net n;
  std::istringstream in(t);
  std::string l;
  std::getline(in, l);
  std::istringstream h(l);
  int tm = 0;
  if (!(h >> n.p_init >> n.g_init >> n.e_init >> n.p_in >> n.g_in >> n.e_in >> n.no >> tm)) throw HarnessError("bad netlist in case");
  n.term = tm;
  while (std::getline(in, l)) {
    std::istringstream q(l);
    Item i;
    std::string w;
    q >> w;
    if (w.empty()) continue;
    i.k = w[0];
    while (q >> w) i.p.push_back(w);
    n.items.push_back(i);
  }
  return n;
}
// index of the first pin that is an output, per kind
static size_t outs_from(char k) { return k == 'g' ? 3 : k == 'm' ? 3 : k == 'h' ? 2 : k == 'f' ? 3 : k == 'd' ? 2 : 0; }
static int type_of(const std::string& t) {
  static const std::map<std::string, int> m = {{"AND", 8}, {"ANDN", 4}, {"NAND", 7}, {"NANDN", 11}, {"OR", 14}, {"ORN", 13}, {"NOR", 1}, {"NORN", 2}, {"XOR", 6}, {"XNOR", 9}, {"IV", 12}};
  auto i = m.find(t);
  return i == m.end() ? -1 : i->second;
}
static const char* const kTypes[] = {"AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR", "IV"};
struct NetVals {
  std::vector<Bits> outs;
  std::vector<std::map<std::string, int>> nets;   // every driven net, per cycle
  u64 cycles = 0;
  bool terminated = false;
  bool undriven = false, loop = false;
};
// what the netlist means
static NetVals net_eval(const Net& n, const Inputs& in, u64 cycles, i64 T) {
  NetVals R;
  std::map<std::string, std::pair<size_t, size_t>> drv;  // net -> item, pin
  std::vector<std::pair<std::string, u64>> ports = {{"p_init", n.p_init}, {"g_init", n.g_init}, {"e_init", n.e_init}, {"p_input", n.p_in}, {"g_input", n.g_in}, {"e_input", n.e_in}, {"o", n.no}};
  auto canon = [&](const std::string& s) {
    for (auto& p : ports) if (s == p.first && p.second == 1) return s + "[0]";
    return s;
  };
  for (size_t i = 0; i < n.items.size(); i++) {
    const Item& t = n.items[i];
    if (t.k == 'a') { drv[canon(t.p[0])] = {i, 0}; continue; }
    for (size_t j = outs_from(t.k); j < t.p.size(); j++) if (t.p[j] != "-") drv[canon(t.p[j])] = {i, j};
  }
  std::map<std::string, int> q;  // flip-flops
  auto bit = [](const Bits& b, u64 i) { return i < b.size() ? (int)b[i] : 0; };
  auto port = [&](const std::string& s, u64 cyc, int* v) {
    size_t b = s.find('[');
    if (b == std::string::npos) return false;
    std::string nm = s.substr(0, b);
    u64 i = strtoull(s.c_str() + b + 1, 0, 10);
    if (nm == "p_init") *v = bit(in.p_init, i);
    else if (nm == "g_init") *v = bit(in.g_init, i);
    else if (nm == "e_init") *v = bit(in.e_init, i);
    else if (nm == "p_input") *v = bit(in.p_in, cyc * n.p_in + i);
    else if (nm == "g_input") *v = bit(in.g_in, cyc * n.g_in + i);
    else if (nm == "e_input") *v = bit(in.e_in, cyc * n.e_in + i);
    else return false;
    return true;
  };
  for (u64 c = 0; c < cycles; c++) {
    std::map<std::string, int> val, busy;
    std::function<int(const std::string&)> ev = [&](const std::string& raw) -> int {
      std::string s = canon(raw);
      if (s == "1'b0") return 0;
      if (s == "1'b1") return 1;
      int v;
      if (port(s, c, &v)) return v;
      auto m = val.find(s);
      if (m != val.end()) return m->second;
      if (busy[s]) { R.loop = true; return 0; }
      auto d = drv.find(s);
      if (d == drv.end()) { R.undriven = true; return 0; }
      busy[s] = 1;
      const Item& t = n.items[d->second.first];
      size_t pin = d->second.second;
      int r = 0;
      switch (t.k) {
        case 'a': r = ev(t.p[1]); break;
        case 'g': { int a = ev(t.p[1]); r = gate_op(type_of(t.p[0]), a, t.p[0] == "IV" ? 0 : ev(t.p[2])); break; }
        case 'm': { int a = ev(t.p[0]), b = ev(t.p[1]); r = ev(t.p[2]) ? b : a; break; }
        case 'h': { int a = ev(t.p[0]), b = ev(t.p[1]); r = pin == 2 ? a ^ b : a & b; break; }
        case 'f': { int a = ev(t.p[0]) + ev(t.p[1]) + ev(t.p[2]); r = pin == 3 ? a & 1 : a >> 1; break; }
        case 'd': r = c == 0 ? ev(t.p[1]) : q[s]; break;
      }
      busy[s] = 0;
      val[s] = r;
      return r;
    };
    if (n.items.size() > 20000)  // from the shallow end, for the sake of this stack
      for (u64 i = 1; drv.count("n" + std::to_string(i)); i++) ev("n" + std::to_string(i));
    Bits o;
    for (u64 i = 0; i < n.no; i++) o.push_back((u8)ev("o[" + std::to_string(i) + "]"));
    std::map<std::string, int> all;
    for (auto& d : drv) all[d.first] = ev(d.first);
    std::map<std::string, int> nq;
    for (auto& t : n.items) if (t.k == 'd') nq[canon(t.p[2])] = ev(t.p[0]);
    R.outs.push_back(o);
    R.nets.push_back(all);
    R.cycles = c + 1;
    if (T > 0 && n.term && c % (u64)T == 0 && ev("terminate")) { R.terminated = true; break; }
    q = nq;
  }
  return R;
}
// ---- text of a netlist
static std::string verilog(const Net& n, u64 seed) {
  Rng r(seed);
  std::ostringstream o;
  int style = (int)r.below(8);
  std::vector<std::pair<std::string, u64>> ports = {{"p_init", n.p_init}, {"g_init", n.g_init}, {"e_init", n.e_init}, {"p_input", n.p_in}, {"g_input", n.g_in}, {"e_input", n.e_in}};
  std::string nl = style & 1 ? "\r\n" : "\n";
  bool quirk = r.chance(30);  // a blank between a bus and its index
  const bool header = r.chance(25), inst = r.chance(20);  // as Design Compiler writes them
  const int escape = r.chance(25) ? (int)r.range(2, 4) : 0;
  auto raw = [&](const std::string& s) {  // some nets have escaped names
    return escape && s[0] == 'n' && s.back() != ']' && s.back() % escape == 0 ? "\\u1/" + s + "[3] " : s;
  };
  auto nm = [&](const std::string& s0) {
    std::string s = raw(s0);
    if (s[0] == '\\') return s;
    size_t b = s.find('[');
    if (quirk && b != std::string::npos && r.chance(40)) return s.substr(0, b) + " " + s.substr(b);
    return s;
  };
  if (header) {
    std::string bar(40, '/');
    o << bar << nl << "// Created by: Synopsys DC Expert(TM) in wire load mode" << nl << "// Version   : J-2014.09-SP3" << nl
      << "// Date      : Sat Jul 11 16:58:00 2015" << nl << bar << nl << nl << nl;
  }
  o << "module circuit ( clk, rst";
  for (auto& p : ports) if (p.second) o << ", " << p.first;
  o << ", o" << (n.term ? ", terminate" : "") << " );" << nl;
  auto range = [&](u64 w) { return w > 1 || (w == 1 && r.chance(30)) ? "[" + std::to_string(w - 1) + ":0] " : std::string(); };
  if (r.chance(50)) {
    for (size_t i = ports.size(); i-- > 0;) if (ports[i].second) o << "  input " << range(ports[i].second) << ports[i].first << ";" << nl;
    o << "  output " << range(n.no) << "o;" << nl << "  input clk, rst;" << nl;
  } else {
    o << "  output " << range(n.no) << "o;" << nl;
    std::map<u64, std::vector<std::string>> by;
    for (auto& p : ports) if (p.second) by[p.second].push_back(p.first);
    for (auto& b : by) {
      o << "  input " << range(b.first);
      for (size_t i = 0; i < b.second.size(); i++) o << (i ? ", " : "") << b.second[i];
      o << ";" << nl;
    }
    o << "  input clk;" << nl << "  input rst;" << nl;
  }
  if (n.term) o << "  output terminate;" << nl;
  std::set<std::string> ws;
  for (auto& t : n.items) for (size_t j = outs_from(t.k); j < t.p.size(); j++) if (t.k != 'a' && t.p[j][0] == 'n') ws.insert(t.p[j]);
  if (!ws.empty()) {
    o << "  wire   ";
    size_t k = 0;
    for (auto& w : ws) o << (k ? ", " : "") << raw(w) << (++k % 8 == 0 ? nl : "");
    o << ";" << nl;
  }
  int u = 1;
  for (auto& t : n.items) {
    if (t.k == 'a') { o << "  assign " << raw(t.p[0]) << " = " << raw(t.p[1]) << ";" << nl; continue; }
    std::vector<std::pair<std::string, std::string>> pins;
    std::string cell;
    if (t.k == 'g') { cell = t.p[0]; pins = {{"A", t.p[1]}, {"B", t.p[2]}, {"Z", t.p[3]}}; if (cell == "IV") pins.erase(pins.begin() + 1); }
    if (t.k == 'm') { cell = "MUX"; pins = {{"IN0", t.p[0]}, {"IN1", t.p[1]}, {"SEL", t.p[2]}, {"F", t.p[3]}}; }
    if (t.k == 'h') { cell = "HADDER"; pins = {{"IN0", t.p[0]}, {"IN1", t.p[1]}, {"SUM", t.p[2]}, {"COUT", t.p[3]}}; }
    if (t.k == 'f') { cell = "FADDER"; pins = {{"IN0", t.p[0]}, {"IN1", t.p[1]}, {"CIN", t.p[2]}, {"SUM", t.p[3]}, {"COUT", t.p[4]}}; }
    if (t.k == 'd') { cell = "DFF"; pins = {{"D", t.p[0]}, {"CLK", "clk"}, {"RST", "rst"}, {"I", t.p[1]}, {"Q", t.p[2]}}; }
    if (r.chance(30)) for (size_t i = pins.size(); i > 1; i--) std::swap(pins[i - 1], pins[r.below(i)]);
    if (inst && t.k == 'd') o << "  " << cell << " \\q_reg[" << u++ << "]  ( ";
    else o << "  " << cell << " U" << u++ << " ( ";
    bool first = true;
    for (auto& p : pins) {
      if (p.second == "-") {
        if (r.chance(50)) continue;
        o << (first ? "" : ", ") << "." << p.first << "()";
      } else {
        o << (first ? "" : ", ") << "." << p.first << "(" << nm(p.second) << ")";
      }
      first = false;
      if (r.chance(8)) o << nl << "        ";
    }
    o << " );" << nl;
  }
  o << "endmodule" << nl;
  return o.str();
}
static std::string bristol(const Net& n, u64 seed) {
  Rng r(seed);
  std::map<std::string, u64> id;
  for (u64 i = 0; i < n.g_in; i++) id["g_input[" + std::to_string(i) + "]"] = i;
  for (u64 i = 0; i < n.e_in; i++) id["e_input[" + std::to_string(i) + "]"] = n.g_in + i;
  std::vector<std::string> w;
  for (auto& t : n.items) if (t.p[3][0] == 'n') w.push_back(t.p[3]);
  if (r.chance(50)) for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[r.below(i)]);
  u64 k = n.g_in + n.e_in;
  for (auto& s : w) id[s] = k++;
  for (u64 i = 0; i < n.no; i++) id["o[" + std::to_string(i) + "]"] = k++;
  std::ostringstream o;
  o << n.items.size() << " " << k << "\n" << n.g_in << " " << n.e_in << "   " << n.no << "\n\n";
  for (auto& t : n.items) {
    if (t.p[0] == "IV") o << "1 1 " << id[t.p[1]] << " " << id[t.p[3]] << " INV\n";
    else o << "2 1 " << id[t.p[1]] << " " << id[t.p[2]] << " " << id[t.p[3]] << " " << t.p[0] << "\n";
  }
  return o.str();
}
// ---- random netlists
static Net gen_net(Rng& r, bool bris, bool thorough, bool term) {
  Net n;
  auto small = [&](int mx) { return (u64)(r.chance(25) ? 0 : r.chance(25) ? 1 : r.range(1, mx)); };
  n.g_in = small(8);
  n.e_in = small(8);
  n.p_in = bris ? 0 : small(4);
  u64 nd = bris || r.chance(40) ? 0 : (u64)r.range(1, 6);
  if (nd) { n.p_init = small(3); n.g_init = small(3); n.e_init = small(3); }
  if (bris && n.g_in + n.e_in == 0) n.g_in = 2;
  if (n.p_in + n.g_in + n.e_in + nd == 0 && !r.chance(40)) n.g_in = (u64)r.range(1, 4);
  n.no = r.chance(15) ? 1 : (u64)r.range(1, 10);
  if (n.p_in + n.g_in + n.e_in + nd == 0) term = false;  // the terminate signal cannot be the first wire
  n.term = term;
  int cells = (int)r.range(bris ? (i64)n.no : 0, thorough && r.chance(20) ? 250 : 40);
  std::vector<std::string> av;  // nets one may read
  auto addp = [&](const std::string& p, u64 w) { for (u64 i = 0; i < w; i++) av.push_back(w == 1 && !bris && r.chance(50) ? p : p + "[" + std::to_string(i) + "]"); };
  addp("p_input", n.p_in);
  addp("g_input", n.g_in);
  addp("e_input", n.e_in);
  std::vector<std::string> inits;
  auto addi = [&](const std::string& p, u64 w) { for (u64 i = 0; i < w; i++) inits.push_back(w == 1 && r.chance(50) ? p : p + "[" + std::to_string(i) + "]"); };
  addi("p_init", n.p_init);
  addi("g_init", n.g_init);
  addi("e_init", n.e_init);
  u64 names = 0;
  bool bus = r.chance(30);
  auto fresh = [&]() { names++; return bus && !bris && r.chance(30) ? "nb[" + std::to_string(names) + "]" : "n" + std::to_string(names); };
  std::vector<Item> comb, dffs, assigns;
  std::vector<std::string> qs;
  for (u64 i = 0; i < nd; i++) { qs.push_back(fresh()); av.push_back(qs.back()); }
  auto rd = [&]() -> std::string {
    if (!bris && (av.empty() || r.chance(4))) return r.chance(50) ? "1'b0" : "1'b1";
    if (r.chance(45)) { size_t k = std::min<size_t>(av.size(), 8); return av[av.size() - 1 - r.below(k)]; }
    return r.pick(av);
  };
  for (int i = 0; i < cells; i++) {
    Item t;
    int k = bris ? 0 : (int)r.below(10);
    if (k <= 5) {
      std::string ty = bris ? r.pick(std::vector<std::string>{"AND", "XOR", "XOR", "IV"}) : kTypes[r.below(11)];
      std::string z = fresh();
      t = {'g', {ty, rd(), ty == "IV" ? "-" : rd(), z}};
      comb.push_back(t);
      av.push_back(z);
    } else if (k == 6 || k == 7) {
      std::string z = fresh();
      comb.push_back({'m', {rd(), rd(), rd(), z}});
      av.push_back(z);
    } else {
      int c = 1 + (int)r.below(3);
      std::string s = c & 1 ? fresh() : "-", co = c & 2 ? fresh() : "-";
      if (k == 8) comb.push_back({'h', {rd(), rd(), s, co}});
      else comb.push_back({'f', {rd(), rd(), rd(), s, co}});
      if (s != "-") av.push_back(s);
      if (co != "-") av.push_back(co);
    }
  }
  for (u64 i = 0; i < nd; i++)
    dffs.push_back({'d', {rd(), inits.empty() || r.chance(25) ? (r.chance(50) ? "1'b0" : "1'b1") : r.pick(inits), qs[i]}});
  // outputs: a cell drives them directly, or an assignment does
  std::vector<std::string> targets;
  for (u64 i = 0; i < n.no; i++) targets.push_back(n.no == 1 && !bris && r.chance(50) ? "o" : "o[" + std::to_string(i) + "]");
  if (term) targets.push_back("terminate");
  std::vector<Item*> all;
  for (auto& t : comb) all.push_back(&t);
  for (auto& t : dffs) all.push_back(&t);
  auto rename = [&](const std::string& a, const std::string& b) {
    for (auto* t : all) for (size_t j = t->k == 'g'; j < t->p.size(); j++) if (t->p[j] == a) t->p[j] = b;
    for (auto& t : assigns) if (t.p[1] == a) t.p[1] = b;
    for (auto& s : av) if (s == a) s = b;
  };
  for (auto& o : targets) {
    std::vector<std::string> free;  // driven by a cell and not yet an output
    for (auto* t : all) for (size_t j = outs_from(t->k); j < t->p.size(); j++) if (t->p[j][0] == 'n') free.push_back(t->p[j]);
    if (bris) {
      if (free.empty()) throw HarnessError("no gate for an output");
      rename(r.chance(60) ? free.back() : r.pick(free), o);
      continue;
    }
    if (o == "terminate") {
      if (free.empty()) { Item t{'g', {"XOR", rd(), rd(), "terminate"}}; comb.push_back(t); all.clear(); for (auto& x : comb) all.push_back(&x); for (auto& x : dffs) all.push_back(&x); continue; }
      std::string s = r.pick(free);
      if (r.chance(60)) rename(s, o);
      else assigns.push_back({'a', {o, s}});
      continue;
    }
    if (!free.empty() && r.chance(60)) { rename(r.pick(free), o); continue; }
    std::string src = r.chance(12) ? (r.chance(50) ? "1'b0" : "1'b1") : r.chance(50) && !av.empty() ? r.pick(av) : rd();
    for (int h = 0; h < 4 && r.chance(25); h++) {  // through other names
      std::string a = "nx" + std::to_string(++names);
      assigns.push_back({'a', {a, src}});
      src = a;
    }
    assigns.push_back({'a', {o, src}});
  }
  // an alias read by a cell
  if (!bris && r.chance(25) && !comb.empty() && !av.empty()) {
    std::string a = "nx" + std::to_string(++names), src = r.pick(av);
    Item& t = comb[r.below(comb.size())];
    std::set<std::string> lit(av.begin(), av.begin() + (long)std::min<size_t>(av.size(), n.p_in + n.g_in + n.e_in + nd));
    if (lit.count(src)) {  // inputs and flip-flops cannot close a loop
      assigns.insert(assigns.begin(), {'a', {a, src}});
      size_t j = t.k == 'g' ? 1 : 0;
      t.p[j] = a;
    }
  }
  std::vector<Item> items = comb;
  items.insert(items.end(), dffs.begin(), dffs.end());
  if (r.chance(70)) for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[r.below(i)]);
  // assignments may stand anywhere, also before the one that defines their source
  if (r.chance(40)) for (size_t i = assigns.size(); i > 1; i--) std::swap(assigns[i - 1], assigns[r.below(i)]);
  bool spread = r.chance(50);
  size_t pos = 0;
  for (auto& a : assigns) {
    if (spread) { pos = pos + r.below(items.size() - pos + 1); items.insert(items.begin() + (long)pos, a); pos++; }
    else items.push_back(a);
  }
  n.items = items;
  return n;
}
static Sess net_sess(Rng& r, const Net& n, bool session) {
  Sess s;
  s.c.p_init = n.p_init; s.c.g_init = n.g_init; s.c.e_init = n.e_init;
  s.c.p_in = n.p_in; s.c.g_in = n.g_in; s.c.e_in = n.e_in;
  s.c.outs.assign(n.no, -2);
  s.cycles = r.chance(40) ? 1 : (u64)r.range(1, 6);
  s.T = n.term && r.chance(80) ? (r.chance(3) ? big_period(r) : r.range(1, 3)) : 0;
  s.mode = (int)r.below(3);
  s.ot = session ? r.chance(30) : true;
  s.low = r.chance(40);
  s.style = (int)r.below(128);
  if (r.chance(60)) s.mask = bits_hex(rand_bits(r, n.no));
  s.in.p_init = rand_bits(r, n.p_init);
  s.in.g_init = rand_bits(r, n.g_init);
  s.in.e_init = rand_bits(r, n.e_init);
  s.in.p_in = rand_bits(r, n.p_in * s.cycles);
  s.in.g_in = rand_bits(r, n.g_in * s.cycles);
  s.in.e_in = rand_bits(r, n.e_in * s.cycles);
  return s;
}
static ProcSpec v2scd(const Env& e, const std::string& name, const std::string& host, const std::string& in, const std::string& out, bool bris, int variant) {
  ProcSpec p;
  p.name = name;
  p.host = host;
  p.prog = "v2scd";
  p.variant = variant;
  p.fill = e.fillA;
  p.args = {bris ? "-b" : "-i", in, "-o", out};
  return p;
}
static ProcSpec evaluator(WorldSpec& w, const Sess& s, const Env& e, const std::string& name, const std::string& host, const std::string& scd, int variant) {
  ProcSpec p;
  p.name = name;
  p.host = host;
  p.prog = "evaluator";
  p.variant = variant;
  p.fill = e.fillB;
  auto& a = p.args;
  a = {s.style & 32 ? "--scd_file" : "-i", scd, s.style & 32 ? "--clock_cycles" : "-c", std::to_string(s.cycles)};
  give(w, a, host, "p_init", name, s.in.p_init, s);
  give(w, a, host, "g_init", name, s.in.g_init, s);
  give(w, a, host, "e_init", name, s.in.e_init, s);
  give(w, a, host, "p_input", name, s.in.p_in, s);
  give(w, a, host, "g_input", name, s.in.g_in, s);
  give(w, a, host, "e_input", name, s.in.e_in, s);
  if (s.T) { a.push_back("-t"); a.push_back(std::to_string(s.T)); }
  static const char* names[] = {"consecutive", "separated_clock", "last_clock"};
  if (s.mode || !(s.style & 16)) { a.push_back("--output_mode"); a.push_back(s.style & 64 ? names[s.mode] : std::to_string(s.mode)); }
  return p;
}
static std::string file_of(const RunResult& r, const std::string& key) {
  auto i = r.files.find(key);
  return i == r.files.end() ? std::string("\1missing") : i->second;
}
// the trace file: every row it has is right, and no cycle is missing except the one that terminated
static Verdict check_csv(const std::string& csv, u64 cycles, bool terminated, const std::function<int(u64, const std::string&)>& val) {
  std::istringstream in(csv);
  std::string l;
  std::vector<std::string> names;
  u64 need = cycles - (terminated ? 1 : 0), rows = 0;
  if (csv == "\1missing") return need ? bad("trace", "no trace file") : Verdict();
  if (!std::getline(in, l)) return need ? bad("trace", "empty trace file") : Verdict();
  {
    std::string t;
    size_t c = l.find(',');
    if (c == std::string::npos) return bad("trace", "trace header: " + l);
    std::istringstream h(l.substr(c + 1));
    while (h >> t) names.push_back(t);
  }
  while (std::getline(in, l)) {
    std::string t;
    std::istringstream h(l);
    std::vector<std::string> f;
    while (std::getline(h, t, ',')) { size_t a = t.find_first_not_of(" \t"); if (a != std::string::npos) f.push_back(t.substr(a)); }
    if (f.size() != names.size() + 1) return bad("trace", "row " + std::to_string(rows) + " of the trace has " + std::to_string(f.size()) + " fields for " + std::to_string(names.size()) + " wires");
    if (strtoull(f[0].c_str(), 0, 10) != rows) return bad("trace", "row " + std::to_string(rows) + " of the trace is for cycle " + f[0]);
    for (size_t i = 0; i < names.size(); i++) {
      int v = val(rows, names[i]);
      if (v >= 0 && f[i + 1] != std::to_string(v)) return bad("trace", "trace: wire " + names[i] + " in cycle " + std::to_string(rows) + " is " + f[i + 1] + ", expected " + std::to_string(v));
    }
    rows++;
  }
  if (rows < need || rows > cycles) return bad("trace", "the trace has " + std::to_string(rows) + " rows for " + std::to_string(cycles) + " cycles");
  return Verdict();
}

// ----------------------------------------------------------------- C17
// A chain of gates much deeper than any call stack, listed from one end or in no order.
static void add_deep(Net& n, u64 depth, u64 seed) {
  Rng r(seed);
  std::vector<std::string> in;
  for (u64 i = 0; i < n.g_in; i++) in.push_back("g_input[" + std::to_string(i) + "]");
  for (u64 i = 0; i < n.e_in; i++) in.push_back("e_input[" + std::to_string(i) + "]");
  std::vector<Item> chain;
  std::string prev = r.pick(in);
  const bool swap = r.chance(50);
  for (u64 i = 1; i <= depth; i++) {
    std::string z = "n" + std::to_string(i), ty = r.pick(std::vector<std::string>{"XOR", "XOR", "XNOR", "XOR", "NAND", "IV"});
    if (n.no == 1 && ty != "IV") ty = "XOR";
    if (ty == "IV") chain.push_back({'g', {ty, prev, "-", z}});
    else chain.push_back({'g', {ty, swap ? r.pick(in) : prev, swap ? prev : r.pick(in), z}});
    prev = z;
  }
  for (u64 i = 0; i < n.no; i++) chain.push_back({'g', {"XOR", prev, r.pick(in), "o[" + std::to_string(i) + "]"}});
  if (r.chance(70)) std::reverse(chain.begin(), chain.end());
  else for (size_t i = chain.size(); i > 1; i--) std::swap(chain[i - 1], chain[r.below(i)]);
  n.items = chain;
}
static Case gen17(Rng& r, bool thorough) {
  Case c;
  bool bris = r.chance(25), term = !bris && r.chance(25);
  Net n = gen_net(r, bris, thorough, term);
  bool session = r.chance(60);
  Sess s = net_sess(r, n, session);
  if (bris) { s.T = 0; }
  c.set("bris", bris);
  c.set("session", session);
  // netlists that mean nothing have to be refused
  int brk = r.chance(14) ? 1 + (int)r.below(3) : 0;
  if (brk && !bris) {
    std::vector<size_t> g;
    for (size_t i = 0; i < n.items.size(); i++) if (n.items[i].k == 'g' && outs_from('g') == 3) g.push_back(i);
    if (g.empty()) brk = 0;
    else {
      Item& t = n.items[r.pick(g)];
      if (brk == 1) {                                                    // a net nobody drives
        Item& u = n.items[r.below(n.items.size())];
        size_t lo = u.k == 'g' || u.k == 'a' ? 1 : 0, hi = u.k == 'a' ? 2 : outs_from(u.k);
        std::vector<size_t> pins;
        for (size_t j = lo; j < hi; j++) if (u.p[j] != "-") pins.push_back(j);
        u.p[r.pick(pins)] = "nowhere";
      }
      else if (brk == 2) t.p[1] = t.p[3];                                // feeds itself
      else {                                                            // a longer loop
        std::string z = t.p[3];
        t.p[1] = "nlp2";
        n.items.push_back({'g', {"AND", z, z, "nlp1"}});
        n.items.push_back({'g', {"OR", "nlp1", z, "nlp2"}});
      }
    }
  } else brk = 0;
  u64 deep = !bris && r.below(1500) == 0 ? (u64)r.pick(std::vector<int>{60000, 150000}) : 0;
  if (deep) {
    brk = 0;
    n = Net();
    n.g_in = n.e_in = 2;
    n.no = 2;
    s = net_sess(r, n, session);
    s.cycles = 1;
    s.in.g_in.resize(2);
    s.in.e_in.resize(2);
    c.setu("deep", deep);
  }
  c.set("brk", brk);
  c.set("net", net_text(n));
  c.setu("textseed", r.next() & 0xffffffff);
  c.set("varV", (i64)r.below(4) == 0);
  Circuit sizes = s.c;
  put(c, s);
  c.set("noshrink", 1);
  Env e = gen_env(r);
  if (e.chunk > 0 && e.chunk < 50 && session) e.chunk = 50;
  if (deep) e.chunk = e.chunk_file = e.preempt = 0;
  put(c, e);
  return c;
}
static Verdict run17(const Case& c, Ctx& x) {
  Net n = net_parse(c.get("net"));
  if (c.unum("deep")) add_deep(n, c.unum("deep"), c.unum("textseed"));
  Sess s = get_sess(c);
  Env e = get_env(c);
  bool bris = c.num("bris"), session = c.num("session") && !c.num("brk");
  NetVals v = net_eval(n, s.in, s.cycles, s.T);
  bool refuse = v.undriven || v.loop;
  WorldSpec w = base_world(e, c);
  std::string text = bris ? bristol(n, c.unum("textseed")) : verilog(n, c.unum("textseed"));
  std::string hb = e.samehost ? "A" : "B";
  SessOpt o;
  if (session) {
    o.rawA = o.rawB = true;
    o.scdA = o.scdB = "0 0 0 0 0 0 0 1 0 0\n\n\n\n-2 \n\n\n";  // an older circuit that has to be replaced
    add_session(w, s, e, o);
    w.procs[0].after = {"v2a"};
    w.procs[1].after = {"v2b"};
  }
  w.files["A:/w/net.v"] = text;
  w.files[hb + ":/w/net.v"] = text;
  w.procs.push_back(v2scd(e, "v2a", "A", "net.v", "cg.scd", bris, (int)c.num("varV")));
  if (session) w.procs.push_back(v2scd(e, "v2b", hb, "net.v", "ce.scd", bris, 0));
  ProcSpec pe = evaluator(w, s, e, "ev", "A", "cg.scd", 0);
  pe.after = {"v2a"};
  w.procs.push_back(pe);
  RunResult r = x.run(w);
  if (!r.crash.empty()) return bad("memory", r.crash);
  const ProcResult *a = r.proc("v2a"), *ev = r.proc("ev");
  x.nontrivial = true;
  x.note = std::string(bris ? "Bristol" : "Verilog") + " netlist of " + std::to_string(n.items.size()) + " items, " + std::to_string(s.cycles) + " cycles" + (session ? ", session" : "") + (refuse ? ", meaningless" : "");
  if (refuse) {
    if (a->ok()) return bad("accepted", std::string("a netlist with ") + (v.loop ? "a combinational loop" : "an undriven net") + " was translated with success");
    return Verdict();
  }
  if (!a->ok()) return bad("status", "the translator failed: " + describe(r));
  if (!ev->ok()) return bad("status", "the evaluator failed: " + describe(r));
  std::string want = render(v.outs, s.mode);
  if (!printed(*ev, want)) return bad("plain", "evaluator printed '" + ev->out + "', the netlist says '" + want + "'");
  Verdict t = check_csv(file_of(r, "A:/w/cg.scd.csv"), v.cycles, v.terminated, [&](u64 cyc, const std::string& nm) {
    if (cyc >= v.nets.size()) return -1;
    auto i = v.nets[cyc].find(nm);
    if (i == v.nets[cyc].end() && nm == "o" && n.no == 1) i = v.nets[cyc].find("o[0]");
    return i == v.nets[cyc].end() ? -1 : i->second;
  });
  if (t.violation && !bris) return t;
  if (!session) return Verdict();
  if (!r.proc("v2b")->ok()) return bad("status", "the translator failed: " + describe(r));
  if (file_of(r, "A:/w/cg.scd") != file_of(r, hb + ":/w/ce.scd")) return bad("differs", "two translations of one netlist differ");
  std::vector<Bits> oa, ob;
  for (auto& q : v.outs) {
    Bits y(q), z(q);
    for (size_t i = 0; i < q.size(); i++) (mask_alice(s, i) ? z : y)[i] = 0;
    oa.push_back(y);
    ob.push_back(z);
  }
  const ProcResult *al = r.proc("alice"), *bo = r.proc("bob");
  if (!al->ok() || !bo->ok()) return bad("status", "the session failed: " + describe(r));
  if (!printed(*al, render(oa, s.mode))) return bad("session", "garbler printed '" + al->out + "', the netlist says '" + render(oa, s.mode) + "'");
  if (!printed(*bo, render(ob, s.mode))) return bad("session", "evaluator printed '" + bo->out + "', the netlist says '" + render(ob, s.mode) + "'");
  return Verdict();
}

// ----------------------------------------------------------------- C15
static Case gen15(Rng& r, bool thorough) {
  Case c;
  bool bris = r.chance(30);
  Net n = gen_net(r, bris, thorough || r.chance(15), !bris && r.chance(20));
  c.set("bris", bris);
  c.set("net", net_text(n));
  c.setu("textseed", r.next() & 0xffffffff);
  c.set("noshrink", 1);
  c.set("stale", (i64)r.below(3));
  Env e = gen_env(r);
  put(c, e);
  // what an undisturbed run reads and writes
  Case none;
  WorldSpec w = base_world(e, none);
  w.files["A:/w/net.v"] = bris ? bristol(n, c.unum("textseed")) : verilog(n, c.unum("textseed"));
  w.procs.push_back(v2scd(e, "v2", "A", "net.v", "c.scd", bris, e.varA));
  RunResult cal = run_world(w);
  i64 sz[2] = {(i64)file_of(cal, "A:/w/c.scd").size(), (i64)file_of(cal, "A:/w/c.scd.map").size()};
  const ProcResult* p = cal.proc("v2");
  for (int i = 0, k = r.chance(85) ? 1 : 2; i < k; i++) {
    int f = (int)r.below(2);
    std::string file = f ? "c.scd.map" : "c.scd";
    i64 at = r.chance(30) ? std::max<i64>(0, sz[f] - 1 - (i64)r.below(4)) : (i64)r.below((u64)std::max<i64>(1, sz[f]));
    switch (r.below(9)) {
      case 0: case 1: c.faults.push_back(mk("write_err", "v2", at, r.chance(60) ? ENOSPC : EIO, r.chance(50) ? 0 : 1, file)); break;
      case 2: c.faults.push_back(mk("close_err", "v2", r.chance(50) ? at : -1, r.chance(50) ? EIO : ENOSPC, 0, file)); break;
      case 3: c.faults.push_back(mk("fopen_fail", "v2", -1, r.pick(std::vector<int>{EACCES, EROFS, EMFILE, ENOSPC}), 2, file)); break;
      case 4: c.faults.push_back(mk("fopen_fail", "v2", -1, r.pick(std::vector<int>{EACCES, ENOENT, EMFILE}), 1, "net.v")); break;
      case 5: c.faults.push_back(mk("read_err", "v2", (i64)r.below(w.files["A:/w/net.v"].size() + 1), EIO, 0, "net.v")); break;
      case 6: c.faults.push_back(mk("crash_write", "v2", at, 0, 0, file)); break;
      case 7: c.faults.push_back(mk("crash_file", "v2", (i64)r.below((u64)std::max<i64>(1, p->fileops)))); break;
      case 8: c.faults.push_back(mk("alloc", "v2", (i64)r.below((u64)std::max<i64>(1, p->allocs)), r.chance(70) ? 1 : 1000)); break;
    }
  }
  return c;
}
static Verdict run15(const Case& c, Ctx& x) {
  Net n = net_parse(c.get("net"));
  Env e = get_env(c);
  bool bris = c.num("bris");
  std::string text = bris ? bristol(n, c.unum("textseed")) : verilog(n, c.unum("textseed"));
  auto world = [&](const Case& k, bool again) {
    WorldSpec w = base_world(e, k);
    w.files["A:/w/net.v"] = text;
    if (c.num("stale")) {
      std::string old(c.num("stale") == 1 ? 30 : 20000, '7');
      w.files["A:/w/c.scd"] = old;
      w.files["A:/w/c.scd.map"] = old;
    }
    w.procs.push_back(v2scd(e, "v2", "A", "net.v", "c.scd", bris, e.varA));
    if (again) {
      w.procs.push_back(v2scd(e, "v2again", "A", "net.v", "c.scd", bris, e.varA));
      w.procs[1].after = {"v2"};
    }
    return w;
  };
  Case none = c;
  none.faults.clear();
  RunResult good = x.run(world(none, false));
  if (!good.crash.empty()) return bad("memory", good.crash);
  if (!good.proc("v2")->ok()) return bad("status", "the translator failed without any fault: " + describe(good));
  std::string scd = file_of(good, "A:/w/c.scd"), map = file_of(good, "A:/w/c.scd.map");
  Circuit parsed;
  if (!Circuit::parse(scd, &parsed)) return bad("incomplete", "an undisturbed translation is not a circuit: " + scd.substr(0, 200));
  RunResult r = x.run(world(c, false));
  if (!r.crash.empty()) return bad("memory", r.crash);
  x.nontrivial = !r.fired.empty();
  const ProcResult* p = r.proc("v2");
  x.note = (c.faults.empty() ? std::string("no fault") : c.faults[0].kind + "@" + std::to_string(c.faults[0].at) + " " + c.faults[0].str) + " -> " + describe(r).substr(0, 120);
  if (p->ok()) {
    if (file_of(r, "A:/w/c.scd") != scd) return bad("incomplete", "the translator reported success but the circuit file differs from an undisturbed run (" + std::to_string(file_of(r, "A:/w/c.scd").size()) + " of " + std::to_string(scd.size()) + " bytes)");
    if (file_of(r, "A:/w/c.scd.map") != map) return bad("incomplete-map", "the translator reported success but the mapping file differs from an undisturbed run");
  } else if ((p->st == ST_SIGNAL && p->code != 13) || p->st == ST_ABORT || p->st == ST_EXCEPTION) {
    return bad("crash", "the translator died: " + describe(r));
  }
  if (r.fired.empty()) return Verdict();
  // running it again repairs everything
  RunResult q = x.run(world(c, true));
  if (!q.crash.empty()) return bad("memory", q.crash);
  if (!q.proc("v2again")->ok()) return bad("rerun", "translating again after a failure fails: " + describe(q));
  if (file_of(q, "A:/w/c.scd") != scd || file_of(q, "A:/w/c.scd.map") != map) return bad("rerun", "translating again after a failure gives different files");
  return Verdict();
}

// ----------------------------------------------------------------- C16
static std::vector<std::string> words(const std::string& t) {
  std::vector<std::string> v;
  std::istringstream in(t);
  std::string w;
  while (in >> w) v.push_back(w);
  return v;
}
// the same text with word k replaced
static std::string replace_word(const std::string& t, size_t k, const std::string& by) {
  size_t p = 0, i = 0;
  for (;;) {
    while (p < t.size() && isspace((u8)t[p])) p++;
    size_t q = p;
    while (q < t.size() && !isspace((u8)t[q])) q++;
    if (p >= t.size()) return t;
    if (i++ == k) return t.substr(0, p) + by + t.substr(q);
    p = q;
  }
}
static Case gen16(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.many_e = 0;
  p.term = r.chance(20);
  p.max_cycles = 4;
  Sess s;
  for (;;) {
    s = gen_sess(r, p);
    if (s.c.wires() < 1000) break;
  }
  if (s.c.e_in * s.cycles > 20) s.ot = false;
  std::string t = s.c.text();
  int kind = (int)r.below(10);
  std::string d = t;
  bool damaged = true;
  int who = (int)r.below(4);  // 0 evaluator, 1 garbler, 2 evaluator party, 3 both parties
  if (kind <= 2) {            // cut short
    d = t.substr(0, r.chance(25) ? t.size() - 1 - r.below(std::min<size_t>(t.size() - 1, 12)) : r.below(t.size()));
    damaged = words(d) != words(t);
    c.set("what", "cut at byte " + std::to_string(d.size()));
  } else if (kind <= 5) {     // a reference outside the circuit, or no number at all
    std::vector<size_t> ok;
    size_t ng = s.c.gates.size(), base = 10;
    for (size_t i = 0; i < 2 * ng; i++) if (!(i >= ng && s.c.gates[i - ng].t == 12)) ok.push_back(base + i);
    for (size_t i = 0; i < s.c.outs.size() + 2 * s.c.D.size(); i++) ok.push_back(base + 3 * ng + i);
    ok.push_back(8);
    size_t k = r.pick(ok);
    u64 nw = s.c.wires();
    std::vector<std::string> v = {std::to_string(nw), std::to_string(nw + 1 + r.below(1000)), "2147483648", "1000000000000", "9223372036854775807", "99999999999999999999999", "x", "1x", "0x10", "3.5", "-", "nan"};
    if (k != 8) { v.push_back("-1"); v.push_back("-4"); v.push_back("-1000"); v.push_back("-9223372036854775808"); }
    std::string by = r.pick(v);
    if (by == "1x" || by == "3.5" || by == "0x10") damaged = true;
    d = replace_word(t, k, by);
    c.set("what", "word " + std::to_string(k) + " is " + by);
  } else if (kind == 6) {
    i64 at = (i64)r.below(t.size());
    c.faults.push_back(mk("read_err", "*", at, EIO, 0, ".scd"));
    c.set("what", "read error at byte " + std::to_string(at));
    damaged = words(t.substr(0, (size_t)at)) != words(t);
  } else if (kind == 7) {
    c.faults.push_back(mk("fopen_fail", "*", -1, r.pick(std::vector<int>{EACCES, ENOENT, EMFILE}), 0, ".scd"));
    c.set("what", "the circuit file cannot be opened");
  } else {
    // an input file that cannot be read
    s.style |= 1;
    s.style &= ~16;
    std::string opt = who == 0 ? r.pick(std::vector<std::string>{"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"})
                               : r.pick(std::vector<std::string>{"p_init", "p_input", "init", "input"});
    std::string file = "in_" + opt + (who == 0 ? "ev" : who == 1 ? "a" : who == 2 ? "b" : r.chance(50) ? "a" : "b") + ".txt";
    int how = (int)r.below(3);
    c.set("infile", file);
    if (how == 0) c.faults.push_back(mk("fopen_fail", "*", -1, r.pick(std::vector<int>{EACCES, EMFILE}), 1, file));
    else if (how == 1) c.faults.push_back(mk("read_err", "*", 0, EIO, 0, file));
    else c.set("intext", r.pick(std::vector<std::string>{"xyz\n", "12 g\n", "0x12\n", "1\n2\nhello\n", "-\n", "12\n\x01\x02\n", "1,2\n"}));
    c.set("what", "input file " + file + (how == 0 ? " cannot be opened" : how == 1 ? " cannot be read" : " is not hexadecimal"));
  }
  if (r.chance(15)) {  // a netlist that was cut short
    bool bris = r.chance(40);
    Net n = gen_net(r, bris, thorough, !bris && r.chance(20));
    c = Case();
    c.set("bris", bris);
    std::string nt;
    u64 seed = r.next() & 0xffffffff;
    nt = bris ? bristol(n, seed) : verilog(n, seed);
    size_t cut = r.chance(25) ? nt.size() - 1 - r.below(std::min<size_t>(nt.size() - 1, 14)) : r.below(nt.size());
    c.set("net", to_hexs(nt.substr(0, cut)));
    auto last = [](const std::string& t) { size_t p = t.find_last_not_of(" \r\n"); return p == std::string::npos ? (size_t)0 : p + 1; };
    damaged = cut < last(nt);
    c.set("what", "the netlist is cut at byte " + std::to_string(cut) + " of " + std::to_string(nt.size()));
    who = 4;
  }
  if (d.empty()) d = " ";
  c.set("dscd", d);
  c.set("damaged", damaged);
  c.set("who", who);
  put(c, s);
  c.set("noshrink", 1);
  Env e = gen_env(r);
  put(c, e);
  return c;
}
static Verdict run16(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env e = get_env(c);
  int who = (int)c.num("who");
  std::string d = c.get("dscd");
  bool damaged = c.num("damaged");
  x.nontrivial = damaged;
  WorldSpec w = base_world(e, c);
  std::string infile = c.get("infile");
  auto finish = [&]() {
    if (!c.get("intext").empty()) for (auto& f : w.files) if (f.first.size() > infile.size() && f.first.compare(f.first.size() - infile.size(), infile.size(), infile) == 0) f.second = c.get("intext");
  };
  if (who == 4) {
    w.files["A:/w/net.v"] = from_hexs(c.get("net"));
    w.procs.push_back(v2scd(e, "v2", "A", "net.v", "c.scd", c.num("bris"), e.varA));
    RunResult r = x.run(w);
    x.note = c.get("what") + " -> " + describe(r).substr(0, 140);
    if (!r.crash.empty()) return bad("memory", c.get("what") + ": " + r.crash);
    const ProcResult* q = r.proc("v2");
    if (damaged && q->ok()) return bad("accepted", "the translator succeeded although " + c.get("what"));
    if ((q->st == ST_SIGNAL && q->code != 13) || q->st == ST_ABORT || q->st == ST_EXCEPTION) return bad("crash", c.get("what") + ": " + describe(r));
    return Verdict();
  }
  if (who == 0) {
    ProcSpec p = evaluator(w, s, e, "ev", "A", "c.scd", e.varA);
    w.files["A:/w/c.scd"] = d;
    w.files["A:/w/c.scd.map"] = "terminate " + std::to_string(s.c.term) + "\n";
    w.procs.push_back(p);
    finish();
    RunResult r = x.run(w);
    x.note = c.get("what") + " -> " + describe(r).substr(0, 140);
    if (!r.crash.empty()) return bad("memory", c.get("what") + ": " + r.crash);
    const ProcResult* q = r.proc("ev");
    if (damaged && q->ok()) return bad("accepted", "the evaluator succeeded although " + c.get("what") + ": printed " + q->out);
    return judge_failstop(*q, expect_plain(s));
  }
  Expect ex = expect(s);
  SessOpt o;
  o.rawA = o.rawB = true;
  o.scdA = who == 2 ? s.c.text() : d;
  o.scdB = who == 1 ? s.c.text() : d;
  for (auto& f : w.faults) if (f.str == ".scd" && who != 3) f.proc = who == 1 ? "alice" : "bob";
  add_session(w, s, e, o);
  w.procs[0].kill_after = {"bob"};
  w.procs[1].kill_after = {"alice"};
  finish();
  RunResult r = x.run(w);
  x.note = c.get("what") + " -> " + describe(r).substr(0, 160);
  if (!r.crash.empty()) return bad("memory", c.get("what") + ": " + r.crash);
  const ProcResult *a = r.proc("alice"), *b = r.proc("bob");
  bool da = who != 2, db = who != 1;
  if (!infile.empty()) { da = infile.find("a.txt") != std::string::npos; db = !da; }
  if (damaged && da && a->ok()) return bad("accepted", "the garbler succeeded although " + c.get("what") + ": printed " + a->out);
  if (damaged && db && b->ok()) return bad("accepted", "the evaluating party succeeded although " + c.get("what") + ": printed " + b->out);
  if (Verdict v = judge_failstop(*a, ex.a); v.violation) return v;
  return judge_failstop(*b, ex.b);
}

// ----------------------------------------------------------------- C18
static Case gen18(Rng& r, bool thorough) {
  Case c;
  Prof p;
  p.term = r.chance(40);
  p.many_e = 3;
  p.huge = 1;
  if (thorough && r.chance(20)) { p.max_gates = 300; p.max_cycles = 30; p.max_dff = 20; }
  Sess s = gen_sess(r, p);
  if (r.chance(30)) s.cycles = std::max<u64>(s.cycles, (u64)r.range(2, 12));
  s.in.p_in = rand_bits(r, s.c.p_in * s.cycles);
  s.in.g_in = rand_bits(r, s.c.g_in * s.cycles);
  s.in.e_in = rand_bits(r, s.c.e_in * s.cycles);
  // the mapping names some of the wires
  std::ostringstream m;
  std::set<u64> used;
  for (u64 i = s.c.dff_lo(); i < s.c.wires() && used.size() < 60; i++) if (r.chance(80)) { m << "w" << i << (r.chance(20) ? "[0]" : "") << " " << i << "\n"; used.insert(i); }
  m << "terminate " << s.c.term << "\n";
  std::string map = m.str();
  Env e = gen_env(r);
  int kind = (int)r.below(15);
  std::string dmap = map;
  c.set("must", "any");
  auto cut = [&](const std::string& t) { return r.below(t.size() + 1); };
  switch (kind) {
    case 0: c.faults.push_back(mk("write_err", "ev", (i64)r.below(200 + 40 * s.cycles), r.chance(60) ? ENOSPC : EIO, r.chance(50) ? 0 : 1, ".csv")); break;
    case 1: c.faults.push_back(mk("close_err", "ev", r.chance(50) ? 0 : -1, EIO, 0, ".csv")); break;
    case 2: c.faults.push_back(mk("fopen_fail", "ev", -1, r.pick(std::vector<int>{EACCES, EROFS, EMFILE}), 0, ".csv")); c.set("must", "fail"); break;
    case 3: c.faults.push_back(mk("fopen_fail", "ev", -1, r.pick(std::vector<int>{EACCES, ENOENT}), 0, ".map")); c.set("must", "fail"); break;
    case 4: c.faults.push_back(mk("fopen_fail", "ev", -1, r.pick(std::vector<int>{EACCES, ENOENT}), 0, ".scd")); c.set("must", "fail"); break;
    case 5: c.faults.push_back(mk("read_err", "ev", (i64)cut(s.c.text()), EIO, 0, ".scd")); break;
    case 6: c.faults.push_back(mk("read_err", "ev", (i64)cut(map), EIO, 0, ".map")); break;
    case 7: dmap = map.substr(0, map.rfind("terminate") - (map.rfind("terminate") ? r.below(map.rfind("terminate")) : 0)); c.set("must", "fail"); break;
    case 8: if (!used.empty()) { dmap = replace_word(map, 1 + 2 * r.below(used.size()), r.pick(std::vector<std::string>{std::to_string(s.c.wires()), "1000000000", "x"})); c.set("must", "fail"); } break;
    case 9: { Case none; WorldSpec w = base_world(e, none); ProcSpec q = evaluator(w, s, e, "ev", "A", "c.scd", e.varA); w.files["A:/w/c.scd"] = s.c.text(); w.files["A:/w/c.scd.map"] = map; w.procs.push_back(q);
              RunResult cal = run_world(w); c.faults.push_back(mk("alloc", "ev", (i64)r.below((u64)std::max<i64>(1, cal.proc("ev")->allocs)), r.chance(70) ? 1 : 1000)); break; }
    case 11: c.faults.push_back(mk("print_err", "ev", -1, r.chance(60) ? ENOSPC : EIO)); c.set("must", "fail"); break;
    case 10: if (s.c.term == 0) { s.T = 1; c.set("must", "fail"); } break;
    default: break;
  }
  c.set("map", map);
  c.set("dmap", dmap);
  put(c, s);
  c.set("noshrink", 1);
  put(c, e);
  return c;
}
static Verdict run18(const Case& c, Ctx& x) {
  Sess s = get_sess(c);
  Env e = get_env(c);
  RefOut ref = ref_eval(s.c, s.in, s.cycles, s.T);
  std::string want = render(ref.outs, s.mode);
  WorldSpec w = base_world(e, c);
  ProcSpec p = evaluator(w, s, e, "ev", "A", "c.scd", e.varA);
  w.files["A:/w/c.scd"] = s.c.text();
  w.files["A:/w/c.scd.map"] = c.get("dmap");
  w.procs.push_back(p);
  RunResult r = x.run(w);
  if (!r.crash.empty()) return bad("memory", r.crash);
  const ProcResult* q = r.proc("ev");
  bool faulty = !c.faults.empty() || c.get("must") == "fail";
  x.nontrivial = !faulty || !r.fired.empty() || c.get("must") == "fail";
  x.note = (c.faults.empty() ? "must " + c.get("must") : c.faults[0].kind + " " + c.faults[0].str) + " -> " + describe(r).substr(0, 140);
  if (!faulty && !q->ok()) return bad("status", "the evaluator failed without any fault: " + describe(r));
  if (c.get("must") == "fail" && q->ok()) return bad("accepted", "the evaluator succeeded although it could not do what it has to");
  if (Verdict v = judge_failstop(*q, want); v.violation) return v;
  if (!q->ok()) return Verdict();
  return check_csv(file_of(r, "A:/w/c.scd.csv"), ref.cycles, ref.terminated, [&](u64 cyc, const std::string& nm) {
    u64 i = strtoull(nm.c_str() + 1, 0, 10);
    return cyc < ref.wires.size() && i < ref.wires[cyc].size() ? (int)ref.wires[cyc][i] : -1;
  });
}

extern const PropDef kToolProps[];
const PropDef kToolProps[] = {{"C15", gen15, run15}, {"C16", gen16, run16}, {"C17", gen17, run17}, {"C18", gen18, run18}, {nullptr, nullptr, nullptr}};

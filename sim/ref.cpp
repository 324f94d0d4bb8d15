// Reference model: what a circuit file means, which values are public, and an
// upper bound for the number of tables; hex helpers; case serialisation.
#include "sim.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <sstream>

double now_s() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string to_hexs(const std::string& b) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static int hv(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
std::string from_hexs(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(hv(h[i]) * 16 + hv(h[i + 1]));
  return r;
}
std::string bits_hex(const Bits& b) {
  std::string r;
  size_t n = (b.size() + 3) / 4;
  for (size_t i = n; i-- > 0;) {
    int v = 0;
    for (int k = 0; k < 4; k++)
      if (i * 4 + k < b.size() && b[i * 4 + k]) v |= 1 << k;
    r += "0123456789ABCDEF"[v];
  }
  size_t z = r.find_first_not_of('0');
  return z == std::string::npos ? "0" : r.substr(z);
}
Bits hex_bits(const std::string& h) {
  Bits b;
  for (size_t i = h.size(); i-- > 0;) {
    int v = hv(h[i]);
    for (int k = 0; k < 4; k++) b.push_back((v >> k) & 1);
  }
  return b;
}
std::string norm_hex(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == ' ' || c == '\r' || c == '\t') continue;
    if (hv(c) < 0) return "?" + s;
    r += (char)toupper(c);
  }
  if (r.empty()) return "?" + s;
  size_t z = r.find_first_not_of('0');
  return z == std::string::npos ? "0" : r.substr(z);
}

int gate_op(int t, int a, int b) {
  switch (t) {
    case 8: return a & b;
    case 4: return a & !b;
    case 7: return !(a & b);
    case 11: return !(a & !b);
    case 14: return a | b;
    case 13: return a | !b;
    case 1: return !(a | b);
    case 2: return !(a | !b);
    case 6: return a ^ b;
    case 9: return !(a ^ b);
    case 12: return !a;
  }
  return 0;
}

std::string Circuit::text() const {
  std::ostringstream o;
  o << p_init << " " << g_init << " " << e_init << " " << p_in << " " << g_in << " " << e_in << " "
    << D.size() << " " << outs.size() << " " << term << " " << gates.size() << "\n";
  for (auto& g : gates) o << g.a << " ";
  o << "\n";
  for (auto& g : gates) o << g.b << " ";
  o << "\n";
  for (auto& g : gates) o << g.t << " ";
  o << "\n";
  for (auto v : outs) o << v << " ";
  o << "\n";
  for (auto v : D) o << v << " ";
  o << "\n";
  for (auto v : I) o << v << " ";
  o << "\n";
  return o.str();
}
bool Circuit::parse(const std::string& t, Circuit* c) {
  std::istringstream in(t);
  u64 d, o, g;
  *c = Circuit();
  if (!(in >> c->p_init >> c->g_init >> c->e_init >> c->p_in >> c->g_in >> c->e_in >> d >> o >> c->term >> g)) return false;
  if (d > 1000000 || o > 1000000 || g > 1000000) return false;
  c->gates.resize(g); c->outs.resize(o); c->D.resize(d); c->I.resize(d);
  for (auto& x : c->gates) in >> x.a;
  for (auto& x : c->gates) in >> x.b;
  for (auto& x : c->gates) in >> x.t;
  for (auto& x : c->outs) in >> x;
  for (auto& x : c->D) in >> x;
  for (auto& x : c->I) in >> x;
  return !in.fail();
}

namespace {
struct Sym {
  int pub = -1;       // 0/1 publicly known
  u64 lo = 0, hi = 0; // linear combination of secret atoms
  int inv = 0;
};
}  // namespace

RefOut ref_eval(const Circuit& c, const Inputs& in, u64 cycles, i64 T) {
  RefOut R;
  size_t nw = c.wires(), gl = c.gate_lo(), ng = c.gates.size();
  std::vector<u8> v(nw, 0);
  std::vector<Sym> s(nw);
  auto bit = [](const Bits& b, u64 i) { return i < b.size() ? (int)b[i] : 0; };
  Rng ar(991);
  auto atom = [&]() { Sym x; x.lo = ar.next(); x.hi = ar.next(); return x; };
  auto pubs = [](int b) { Sym x; x.pub = b; return x; };
  std::vector<Sym> gi, ei;
  for (u64 i = 0; i < c.g_init; i++) gi.push_back(atom());
  for (u64 i = 0; i < c.e_init; i++) ei.push_back(atom());
  std::vector<int> fan0(ng, 0);
  auto addf = [&](i64 w) { if (w >= (i64)gl && w < (i64)nw) fan0[w - gl]++; };
  for (auto& g : c.gates) { addf(g.a); if (g.t != 12) addf(g.b); }
  for (auto w : c.D) addf(w);
  for (auto w : c.outs) addf(w);
  if (c.term > 0) addf(c.term);
  auto val = [&](i64 w) { return w == -2 ? 0 : w == -3 ? 1 : (int)v[w]; };
  auto sym = [&](i64 w) { return w == -2 ? pubs(0) : w == -3 ? pubs(1) : s[w]; };

  for (u64 cyc = 0; cyc < cycles; cyc++) {
    if (cyc == 0) {
      for (size_t i = 0; i < c.D.size(); i++) {
        i64 w = c.I[i];
        int b; Sym y;
        if (w == -2 || w == -3) { b = w == -3; y = pubs(b); }
        else if (w < (i64)c.p_init) { b = bit(in.p_init, w); y = pubs(b); }
        else if (w < (i64)(c.p_init + c.g_init)) { b = bit(in.g_init, w - c.p_init); y = gi[w - c.p_init]; }
        else { b = bit(in.e_init, w - c.p_init - c.g_init); y = ei[w - c.p_init - c.g_init]; }
        v[c.dff_lo() + i] = (u8)b;
        s[c.dff_lo() + i] = y;
      }
    } else {
      std::vector<u8> nv; std::vector<Sym> ns;
      for (auto w : c.D) { nv.push_back((u8)val(w)); ns.push_back(sym(w)); }
      for (size_t i = 0; i < nv.size(); i++) { v[c.dff_lo() + i] = nv[i]; s[c.dff_lo() + i] = ns[i]; }
    }
    for (u64 i = 0; i < c.p_in; i++) { v[c.in_lo() + i] = (u8)bit(in.p_in, cyc * c.p_in + i); s[c.in_lo() + i] = pubs(v[c.in_lo() + i]); }
    for (u64 i = 0; i < c.g_in; i++) { v[c.in_lo() + c.p_in + i] = (u8)bit(in.g_in, cyc * c.g_in + i); s[c.in_lo() + c.p_in + i] = atom(); }
    for (u64 i = 0; i < c.e_in; i++) { v[c.in_lo() + c.p_in + c.g_in + i] = (u8)bit(in.e_in, cyc * c.e_in + i); s[c.in_lo() + c.p_in + c.g_in + i] = atom(); }
    // values, and who pays
    std::vector<int> fan(fan0);
    std::vector<int> pay(ng, 0);
    std::vector<i64> todo;
    auto reduce = [&](i64 first) {
      todo.push_back(first);
      while (!todo.empty()) {
        i64 w = todo.back();
        todo.pop_back();
        if (w < (i64)gl || w >= (i64)nw) continue;
        int& f = fan[w - gl];
        if (f > 0 && --f == 0) {
          todo.push_back(c.gates[w - gl].a);
          if (c.gates[w - gl].t != 12) todo.push_back(c.gates[w - gl].b);
        }
      }
    };
    // pass 1: public constants only
    std::vector<int> p1(nw, -1);
    for (size_t i = 0; i < gl; i++) p1[i] = s[i].pub;
    auto pv = [&](i64 w) { return w == -2 ? 0 : w == -3 ? 1 : p1[w]; };
    for (size_t i = 0; i < ng; i++) {
      const auto& g = c.gates[i];
      v[gl + i] = (u8)gate_op(g.t, val(g.a), g.t == 12 ? 0 : val(g.b));
      int a = pv(g.a), b = g.t == 12 ? 0 : pv(g.b), r = -1;
      if (g.t == 12) r = a < 0 ? -1 : !a;
      else if (a >= 0 && b >= 0) r = gate_op(g.t, a, b);
      else if (a >= 0 && gate_op(g.t, a, 0) == gate_op(g.t, a, 1)) r = gate_op(g.t, a, 0);
      else if (b >= 0 && gate_op(g.t, 0, b) == gate_op(g.t, 1, b)) r = gate_op(g.t, 0, b);
      p1[gl + i] = r;
      if (r >= 0) {
        fan[i] = 0;
        if (a < 0) reduce(g.a);
        if (g.t != 12 && b < 0) reduce(g.b);
      }
    }
    // pass 2: equal and opposite secrets
    for (size_t i = 0; i < ng; i++) {
      const auto& g = c.gates[i];
      Sym a = sym(g.a), b = g.t == 12 ? pubs(0) : sym(g.b), r;
      if (p1[gl + i] >= 0) { s[gl + i] = pubs(p1[gl + i]); continue; }
      if (fan[i] == 0) { s[gl + i] = atom(); continue; }
      bool pubnow = false;
      if (g.t == 12) { r = a; if (r.pub >= 0) { r.pub = !r.pub; pubnow = true; } else r.inv ^= 1; }
      else if (a.pub >= 0 && b.pub >= 0) { r = pubs(gate_op(g.t, a.pub, b.pub)); pubnow = true; }
      else if (a.pub >= 0 || b.pub >= 0) {
        int x0 = a.pub >= 0 ? gate_op(g.t, a.pub, 0) : gate_op(g.t, 0, b.pub);
        int x1 = a.pub >= 0 ? gate_op(g.t, a.pub, 1) : gate_op(g.t, 1, b.pub);
        if (x0 == x1) { r = pubs(x0); pubnow = true; }
        else { r = a.pub >= 0 ? b : a; r.inv ^= x0; }
      } else if (g.t == 6 || g.t == 9) {
        r.lo = a.lo ^ b.lo; r.hi = a.hi ^ b.hi; r.inv = a.inv ^ b.inv ^ (g.t == 9);
        if (!r.lo && !r.hi) { r = pubs(r.inv); pubnow = true; }
      } else if (a.lo == b.lo && a.hi == b.hi) {
        int x0, x1;
        if (a.inv == b.inv) { x0 = gate_op(g.t, 0, 0); x1 = gate_op(g.t, 1, 1); }
        else { x0 = gate_op(g.t, 0, 1); x1 = gate_op(g.t, 1, 0); }
        if (x0 == x1) { r = pubs(x0); pubnow = true; }
        else { r = a; r.inv ^= x0; }
      } else {
        r = atom();
        pay[i] = 1;
      }
      s[gl + i] = r;
      if (pubnow) {
        fan[i] = 0;
        if (a.pub < 0) reduce(g.a);
        if (g.t != 12 && b.pub < 0) reduce(g.b);
      }
    }
    u64 n = 0;
    for (size_t i = 0; i < ng; i++) n += pay[i] && fan[i] > 0;
    R.tables.push_back(n);
    Bits o;
    std::vector<int> pb;
    for (auto w : c.outs) { o.push_back((u8)val(w)); pb.push_back(sym(w).pub); }
    R.outs.push_back(o);
    R.wires.push_back(v);
    R.pub.push_back(pb);
    R.cycles = cyc + 1;
    R.term_pub.push_back(-2);
    if (T > 0 && c.term > 0 && cyc % (u64)T == 0) {
      R.term_pub.back() = s[c.term].pub;
      if (v[c.term]) { R.terminated = true; break; }
    }
  }
  return R;
}

// ---------------------------------------------------------------- cases
std::string Case::text() const {
  std::string o;
  for (auto& k : kv) {
    std::string v;
    for (char ch : k.second) {
      if (ch == '\n') v += "\\n";
      else if (ch == '\\') v += "\\\\";
      else v += ch;
    }
    o += k.first + "=" + v + "\n";
  }
  for (auto& f : faults)
    o += "fault " + f.kind + " " + f.proc + " " + std::to_string(f.at) + " " + std::to_string(f.arg) + " " +
         std::to_string(f.arg2) + " x" + to_hexs(f.str) + "\n";
  return o;
}
bool Case::parse(const std::string& t, Case* c) {
  std::istringstream in(t);
  std::string l;
  *c = Case();
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l.compare(0, 6, "fault ") == 0) {
      std::istringstream f(l.substr(6));
      Fault x;
      std::string h;
      if (!(f >> x.kind >> x.proc >> x.at >> x.arg >> x.arg2 >> h)) return false;
      x.str = from_hexs(h.substr(1));
      c->faults.push_back(x);
      continue;
    }
    size_t e = l.find('=');
    if (e == std::string::npos) return false;
    std::string v;
    for (size_t i = e + 1; i < l.size(); i++) {
      if (l[i] == '\\' && i + 1 < l.size()) { v += l[i + 1] == 'n' ? '\n' : l[i + 1]; i++; }
      else v += l[i];
    }
    c->kv[l.substr(0, e)] = v;
  }
  return true;
}

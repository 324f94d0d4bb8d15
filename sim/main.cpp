// Worker: seeded search, replay, minimisation.
//   simrun search PROP SEED0 STRIDE SECONDS MAXCASES OUTDIR quick|thorough   -> OUTDIR/w<SEED0>.txt
//   simrun replay FILE [trace]
//   simrun show PROP SEED
#include <execinfo.h>
#include <signal.h>
#include <sys/personality.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <sstream>
#include "case.h"

extern const PropDef kSessionProps[], kPrivProps[], kOtProps[], kToolProps[];
const PropDef* find_prop(const std::string& id) {
  for (const PropDef* t : {kSessionProps, kPrivProps, kOtProps, kToolProps})
    for (; t->id; t++)
      if (id == t->id) return t;
  return nullptr;
}

// ---------------------------------------------------------------- minimisation
static bool still(const Case& c, const std::string& cls) {
  try {
    Verdict v = run_case(c, nullptr);
    return v.violation && v.cls == cls;
  } catch (HarnessError&) {
    return false;
  }
}
static std::vector<Case> simpler_sessions(const Case& c) {
  std::vector<Case> r;
  if (c.get("scd").empty() || c.num("noshrink")) return r;
  Sess s;
  try { s = get_sess(c); } catch (...) { return r; }
  auto add = [&](const Sess& t) {
    Case d = c;
    put(d, t);
    r.push_back(d);
  };
  auto cut = [&](u64 n) {
    Sess t = s;
    t.cycles = n;
    t.in.p_in.resize(t.c.p_in * n);
    t.in.g_in.resize(t.c.g_in * n);
    t.in.e_in.resize(t.c.e_in * n);
    add(t);
  };
  if (s.cycles > 1) { cut(1); cut(s.cycles / 2); cut(s.cycles - 1); }
  if (!s.mask.empty()) { Sess t = s; t.mask = ""; add(t); }
  if (s.mode) { Sess t = s; t.mode = 0; add(t); }
  if (s.low) { Sess t = s; t.low = false; add(t); }
  if (s.ot) { Sess t = s; t.ot = false; add(t); }
  if (s.T > 1) { Sess t = s; t.T = 1; add(t); }
  if (s.T) { Sess t = s; t.T = 0; add(t); }
  if (s.style) { Sess t = s; t.style = 0; add(t); }
  size_t no = s.c.outs.size();
  if (no > 1) {
    for (size_t i = 0; i < no && i < 40; i++) { Sess t = s; t.c.outs.erase(t.c.outs.begin() + (long)i); add(t); }
    Sess t = s; t.c.outs.resize(no / 2); add(t);
  }
  // gates nobody reads, from the end
  size_t ng = s.c.gates.size();
  i64 gl = (i64)s.c.gate_lo();
  auto used = [&](const Circuit& k, i64 w) {
    for (auto& g : k.gates) if (g.a == w || g.b == w) return true;
    for (auto o : k.outs) if (o == w) return true;
    for (auto d : k.D) if (d == w) return true;
    return k.term == w;
  };
  Sess t = s;
  bool any = false;
  while (!t.c.gates.empty() && !used(t.c, gl + (i64)t.c.gates.size() - 1)) { t.c.gates.pop_back(); any = true; }
  if (any) add(t);
  for (size_t i = ng; i-- > 0 && ng - i < 60;) {  // replace a gate by its first input
    i64 w = gl + (i64)i, to = s.c.gates[i].a;
    if (to < (i64)s.c.in_lo()) continue;
    Sess q = s;
    bool ch = false;
    for (auto& g : q.c.gates) { if (g.a == w) { g.a = to; ch = true; } if (g.t != 12 && g.b == w) { g.b = to; ch = true; } }
    for (auto& o : q.c.outs) if (o == w) { o = to; ch = true; }
    for (auto& o : q.c.D) if (o == w) { o = to; ch = true; }
    if (ch && q.c.term != w) add(q);
  }
  for (auto m : {&Inputs::g_in, &Inputs::e_in, &Inputs::p_in, &Inputs::g_init, &Inputs::e_init, &Inputs::p_init}) {
    Sess q = s;
    bool ch = false;
    for (auto& b : q.in.*m) { ch |= b; b = 0; }
    if (ch) add(q);
  }
  return r;
}
Case minimise(const Case& c0, const std::string& cls, double budget) {
  Case c = c0;
  double end = now_s() + budget;
  bool progress = true;
  static const std::vector<std::pair<std::string, std::string>> defs = {
    {"chunk", "0"}, {"chunk_file", "0"}, {"lat", "0"}, {"preempt", "0"}, {"varA", "0"}, {"varB", "0"}, {"fillA", "0"},
    {"fillB", "0"}, {"cap", "65536"}, {"samehost", "0"}, {"addr", "0"}, {"epoch", "1700000000"}, {"sched", "1"}};
  while (progress && now_s() < end) {
    progress = false;
    for (size_t i = 0; i < c.faults.size() && now_s() < end;) {
      Case d = c;
      d.faults.erase(d.faults.begin() + (long)i);
      if (still(d, cls)) { c = d; progress = true; } else i++;
    }
    for (auto& k : defs) {
      if (now_s() >= end) break;
      if (!c.kv.count(k.first) || c.get(k.first) == k.second) continue;
      Case d = c;
      d.set(k.first, k.second);
      if (still(d, cls)) { c = d; progress = true; }
    }
    for (auto& d : simpler_sessions(c)) {
      if (now_s() >= end) break;
      if (still(d, cls)) { c = d; progress = true; break; }
    }
  }
  return c;
}

// ---------------------------------------------------------------- output
static std::string esc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    if (ch == '\n') r += "\\n";
    else if (ch == '\\') r += "\\\\";
    else if ((u8)ch < 32 || (u8)ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (u8)ch); r += b; }
    else r += ch;
  }
  return r;
}
static std::string slurp(const char* f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static std::string self_path(const char* a0) {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n > 0) { b[n] = 0; return b; }
  return a0;
}

static int main2(int argc, char** argv) {
  { void* a[4]; backtrace(a, 4); }  // loads the unwinder now, not inside a world
  std::string dir = self_path(argv[0]);
  dir = dir.substr(0, dir.rfind('/'));
  setvbuf(stdout, nullptr, _IOLBF, 0);
  world_init(dir);
  std::string cmd = argc > 1 ? argv[1] : "";
  try {
    if (cmd == "replay" && argc > 2) {
      Case c;
      if (!Case::parse(slurp(argv[2]), &c)) { fprintf(stderr, "bad case file\n"); return 2; }
      if (argc > 3) c.set("trace", 1);
      Stats st;
      Verdict v = run_case(c, &st);
      printf("hash %016lx\n", (unsigned long)v.hash);
      if (v.violation) { printf("violation %s\n%s\n", v.cls.c_str(), esc(v.msg).c_str()); return 1; }
      printf("held\n");
      for (auto& s : st.samples) printf("note %s\n", esc(s).c_str());
      return 0;
    }
    if (cmd == "twice" && argc > 3) {  // where do executions of the same case differ?
      Case c;
      if (!Case::parse(slurp(argv[2]), &c)) return 2;
      c.set("trace", 1);
      std::vector<std::string> first;
      for (int i = 0; i < atoi(argv[3]); i++) {
        g_world_log.clear();
        run_case(c, nullptr);
        if (i == 0) first = g_world_log;
        for (size_t q = 0; q < first.size(); q++)
          if (first[q] != g_world_log[q]) {
            std::ofstream("/tmp/twice.a") << first[q];
            std::ofstream("/tmp/twice.b") << g_world_log[q];
            printf("run %d, world %d differ: see /tmp/twice.a, /tmp/twice.b\n", i, (int)q);
            return 1;
          }
      }
      return 0;
    }
    if (cmd == "show" && argc > 3) {
      Case c = gen_case(argv[2], strtoull(argv[3], 0, 10), argc > 4);
      printf("%s", c.text().c_str());
      Stats st;
      double t = now_s();
      Verdict v = run_case(c, &st);
      printf("# %s %s %s (%.3f s, %ld worlds)\n", v.violation ? "VIOLATION" : "held", v.cls.c_str(), esc(v.msg).c_str(), now_s() - t, (long)st.worlds);
      for (auto& s : st.samples) printf("# %s\n", esc(s).c_str());
      return v.violation;
    }
    if (cmd == "min" && argc > 3) {
      Case c;
      if (!Case::parse(slurp(argv[2]), &c)) return 2;
      Verdict v = run_case(c, nullptr);
      if (!v.violation) { printf("held\n"); return 0; }
      Case m = minimise(c, v.cls, atof(argv[3]));
      printf("%s", m.text().c_str());
      return 1;
    }
    if (cmd == "search" && argc > 8) {
      std::string prop = argv[2];
      u64 seed0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10);
      double secs = atof(argv[5]);
      i64 maxc = atoll(argv[6]);
      std::string outdir = argv[7];
      bool thorough = std::string(argv[8]) == "thorough";
      const i64 every = getenv("SIM_TWICE") ? 1 : 40;
      double t0 = now_s();
      Stats st;
      i64 twice = 0, skipped = 0;
      std::vector<std::pair<Case, Verdict>> found;
      std::set<std::string> classes;
      std::string herr;
      int herrs = 0;
      u64 seed = seed0;
      for (i64 n = 0; (maxc <= 0 || n < maxc) && now_s() - t0 < secs; n++, seed += stride) {
        try {
          Case c = gen_case(prop, seed, thorough);
          if (getenv("SIM_TRACE")) c.set("trace", 1);
          g_world_log.clear();
          Verdict v = run_case(c, &st);
          if (n < 2 || n % every == 0 || v.violation) {  // the same case again must be the same execution
            std::vector<std::string> first;
            first.swap(g_world_log);
            Verdict v2 = run_case(c, nullptr);
            twice++;
            // code that reads what nobody wrote need not do the same twice; what it does wrong counts all the same
            if (v.violation && v2.violation && v.cls == v2.cls) {
            } else if (v2.hash != v.hash || v2.violation != v.violation) {
              if (!herr.empty()) continue;
              herr = "seed " + std::to_string(seed) + " is not repeatable (" + std::to_string(first.size()) + "/" + std::to_string(g_world_log.size()) + " worlds) " +
                     v.cls + v.msg + " / " + v2.cls + v2.msg;
              for (size_t q = 0; q < first.size() && q < g_world_log.size(); q++)
                if (first[q] != g_world_log[q]) {
                  if (getenv("SIM_TRACE")) { std::ofstream("/tmp/twice.a") << first[q]; std::ofstream("/tmp/twice.b") << g_world_log[q]; break; }
                  herr += "\nworld " + std::to_string(q) + "\n" + first[q] + "\n" + g_world_log[q]; break; }
              continue;
            }
          }
          if (v.violation && classes.insert(v.cls).second) {
            found.push_back({c, v});
            if (found.size() >= 3) break;
          }
        } catch (HarnessError& e) {
          skipped++;
          if (++herrs > 3) { herr = e.what(); break; }
          if (herr.empty()) {}
        }
      }
      double t1 = now_s();
      std::ofstream o(outdir + "/w" + std::to_string(seed0) + ".txt");
      o << "cases " << st.cases << "\nworlds " << g_worlds_run << "\nnontrivial " << st.nontrivial << "\nsim_us " << st.sim_us
        << "\nsteps " << st.steps << "\nswitches " << st.switches << "\ntwice " << twice << "\nskipped " << skipped << "\nseconds " << (t1 - t0) << "\n";
      for (auto& f : st.fired) o << "fired " << f.first << " " << f.second << "\n";
      for (auto& f : st.probes) o << "probe " << f.first << " " << f.second << "\n";
      for (auto& s : st.samples) o << "sample " << esc(s) << "\n";
      for (auto h : st.scheds) o << "S " << h << "\n";
      for (auto h : st.shapes) o << "C " << h << "\n";
      if (!herr.empty()) o << "harness_error " << esc(herr) << "\n";
      int k = 0;
      for (auto& f : found) {
        Case m = minimise(f.first, f.second.cls, 25);
        Verdict v = run_case(m, nullptr);
        if (!v.violation) { m = f.first; v = f.second; }
        std::string fn = outdir + "/" + prop + "-" + std::to_string(f.first.unum("seed")) + "-" + std::to_string(k++) + ".case";
        std::ofstream cf(fn);
        cf << "# " << prop << " " << v.cls << ": " << esc(v.msg) << "\n" << m.text();
        o << "violation " << fn << " " << v.cls << " " << v.hash << " " << esc(v.msg) << "\n";
      }
      o << "done\n";
      return 0;
    }
  } catch (HarnessError& e) {
    fprintf(stderr, "harness error: %s\n", e.what());
    return 2;
  }
  fprintf(stderr, "usage\n");
  return 2;
}

// Addresses and the stack guard differ from process to process; a program that sends memory it never
// wrote would send other bytes in each. One layout for all processes keeps a seed repeatable.
static void one_layout(char** argv) {
  int p = personality(0xffffffff);
  if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
    p = personality(0xffffffff);
    if (p != -1 && (p & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv);
  }
}

__attribute__((no_stack_protector)) int main(int argc, char** argv) {
  one_layout(argv);
  __asm__ volatile("movq %0, %%fs:0x28" ::"r"(0x5dec0a7e11a3f700ul));
  int rc = main2(argc, argv);
  fflush(nullptr);
  _exit(rc);
}

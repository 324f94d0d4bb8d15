// Shared helpers of the property checks.
#pragma once
#include <stdexcept>
#include "sim.h"

struct HarnessError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// collects what one case did
struct Ctx {
  Stats* st = nullptr;
  Hash h;
  bool nontrivial = false;
  std::string note;
  RunResult run(const WorldSpec& w);
};

struct Sess {
  Circuit c;
  Inputs in;
  u64 cycles = 1;
  i64 T = 0;
  int mode = 0;
  std::string mask;   // hex, empty: option not given
  bool ot = true, low = false;
  int style = 0;      // how inputs are passed, see sess_args
};
struct Env {
  u64 sched = 1, entA = 1, entB = 2;
  int chunk = 0, chunk_file = 0, lat = 0, preempt = 0, fillA = 0, fillB = 0, varA = 0, varB = 0;
  i64 cap = 65536, epoch = 1700000000;
  bool samehost = false, real_rsa = false;
  int addr = 0;       // how Bob names the server
  int port = 1234;
  i64 max_steps = 0;  // 0: default
};
struct Prof {
  int max_in = 6, max_dff = 5, max_gates = 30, max_outs = 8;
  bool term = false, big = true, pub = true;
  u64 max_cycles = 8;
  int huge = 0;       // percent with very many wires, cycles or outputs
  int many_e = 4;     // percent with enough evaluator bits for the bulk transfer
  int bulk = 0;       // percent with so many that they fill the buffers of the connection
};
Circuit gen_circuit(Rng& r, const Prof& p);
i64 big_period(Rng& r);  // a terminate period around a power of two
Sess gen_sess(Rng& r, const Prof& p);
Env gen_env(Rng& r);
void put(Case& c, const Sess& s);
void put(Case& c, const Env& e);
Sess get_sess(const Case& c);
Env get_env(const Case& c);
Bits rand_bits(Rng& r, size_t n);
std::string bitstr(const Bits& b);

struct SessOpt {
  std::string tag;          // suffix of process names
  bool wait = true;         // Bob starts once Alice listens
  std::string scdA, scdB;   // circuit file text, empty: c.text()
  bool rawA = false, rawB = false;   // use scdA/scdB even if empty
};
// adds alice<tag> and bob<tag> to the world
void add_session(WorldSpec& w, const Sess& s, const Env& e, const SessOpt& o = SessOpt());
WorldSpec base_world(const Env& e, const Case& c);
bool mask_alice(const Sess& s, u64 i);
struct Expect { std::string a, b; RefOut ref; };
Expect expect(const Sess& s);
std::string expect_plain(const Sess& s);      // evaluator's output
std::string norm_out(const std::string& out);  // normalised lines
// empty if the process printed exactly e
bool printed(const ProcResult& p, const std::string& e);
void give(WorldSpec& w, std::vector<std::string>& a, const std::string& host, const std::string& opt, const std::string& tag,
          const Bits& b, const Sess& s);
std::string render(const std::vector<Bits>& o, int mode);
Verdict judge_failstop(const ProcResult& p, const std::string& e);
Verdict bad(const std::string& cls, const std::string& msg);
std::string describe(const RunResult& r);
u64 sess_shape(const Sess& s);

// protocol traffic
const ConnResult* first_conn(const RunResult& r);

Fault mk(const std::string& kind, const std::string& proc, i64 at, i64 arg = 0, i64 arg2 = 0, const std::string& str = "");
// a fault that takes something away from a session, placed inside what the calibration run did
Fault loss_fault(Rng& r, const RunResult& cal, const Sess& s, const std::string& tag, bool alloc, bool files);
WorldSpec session_world(const Case& c, const Sess& s, const Env& e, const SessOpt& o = SessOpt());
RunResult calibrate(const Sess& s, const Env& e);
// private exponent of a pooled RSA key (big-endian bytes); all pooled moduli
bool pool_key(const std::string& n, std::string* d);
const std::vector<std::string>& pool_moduli();

struct PropDef {
  const char* id;
  Case (*gen)(Rng& r, bool thorough);
  Verdict (*run)(const Case& c, Ctx& x);
};
const PropDef* find_prop(const std::string& id);

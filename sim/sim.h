// Deterministic simulator for TinyGarble: shared declarations.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  u64 next() {  // splitmix64
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }  // inclusive
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD1342543DE82EF95ULL)); return r.next(); }

struct Hash {
  u64 h = 0xcbf29ce484222325ULL;
  void add(const void* p, size_t n) {
    const u8* b = (const u8*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
  }
  void u(u64 v) { h ^= v; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
  void s(const std::string& x) { u(x.size()); add(x.data(), x.size()); }
};

// ---------------------------------------------------------------- driver (lives in the library under test)
struct DrvOp {
  enum Kind { SEND, RECV, SENDBN, RECVBN, OTSEND, OTRECV, OTXSEND, OTXRECV } kind;
  std::string data;                 // SEND: bytes; SENDBN: big-endian bytes; OT*SEND: m0|m1 32 bytes per pair; OT*RECV: one byte per selection
  u64 len = 0;                      // RECV: length; OT*: number of pairs
  int status = -99;                 // result
  std::string out;                  // RECV: bytes; RECVBN: big-endian; OT*RECV: 16 bytes per message
};
struct DrvSpec {
  bool server = false;
  int port = 1234;
  std::string ip = "127.0.0.1";
  std::vector<DrvOp> ops;
};

// ---------------------------------------------------------------- simulated world
struct Fault {
  std::string kind;   // see world.cpp
  std::string proc;   // process name, or "*"
  i64 at = 0;         // operation index / byte offset
  i64 arg = 0;
  i64 arg2 = 0;
  std::string str;    // path suffix etc.
};

struct ProcSpec {
  std::string name, host, prog;
  std::vector<std::string> args;
  DrvSpec drv;
  int variant = 0;          // 0: logging build, 1: no-logging build
  u64 entropy = 1;          // seed of the OS randomness this process sees
  u64 entropy2 = 0;         // if set: a second stream of randomness,
  i64 keep_draw = -1;       //   used for everything but this draw, or
  int keep_phase = -1;      //   for every other group of eight bytes, from this phase on
  int fill = 0;             // what fresh memory contains
  int shift = 0;            // moves heap and stack addresses
  std::vector<std::string> after;  // names of processes that must have ended first
  int wait_listen = 0;      // wait until this port is listening (or its owner ended)
  std::string listen_owner;
  std::string wait_conn;    // wait until this process has opened a connection (or ended)
  i64 delay = 0;            // extra start delay (us)
  std::vector<std::string> kill_after;  // operator kills it 5 s after these ended
};

struct WorldSpec {
  std::vector<ProcSpec> procs;
  std::map<std::string, std::string> files;  // "host:path" -> content
  std::vector<Fault> faults;
  u64 sched = 1;
  i64 epoch = 1700000000;    // wall clock at start, seconds
  std::map<std::string, i64> host_epoch;
  int chunk = 0;             // max bytes per read/write (0: no artificial limit)
  int chunk_file = 0;        // max bytes per file read/write
  int lat = 0;               // max one-way latency in us
  int preempt = 0;           // percent
  i64 cap = 65536;           // bytes a direction holds in flight
  i64 max_steps = 6000000;
  bool real_rsa = false;
  bool trace = false;
};

enum Status { ST_NOTSTARTED, ST_EXIT, ST_SIGNAL, ST_ABORT, ST_EXCEPTION, ST_BADALLOC, ST_CRASHED, ST_HUNG, ST_ACCEPT, ST_LIVELOCK };
const char* status_name(int s);

struct ProcResult {
  std::string name;
  int st = ST_NOTSTARTED;
  int code = 0;
  std::string what, out, err;
  i64 netops = 0, fileops = 0, allocs = 0, sent = 0, rcvd = 0, clockreads = 0, rands = 0, randb = 0;
  std::vector<std::pair<int, std::string>> drv;  // status, out per op
  std::vector<std::string> draws;  // the first draws of 16 bytes or more
  bool ok() const { return st == ST_EXIT && code == 0; }
};
struct ConnResult {
  std::string client, server;
  std::string c2s, s2c;        // bytes accepted from the writer
  i64 c2s_delivered = 0, s2c_delivered = 0;
};
struct RunResult {
  std::vector<ProcResult> procs;
  std::vector<ConnResult> conns;
  std::map<std::string, std::string> files;
  u64 hash = 0, sched_hash = 0;
  i64 sim_us = 0, steps = 0, switches = 0;
  std::map<std::string, i64> fired;    // fault kind -> times it really happened
  std::map<std::string, i64> probes;
  std::string crash;                   // memory error / harness failure of the whole run, empty if fine
  bool harness_error = false;
  std::string trace;
  const ProcResult* proc(const std::string& n) const {
    for (auto& p : procs) if (p.name == n) return &p;
    return nullptr;
  }
};

void world_init(const std::string& sut_dir);      // load libraries, keys
RunResult run_world(const WorldSpec& w);          // forks
extern i64 g_worlds_run;
extern std::vector<std::string> g_world_log;

// ---------------------------------------------------------------- circuits and reference
struct Circuit {
  u64 p_init = 0, g_init = 0, e_init = 0, p_in = 0, g_in = 0, e_in = 0;
  struct Gate { i64 a, b; int t; };
  std::vector<Gate> gates;
  std::vector<i64> outs, D, I;
  i64 term = 0;
  u64 dff() const { return D.size(); }
  u64 init_size() const { return p_init + g_init + e_init; }
  u64 in_lo() const { return init_size(); }
  u64 dff_lo() const { return init_size() + p_in + g_in + e_in; }
  u64 gate_lo() const { return dff_lo() + D.size(); }
  u64 wires() const { return gate_lo() + gates.size(); }
  std::string text() const;
  static bool parse(const std::string& t, Circuit* c);
};
typedef std::vector<u8> Bits;
std::string bits_hex(const Bits& b);              // minimal upper-case hex
Bits hex_bits(const std::string& h);
std::string norm_hex(const std::string& s);       // normalise a printed number; "?" if not hex
struct Inputs { Bits p_init, g_init, e_init, p_in, g_in, e_in; };
struct RefOut {
  u64 cycles = 0;
  bool terminated = false;
  std::vector<Bits> outs;      // per cycle
  std::vector<Bits> wires;     // per cycle
  std::vector<std::vector<int>> pub;  // per cycle/out: 0/1 public value, -1 secret
  std::vector<u64> tables;     // upper bound of tables per cycle
  std::vector<int> term_pub;   // at checked cycles: 0/1/-1, else -2
};
RefOut ref_eval(const Circuit& c, const Inputs& in, u64 cycles, i64 T);
int gate_op(int t, int a, int b);

// ---------------------------------------------------------------- cases
struct Case {
  std::map<std::string, std::string> kv;
  std::vector<Fault> faults;
  std::string get(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  i64 num(const std::string& k, i64 d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() || it->second.empty() ? d : strtoll(it->second.c_str(), 0, 10);
  }
  u64 unum(const std::string& k, u64 d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() || it->second.empty() ? d : strtoull(it->second.c_str(), 0, 10);
  }
  void set(const std::string& k, const std::string& v) { kv[k] = v; }
  void set(const std::string& k, i64 v) { kv[k] = std::to_string(v); }
  void setu(const std::string& k, u64 v) { kv[k] = std::to_string(v); }
  std::string text() const;
  static bool parse(const std::string& t, Case* c);
};

struct Verdict {
  bool violation = false;
  std::string cls;      // stable class for minimisation
  std::string msg;
  u64 hash = 0;         // over all worlds of this case
};

struct Stats {
  i64 cases = 0, worlds = 0, nontrivial = 0;
  i64 sim_us = 0, steps = 0, switches = 0;
  std::map<std::string, i64> fired, probes;
  std::set<u64> scheds, shapes;
  std::vector<std::string> samples;
};

// one case of a property: pure function of the case
Verdict run_case(const Case& c, Stats* st);
// seed -> case
Case gen_case(const std::string& prop, u64 seed, bool thorough);
Case minimise(const Case& c, const std::string& cls, double budget_s);
std::string to_hexs(const std::string& b);
std::string from_hexs(const std::string& h);
double now_s();

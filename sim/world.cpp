// The simulated world: fibers, scheduler, virtual time, network, disk, clock,
// randomness, memory, and the libc/OpenSSL interposers that put the real code on top of it.
#include <malloc.h>
#include <arpa/inet.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/bn.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/auxv.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <exception>
#include <iostream>
#include <memory>
#include <new>
#include "sim.h"

#define API extern "C" __attribute__((visibility("default")))
extern "C" {
void __sanitizer_start_switch_fiber(void**, const void*, size_t);
void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
}

const char* status_name(int s) {
  static const char* n[] = {"notstarted", "exit", "signal", "abort", "exception", "badalloc",
                            "crashed", "hung", "accept", "livelock"};
  return n[s];
}
i64 g_worlds_run = 0;

// ================================================================= data
struct Proc;
struct Conn;
struct Seg { i64 t; std::string data; int kind; };  // kind 0 data, 1 FIN, 2 RST
struct Dir {
  std::deque<Seg> fl;
  std::string rb;
  size_t rpos = 0;
  bool fin = false, rst = false, rst_seen = false;  // arrived at the reader
  bool wclosed = false;                             // writer closed / shut down
  bool dead = false;                                // reader closed: later data answered by RST
  bool gone = false;                                // cut by a fault: nothing passes any more
  i64 inflight = 0, last_t = 0, stall_until = 0, accepted = 0, delivered = 0;
  std::string log;
  size_t avail() const { return rb.size() - rpos; }
};
struct Sock {
  int fd = -1;
  Proc* p = nullptr;
  int type = 0;  // 0 new, 1 listening, 2 connected
  int port = 0, bound = 0, backlog_max = 5, refs = 1;
  bool reuse = false, nonblock = false, closed = false, rdshut = false, linger0 = false;
  i64 rto = 0, wto = 0;
  Conn* c = nullptr;
  int side = 0;
  std::deque<Conn*> backlog;
};
struct Conn {
  int id, port, cport = 0;  // cport: the client chose its port
  std::string chost, shost, cname, sname;
  Dir d[2];  // d[0]: client -> server
  Sock* end[2] = {nullptr, nullptr};
};
struct Inode { int fd = -1; std::string key; };
struct OpenFile { Inode* ino = nullptr; Proc* p = nullptr; std::string path; bool wr = false; bool std_log = false; };

struct Proc {
  ProcSpec spec;
  int idx = 0;
  ProcResult r;
  int state = 0;  // 0 not started, 1 runnable, 2 blocked, 3 done
  std::function<bool()> pred;
  i64 deadline = -1;
  int block_kind = 0;  // 1 accept, 2 other
  ucontext_t ctx;
  char* stack = nullptr;
  size_t stack_size = 0;
  void* fake = nullptr;
  int saved_errno = 0;
  char eh[16] = {0};
  std::ios_base::fmtflags cflags[2];
  std::ios_base::iostate cstate[2] = {std::ios_base::goodbit, std::ios_base::goodbit};
  std::string obuf;
  i64 flushes = 0;
  int sigpipe = 0;  // 0 default 1 ignore 2 handler
  void (*sigpipe_h)(int) = nullptr;
  u64 rnd = 1, crnd = 1;
  Rng os{1}, os2{1}, fillr{1};
  u64 guard = 0;
  i64 ended_at = -1;
  std::vector<std::string> argv_s;
  std::vector<char*> argv;
  int (*mainf)(int, char**) = nullptr;
  int (*drvf)(DrvSpec*, int, char**) = nullptr;
  DrvSpec drv;
  std::vector<Sock*> socks;
  std::map<std::string, int> sysc;
  struct hostent he;
  char hename[64];
  char headdr[4];
  char* helist[2];
  u64 key_base = 0, key_n = 0;
};

struct World {
  WorldSpec w;
  Rng rng{1};
  i64 now = 0, steps = 0, switches = 0;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<std::unique_ptr<Conn>> conns;
  std::map<int, Sock*> fds;
  std::map<std::string, std::unique_ptr<Inode>> fs;
  std::map<int, OpenFile> ofs;
  std::vector<std::pair<std::string, i64>> tw;  // "host:port" until
  std::vector<int> fault_fired;
  std::map<std::string, i64> fired, probes;
  std::map<std::string, i64> clock_off;
  Hash h, sh;
  std::string trace;
  int next_fd = 500;
  ucontext_t main_ctx;
  void* main_fake = nullptr;
  u64 main_guard = 0;
  const void* main_stack = nullptr;
  size_t main_stack_size = 0;
};

static World* W = nullptr;
static Proc* CUR = nullptr;   // fiber running right now
static int in_sim = 0;        // >0 while simulator code runs on a fiber
struct Shared { volatile int cur; volatile int phase; char what[256]; };
static Shared* SH = nullptr;

struct Guard {
  Proc* p;
  Guard() : p(CUR) { CUR = nullptr; }
  ~Guard() { CUR = p; }
};

static void ev(Proc* p, const char* what, i64 a = 0, i64 b = 0) {
  W->h.u(p ? p->idx + 1 : 0);
  W->h.add(what, strlen(what));
  W->h.u((u64)a);
  W->h.u((u64)b);
  W->h.u((u64)W->now);
  if (W->w.trace) {
    char buf[256];
    snprintf(buf, sizeof buf, "%lld %s %s %lld %lld\n", (long long)W->now,
             p ? p->spec.name.c_str() : "-", what, (long long)a, (long long)b);
    if (W->trace.size() < 4000000) W->trace += buf;
  }
}
static void note_fault(const std::string& k) { W->fired[k]++; }
static void fault_done(size_t i) {
  if (!W->fault_fired[i]) W->probes["fault_used"]++;
  W->fault_fired[i]++;
  note_fault(W->w.faults[i].kind);
  ev(nullptr, W->w.faults[i].kind.c_str(), W->w.faults[i].at, W->w.faults[i].arg);
}
static bool fmatch(const Fault& f, Proc* p) { return f.proc == "*" || f.proc == p->spec.name; }
static bool suffix(const std::string& s, const std::string& e) {
  return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}

// ================================================================= fibers
static void switch_to_main(bool dying);
static void release_conn_end(Conn* c, int side, bool rst);
static void close_sock(Sock* s);

static void end_proc(Proc* p, int st, int code) {
  if (p->state == 3) return;
  p->state = 3;
  p->r.st = st;
  p->r.code = code;
  p->ended_at = W->now;
  ev(p, "end", st, code);
  for (Sock* s : std::vector<Sock*>(p->socks)) close_sock(s);
}
// what was printed leaves the process when the stream is flushed and at an orderly end
static bool flush_out(Proc* p) {
  if (p->obuf.empty()) return true;
  i64 k = p->flushes++;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind != "print_err" || !fmatch(f, p) || (f.at >= 0 && f.at != k)) continue;
    fault_done(i);
    p->obuf.clear();
    errno = (int)f.arg ? (int)f.arg : ENOSPC;
    return false;
  }
  if (p->r.out.size() < (1u << 24)) p->r.out += p->obuf;
  p->obuf.clear();
  return true;
}
[[noreturn]] static void die(int st, int code, const std::string& what = "") {
  Proc* p = CUR;
  {
    Guard g;
    p->r.what = what;
    if (st == ST_EXIT) flush_out(p);
    end_proc(p, st, code);
  }
  switch_to_main(true);
  __builtin_unreachable();
}

static void load_fiber(Proc* p);
static std::streambuf* real_cout;
static std::streambuf* real_cerr;
struct Demux : std::streambuf {
  bool err;
  explicit Demux(bool e) : err(e) {}
  bool put(const char* s, size_t n) {
    Proc* p = CUR;
    if (!p) {
      if (::write(err ? 2 : 1, s, n) < 0) {}
      return true;
    }
    Guard g;
    std::string& o = err ? p->r.err : p->obuf;
    if (o.size() < (1u << 24)) o.append(s, n);
    return err || o.size() < 4096 || flush_out(p);
  }
  int overflow(int c) override { char ch = (char)c; if (c != EOF && !put(&ch, 1)) return EOF; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n) ? n : 0; }
  int sync() override {
    Proc* p = CUR;
    if (!p || err) return 0;
    Guard g;
    return flush_out(p) ? 0 : -1;
  }
};
static Demux demux_out(false), demux_err(true);

// each simulated process has a stack guard of its own, as it has in reality
static inline void set_guard(u64 g) { __asm__ volatile("movq %0, %%fs:0x28" ::"r"(g)); }
static inline u64 get_guard() { u64 g; __asm__ volatile("movq %%fs:0x28, %0" : "=r"(g)); return g; }
__attribute__((no_stack_protector)) static void fiber_main() {
  __sanitizer_finish_switch_fiber(nullptr, &W->main_stack, &W->main_stack_size);
  Proc* p = CUR;
  set_guard(p->guard);
  load_fiber(p);
  int rc;
  if (p->drvf) rc = p->drvf(&p->drv, (int)p->argv_s.size(), p->argv.data());
  else rc = p->mainf((int)p->argv_s.size(), p->argv.data());
  die(ST_EXIT, rc & 0xff);
}

static void save_fiber(Proc* p) {
  p->saved_errno = errno;
  memcpy(p->eh, abi::__cxa_get_globals(), 16);
  p->cflags[0] = std::cout.flags();
  p->cflags[1] = std::cerr.flags();
  p->cstate[0] = std::cout.rdstate();
  p->cstate[1] = std::cerr.rdstate();
}
static void load_fiber(Proc* p) {
  memcpy(abi::__cxa_get_globals(), p->eh, 16);
  std::cout.flags(p->cflags[0]);
  std::cerr.flags(p->cflags[1]);
  std::cout.clear(p->cstate[0]);
  std::cerr.clear(p->cstate[1]);
  errno = p->saved_errno;
}
__attribute__((no_stack_protector)) static void switch_to_main(bool dying) {
  Proc* p = CUR;
  save_fiber(p);
  CUR = nullptr;
  SH->cur = 0;
  __sanitizer_start_switch_fiber(dying ? nullptr : &p->fake, W->main_stack, W->main_stack_size);
  set_guard(W->main_guard);
  swapcontext(&p->ctx, &W->main_ctx);
  set_guard(p->guard);
  __sanitizer_finish_switch_fiber(p->fake, &W->main_stack, &W->main_stack_size);
  load_fiber(p);
}
static void run_fiber(Proc* p) {
  W->main_guard = get_guard();
  W->switches++;
  W->sh.u(p->idx);
  SH->cur = p->idx + 1;
  strncpy(SH->what, p->spec.name.c_str(), sizeof SH->what - 1);
  char eh[16];
  memcpy(eh, abi::__cxa_get_globals(), 16);
  CUR = p;
  p->state = 1;
  __sanitizer_start_switch_fiber(&W->main_fake, p->stack, p->stack_size);
  swapcontext(&W->main_ctx, &p->ctx);
  __sanitizer_finish_switch_fiber(W->main_fake, nullptr, nullptr);
  CUR = nullptr;
  memcpy(abi::__cxa_get_globals(), eh, 16);
}

static void term_handler() {
  if (!CUR) {
    fprintf(stderr, "simulator: terminate outside a fiber\n");
    _exit(97);
  }
  int st = ST_ABORT;
  std::string what;
  {
    Guard g;
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t) {
      what = t->name();
      st = what.find("bad_alloc") != std::string::npos || what.find("bad_array_new_length") != std::string::npos
               ? ST_BADALLOC : ST_EXCEPTION;
    }
  }
  die(st, 134, what);
}

static void deliver_due();

// called with CUR == p set; blocks until pred, returns false on timeout
static bool block_until(Proc* p, std::function<bool()> pred, int kind, i64 timeout_us = 0) {
  // CUR is null here (Guard active)
  deliver_due();
  if (pred()) return true;
  p->pred = pred;
  p->deadline = timeout_us > 0 ? W->now + timeout_us : -1;
  p->block_kind = kind;
  p->state = 2;
  CUR = p;
  switch_to_main(false);
  CUR = nullptr;
  p->pred = nullptr;
  p->deadline = -1;
  return pred();
}
static void step_check(Proc* p) {
  if (++W->steps > W->w.max_steps) {
    CUR = p;
    die(ST_LIVELOCK, 0, "step limit");
  }
}
static void maybe_preempt(Proc* p) {
  step_check(p);
  if (W->w.preempt && (int)W->rng.below(100) < W->w.preempt) {
    p->state = 1;
    CUR = p;
    switch_to_main(false);
    CUR = nullptr;
  }
  deliver_due();
}

// What the last calls left on the stack below is gone (like fresh memory, it holds what the world says):
// a value read from there is neither secret nor stable.
__attribute__((noinline, no_sanitize_address)) static void scrub_stack(Proc* p, size_t n) {
  u8 v = p->spec.fill == 0 ? 0 : p->spec.fill == 1 ? 0xFF : p->spec.fill == 2 ? 0x01 : (u8)(p->fillr.next() >> 11);
  char* sp;
  asm volatile("mov %%rsp, %0" : "=r"(sp));
  if (sp < p->stack || sp > p->stack + p->stack_size || (size_t)(sp - p->stack) < n + 65536) return;
  char* to = sp - 256 - n;
  asm volatile("cld; rep stosb" : "+D"(to), "+c"(n) : "a"(v) : "memory");
}

// ================================================================= network
static i64 lat() { return W->w.lat ? (i64)W->rng.below(W->w.lat + 1) : 0; }

static void push_seg(Dir& d, const std::string& data, int kind) {
  i64 t = std::max(std::max(W->now + lat(), d.last_t), d.stall_until);
  d.last_t = t;
  d.inflight += (i64)data.size();
  d.fl.push_back({t, data, kind});
}
static void kill_dir_rst(Dir& d) {  // reader of d sees a reset now
  d.rst = true;
}
static void deliver_due() {
  for (auto& cp : W->conns) {
    Conn* c = cp.get();
    for (int i = 0; i < 2; i++) {
      Dir& d = c->d[i];
      while (!d.fl.empty() && d.fl.front().t <= W->now) {
        Seg s = d.fl.front();
        d.fl.pop_front();
        d.inflight -= (i64)s.data.size();
        if (s.kind == 0) {
          if (d.gone) continue;
          if (d.dead) {  // reader has closed: reset towards the writer
            if (!c->d[1 - i].rst) push_seg(c->d[1 - i], "", 2);
            continue;
          }
          if (d.rpos > (1u << 16) && d.rpos * 2 > d.rb.size()) { d.rb.erase(0, d.rpos); d.rpos = 0; }
          d.rb += s.data;
        } else if (s.kind == 1) {
          d.fin = true;
        } else {
          d.rst = true;
        }
      }
    }
  }
}
static void release_conn_end(Conn* c, int side, bool force_rst) {
  Dir& out = c->d[side == 0 ? 0 : 1];  // direction written by this side
  Dir& in = c->d[side == 0 ? 1 : 0];
  bool unread = in.avail() > 0 || force_rst;
  in.dead = true;
  if (!out.wclosed) {
    out.wclosed = true;
    if (out.rst || in.rst) {
    } else if (unread) {
      push_seg(out, "", 2);
    } else {
      push_seg(out, "", 1);
      if (side == 0 && c->cport && !in.fin) W->tw.push_back({c->chost + ":" + std::to_string(c->cport), W->now + 60000000});
      if (side == 1 && !in.fin) W->tw.push_back({c->shost + ":" + std::to_string(c->port), W->now + 60000000});
    }
  } else if (unread && !in.rst) {
    push_seg(out, "", 2);
  }
  in.rb.clear();
  in.rpos = 0;
  c->end[side] = nullptr;
}
static void close_sock(Sock* s) {
  if (s->closed) return;
  s->closed = true;
  W->fds.erase(s->fd);
  auto& v = s->p->socks;
  v.erase(std::remove(v.begin(), v.end(), s), v.end());
  if (s->type == 1) {
    for (Conn* c : s->backlog) release_conn_end(c, 1, true);
    s->backlog.clear();
  } else if (s->type == 2 && s->c) {
    if (s->linger0) {  // what is still on its way is thrown away
      Dir& o = s->c->d[s->side];
      for (auto i = o.fl.begin(); i != o.fl.end();)
        if (i->kind == 0) { o.inflight -= (i64)i->data.size(); i = o.fl.erase(i); }
        else ++i;
    }
    release_conn_end(s->c, s->side, s->linger0);
  }
}

static Sock* sock_of(int fd) {
  if (!W) return nullptr;
  auto it = W->fds.find(fd);
  return it == W->fds.end() ? nullptr : it->second;
}

// one network system call by p: faults keyed on the process's operation counter
// returns 0: go on; -1: fail with errno set
static int net_point(Proc* p, const char* op, Conn* c, bool eintr_ok = true) {
  i64 n = p->r.netops++;
  ev(p, op, n, 0);
  scrub_stack(p, 32768);
  maybe_preempt(p);
  if (p->state == 3) return 0;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (!fmatch(f, p)) continue;
    if (f.kind == "crash" && f.at == n) {
      fault_done(i);
      CUR = p;
      die(ST_CRASHED, 9, "crash fault");
    }
    if (f.kind == "reset" && f.at == n && c) {
      fault_done(i);
      for (int k = 0; k < 2; k++) { c->d[k].rst = true; c->d[k].fl.clear(); c->d[k].inflight = 0; }
    }
    if (f.kind == "stall" && f.at == n && c) {
      fault_done(i);
      for (int k = 0; k < 2; k++) c->d[k].stall_until = std::max(c->d[k].stall_until, W->now + f.arg);
    }
    if (f.kind == "net_err" && n >= f.at && n < f.at + std::max<i64>(1, f.arg2) && c) {
      if (f.arg == EINTR && !eintr_ok) continue;
      fault_done(i);
      errno = (int)f.arg;
      return -1;
    }
  }
  return 0;
}
static int sys_fault(Proc* p, const char* name) {
  int k = p->sysc[name]++;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "sock_fail" && fmatch(f, p) && f.str == name && f.at == k) {
      fault_done(i);
      return (int)f.arg ? (int)f.arg : EIO;
    }
  }
  return 0;
}

static void raise_sigpipe(Proc* p) {
  if (p->sigpipe == 1) return;
  if (p->sigpipe == 2) {
    void (*h)(int) = p->sigpipe_h;
    CUR = p;
    h(SIGPIPE);
    CUR = nullptr;
    return;
  }
  W->probes["sigpipe_kill"]++;
  CUR = p;
  die(ST_SIGNAL, SIGPIPE, "SIGPIPE");
}

// apply man-in-the-middle faults to bytes [off, off+n) of a direction written by p
static std::string mangle(Proc* p, Conn* c, int dir, const std::string& in, i64 off) {
  std::string out;
  Dir& d = c->d[dir];
  bool any = false;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const std::string& k = W->w.faults[i].kind;
    if (k == "flip" || k == "forge" || k == "insert" || k == "drop") any = true;
  }
  if (!any) {
    out = in;
  } else {
    i64 n = (i64)in.size();
    std::vector<std::string> cell(in.size());  // what each written byte becomes
    for (i64 k = 0; k < n; k++) cell[k] = in.substr(k, 1);
    for (size_t i = 0; i < W->w.faults.size(); i++) {
      const Fault& f = W->w.faults[i];
      if (!fmatch(f, p)) continue;
      if (f.kind == "flip" && f.at >= off && f.at < off + n) {
        std::string& x = cell[f.at - off];
        if (x.empty()) continue;
        x.back() ^= (char)f.arg;
        fault_done(i);
      } else if (f.kind == "forge" && f.at < off + n && f.at + (i64)f.str.size() > off) {
        for (size_t k = 0; k < f.str.size(); k++) {
          i64 q = f.at + (i64)k - off;
          if (q >= 0 && q < n) cell[q] = f.str.substr(k, 1);
        }
        fault_done(i);
      } else if (f.kind == "insert" && f.at >= off && f.at < off + n && !W->fault_fired[i]) {
        cell[f.at - off] = f.str + cell[f.at - off];
        fault_done(i);
      } else if (f.kind == "drop" && f.at < off + n && f.at + f.arg > off) {
        i64 a = std::max(f.at, off) - off, b = std::min(f.at + f.arg, off + n) - off;
        for (i64 q = a; q < b; q++) cell[q].clear();
        fault_done(i);
      }
    }
    for (auto& x : cell) out += x;
  }
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (!fmatch(f, p) || f.kind != "cut" || d.gone) continue;
    if (f.at < off + (i64)in.size()) {  // the connection is lost after byte f.at of this direction
      i64 keep = std::max<i64>(0, f.at - off);
      if (keep < (i64)out.size()) out.resize(keep);
      fault_done(i);
      if (!out.empty()) push_seg(d, out, 0);
      push_seg(d, "", f.arg ? 2 : 1);
      d.gone = true;
      push_seg(c->d[1 - dir], "", f.arg ? 2 : 1);
      return "";
    }
  }
  return out;
}

static ssize_t net_write(Proc* p, Sock* s, const char* buf, size_t n, bool nosig, bool dontwait) {
  if (s->type != 2) { errno = ENOTCONN; return -1; }
  if (net_point(p, "write", s->c)) return -1;
  if (n == 0) return 0;
  Conn* c = s->c;
  Dir& d = c->d[s->side];
  Dir& in = c->d[1 - s->side];
  size_t total = 0;
  size_t want = n;
  if (W->w.chunk && want > 1) want = std::min<size_t>(want, 1 + W->rng.below(W->w.chunk));
  while (total < want) {
    if (in.rst) {
      if (total) break;
      if (!in.rst_seen) { in.rst_seen = true; errno = ECONNRESET; return -1; }
      if (!nosig) raise_sigpipe(p);
      errno = EPIPE;
      return -1;
    }
    if (d.wclosed) { if (!nosig) raise_sigpipe(p); errno = EPIPE; return -1; }
    i64 room = W->w.cap - d.inflight - (i64)d.avail();
    if (d.gone) room = 1 << 20;
    if (room <= 0) {
      if (total && W->w.chunk) break;
      if (s->nonblock || dontwait) { if (total) break; errno = EAGAIN; return -1; }
      W->probes["write_blocked"]++;
      Dir* dp = &d; Dir* ip = &in; i64 cap = W->w.cap;
      bool ok = block_until(p, [dp, ip, cap] { return ip->rst || dp->gone || cap - dp->inflight - (i64)dp->avail() > 0; }, 2, s->wto);
      step_check(p);
      if (!ok) { if (total) break; errno = EAGAIN; return -1; }
      continue;
    }
    size_t k = std::min<size_t>(want - total, (size_t)room);
    std::string data(buf + total, k);
    i64 off = d.accepted;
    d.accepted += (i64)k;
    d.log += data;
    p->r.sent += (i64)k;
    if (!d.gone) {
      data = mangle(p, c, s->side, data, off);
      if (!d.gone && !data.empty()) push_seg(d, data, 0);
    }
    total += k;
    deliver_due();
  }
  ev(p, "wrote", (i64)total, (i64)c->id);
  W->h.add(buf, total);
  return (ssize_t)total;
}
static ssize_t net_read(Proc* p, Sock* s, char* buf, size_t n, bool peek, bool waitall, bool dontwait) {
  if (s->type != 2) { errno = ENOTCONN; return -1; }
  if (net_point(p, "read", s->c)) return -1;
  if (n == 0) return 0;
  Conn* c = s->c;
  Dir* d = &c->d[1 - s->side];
  if (s->rdshut) return 0;
  size_t need = waitall ? n : 1;
  auto ready = [d, need] { return d->avail() >= need || d->fin || d->rst; };
  deliver_due();
  if (!ready()) {
    if (s->nonblock || dontwait) { errno = EAGAIN; return -1; }
    W->probes["read_blocked"]++;
    if (!block_until(p, ready, 2, s->rto) && d->avail() == 0) { errno = EAGAIN; return -1; }
  }
  if (d->avail() == 0) {
    if (d->rst) {
      if (!d->rst_seen) { d->rst_seen = true; ev(p, "read_rst"); errno = ECONNRESET; return -1; }
      return 0;
    }
    ev(p, "read_eof");
    return 0;
  }
  size_t k = std::min(n, d->avail());
  if (W->w.chunk && k > 1 && !waitall) k = std::min<size_t>(k, 1 + W->rng.below(W->w.chunk));
  memcpy(buf, d->rb.data() + d->rpos, k);
  if (!peek) {
    d->rpos += k;
    d->delivered += (i64)k;
    p->r.rcvd += (i64)k;
    if (d->rpos == d->rb.size()) { d->rb.clear(); d->rpos = 0; }
  }
  W->sh.u(k);
  ev(p, "got", (i64)k, c->id);
  return (ssize_t)k;
}

// ================================================================= disk
static std::string abspath(Proc* p, const char* path) {
  std::string s(path);
  if (s.empty() || s[0] != '/') s = "/w/" + s;
  return p->spec.host + ":" + s;
}
static Inode* inode_get(const std::string& key, bool create) {
  auto it = W->fs.find(key);
  if (it != W->fs.end()) return it->second.get();
  if (!create) return nullptr;
  auto* i = new Inode;
  i->key = key;
  i->fd = memfd_create("simf", MFD_CLOEXEC);
  W->fs[key].reset(i);
  return i;
}
static std::string inode_read(Inode* i) {
  struct stat st;
  if (fstat(i->fd, &st)) return "";
  std::string s(st.st_size, 0);
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = syscall(SYS_pread64, i->fd, &s[o], s.size() - o, (off_t)o);
    if (r <= 0) break;
    o += r;
  }
  return s;
}
static void file_point(Proc* p, const char* op) {
  i64 n = p->r.fileops++;
  ev(p, op, n);
  scrub_stack(p, 16384);
  step_check(p);
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "crash_file" && fmatch(f, p) && f.at == n) {
      fault_done(i);
      CUR = p;
      die(ST_CRASHED, 9, "crash fault");
    }
  }
}
static void second_stream(Proc* p, u8* b, size_t n, i64 draw);
static int sim_open(Proc* p, const char* path, int flags, mode_t) {
  file_point(p, "open");
  std::string s(path);
  if (s == "/dev/urandom" || s == "/dev/random") {
    int fd = memfd_create("rnd", MFD_CLOEXEC);
    std::string d(65536, 0);
    for (auto& ch : d) ch = (char)p->os.next();
    p->r.rands++;
    p->r.randb += 65536;
    second_stream(p, (u8*)&d[0], d.size(), p->r.rands - 1);
    if (syscall(SYS_pwrite64, fd, d.data(), d.size(), (off_t)0) < 0) {}
    return fd;
  }
  std::string key = abspath(p, path);
  int k = p->sysc["open:" + key]++;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "fopen_fail" && fmatch(f, p) && suffix(key, f.str) && (f.at < 0 || f.at == k)) {
      bool wr = (flags & O_ACCMODE) != O_RDONLY;
      if ((f.arg2 == 1 && wr) || (f.arg2 == 2 && !wr)) continue;
      fault_done(i);
      errno = (int)f.arg ? (int)f.arg : EACCES;
      return -1;
    }
  }
  if ((flags & O_CREAT) && (flags & O_EXCL) && inode_get(key, false)) { errno = EEXIST; return -1; }
  Inode* ino = inode_get(key, flags & O_CREAT);
  if (!ino) { errno = ENOENT; return -1; }
  char proc[64];
  snprintf(proc, sizeof proc, "/proc/self/fd/%d", ino->fd);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, proc, (flags & ~(O_CREAT | O_EXCL)) | O_CLOEXEC, 0600);
  if (fd < 0) return -1;
  OpenFile of;
  of.ino = ino;
  of.p = p;
  of.path = key;
  of.wr = (flags & O_ACCMODE) != O_RDONLY;
  of.std_log = suffix(key, ".log");
  W->ofs[fd] = of;
  return fd;
}
static ssize_t file_read(Proc* p, int fd, OpenFile& of, void* buf, size_t n) {
  file_point(p, "fread");
  off_t pos = lseek(fd, 0, SEEK_CUR);
  if (W->w.chunk_file && n > 1) n = std::min<size_t>(n, 1 + W->rng.below(W->w.chunk_file));
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (!fmatch(f, p) || !suffix(of.path, f.str)) continue;
    if (f.kind == "read_err" && pos + (off_t)n > f.at) {
      if (pos < f.at) n = (size_t)(f.at - pos);
      else { fault_done(i); errno = (int)f.arg ? (int)f.arg : EIO; return -1; }
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
static ssize_t file_write(Proc* p, int fd, OpenFile& of, const void* buf, size_t n) {
  file_point(p, "fwrite");
  off_t pos = lseek(fd, 0, SEEK_CUR);
  if (W->w.chunk_file && n > 1) n = std::min<size_t>(n, 1 + W->rng.below(W->w.chunk_file));
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (!fmatch(f, p) || !suffix(of.path, f.str)) continue;
    if (f.kind == "write_err" && pos + (off_t)n > f.at) {
      if (f.arg2 && W->fault_fired[i] >= f.arg2) continue;  // transient
      if (pos < f.at) n = (size_t)(f.at - pos);             // short write up to the limit
      else { fault_done(i); errno = (int)f.arg ? (int)f.arg : ENOSPC; return -1; }
    }
    if (f.kind == "crash_write" && pos + (off_t)n > f.at) {
      i64 keep = f.at > pos ? f.at - pos : 0;
      if (keep && syscall(SYS_write, fd, buf, (size_t)keep) < 0) {}
      fault_done(i);
      CUR = p;
      die(ST_CRASHED, 9, "crash while writing");
    }
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  if (r > 0 && !of.std_log) W->h.add(buf, r);
  return r;
}
static int close_fault(Proc* p, int fd) {
  auto it = W->ofs.find(fd);
  if (it == W->ofs.end()) return 0;
  file_point(p, "fclose");
  int e = 0;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "close_err" && fmatch(f, p) && suffix(it->second.path, f.str) && it->second.wr) {
      fault_done(i);
      e = (int)f.arg ? (int)f.arg : EIO;
      if (f.at >= 0) {  // the data past byte f.at never reached the disk
        if (ftruncate(fd, 0) == 0 && f.at > 0) {}
      }
    }
  }
  W->ofs.erase(it);
  return e;
}

// ================================================================= interposers: files
template <class T> static T next_sym(T, const char* n) { return (T)dlsym(RTLD_NEXT, n); }
#define REAL(f) static auto real = next_sym(&f, #f)

API FILE* fopen(const char* path, const char* mode) {
  REAL(fopen);
  if (!CUR) return real(path, mode);
  Proc* p = CUR;
  Guard g;
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = sim_open(p, path, fl, 0600);
  if (fd < 0) return nullptr;
  return fdopen(fd, mode);
}
API FILE* fopen64(const char* path, const char* mode) {
  REAL(fopen64);
  if (!CUR) return real(path, mode);
  return fopen(path, mode);
}
API int fclose(FILE* f) {
  REAL(fclose);
  if (!CUR) return real(f);
  Proc* p = CUR;
  Guard g;
  int fd = fileno(f);
  int e = fd >= 0 ? close_fault(p, fd) : 0;
  int r = real(f);
  if (e) { errno = e; return EOF; }
  return r;
}
static int open_common(const char* path, int flags, mode_t m) {
  Proc* p = CUR;
  Guard g;
  return sim_open(p, path, flags, m);
}
API int open(const char* path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!CUR) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
  return open_common(path, flags, m);
}
API int open64(const char* path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!CUR) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
  return open_common(path, flags, m);
}
API int openat(int d, const char* path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!CUR) return (int)syscall(SYS_openat, d, path, flags, m);
  return open_common(path, flags, m);
}
API int creat(const char* path, mode_t m) {
  if (!CUR) return (int)syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m);
  return open_common(path, O_CREAT | O_WRONLY | O_TRUNC, m);
}
static int sim_unlink(const char* path) {
  Proc* p = CUR;
  Guard g;
  file_point(p, "unlink");
  auto it = W->fs.find(abspath(p, path));
  if (it == W->fs.end()) { errno = ENOENT; return -1; }
  it->second.release();  // open descriptions keep their inode
  W->fs.erase(it);
  return 0;
}
API int unlink(const char* path) {
  if (!CUR) return (int)syscall(SYS_unlink, path);
  return sim_unlink(path);
}
API int remove(const char* path) {
  REAL(remove);
  if (!CUR) return real(path);
  return sim_unlink(path);
}
API int rename(const char* a, const char* b) {
  REAL(rename);
  if (!CUR) return real(a, b);
  Proc* p = CUR;
  Guard g;
  file_point(p, "rename");
  std::string ka = abspath(p, a), kb = abspath(p, b);
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "fopen_fail" && fmatch(f, p) && suffix(kb, f.str) && f.arg2 != 1) {
      fault_done(i);
      errno = (int)f.arg ? (int)f.arg : EACCES;
      return -1;
    }
  }
  auto it = W->fs.find(ka);
  if (it == W->fs.end()) { errno = ENOENT; return -1; }
  std::unique_ptr<Inode> ino = std::move(it->second);
  W->fs.erase(it);
  auto jt = W->fs.find(kb);
  if (jt != W->fs.end()) jt->second.release();
  W->fs[kb] = std::move(ino);
  return 0;
}
API int access(const char* path, int m) {
  if (!CUR) return (int)syscall(SYS_access, path, m);
  Proc* p = CUR;
  Guard g;
  if (W->fs.count(abspath(p, path))) return 0;
  errno = ENOENT;
  return -1;
}
static int stat_common(const char* path, struct stat* st) {
  Proc* p = CUR;
  Guard g;
  auto it = W->fs.find(abspath(p, path));
  if (it == W->fs.end()) { errno = ENOENT; return -1; }
  int r = fstat(it->second->fd, st);
  if (!r) st->st_mode = S_IFREG | 0644;
  return r;
}
API int stat(const char* path, struct stat* st) {
  REAL(stat);
  if (!CUR) return real(path, st);
  return stat_common(path, st);
}
API int lstat(const char* path, struct stat* st) {
  REAL(lstat);
  if (!CUR) return real(path, st);
  return stat_common(path, st);
}
API int fsync(int fd) {
  if (!CUR) return (int)syscall(SYS_fsync, fd);
  Proc* p = CUR;
  Guard g;
  file_point(p, "fsync");
  return 0;
}
API int fdatasync(int fd) { return fsync(fd); }

// ================================================================= interposers: descriptors
static ssize_t fd_write(int fd, const void* b, size_t n, int flags) {
  Proc* p = CUR;
  Guard g;
  if (fd == 1 || fd == 2) {
    std::string& o = fd == 2 ? p->r.err : p->r.out;
    o.append((const char*)b, n);
    return (ssize_t)n;
  }
  if (Sock* s = sock_of(fd)) {
    if (s->p != p) { errno = EBADF; return -1; }
    return net_write(p, s, (const char*)b, n, flags & MSG_NOSIGNAL, flags & MSG_DONTWAIT);
  }
  auto it = W->ofs.find(fd);
  if (it != W->ofs.end()) return file_write(p, fd, it->second, b, n);
  if (fd == 0) { errno = EBADF; return -1; }
  if (fd >= 500) { errno = EBADF; return -1; }
  return syscall(SYS_write, fd, b, n);
}
static ssize_t fd_read(int fd, void* b, size_t n, int flags) {
  Proc* p = CUR;
  Guard g;
  if (Sock* s = sock_of(fd)) {
    if (s->p != p) { errno = EBADF; return -1; }
    return net_read(p, s, (char*)b, n, flags & MSG_PEEK, flags & MSG_WAITALL, flags & MSG_DONTWAIT);
  }
  auto it = W->ofs.find(fd);
  if (it != W->ofs.end()) return file_read(p, fd, it->second, b, n);
  if (fd == 0) return 0;  // stdin: end of file
  if (fd >= 500 || fd < 0) { errno = EBADF; return -1; }
  return syscall(SYS_read, fd, b, n);
}
API ssize_t write(int fd, const void* b, size_t n) {
  if (!CUR) return syscall(SYS_write, fd, b, n);
  return fd_write(fd, b, n, 0);
}
API ssize_t read(int fd, void* b, size_t n) {
  if (!CUR) return syscall(SYS_read, fd, b, n);
  return fd_read(fd, b, n, 0);
}
API ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
API ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!CUR) return syscall(SYS_writev, fd, v, c);
  std::string s;
  for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return fd_write(fd, s.data(), s.size(), 0);
}
API ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!CUR) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return fd_read(fd, v[i].iov_base, v[i].iov_len, 0);
  return 0;
}
API ssize_t send(int fd, const void* b, size_t n, int fl) {
  if (!CUR) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  return fd_write(fd, b, n, fl);
}
API ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
  if (!CUR) return syscall(SYS_sendto, fd, b, n, fl, a, l);
  return fd_write(fd, b, n, fl);
}
API ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
  if (!CUR) return syscall(SYS_sendmsg, fd, m, fl);
  std::string s;
  for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return fd_write(fd, s.data(), s.size(), fl);
}
API ssize_t recv(int fd, void* b, size_t n, int fl) {
  if (!CUR) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
  return fd_read(fd, b, n, fl);
}
API ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
  if (!CUR) return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
  return fd_read(fd, b, n, fl);
}
API ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
  if (!CUR) return syscall(SYS_recvmsg, fd, m, fl);
  for (size_t i = 0; i < m->msg_iovlen; i++)
    if (m->msg_iov[i].iov_len) return fd_read(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
  return 0;
}
API int close(int fd) {
  if (!CUR) return (int)syscall(SYS_close, fd);
  Proc* p = CUR;
  Guard g;
  if (Sock* s = sock_of(fd)) {
    if (s->p != p) { errno = EBADF; return -1; }
    ev(p, "close", fd);
    maybe_preempt(p);
    close_sock(s);
    return 0;
  }
  if (fd <= 2) return 0;
  if (fd >= 500 || fd < 0) { W->probes["close_badf"]++; errno = EBADF; return -1; }
  int e = close_fault(p, fd);
  int r = (int)syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return r;
}

// ================================================================= interposers: sockets
static std::map<std::string, std::string> g_names = {{"alice-host", "10.0.0.1"}, {"bob-host", "10.0.0.2"}};
// hosts: "A" is 10.0.0.1, "B" is 10.0.0.2, ...; 127.x is the caller's own host
static std::string host_of(Proc* p, uint32_t ip) {
  ip = ntohl(ip);
  if ((ip >> 24) == 127 || ip == 0) return p->spec.host;
  if ((ip >> 8) == 0x0a0000) return std::string(1, (char)('A' + (ip & 255) - 1));
  return "?";
}
static uint32_t ip_of_host(const std::string& h) { return htonl(0x0a000000u + (uint32_t)(h[0] - 'A' + 1)); }
static bool resolve(Proc* p, const char* name, uint32_t* ip) {
  struct in_addr a;
  if (inet_aton(name, &a)) { *ip = a.s_addr; return true; }
  std::string n(name);
  if (n == "localhost") { *ip = htonl(0x7f000001); return true; }
  auto it = g_names.find(n);
  if (it == g_names.end()) return false;
  inet_aton(it->second.c_str(), &a);
  *ip = a.s_addr;
  return true;
}

API int socket(int dom, int type, int proto) {
  if (!CUR) return (int)syscall(SYS_socket, dom, type, proto);
  Proc* p = CUR;
  Guard g;
  ev(p, "socket");
  step_check(p);
  if (int e = sys_fault(p, "socket")) { errno = e; return -1; }
  if (dom == AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  Sock* s = new Sock;
  s->fd = W->next_fd++;
  s->p = p;
  s->nonblock = type & SOCK_NONBLOCK;
  W->fds[s->fd] = s;
  p->socks.push_back(s);
  return s->fd;
}
API int setsockopt(int fd, int level, int opt, const void* v, socklen_t l) {
  if (!CUR) return (int)syscall(SYS_setsockopt, fd, level, opt, v, l);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  ev(p, "setsockopt", opt);
  if (int e = sys_fault(p, "setsockopt")) { errno = e; return -1; }
  if (level == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse = *(const int*)v != 0;
  if (level == SOL_SOCKET && opt == SO_RCVTIMEO) { auto* t = (const struct timeval*)v; s->rto = t->tv_sec * 1000000 + t->tv_usec; }
  if (level == SOL_SOCKET && opt == SO_LINGER) { auto* t = (const struct linger*)v; s->linger0 = t->l_onoff && t->l_linger == 0; }
  if (level == SOL_SOCKET && opt == SO_SNDTIMEO) { auto* t = (const struct timeval*)v; s->wto = t->tv_sec * 1000000 + t->tv_usec; }
  return 0;
}
API int getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
  if (!CUR) return (int)syscall(SYS_getsockopt, fd, level, opt, v, l);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  memset(v, 0, *l);
  return 0;
}
API int bind(int fd, const struct sockaddr* a, socklen_t l) {
  if (!CUR) return (int)syscall(SYS_bind, fd, a, l);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  ev(p, "bind");
  if (int e = sys_fault(p, "bind")) { errno = e; return -1; }
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  std::string key = p->spec.host + ":" + std::to_string(port);
  for (auto& f : W->fds) {
    Sock* o = f.second;
    if (o == s || o->p->spec.host != p->spec.host) continue;
    if (o->type == 1 && o->port == port) { W->probes["addr_in_use"]++; errno = EADDRINUSE; return -1; }
    if (o->type == 0 && o->bound && o->port == port && !(s->reuse && o->reuse)) { errno = EADDRINUSE; return -1; }
    if (o->type == 2 && o->side == 0 && o->bound && port && o->port == port) { errno = EADDRINUSE; return -1; }
    if (o->type == 2 && o->side == 1 && o->c && o->c->port == port && !s->reuse) { W->probes["addr_in_use"]++; errno = EADDRINUSE; return -1; }
  }
  for (auto& t : W->tw)
    if (t.first == key && t.second > W->now) {
      W->probes["bind_in_time_wait"]++;
      if (!s->reuse) { errno = EADDRINUSE; return -1; }
    }
  s->port = port;
  s->bound = 1;
  return 0;
}
API int listen(int fd, int n) {
  if (!CUR) return (int)syscall(SYS_listen, fd, n);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  ev(p, "listen");
  if (int e = sys_fault(p, "listen")) { errno = e; return -1; }
  s->type = 1;
  s->backlog_max = std::max(1, n);
  return 0;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  if (s->type != 1) { errno = EINVAL; return -1; }
  ev(p, "accept");
  maybe_preempt(p);
  if (int e = sys_fault(p, "accept")) { errno = e; return -1; }
  if (s->backlog.empty()) {
    if (s->nonblock) { errno = EAGAIN; return -1; }
    if (!block_until(p, [s] { return !s->backlog.empty(); }, 1, s->rto)) { errno = EAGAIN; return -1; }
  }
  Conn* c = s->backlog.front();
  s->backlog.pop_front();
  Sock* n = new Sock;
  n->fd = W->next_fd++;
  n->p = p;
  n->type = 2;
  n->c = c;
  n->side = 1;
  n->nonblock = flags & SOCK_NONBLOCK;
  c->end[1] = n;
  c->sname = p->spec.name;
  W->fds[n->fd] = n;
  p->socks.push_back(n);
  if (a && l && *l >= sizeof(struct sockaddr_in)) {
    struct sockaddr_in sa;
    memset(&sa, 0, sizeof sa);
    sa.sin_family = AF_INET;
    sa.sin_addr.s_addr = ip_of_host(c->chost);
    sa.sin_port = htons(40000);
    memcpy(a, &sa, sizeof sa);
    *l = sizeof sa;
  }
  ev(p, "accepted", c->id);
  return n->fd;
}
API int accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (!CUR) return (int)syscall(SYS_accept, fd, a, l);
  return do_accept(fd, a, l, 0);
}
API int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
  if (!CUR) return (int)syscall(SYS_accept4, fd, a, l, fl);
  return do_accept(fd, a, l, fl);
}
API int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!CUR) return (int)syscall(SYS_connect, fd, a, l);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  ev(p, "connect");
  maybe_preempt(p);
  if (int e = sys_fault(p, "connect")) { errno = e; return -1; }
  const struct sockaddr_in* sa = (const struct sockaddr_in*)a;
  std::string h = host_of(p, sa->sin_addr.s_addr);
  int port = ntohs(sa->sin_port);
  Sock* lst = nullptr;
  for (auto& f : W->fds)
    if (f.second->type == 1 && f.second->port == port && f.second->p->spec.host == h) lst = f.second;
  if (!lst || (int)lst->backlog.size() > lst->backlog_max) {
    W->probes["refused"]++;
    errno = ECONNREFUSED;
    return -1;
  }
  if (s->bound && s->port)
    for (auto& t : W->tw)
      if (t.first == p->spec.host + ":" + std::to_string(s->port) && t.second > W->now) { W->probes["bind_in_time_wait"]++; errno = EADDRNOTAVAIL; return -1; }
  Conn* c = new Conn;
  W->conns.emplace_back(c);
  c->id = (int)W->conns.size() - 1;
  c->port = port;
  c->chost = p->spec.host;
  c->shost = h;
  c->cname = p->spec.name;
  c->sname = lst->p->spec.name;
  c->end[0] = s;
  if (s->bound) c->cport = s->port;
  s->type = 2;
  s->c = c;
  s->side = 0;
  lst->backlog.push_back(c);
  ev(p, "connected", c->id);
  return 0;
}
API int shutdown(int fd, int how) {
  if (!CUR) return (int)syscall(SYS_shutdown, fd, how);
  Proc* p = CUR;
  Guard g;
  Sock* s = sock_of(fd);
  if (!s || s->p != p) { errno = EBADF; return -1; }
  ev(p, "shutdown", how);
  if (s->type != 2) { errno = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) s->rdshut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) {
    Dir& d = s->c->d[s->side];
    if (!d.wclosed) { d.wclosed = true; push_seg(d, "", 1); }
  }
  return 0;
}
API int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  if (!CUR) return (int)syscall(SYS_getsockname, fd, a, l);
  memset(a, 0, *l);
  return 0;
}
API int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  if (!CUR) return (int)syscall(SYS_getpeername, fd, a, l);
  memset(a, 0, *l);
  return 0;
}
static bool fd_readable(Proc* p, int fd) {
  Sock* s = sock_of(fd);
  if (!s) return true;
  if (s->type == 1) return !s->backlog.empty();
  if (s->type != 2) return true;
  Dir& d = s->c->d[1 - s->side];
  return d.avail() || d.fin || d.rst;
}
static bool fd_writable(Proc* p, int fd) {
  Sock* s = sock_of(fd);
  if (!s || s->type != 2) return true;
  Dir& d = s->c->d[s->side];
  return s->c->d[1 - s->side].rst || d.gone || W->w.cap - d.inflight - (i64)d.avail() > 0;
}
static int do_poll(struct pollfd* f, nfds_t n, i64 timeout_us) {
  Proc* p = CUR;
  Guard g;
  ev(p, "poll");
  maybe_preempt(p);
  if (int e = sys_fault(p, "poll")) { errno = e; return -1; }
  auto scan = [=]() {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      f[i].revents = 0;
      if (f[i].fd < 0) continue;
      if ((f[i].events & POLLIN) && fd_readable(p, f[i].fd)) f[i].revents |= POLLIN;
      if ((f[i].events & POLLOUT) && fd_writable(p, f[i].fd)) f[i].revents |= POLLOUT;
      if (f[i].revents) k++;
    }
    return k;
  };
  if (timeout_us == 0) return scan();
  block_until(p, [=] { return scan() > 0; }, 2, timeout_us);
  return scan();
}
API int poll(struct pollfd* f, nfds_t n, int ms) {
  REAL(poll);
  if (!CUR) return real(f, n, ms);
  return do_poll(f, n, ms < 0 ? -1 : (i64)ms * 1000);
}
API int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) {
  REAL(select);
  if (!CUR) return real(n, r, w, x, t);
  std::vector<struct pollfd> v;
  for (int i = 0; i < n; i++) {
    short e = 0;
    if (r && FD_ISSET(i, r)) e |= POLLIN;
    if (w && FD_ISSET(i, w)) e |= POLLOUT;
    if (e) v.push_back({i, e, 0});
  }
  int k = do_poll(v.data(), v.size(), t ? (i64)t->tv_sec * 1000000 + t->tv_usec : -1);
  if (k < 0) return k;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  int c = 0;
  for (auto& q : v) {
    if (q.revents & POLLIN) { FD_SET(q.fd, r); c++; }
    if (q.revents & POLLOUT) { FD_SET(q.fd, w); c++; }
  }
  return c;
}
API int fcntl(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  if (!CUR || fd < 500) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Guard g;
  Sock* s = sock_of(fd);
  if (!s) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
  return 0;
}
API int fcntl64(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  return fcntl(fd, cmd, arg);
}
API int ioctl(int fd, unsigned long req, ...) {
  va_list a;
  va_start(a, req);
  void* arg = va_arg(a, void*);
  va_end(a);
  if (!CUR || fd < 500) return (int)syscall(SYS_ioctl, fd, req, arg);
  Guard g;
  Sock* s = sock_of(fd);
  if (!s) { errno = EBADF; return -1; }
  if (req == FIONBIO) s->nonblock = *(int*)arg != 0;
  if (req == FIONREAD) *(int*)arg = s->type == 2 ? (int)s->c->d[1 - s->side].avail() : 0;
  return 0;
}
API struct hostent* gethostbyname(const char* name) {
  REAL(gethostbyname);
  if (!CUR) return real(name);
  Proc* p = CUR;
  Guard g;
  ev(p, "dns");
  uint32_t ip;
  if (sys_fault(p, "dns") || !resolve(p, name, &ip)) { h_errno = HOST_NOT_FOUND; return nullptr; }
  strncpy(p->hename, name, sizeof p->hename - 1);
  memcpy(p->headdr, &ip, 4);
  p->helist[0] = p->headdr;
  p->helist[1] = nullptr;
  p->he.h_name = p->hename;
  p->he.h_aliases = p->helist + 1;
  p->he.h_addrtype = AF_INET;
  p->he.h_length = 4;
  p->he.h_addr_list = p->helist;
  return &p->he;
}
API int getaddrinfo(const char* node, const char* svc, const struct addrinfo* hints, struct addrinfo** res) {
  REAL(getaddrinfo);
  if (!CUR) return real(node, svc, hints, res);
  Proc* p = CUR;
  Guard g;
  ev(p, "dns");
  uint32_t ip = INADDR_ANY;
  if (sys_fault(p, "dns") || (node && !resolve(p, node, &ip))) return EAI_NONAME;
  struct Blk { struct addrinfo ai; struct sockaddr_in sa; };
  Blk* b = (Blk*)calloc(1, sizeof(Blk));
  b->sa.sin_family = AF_INET;
  b->sa.sin_addr.s_addr = ip;
  b->sa.sin_port = htons(svc ? atoi(svc) : 0);
  b->ai.ai_family = AF_INET;
  b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = IPPROTO_TCP;
  b->ai.ai_addrlen = sizeof b->sa;
  b->ai.ai_addr = (struct sockaddr*)&b->sa;
  *res = &b->ai;
  return 0;
}
API void freeaddrinfo(struct addrinfo* r) {
  REAL(freeaddrinfo);
  if (!CUR) return real(r);
  free(r);
}

// ================================================================= interposers: time
static i64 wall_us(Proc* p) {
  p->r.clockreads++;
  i64 n = p->r.clockreads - 1;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "clock_jump" && fmatch(f, p) && f.at == n) {
      fault_done(i);
      W->clock_off[p->spec.host] += f.arg;
    }
  }
  i64 ep = W->w.epoch;
  auto it = W->w.host_epoch.find(p->spec.host);
  if (it != W->w.host_epoch.end()) ep = it->second;
  return (ep + W->clock_off[p->spec.host]) * 1000000 + W->now;
}
API time_t time(time_t* t) {
  REAL(time);
  if (!CUR) return real(t);
  Proc* p = CUR;
  Guard g;
  time_t v = wall_us(p) / 1000000;
  if (t) *t = v;
  return v;
}
API int gettimeofday(struct timeval* tv, void* tz) {
  REAL(gettimeofday);
  if (!CUR) return real(tv, tz);
  Proc* p = CUR;
  Guard g;
  i64 v = wall_us(p);
  tv->tv_sec = v / 1000000;
  tv->tv_usec = v % 1000000;
  return 0;
}
API int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!CUR) return (int)syscall(SYS_clock_gettime, c, ts);
  Proc* p = CUR;
  Guard g;
  i64 v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_us(p) : 1000000000 + W->now;
  ts->tv_sec = v / 1000000;
  ts->tv_nsec = v % 1000000 * 1000;
  return 0;
}
API clock_t clock(void) {
  REAL(clock);
  if (!CUR) return real();
  return (clock_t)W->steps;
}
static void sim_sleep(i64 us) {
  Proc* p = CUR;
  Guard g;
  ev(p, "sleep", us);
  step_check(p);
  if (us <= 0) us = 1;
  block_until(p, [] { return false; }, 2, us);
}
API unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!CUR) return real(s);
  sim_sleep((i64)s * 1000000);
  return 0;
}
API int usleep(useconds_t u) {
  REAL(usleep);
  if (!CUR) return real(u);
  sim_sleep(u);
  return 0;
}
API int nanosleep(const struct timespec* t, struct timespec* r) {
  REAL(nanosleep);
  if (!CUR) return real(t, r);
  sim_sleep((i64)t->tv_sec * 1000000 + t->tv_nsec / 1000);
  return 0;
}
API int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) {
  REAL(clock_nanosleep);
  if (!CUR) return real(c, fl, t, r);
  sim_sleep((i64)t->tv_sec * 1000000 + t->tv_nsec / 1000);
  return 0;
}
API int sched_yield(void) {
  REAL(sched_yield);
  if (!CUR) return real();
  Proc* p = CUR;
  Guard g;
  maybe_preempt(p);
  return 0;
}
API pid_t getpid(void) {
  if (!CUR) return (pid_t)syscall(SYS_getpid);
  return 1000 + CUR->idx;
}

// ================================================================= interposers: randomness
API int rand(void) {
  REAL(rand);
  if (!CUR) return real();
  CUR->crnd = CUR->crnd * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)(CUR->crnd >> 33);
}
API void srand(unsigned s) {
  REAL(srand);
  if (!CUR) return real(s);
  CUR->crnd = s;
}
API long random(void) {
  REAL(random);
  if (!CUR) return real();
  return rand();
}
API void srandom(unsigned s) {
  REAL(srandom);
  if (!CUR) return real(s);
  CUR->crnd = s;
}
// the second stream of a process replaces a part of the first
static void second_stream(Proc* p, u8* b, size_t n, i64 draw) {
  const i64 pos = p->r.randb - (i64)n;
  if (p->spec.entropy2)
    for (size_t i = 0; i < n; i++) {
      const u8 v = (u8)(p->os2.next() >> 13);
      if (p->spec.keep_phase >= 0 ? ((pos + (i64)i + p->spec.keep_phase) & 8) != 0 : draw != p->spec.keep_draw) b[i] = v;
    }
  if (n >= 16 && p->r.draws.size() < 12) p->r.draws.push_back(std::to_string(draw) + ":" + std::string((const char*)b, 16));
}
API ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (!CUR) return syscall(SYS_getrandom, b, n, fl);
  Proc* p = CUR;
  Guard g;
  p->r.rands++;
  p->r.randb += (i64)n;
  for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)p->os.next();
  second_stream(p, (u8*)b, n, p->r.rands - 1);
  return (ssize_t)n;
}
API int getentropy(void* b, size_t n) {
  if (!CUR) return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
  getrandom(b, n, 0);
  return 0;
}
API uint32_t arc4random(void) {
  uint32_t v;
  getrandom(&v, 4, 0);
  return v;
}
static int rm_bytes(unsigned char* b, int n) {
  if (!CUR) {
    Rng r((u64)n + 77);
    for (int i = 0; i < n; i++) b[i] = (u8)r.next();
    return 1;
  }
  Proc* p = CUR;
  Guard g;
  i64 k = p->r.rands++;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "rand_fail" && fmatch(f, p) && f.at == k) {
      fault_done(i);
      return 0;
    }
  }
  p->r.randb += n;
  int i = 0;
  while (i < n) {
    u64 v = p->os.next();
    for (int k2 = 0; k2 < 8 && i < n; k2++, i++) b[i] = (u8)(v >> (8 * k2));
  }
  second_stream(p, b, (size_t)n, k);
  return 1;
}
static int rm_status(void) { return 1; }
static RAND_METHOD g_rm = {nullptr, rm_bytes, nullptr, nullptr, rm_bytes, rm_status};

static std::vector<std::string> g_keys;  // DER private keys
static std::vector<std::string> g_moduli, g_privs;
bool pool_key(const std::string& n, std::string* d) {
  for (size_t i = 0; i < g_moduli.size(); i++)
    if (g_moduli[i] == n) { if (d) *d = g_privs[i]; return true; }
  return false;
}
const std::vector<std::string>& pool_moduli() { return g_moduli; }
API int RSA_generate_key_ex(RSA* rsa, int bits, BIGNUM* e, BN_GENCB* cb) {
  REAL(RSA_generate_key_ex);
  if (!CUR || W->w.real_rsa || bits != 1024 || BN_get_word(e) != 65537 || g_keys.empty()) {
    return real(rsa, bits, e, cb);
  }
  unsigned char idx[8];
  if (RAND_bytes(idx, 8) != 1) return 0;
  u64 v;
  memcpy(&v, idx, 8);
  if (CUR->key_base == 0) CUR->key_base = (v % g_keys.size()) + 1;  // a process never meets the same pooled key twice
  v = CUR->key_base - 1 + CUR->key_n++;
  W->probes["pooled_rsa_key"]++;
  const std::string& der = g_keys[v % g_keys.size()];
  const unsigned char* q = (const unsigned char*)der.data();
  RSA* t = d2i_RSAPrivateKey(nullptr, &q, (long)der.size());
  if (!t) return 0;
  const BIGNUM *n, *ee, *d, *pp, *qq, *dp, *dq, *iq;
  RSA_get0_key(t, &n, &ee, &d);
  RSA_get0_factors(t, &pp, &qq);
  RSA_get0_crt_params(t, &dp, &dq, &iq);
  RSA_set0_key(rsa, BN_dup(n), BN_dup(ee), BN_dup(d));
  RSA_set0_factors(rsa, BN_dup(pp), BN_dup(qq));
  RSA_set0_crt_params(rsa, BN_dup(dp), BN_dup(dq), BN_dup(iq));
  RSA_free(t);
  return 1;
}
API int RSA_check_key(const RSA* rsa) {
  REAL(RSA_check_key);
  if (!CUR || W->w.real_rsa || g_keys.empty()) return real(rsa);
  return 1;  // pooled keys were checked when the pool was made
}

// ================================================================= interposers: process end, signals
API void exit(int c) {
  REAL(exit);
  if (!CUR) real(c);
  die(ST_EXIT, c & 0xff);
}
API void _exit(int c) {
  if (!CUR) { syscall(SYS_exit_group, c); __builtin_unreachable(); }
  die(ST_EXIT, c & 0xff);
}
API void quick_exit(int c) { _exit(c); }
API void abort(void) {
  if (!CUR) {
    signal(SIGABRT, SIG_DFL);
    syscall(SYS_tgkill, (int)syscall(SYS_getpid), (int)syscall(SYS_gettid), SIGABRT);
    syscall(SYS_exit_group, 134);
    __builtin_unreachable();
  }
  die(ST_ABORT, 134, "abort");
}
API void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (!CUR) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort(); }
  die(ST_ABORT, 134, std::string("assert ") + e);
}
API sighandler_t signal(int sig, sighandler_t h) {
  REAL(signal);
  if (!CUR) return real(sig, h);
  if (sig == SIGPIPE) {
    CUR->sigpipe = h == SIG_IGN ? 1 : h == SIG_DFL ? 0 : 2;
    CUR->sigpipe_h = h;
  }
  return SIG_DFL;
}
API int sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  REAL(sigaction);
  if (!CUR) return real(sig, a, o);
  if (o) memset(o, 0, sizeof *o);
  if (a && sig == SIGPIPE) signal(sig, a->sa_handler);
  return 0;
}
API int sigprocmask(int how, const sigset_t* s, sigset_t* o) {
  REAL(sigprocmask);
  if (!CUR) return real(how, s, o);
  if (s && sigismember(s, SIGPIPE) && how != SIG_UNBLOCK) CUR->sigpipe = 1;
  return 0;
}
API int raise(int sig) {
  REAL(raise);
  if (!CUR) return real(sig);
  die(ST_SIGNAL, sig, "raise");
}

// ================================================================= interposers: memory
static void fill_mem(Proc* p, void* q, size_t n) {
  switch (p->spec.fill) {
    case 0: memset(q, 0, n); break;
    case 1: memset(q, 0xFF, n); break;
    case 2: memset(q, 0x01, n); break;
    default: {
      u8* b = (u8*)q;
      for (size_t i = 0; i < n; i++) b[i] = (u8)(p->fillr.next() >> 11);
    }
  }
}
static const size_t kMemLimit = 1u << 30;
// The option parser of boost swallows a failed allocation and goes on with a
// truncated option name: not this project's doing, so the fault waits for the
// first allocation outside of it.
static bool inside_boost() {
  void* a[64];
  int n = backtrace(a, 64);
  for (int i = 0; i < n; i++) {
    Dl_info d;
    if (dladdr(a[i], &d) && d.dli_fname && strstr(d.dli_fname, "libboost")) return true;
  }
  return false;
}
static bool alloc_fault(Proc* p, size_t n) {
  i64 k = p->r.allocs++;
  for (size_t i = 0; i < W->w.faults.size(); i++) {
    const Fault& f = W->w.faults[i];
    if (f.kind == "alloc" && fmatch(f, p) && k >= f.at && W->fault_fired[i] < std::max<i64>(1, f.arg)) {
      if (inside_boost()) continue;
      fault_done(i);
      return true;
    }
  }
  if (n > kMemLimit) { W->probes["huge_alloc"]++; return true; }
  return false;
}
static void* sim_alloc(size_t n, bool zero, size_t align) {
  Proc* p = CUR;
  {
    Guard g;
    if (alloc_fault(p, n)) return nullptr;
    scrub_stack(p, 4096);
    void* q = nullptr;
    if (align > 16) { static auto real = (int (*)(void**, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign"); if (real(&q, align, n ? n : 1)) q = nullptr; }
    else q = malloc(n ? n : 1);
    if (q) { if (zero) memset(q, 0, n); else fill_mem(p, q, n); }
    return q;
  }
}
#define NEWAPI __attribute__((visibility("default")))
NEWAPI void* operator new(size_t n) {
  void* q = CUR ? sim_alloc(n, false, 16) : malloc(n ? n : 1);
  if (!q) throw std::bad_alloc();
  return q;
}
NEWAPI void* operator new[](size_t n) {
  void* q = CUR ? sim_alloc(n, false, 16) : malloc(n ? n : 1);
  if (!q) throw std::bad_alloc();
  return q;
}
NEWAPI void* operator new(size_t n, const std::nothrow_t&) noexcept { return CUR ? sim_alloc(n, false, 16) : malloc(n ? n : 1); }
NEWAPI void* operator new[](size_t n, const std::nothrow_t&) noexcept { return CUR ? sim_alloc(n, false, 16) : malloc(n ? n : 1); }
NEWAPI void* operator new(size_t n, std::align_val_t a) {
  void* q = nullptr;
  if (CUR) q = sim_alloc(n, false, std::max<size_t>(32, (size_t)a));
  else q = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
  if (!q) throw std::bad_alloc();
  return q;
}
NEWAPI void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
NEWAPI void operator delete(void* p) noexcept { free(p); }
NEWAPI void operator delete[](void* p) noexcept { free(p); }
NEWAPI void operator delete(void* p, size_t) noexcept { free(p); }
NEWAPI void operator delete[](void* p, size_t) noexcept { free(p); }
NEWAPI void operator delete(void* p, std::align_val_t) noexcept { free(p); }
NEWAPI void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
NEWAPI void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
NEWAPI void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
// the libraries under test are linked with --wrap for these
API void* __wrap_malloc(size_t n) {
  if (!CUR) return malloc(n);
  void* q = sim_alloc(n, false, 16);
  if (!q) errno = ENOMEM;
  return q;
}
API void* __wrap_calloc(size_t a, size_t b) {
  if (!CUR) return calloc(a, b);
  void* q = sim_alloc(a * b, true, 16);
  if (!q) errno = ENOMEM;
  return q;
}
API void* __wrap_realloc(void* o, size_t n) {
  if (!CUR) return realloc(o, n);
  { Proc* p = CUR; Guard g; if (alloc_fault(p, n)) { errno = ENOMEM; return nullptr; } }
  size_t had = o ? malloc_usable_size(o) : 0;
  void* q = realloc(o, n);
  if (q && n > had) { Proc* p = CUR; Guard g; fill_mem(p, (char*)q + had, n - had); }
  return q;
}
API int __wrap_posix_memalign(void** q, size_t al, size_t n) {
  if (!CUR) return posix_memalign(q, al, n);
  void* r = sim_alloc(n, false, std::max<size_t>(32, al));
  if (!r) return ENOMEM;
  *q = r;
  return 0;
}
API void* __wrap_aligned_alloc(size_t al, size_t n) {
  if (!CUR) return aligned_alloc(al, n);
  return sim_alloc(n, false, std::max<size_t>(32, al));
}

// ================================================================= libraries under test
struct Lib { void* h; };
static std::vector<Lib> g_libs[3];

static ssize_t ck_write(void* c, const char* b, size_t n) {
  bool err = c != nullptr;
  if (CUR) { Proc* p = CUR; Guard g; (err ? p->r.err : p->r.out).append(b, n); return (ssize_t)n; }
  return syscall(SYS_write, err ? 2 : 1, b, n);
}

void world_init(const std::string& dir) {
  // RSA key pool (deterministic file made by the build step)
  std::string kf = dir + "/keys.pem";
  if (FILE* f = fopen(kf.c_str(), "r")) {
    while (RSA* r = PEM_read_RSAPrivateKey(f, nullptr, nullptr, nullptr)) {
      unsigned char* b = nullptr;
      int n = i2d_RSAPrivateKey(r, &b);
      g_keys.emplace_back((char*)b, n);
      OPENSSL_free(b);
      const BIGNUM *kn, *ke, *kd;
      RSA_get0_key(r, &kn, &ke, &kd);
      std::string sn(BN_num_bytes(kn), '\0'), sd(BN_num_bytes(kd), '\0');
      BN_bn2bin(kn, (unsigned char*)&sn[0]);
      BN_bn2bin(kd, (unsigned char*)&sd[0]);
      g_moduli.push_back(sn);
      g_privs.push_back(sd);
      RSA_free(r);
    }
    fclose(f);
  }
  if (g_keys.empty()) { fprintf(stderr, "no key pool\n"); exit(3); }
  const char* nm[3] = {"log", "nolog", "dump"};
  for (int v = 0; v < 3; v++)
    for (int i = 0; i < 16; i++) {
      std::string p = dir + "/libsut_" + nm[v] + "_" + std::to_string(i) + ".so";
      if (access(p.c_str(), R_OK)) break;
      void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(3); }
      g_libs[v].push_back({h});
    }
  RAND_set_rand_method(&g_rm);
  std::set_terminate(term_handler);
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // warm up lazily initialised OpenSSL state so that it is not created inside a fiber
  RAND_status();
  BN_CTX* c = BN_CTX_new();
  BIGNUM* b = BN_new();
  BN_rand(b, 64, -1, 0);
  BN_free(b);
  BN_CTX_free(c);
}

// ================================================================= run
static u64 g_tsc = 0;
static struct sigaction g_old_segv;
static void segv_handler(int s, siginfo_t* i, void* u) {
  ucontext_t* x = (ucontext_t*)u;
  unsigned char* p = (unsigned char*)x->uc_mcontext.gregs[REG_RIP];
  if (i->si_code == SI_KERNEL || i->si_addr == nullptr) {
    if ((p[0] == 0x0f && p[1] == 0x31) || (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9)) {
      // the allocator of the sanitizer reads the real clock through the vdso now and then
      static const u64 vdso = getauxval(AT_SYSINFO_EHDR);
      if ((u64)p < vdso || (u64)p >= vdso + 16384) g_tsc += 1000;
      x->uc_mcontext.gregs[REG_RAX] = (long long)(g_tsc & 0xffffffff);
      x->uc_mcontext.gregs[REG_RDX] = (long long)(g_tsc >> 32);
      if (p[1] == 0x01) x->uc_mcontext.gregs[REG_RCX] = 0;
      x->uc_mcontext.gregs[REG_RIP] += p[1] == 0x01 ? 3 : 2;
      return;
    }
  }
  CUR = nullptr;
  if (g_old_segv.sa_flags & SA_SIGINFO) g_old_segv.sa_sigaction(s, i, u);
  else { signal(SIGSEGV, SIG_DFL); }
}

static bool start_proc(Proc* p, int libidx) {
  int v = p->spec.variant;
  if (libidx >= (int)g_libs[v].size()) { fprintf(stderr, "too many processes\n"); _exit(96); }
  void* h = g_libs[v][libidx].h;
  if (p->spec.prog == "drv") {
    p->drvf = (int (*)(DrvSpec*, int, char**))dlsym(h, "drv_run");
    p->drv = p->spec.drv;
  } else {
    p->mainf = (int (*)(int, char**))dlsym(h, ("sut_main_" + p->spec.prog).c_str());
  }
  if (!p->drvf && !p->mainf) { fprintf(stderr, "no entry for %s\n", p->spec.prog.c_str()); _exit(96); }
  p->argv_s.push_back("/w/" + p->spec.prog);
  for (auto& a : p->spec.args) p->argv_s.push_back(a);
  for (auto& a : p->argv_s) p->argv.push_back((char*)a.c_str());
  p->argv.push_back(nullptr);
  p->os = Rng(p->spec.entropy ^ 0x5ca1ab1e);
  p->os2 = Rng(p->spec.entropy2 ^ 0x5ca1ab1e);
  p->fillr = Rng(p->spec.entropy * 31 + p->spec.fill);
  p->guard = Rng(p->spec.entropy * 31 + p->spec.fill * 7 + p->spec.shift + 5).next() << 8;
  p->stack_size = 8 << 20;
  p->stack = (char*)mmap(nullptr, p->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  fill_mem(p, p->stack + p->stack_size - (1 << 18), (1 << 18) - 64);
  for (int k = 0; k < p->spec.shift; k++)
    for (size_t z = 1; z <= 70000; z += z < 64 ? 16 : z / 4) { void* volatile leak = malloc(z); (void)leak; }
  getcontext(&p->ctx);
  p->ctx.uc_stack.ss_sp = p->stack;
  p->ctx.uc_stack.ss_size = p->stack_size - 256 * (size_t)p->spec.shift;
  p->ctx.uc_link = nullptr;
  makecontext(&p->ctx, (void (*)())fiber_main, 0);
  // the sanitizer clears the shadow of this range at every switch: the fiber annotations make that unnecessary
  alignas(4096) static char dummy[4096];
  p->ctx.uc_stack.ss_sp = dummy;
  p->ctx.uc_stack.ss_size = sizeof dummy;
  p->cflags[0] = p->cflags[1] = std::ios_base::dec | std::ios_base::skipws;
  p->state = 1;
  ev(p, "start");
  return true;
}

static bool ended(const std::string& n) {
  for (auto& p : W->procs)
    if (p->spec.name == n) return p->state == 3;
  return true;
}
static bool listening(int port, const std::string& owner) {
  for (auto& f : W->fds)
    if (f.second->type == 1 && f.second->port == port && f.second->p->spec.name == owner) return true;
  return false;
}

static void world_loop() {
  int used[3] = {0, 0, 0};
  auto may_start = [](Proc* p) {
    i64 t = 0;
    for (auto& a : p->spec.after) {
      bool found = false;
      for (auto& q : W->procs)
        if (q->spec.name == a) { found = true; if (q->state != 3) return (i64)-1; t = std::max(t, q->ended_at); }
      (void)found;
    }
    if (p->spec.wait_listen && !listening(p->spec.wait_listen, p->spec.listen_owner) && !ended(p->spec.listen_owner)) {
      // a server that has already accepted someone else no longer matters here
      return (i64)-1;
    }
    if (!p->spec.wait_conn.empty() && !ended(p->spec.wait_conn)) {
      bool found = false;
      for (auto& c : W->conns) if (c->cname == p->spec.wait_conn) found = true;
      if (!found) return (i64)-1;
    }
    return t + p->spec.delay;
  };
  for (;;) {
    deliver_due();
    i64 next = -1;
    auto cand = [&](i64 t) { if (t > W->now && (next < 0 || t < next)) next = t; };
    std::vector<Proc*> run;
    bool all_done = true;
    for (auto& pp : W->procs) {
      Proc* p = pp.get();
      if (p->state == 3) continue;
      if (!p->spec.kill_after.empty()) {
        bool all = true;
        i64 t = 0;
        for (auto& a : p->spec.kill_after)
          for (auto& q : W->procs)
            if (q->spec.name == a) { if (q->state != 3) all = false; else t = std::max(t, q->ended_at); }
        if (all) {
          if (W->now >= t + 5000000) { W->probes["operator_kill"]++; end_proc(p, ST_CRASHED, 9); p->r.what = "killed"; continue; }
          cand(t + 5000000);
        }
      }
      all_done = false;
      if (p->state == 0) {
        i64 t = may_start(p);
        if (t < 0) continue;
        if (t > W->now) { cand(t); continue; }
        run.push_back(p);
        continue;
      }
      if (p->state == 1 || (p->pred && p->pred())) run.push_back(p);
      else if (p->deadline >= 0) {
        if (p->deadline <= W->now) run.push_back(p);
        else cand(p->deadline);
      }
    }
    if (all_done) return;
    if (run.empty()) {
      for (auto& c : W->conns)
        for (int i = 0; i < 2; i++)
          if (!c->d[i].fl.empty()) cand(c->d[i].fl.front().t);
      if (next < 0) {  // nobody can ever move again
        bool any = false;
        for (auto& pp : W->procs) {
          Proc* p = pp.get();
          if (p->state == 2) {
            p->r.what = p->block_kind == 1 ? "waiting for a connection" : "blocked for ever";
            int st = p->block_kind == 1 ? ST_ACCEPT : ST_HUNG;
            ev(p, "stuck", st);
            // the others' view: it stays there; record and drop it from scheduling
            p->state = 3;
            p->r.st = st;
            p->ended_at = W->now;
            any = true;
          }
        }
        if (any) {
          // processes that waited for these to end may start now; their sockets are closed by the operator
          for (auto& pp : W->procs)
            if (pp->r.st == ST_HUNG || pp->r.st == ST_ACCEPT)
              for (Sock* s : std::vector<Sock*>(pp->socks)) close_sock(s);
          continue;
        }
        return;
      }
      W->now = next;
      continue;
    }
    Proc* p = run[W->rng.below(run.size())];
    if (++W->steps > W->w.max_steps + 1000000) return;
    if (p->state == 0) {
      if (!start_proc(p, used[p->spec.variant]++)) return;
    }
    run_fiber(p);
  }
}

// ---- serialisation
struct Out {
  std::string b;
  void i(i64 v) { b.append((char*)&v, 8); }
  void s(const std::string& x) { i((i64)x.size()); b += x; }
};
struct In {
  const char* p; const char* e;
  bool bad = false;
  i64 i() { if (e - p < 8) { bad = true; return 0; } i64 v; memcpy(&v, p, 8); p += 8; return v; }
  std::string s() { i64 n = i(); if (bad || n < 0 || e - p < n) { bad = true; return ""; } std::string r(p, n); p += n; return r; }
};

// A program that computes for 30 s of CPU time without a single call into the simulated system spins. (Not a limit
// on the whole run, which takes longer on a slow machine; that one is 300 s.)
static volatile i64 g_last_steps = -1;
static volatile int g_still = 0, g_ticks = 0;
static void prof_handler(int) {
  const i64 n = W ? (i64)W->steps : -1;
  if (n != g_last_steps) g_last_steps = n, g_still = 0;
  else g_still = g_still + 1;
  g_ticks = g_ticks + 1;
  if (g_still >= 15 || g_ticks >= 150) {
    CUR = nullptr;  // the real calls from here on
    signal(SIGPROF, SIG_DFL);
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, SIGPROF);
    syscall(SYS_tgkill, (int)syscall(SYS_getpid), (int)syscall(SYS_gettid), SIGPROF);
    sigprocmask(SIG_UNBLOCK, &m, nullptr);
  }
}
static void child_main(const WorldSpec& w, int outfd) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = it.it_interval.tv_sec = 2;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = prof_handler;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  setitimer(ITIMER_PROF, &it, nullptr);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = segv_handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  sigaction(SIGSEGV, &sa, &g_old_segv);
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV);

  World world;
  W = &world;
  W->w = w;
  W->rng = Rng(w.sched * 2654435761u + 17);
  W->fault_fired.assign(w.faults.size(), 0);
  for (auto& f : w.files) {
    Inode* i = inode_get(f.first, true);
    size_t o = 0;
    while (o < f.second.size()) {
      ssize_t r = syscall(SYS_pwrite64, i->fd, f.second.data() + o, f.second.size() - o, (off_t)o);
      if (r <= 0) break;
      o += r;
    }
  }
  for (size_t i = 0; i < w.procs.size(); i++) {
    auto* p = new Proc;
    p->spec = w.procs[i];
    p->idx = (int)i;
    p->r.name = p->spec.name;
    W->procs.emplace_back(p);
  }
  real_cout = std::cout.rdbuf(&demux_out);
  real_cerr = std::cerr.rdbuf(&demux_err);
  std::clog.rdbuf(&demux_err);
  cookie_io_functions_t io;
  memset(&io, 0, sizeof io);
  io.write = ck_write;
  FILE* so = fopencookie(nullptr, "w", io);
  FILE* se = fopencookie((void*)1, "w", io);
  setvbuf(so, nullptr, _IONBF, 0);
  setvbuf(se, nullptr, _IONBF, 0);
  FILE* old_err = stderr;
  stdout = so;
  stderr = se;
  SH->phase = 1;
  world_loop();
  SH->phase = 2;
  stderr = old_err;
  std::cout.rdbuf(real_cout);
  std::cerr.rdbuf(real_cerr);

  Out o;
  o.i(0x51u);
  o.i((i64)W->procs.size());
  for (auto& pp : W->procs) {
    ProcResult& r = pp->r;
    for (auto& op : pp->drv.ops) r.drv.push_back({op.status, op.out});
    o.s(r.name); o.i(r.st); o.i(r.code); o.s(r.what); o.s(r.out); o.s(r.err);
    o.i(r.netops); o.i(r.fileops); o.i(r.allocs); o.i(r.sent); o.i(r.rcvd); o.i(r.clockreads); o.i(r.rands); o.i(r.randb);
    o.i((i64)r.draws.size());
    for (auto& d : r.draws) o.s(d);
    o.i((i64)r.drv.size());
    for (auto& d : r.drv) { o.i(d.first); o.s(d.second); }
    W->h.s(r.out);
    W->h.u(r.st * 1000 + r.code);
    for (auto& d : r.drv) { W->h.u(d.first); W->h.s(d.second); }
  }
  o.i((i64)W->conns.size());
  for (auto& c : W->conns) {
    o.s(c->cname); o.s(c->sname); o.s(c->d[0].log); o.s(c->d[1].log);
    o.i(c->d[0].delivered); o.i(c->d[1].delivered);
    W->h.s(c->d[0].log);
    W->h.s(c->d[1].log);
  }
  std::vector<std::pair<std::string, std::string>> fl;
  for (auto& f : W->fs) {
    std::string data = inode_read(f.second.get());
    fl.push_back({f.first, data});
    if (!suffix(f.first, ".log")) { W->h.s(f.first); W->h.s(data); }
  }
  o.i((i64)fl.size());
  for (auto& f : fl) { o.s(f.first); o.s(f.second); }
  o.i((i64)W->h.h); o.i((i64)W->sh.h); o.i(W->now); o.i(W->steps); o.i(W->switches);
  o.i((i64)W->fired.size());
  for (auto& f : W->fired) { o.s(f.first); o.i(f.second); }
  o.i((i64)W->probes.size());
  for (auto& f : W->probes) { o.s(f.first); o.i(f.second); }
  o.s(W->trace);
  size_t off = 0;
  while (off < o.b.size()) {
    ssize_t r = syscall(SYS_write, outfd, o.b.data() + off, o.b.size() - off);
    if (r <= 0) break;
    off += r;
  }
}

static std::string fd_slurp(int fd) {
  std::string s;
  struct stat st;
  if (fstat(fd, &st) == 0) {
    s.resize(st.st_size);
    size_t o = 0;
    while (o < s.size()) {
      ssize_t r = syscall(SYS_pread64, fd, &s[o], s.size() - o, (off_t)o);
      if (r <= 0) break;
      o += r;
    }
    s.resize(o);
  }
  return s;
}

static RunResult run_world_(const WorldSpec& w);
std::vector<std::string> g_world_log;  // one line per world of the current case
RunResult run_world(const WorldSpec& w) {
  RunResult R = run_world_(w);
  std::string s = R.crash + " hash " + std::to_string(R.hash) + " sched " + std::to_string(R.sched_hash) + " us " + std::to_string(R.sim_us) +
                  " steps " + std::to_string(R.steps);
  for (auto& p : R.procs) {
    s += " | " + p.name;
    for (i64 v : {(i64)p.st, (i64)p.code, (i64)p.netops, (i64)p.fileops, (i64)p.allocs, (i64)p.sent, (i64)p.rcvd, (i64)p.clockreads, (i64)p.rands, (i64)p.randb})
      s += " " + std::to_string(v);
  }
  if (w.trace) s += "\n" + R.trace;
  g_world_log.push_back(s);
  return R;
}
static RunResult run_world_(const WorldSpec& w) {
  g_worlds_run++;
  RunResult R;
  int ofd = memfd_create("out", MFD_CLOEXEC), efd = memfd_create("err", MFD_CLOEXEC);
  SH->cur = 0;
  SH->phase = 0;
  memset(SH->what, 0, sizeof SH->what);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(efd, 2);
    child_main(w, ofd);
    syscall(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string out = fd_slurp(ofd), err = fd_slurp(efd);
  close(ofd);
  close(efd);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty()) {
    In in{out.data(), out.data() + out.size()};
    in.i();
    i64 n = in.i();
    for (i64 k = 0; k < n && !in.bad; k++) {
      ProcResult r;
      r.name = in.s(); r.st = (int)in.i(); r.code = (int)in.i(); r.what = in.s(); r.out = in.s(); r.err = in.s();
      r.netops = in.i(); r.fileops = in.i(); r.allocs = in.i(); r.sent = in.i(); r.rcvd = in.i(); r.clockreads = in.i(); r.rands = in.i(); r.randb = in.i();
      i64 m = in.i();
      for (i64 j = 0; j < m && !in.bad; j++) r.draws.push_back(in.s());
      m = in.i();
      for (i64 j = 0; j < m && !in.bad; j++) { int s2 = (int)in.i(); r.drv.push_back({s2, in.s()}); }
      R.procs.push_back(r);
    }
    n = in.i();
    for (i64 k = 0; k < n && !in.bad; k++) {
      ConnResult c;
      c.client = in.s(); c.server = in.s(); c.c2s = in.s(); c.s2c = in.s(); c.c2s_delivered = in.i(); c.s2c_delivered = in.i();
      R.conns.push_back(c);
    }
    n = in.i();
    for (i64 k = 0; k < n && !in.bad; k++) { std::string f = in.s(); R.files[f] = in.s(); }
    R.hash = (u64)in.i(); R.sched_hash = (u64)in.i(); R.sim_us = in.i(); R.steps = in.i(); R.switches = in.i();
    n = in.i();
    for (i64 k = 0; k < n && !in.bad; k++) { std::string f = in.s(); R.fired[f] = in.i(); }
    n = in.i();
    for (i64 k = 0; k < n && !in.bad; k++) { std::string f = in.s(); R.probes[f] = in.i(); }
    R.trace = in.s();
    if (in.bad) { R.harness_error = true; R.crash = "result truncated"; }
    return R;
  }
  // the whole simulated machine went down: memory error in the code under test, CPU spin, or a harness fault
  std::string who = SH->cur ? std::string(SH->what) : "-";
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
    R.crash = "cpu spin in " + who;
  } else {
    size_t q = err.find("ERROR: AddressSanitizer:");
    if (q != std::string::npos) {
      std::string line = err.substr(q + 25, err.find('\n', q) - q - 25);
      std::string kind = line.substr(0, line.find(' '));
      std::string frame;
      // first frame inside the libraries under test
      size_t pos = q;
      while ((pos = err.find("    #", pos)) != std::string::npos) {
        size_t e = err.find('\n', pos);
        std::string l = err.substr(pos, e - pos);
        size_t a = l.find(" in ");
        if (a != std::string::npos && l.find("/sim/") == std::string::npos && l.find("libasan") == std::string::npos &&
            l.find("sanitizer") == std::string::npos && l.find("simrun") == std::string::npos) {
          frame = l.substr(a + 4);
          size_t sp = frame.find(" /");
          if (sp != std::string::npos) frame = frame.substr(0, sp);
          size_t sp2 = frame.find(" (");
          if (sp2 != std::string::npos) frame = frame.substr(0, sp2);
          break;
        }
        pos = e;
      }
      R.crash = "memory error " + kind + " in " + who + " at " + frame;
    } else {
      R.crash = "simulated machine ended with status " + std::to_string(st) + " in " + who;
      R.harness_error = WIFEXITED(st) || who == "-";
    }
  }
  Hash h;
  h.s(R.crash);
  R.hash = h.h;
  R.trace = err.substr(0, 20000);
  return R;
}

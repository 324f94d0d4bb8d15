// Entry points compiled together with the code under test: scripted use of its
// transport and oblivious-transfer interfaces.
#include <openssl/bn.h>
#include <cstdlib>
#include <ctime>
#include "crypto/BN.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include "util/log.h"
#include "util/util.h"
#undef ERROR
#undef INFO
#include "sim.h"

static block mk(const char* p) { block b; memcpy(&b, p, 16); return b; }

static int drv_op(DrvOp& o, int fd) {
  switch (o.kind) {
    case DrvOp::SEND: {
      char* b = new char[o.data.size()];
      memcpy(b, o.data.data(), o.data.size());
      int r = SendData(fd, b, (int)o.data.size());
      delete[] b;
      return r;
    }
    case DrvOp::RECV: {
      char* b = new char[o.len];
      int r = RecvData(fd, b, (int)o.len);
      if (r == SUCCESS) o.out.assign(b, o.len);
      delete[] b;
      return r;
    }
    case DrvOp::SENDBN: {
      BIGNUM* v = BN_new();
      BN_bin2bn((const unsigned char*)o.data.data(), (int)o.data.size(), v);
      int r = SendBN(fd, v);
      BN_free(v);
      return r;
    }
    case DrvOp::RECVBN: {
      BIGNUM* v = BN_new();  // a variable that held another number before
      BN_set_word(v, 0x51a1e5ULL);
      BN_lshift(v, v, 90);
      int r = RecvBN(fd, v);
      if (r == SUCCESS) {
        std::vector<unsigned char> b(BN_num_bytes(v) + 1);
        int n = BN_bn2bin(v, b.data());
        o.out.assign((char*)b.data(), n);
      }
      BN_free(v);
      return r;
    }
    case DrvOp::OTSEND:
    case DrvOp::OTXSEND: {
      block** m = new block*[o.len];
      for (u64 i = 0; i < o.len; i++) {
        m[i] = new block[2];
        for (int j = 0; j < 2; j++) m[i][j] = mk(o.data.data() + i * 32 + j * 16);
      }
      int r = o.kind == DrvOp::OTSEND ? OTSend(m, (uint32_t)o.len, fd)
                                      : OTExtSend(m, (uint32_t)o.len, fd);
      for (u64 i = 0; i < o.len; i++) delete[] m[i];
      delete[] m;
      return r;
    }
    case DrvOp::OTRECV:
    case DrvOp::OTXRECV: {
      bool* s = new bool[o.len];
      for (u64 i = 0; i < o.len; i++) s[i] = o.data[i] != 0;
      block* m = new block[o.len];
      int r = o.kind == DrvOp::OTRECV ? OTRecv(s, (uint32_t)o.len, fd, m)
                                      : OTExtRecv(s, (uint32_t)o.len, fd, m);
      if (r == SUCCESS) o.out.assign((char*)m, 16 * o.len);
      delete[] s;
      delete[] m;
      return r;
    }
  }
  return FAILURE;
}

extern "C" int drv_run(DrvSpec* d, int argc, char** argv) {
  LogInitial(argc, argv);
  HashInit();
  srand(time(0));
  SrandSSE(time(0));
  int fd;
  if (d->server) {
    if ((fd = ServerInit(d->port)) == -1) return FAILURE;
  } else {
    if ((fd = ClientInit(d->ip.c_str(), d->port)) == -1) return FAILURE;
  }
  int ret = SUCCESS;
  for (auto& o : d->ops) {
    o.status = drv_op(o, fd);
    if (o.status != SUCCESS) { ret = FAILURE; break; }
  }
  if (d->server) ServerClose(fd); else ClientClose(fd);
  LogFinish();
  return ret;
}

// R01: random_device.  The real src/random_device.cpp with open, read and close renamed to stand-ins that
// behave in every way POSIX allows (short reads, errors, end of file).
#include <boost/random/random_device.hpp>
#include <boost/config.hpp>
#include <boost/assert.hpp>
#include <boost/detail/workaround.hpp>
#include <boost/system/system_error.hpp>
#include <boost/system/error_code.hpp>
#include <string>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdexcept>
#include <istream>
#include <ostream>
#include "vf_ghost.hpp"
static struct Source { uint64_t pos, calls; int fd; bool failed, opened; } src;
static uint8_t src_byte(uint64_t k) { return (uint8_t)vf_uf64("byte", 1, k, 0, 0, 0); }
static ssize_t vf_read(int fd, void* p, size_t n) {
  vf_assert(fd == src.fd, "the source is read through its own descriptor"); vf_assert(n >= 1 && n <= 4, "never more than the rest of the word is requested");
  vf_assert(!src.failed, "nothing is read after a failure");
  int64_t sz = vf_sin32("read", src.calls, -1, 4); ++src.calls;
  if(!vf_symbolic() && sz > (int64_t)n) sz = n; vf_assume(sz <= (int64_t)n);
  if(sz <= 0) { src.failed = true; if(sz < 0) errno = vf_in32("errno", src.calls, 1, 40); return sz; }
  for(int64_t i = 0; i < 4; ++i) if(i < sz) ((unsigned char*)p)[i] = src_byte(src.pos + i);
  src.pos += sz; return sz;
}
static int vf_open(const char*, int, ...) { int f = vf_sin32("open", 0, -1, 1000); if(f < 0) src.failed = true; else src.opened = true; src.fd = f; return f; }
static int vf_close(int fd) { vf_assert(fd == src.fd, "the descriptor that was opened is closed"); src.opened = false; return 0; }
#define open vf_open
#define read vf_read
#define close vf_close
#include <../src/random_device.cpp>
#undef open
#undef read
#undef close
typedef boost::random::random_device RD;
static void error_spec(RD::impl*, const char*) { vf_assert(src.failed, "an error is raised only when the source failed"); vf_throw_ok(true); boost::throw_exception(std::runtime_error("device")); }
static int errno_cell; static int* errno_spec() { return &errno_cell; }
static void one_word(uint64_t at) {
  src.pos = at; src.calls = 0; src.fd = 7; src.failed = false;
  if(vf_symbolic()) vf_replace("__errno_location", (const void*)errno_spec);
  if(vf_symbolic()) vf_replace("random_device::impl::error\\(", (const void*)error_spec);
  alignas(16) unsigned char ib[sizeof(RD::impl)], db[sizeof(RD)]; RD::impl* im = (RD::impl*)ib; im->fd = 7; RD* d = (RD*)db; *const_cast<RD::impl**>(&d->pimpl) = im;
  if(!vf_symbolic()) {
    new ((void*)&im->path) std::string("dev");
    bool t = false; unsigned v = 0; try { v = (*d)(); } catch(boost::system::system_error&) { t = true; }
    vf_check(t == src.failed, "end of file or a read error raises system_error, nothing else does");
    if(!t) { unsigned w = 0; for(int i = 0; i < 4; ++i) ((unsigned char*)&w)[i] = src_byte(at + i); vf_check(v == w, "the value consists of the next bytes of the source"); }
    ((std::string*)&im->path)->~basic_string(); return;
  }
  unsigned v = (*d)();
  vf_check(!src.failed, "end of file or a read error raises an exception");
  vf_check(src.pos == at + 4, "exactly the bytes of one value are consumed");
  vf_check(v == ((unsigned)src_byte(at) | (unsigned)src_byte(at + 1) << 8 | (unsigned)src_byte(at + 2) << 16 | (unsigned)src_byte(at + 3) << 24), "the value consists of the next bytes of the source, in order");
}
VC(R01, next, "backends=z3-bv,cvc5-bv,z3-int") { one_word(vf_in64("at", 0, 0, 1u << 30)); }
VC(R01, range, "") { vf_check((RD::min)() == 0 && (RD::max)() == ~0u, "every value of the type"); }
// constructors, destructor and generate on the same stand-ins (executed natively: bounded)
VC(R01, device, "native_only bounded search=4") {
  src.pos = 0; src.calls = 0; src.failed = src.opened = false;
  bool t = false;
  try { RD d("some device"); vf_check(src.opened, "the device is open");
    unsigned w[4]; uint64_t n = vf_in64("n", 0, 0, 4); uint64_t k = 0;
    try { d.generate(w, w + n); vf_check(!src.failed && src.pos == 4 * n, "generate consumes the bytes of its words"); for(k = 0; k < n; ++k) for(int i = 0; i < 4; ++i) vf_check(((unsigned char*)&w[k])[i] == src_byte(4 * k + i), "every word consists of bytes of the source"); }
    catch(boost::system::system_error&) { vf_check(src.failed, "an error only when the source failed"); }
  } catch(boost::system::system_error&) { t = true; vf_check(src.failed && !src.opened, "only a device that cannot be opened throws"); }
  vf_check(!src.opened, "the descriptor is closed");
}

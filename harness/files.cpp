// In multi-rank mode every operation on a file of the working directory is a scheduling point.
#include "mpi_shim.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
char fdname[256][32];
const char* watch(const char* p)
{
  if (shim::fd < 0 || shim::bypass_files || !p) return nullptr;
  const char* b = strrchr(p, '/');
  b = b ? b + 1 : p;
  if (strncmp(b, "nlcg", 4)) return nullptr;
  return b;
}
void note(int fd, const char* b) { if (fd >= 0 && fd < 256) { fdname[fd][0] = 0; if (b) strncpy(fdname[fd], b, 31); } }
const char* of(int fd) { return shim::fd >= 0 && !shim::bypass_files && fd >= 0 && fd < 256 && fd != shim::fd && fdname[fd][0] ? fdname[fd] : nullptr; }
template <class F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
FILE* fopen64(const char* p, const char* m)
{
  static auto f = next<FILE* (*)(const char*, const char*)>("fopen64");
  const char* b = watch(p);
  if (b) shim::visible(m[0] == 'r' && !strchr(m, '+') ? "read" : m[0] == 'w' ? "truncate" : "open", b);
  FILE* r = f(p, m);
  if (r && b) note(fileno(r), b);
  return r;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
static int open_(const char* fn, const char* p, int fl, mode_t md)
{
  auto f = next<int (*)(const char*, int, ...)>(fn);
  const char* b = watch(p);
  if (b) shim::visible((fl & O_ACCMODE) == O_RDONLY ? "read" : fl & O_TRUNC ? "truncate" : "open", b);
  int r = f(p, fl, md);
  note(r, b);
  return r;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); return open_("open", p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); return open_("open64", p, fl, m); }
ssize_t write(int fd, const void* b, size_t n)
{
  static auto f = next<ssize_t (*)(int, const void*, size_t)>("write");
  if (auto w = of(fd)) shim::visible("write", w);
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
  static auto f = next<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (auto w = of(fd)) shim::visible("write", w);
  return f(fd, v, n);
}
int remove(const char* p)
{
  static auto f = next<int (*)(const char*)>("remove");
  if (auto b = watch(p)) shim::visible("remove", b);
  return f(p);
}
int unlink(const char* p)
{
  static auto f = next<int (*)(const char*)>("unlink");
  if (auto b = watch(p)) shim::visible("remove", b);
  return f(p);
}
int rename(const char* p, const char* q)
{
  static auto f = next<int (*)(const char*, const char*)>("rename");
  if (auto b = watch(p)) shim::visible("remove", b);
  if (auto b = watch(q)) shim::visible("truncate", b);
  return f(p, q);
}
int truncate(const char* p, off_t n)
{
  static auto f = next<int (*)(const char*, off_t)>("truncate");
  if (auto b = watch(p)) shim::visible("truncate", b);
  return f(p, n);
}
}

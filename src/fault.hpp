// Faults of the disk: the process dies at, or gets an error from, the k-th operation which changes a file.
#ifndef VF_FAULT_HPP
#define VF_FAULT_HPP
#include <cerrno>
#include <cstdio>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace fault {
enum Mode { OFF, COUNT, DIE, FAIL };
struct State {
  volatile int mode; volatile long ops, at, until; volatile int err, torn, fired;
  volatile long progress;       // of the workload, read by the parent after the death
  volatile long bytes;
};
inline State *&shared() { static State *s = nullptr; return s; }
inline State &st() {
  if (!shared()) shared() = static_cast<State *>(mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return *shared();
}
inline void arm(Mode m, long at, long until, int err = ENOSPC, bool torn = false) {
  State &s = st(); s.mode = OFF; s.ops = 0; s.at = at; s.until = until; s.err = err; s.torn = torn; s.fired = 0; s.bytes = 0; s.mode = m;
}
inline void off() { if (shared()) shared()->mode = OFF; }
// true: the operation is to fail
inline bool hit(int fd, const void *b, size_t n) {
  State *s = shared();
  if (!s || s->mode == OFF) return false;
  long k = ++s->ops;
  if (s->mode == COUNT || k < s->at || k > s->until) return false;
  ++s->fired;
  if (s->mode == DIE) {
    if (s->torn && b && n > 4096) syscall(SYS_write, fd, b, n / 4096 * 4096 / 2);
    _exit(77);
  }
  errno = s->err;
  return true;
}
}
extern "C" {
__attribute__((visibility("default"))) ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && fault::hit(fd, b, n)) return -1;
  return syscall(SYS_write, fd, b, n);
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd > 2 && fault::hit(fd, c ? v[c - 1].iov_base : nullptr, c ? v[c - 1].iov_len : 0)) return -1;
  return syscall(SYS_writev, fd, v, c);
}
__attribute__((visibility("default"))) int rename(const char *a, const char *b) {
  if (fault::hit(-1, nullptr, 0)) return -1;
  return (int) syscall(SYS_rename, a, b);
}
__attribute__((visibility("default"))) int unlink(const char *a) {
  if (fault::hit(-1, nullptr, 0)) return -1;
  return (int) syscall(SYS_unlink, a);
}
__attribute__((visibility("default"))) int remove(const char *a) {
  if (fault::hit(-1, nullptr, 0)) return -1;
  int r = (int) syscall(SYS_unlink, a);
  if (r && errno == EISDIR) r = (int) syscall(SYS_rmdir, a);
  return r;
}
}
#endif

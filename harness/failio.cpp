// Linked into the real programs: makes the writing of chosen output files fail.
//
// env VERIF_FAIL="name:mode[:N][;name:mode[:N]...]"   name = last part of the file's path, mode =
//   open   the file cannot be opened for writing (EACCES)
//   full   the device is full after N bytes of this file (ENOSPC)
//   close  everything is written, but closing reports an error (EIO)
// env VERIF_FAIL_LOG=<file>    one line per event: "<name> open-failed|opened|write-failed|close-failed"
//
// C streams (also those of cfitsio) go through fopencookie(); the file descriptors of C++
// file streams are recognised in write()/writev().
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <string>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace {
struct Rule { std::string name, mode; long n; };
struct File { int fd; long limit; bool failClose, reported; std::string name; };

std::vector<Rule> &rules()
{
  static std::vector<Rule> *r = nullptr;
  if (! r) {
    r = new std::vector<Rule>;
    const char *e = getenv("VERIF_FAIL");
    std::string s = e ? e : "";
    while (! s.empty()) {
      size_t k = s.find(';');
      std::string t = s.substr(0, k);
      s = k == std::string::npos ? "" : s.substr(k + 1);
      size_t a = t.find(':');
      if (a == std::string::npos) continue;
      size_t b = t.find(':', a + 1);
      Rule q;
      q.name = t.substr(0, a);
      q.mode = t.substr(a + 1, b == std::string::npos ? b : b - a - 1);
      q.n = b == std::string::npos ? 0 : atol(t.c_str() + b + 1);
      r->push_back(q);
    }
  }
  return *r;
}

void note(const std::string &name, const char *what)
{
  const char *l = getenv("VERIF_FAIL_LOG");
  if (! l) return;
  int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0) return;
  std::string s = name + " " + what + "\n";
  syscall(SYS_write, fd, s.data(), s.size());
  syscall(SYS_close, fd);
}

const Rule *find(const char *path, const char *mode)
{
  if (! strpbrk(mode, "wa+")) return nullptr;
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  for (const Rule &q : rules())
    if (q.name == b) return &q;
  return nullptr;
}

ssize_t cread(void *c, char *buf, size_t n) { return syscall(SYS_read, ((File *)c)->fd, buf, n); }

// how many of n bytes at the present position may be written; notes the failure
size_t allowed(File *f, size_t n)
{
  if (f->limit < 0) return n;
  long pos = syscall(SYS_lseek, f->fd, 0L, SEEK_CUR);
  if (pos + (long)n <= f->limit) return n;
  if (! f->reported) note(f->name, "write-failed");
  f->reported = true;
  return pos < f->limit ? f->limit - pos : 0;
}

ssize_t cwrite(void *c, const char *buf, size_t n)
{
  File *f = (File *)c;
  size_t k = allowed(f, n);
  if (k > 0) {
    ssize_t w = syscall(SYS_write, f->fd, buf, k);
    if (w > 0) return w;
  }
  errno = ENOSPC;
  return 0;
}

int cseek(void *c, off64_t *off, int whence)
{
  long r = syscall(SYS_lseek, ((File *)c)->fd, (long)*off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}

int cclose(void *c)
{
  File *f = (File *)c;
  syscall(SYS_close, f->fd);
  bool bad = f->failClose;
  if (bad) note(f->name, "close-failed");
  delete f;
  if (bad) { errno = EIO; return -1; }
  return 0;
}

std::mutex mtx;
std::vector<File *> streams;      // C++ streams with a rule

typedef FILE *(*FOPEN)(const char *, const char *);

FILE *open_(const char *path, const char *mode, const char *fun, void *ra)
{
  FOPEN real = (FOPEN)dlsym(RTLD_NEXT, fun);
  const Rule *q = find(path, mode);
  if (! q) return real(path, mode);
  if (q->mode == "open") {
    note(q->name, "open-failed");
    errno = EACCES;
    return nullptr;
  }
  FILE *fp = real(path, mode);
  if (! fp) return fp;
  note(q->name, "opened");
  File *f = new File;
  f->name = q->name;
  f->limit = q->mode == "full" ? q->n : -1;
  f->failClose = q->mode == "close";
  f->reported = false;
  // C++ streams use the file descriptor of the FILE behind it: recognised by the caller
  Dl_info di;
  if (dladdr(ra, &di) && di.dli_fname && strstr(di.dli_fname, "libstdc++")) {
    f->fd = fileno(fp);
    std::lock_guard<std::mutex> g(mtx);
    streams.push_back(f);
    return fp;
  }
  f->fd = dup(fileno(fp));
  fclose(fp);
  cookie_io_functions_t io = {cread, cwrite, cseek, cclose};
  return fopencookie(f, mode, io);
}

File *stream(int fd)
{
  std::lock_guard<std::mutex> g(mtx);
  for (File *f : streams)
    if (f->fd == fd) return f;
  return nullptr;
}
}

extern "C" {
__attribute__((visibility("default"), noinline)) FILE *fopen(const char *p, const char *m) { FILE *f = open_(p, m, "fopen", __builtin_return_address(0)); asm volatile(""); return f; }
__attribute__((visibility("default"), noinline)) FILE *fopen64(const char *p, const char *m) { FILE *f = open_(p, m, "fopen64", __builtin_return_address(0)); asm volatile(""); return f; }

__attribute__((visibility("default"))) ssize_t write(int fd, const void *buf, size_t n)
{
  typedef ssize_t (*W)(int, const void *, size_t);
  static W real = (W)dlsym(RTLD_NEXT, "write");
  File *f = stream(fd);
  if (f) {
    size_t k = allowed(f, n);
    if (k == 0 && n > 0) { errno = ENOSPC; return -1; }
    return real(fd, buf, k);
  }
  return real(fd, buf, n);
}

__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec *v, int c)
{
  typedef ssize_t (*W)(int, const struct iovec *, int);
  static W real = (W)dlsym(RTLD_NEXT, "writev");
  File *f = stream(fd);
  if (f) {
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
      ssize_t w = write(fd, v[i].iov_base, v[i].iov_len);
      if (w < 0) return tot > 0 ? tot : -1;
      tot += w;
      if ((size_t)w < v[i].iov_len) break;
    }
    return tot;
  }
  return real(fd, v, c);
}
}

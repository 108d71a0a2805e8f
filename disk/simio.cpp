// Interposes the C library's file calls (the C++ streams of libstdc++ and the C streams of the
// library both end here) and decides, from the plan of the current operation, what the disk does.
#include "simio.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <new>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
bool active = false;
std::string root;
std::vector<sim::Fault> plan;
sim::Totals ref, cur;
unsigned long rng = 1;
struct Fired { long wfail = 0, crash = 0, ofail = 0, cfail = 0, rfail = 0, shortw = 0, shortr = 0, eintr = 0, nomem = 0, libmem = 0, anymem = 0; } fired_;
long wfail_at = -1, rfail_at = -1, crash_at = -1, crashcall = -1, ofail_n = -1, cfail_n = -1;
int werr, rerr, oerr, cerr_;
double cfrac;
bool wonce, ronce, shortw, shortr, eintr;
struct NoMem {                     // which of the requests of a kind fails
  long at = -1;
  bool once = true;
  bool hits(long k) const { return at >= 0 && (once ? k == at : k >= at && k < at + 4); }
} nomem, libmem, anymem;
int  own_memory = 0;               // the simulator's own memory never runs out
struct Own { Own() { ++own_memory; } ~Own() { --own_memory; } };

struct File { std::string path; bool write; };
std::map<int, File> & files() { static std::map<int, File> * m = new std::map<int, File>; return *m; }
std::map<FILE*, int> & streams() { static std::map<FILE*, int> * m = new std::map<FILE*, int>; return *m; }

template <class F> F real(const char * name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name, ...) static auto real_##name = real<__VA_ARGS__>(#name)

unsigned next(unsigned n) {
  rng = rng * 6364136223846793005UL + 1442695040888963407UL;
  return static_cast<unsigned>((rng >> 33) % n);
}

bool inside(const char * path) {
  if (!active || root.empty()) return false;
  if (path[0] != '/') return true;                       // operations run inside the scratch directory
  return std::strncmp(path, root.c_str(), root.size()) == 0;
}

[[noreturn]] void die() { syscall(SYS_exit_group, 99); __builtin_unreachable(); }

void call() {
  if (crashcall >= 0 && cur.calls == crashcall) die();
  cur.calls++;
}

int open_fault() {
  call();
  if (ofail_n >= 0 && cur.opens == ofail_n) { cur.opens++; fired_.ofail++; return oerr; }
  cur.opens++;
  return 0;
}

// how many of n bytes may be written now; 0 and errno set: none
ssize_t write_some(int fd, const char * p, size_t n, bool may_interrupt) {
  REAL(write, ssize_t (*)(int, const void *, size_t));
  if (n == 0) return 0;
  if (eintr && may_interrupt && next(4) == 0) { fired_.eintr++; errno = EINTR; return -1; }
  size_t m = n;
  if (shortw && n > 1 && next(3) != 0) { m = 1 + next(static_cast<unsigned>(std::min<size_t>(n, 100000) - 1)); fired_.shortw++; }
  if (crash_at >= 0 && cur.wbytes + static_cast<long>(m) > crash_at) {
    long k = crash_at - cur.wbytes;
    if (k > 0) { ssize_t r = real_write(fd, p, k); (void)r; }
    die();
  }
  if (wfail_at >= 0 && cur.wbytes + static_cast<long>(m) > wfail_at) {
    long k = wfail_at - cur.wbytes;
    if (k <= 0) {
      fired_.wfail++;
      if (wonce) wfail_at = -1;
      errno = werr;
      return -1;
    }
    m = static_cast<size_t>(k);
  }
  ssize_t r = real_write(fd, p, m);
  if (r > 0) cur.wbytes += r;
  return r;
}

ssize_t read_some(int fd, char * p, size_t n, bool may_interrupt) {
  REAL(read, ssize_t (*)(int, void *, size_t));
  if (n == 0) return 0;
  if (eintr && may_interrupt && next(4) == 0) { fired_.eintr++; errno = EINTR; return -1; }
  size_t m = n;
  if (shortr && n > 1 && next(3) != 0) { m = 1 + next(static_cast<unsigned>(std::min<size_t>(n, 5000) - 1)); fired_.shortr++; }
  if (rfail_at >= 0 && cur.rbytes + static_cast<long>(m) > rfail_at) {
    long k = rfail_at - cur.rbytes;
    if (k <= 0) {
      fired_.rfail++;
      if (ronce) rfail_at = -1;
      errno = rerr;
      return -1;
    }
    m = static_cast<size_t>(k);
  }
  ssize_t r = real_read(fd, p, m);
  if (r > 0) cur.rbytes += r;
  return r;
}

// closing a file: may report failure, in which case part of what was written is lost
int close_fault(int fd, bool writing) {
  call();
  if (!writing) return 0;
  long n = cur.closes++;
  if (cfail_n >= 0 && n == cfail_n) {
    off_t len = lseek(fd, 0, SEEK_END);
    if (len > 0) {
      off_t keep = static_cast<off_t>(len * cfrac);
      if (keep >= len) keep = len - 1;
      if (ftruncate(fd, keep) != 0) std::abort();
    }
    fired_.cfail++;
    return cerr_;
  }
  return 0;
}

// ---- C streams of the library: a FILE over the simulated disk
struct Cookie { int fd; bool writing; };
ssize_t cookie_read(void * c, char * buf, size_t n)  { return read_some(static_cast<Cookie*>(c)->fd, buf, n, false); }
ssize_t cookie_write(void * c, const char * buf, size_t n) {
  size_t done = 0;
  while (done < n) {
    ssize_t r = write_some(static_cast<Cookie*>(c)->fd, buf + done, n - done, false);
    if (r <= 0) break;
    done += r;
  }
  return static_cast<ssize_t>(done);   // fewer than n: an error
}
int cookie_seek(void * c, off64_t * off, int whence) {
  off_t r = lseek(static_cast<Cookie*>(c)->fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int cookie_close(void * c) {
  REAL(close, int (*)(int));
  Cookie * k = static_cast<Cookie*>(c);
  int e = files().count(k->fd) ? close_fault(k->fd, k->writing) : 0;
  files().erase(k->fd);
  real_close(k->fd);
  delete k;
  if (e) { errno = e; return -1; }
  return 0;
}

bool from_libstdcxx(void * addr) {
  Dl_info i;
  return dladdr(addr, &i) && i.dli_fname && std::strstr(i.dli_fname, "libstdc++");
}
bool mode_writes(const char * m) { return m[0] != 'r' || std::strchr(m, '+'); }
} // namespace

void sim::set_root(const std::string & d) { root = d; files(); streams(); }

void sim::begin(const std::vector<Fault> & faults, const Totals & r, unsigned long seed) {
  plan = faults; ref = r; cur = Totals(); rng = seed * 2 + 1; fired_ = Fired();
  for (int i = 0; i < 4; ++i) next(2);
  wfail_at = rfail_at = crash_at = crashcall = ofail_n = cfail_n = -1;
  nomem = libmem = anymem = NoMem();
  wonce = ronce = shortw = shortr = eintr = false;
  for (const Fault & f : plan) {
    if (f.kind == "wfail")          { wfail_at = static_cast<long>(f.at * ref.wbytes); werr = f.err; wonce = f.once; }
    else if (f.kind == "crash")     crash_at = static_cast<long>(f.at * ref.wbytes);
    else if (f.kind == "crashcall") crashcall = static_cast<long>(f.at);
    else if (f.kind == "ofail")     { ofail_n = static_cast<long>(f.at); oerr = f.err; }
    else if (f.kind == "cfail")     { cfail_n = static_cast<long>(f.at); cfrac = f.at - cfail_n; cerr_ = f.err; }
    else if (f.kind == "rfail")     { rfail_at = static_cast<long>(f.at * ref.rbytes); rerr = f.err; ronce = f.once; }
    else if (f.kind == "nomem")     { nomem.at = static_cast<long>(f.at * ref.allocs); nomem.once = f.once; }
    else if (f.kind == "libmem")    { libmem.at = static_cast<long>(f.at * ref.liballocs); libmem.once = f.once; }
    else if (f.kind == "anymem")    { anymem.at = static_cast<long>(f.at * (ref.allocs + ref.liballocs)); anymem.once = f.once; }
    else if (f.kind == "shortw")    shortw = true;
    else if (f.kind == "shortr")    shortr = true;
    else if (f.kind == "eintr")     eintr = true;
  }
  active = true;
}

sim::Totals sim::end() { active = false; return cur; }

std::string sim::fired() {
  std::string s;
  auto add = [&](const char * n, long k) { if (k) { s += (s.empty() ? "" : ","); s += n; s += ':' + std::to_string(k); } };
  add("wfail", fired_.wfail); add("ofail", fired_.ofail); add("cfail", fired_.cfail); add("rfail", fired_.rfail);
  add("shortw", fired_.shortw); add("shortr", fired_.shortr); add("eintr", fired_.eintr); add("nomem", fired_.nomem);
  add("libmem", fired_.libmem); add("anymem", fired_.anymem);
  return s.empty() ? "-" : s;
}

bool sim::harmful() { return fired_.wfail || fired_.ofail || fired_.cfail || fired_.rfail || fired_.nomem || fired_.libmem || fired_.anymem; }
int  sim::open_tracked() { return static_cast<int>(files().size()); }

// ---- memory: every new of the library and of libstdc++ ends here. A request is the library's own when the code that asks is part
// of this program (containers, new); what libstdc++ asks for on its behalf (strings, stream buffers) is counted apart, because
// formatted input and output turn a bad_alloc into the state of a stream.
extern char __executable_start, etext;
static void * take(size_t n, void * caller) {
  if (active && !own_memory) {
    long all = cur.allocs + cur.liballocs;
    bool own = caller >= static_cast<void *>(&__executable_start) && caller < static_cast<void *>(&etext);
    long k = own ? cur.allocs++ : cur.liballocs++;
    if (anymem.hits(all)) { fired_.anymem++; return NULL; }
    if (own && nomem.hits(k)) { fired_.nomem++; return NULL; }
    if (!own && libmem.hits(k)) { fired_.libmem++; return NULL; }
  }
  return std::malloc(n ? n : 1);
}
#define CALLER __builtin_return_address(0)
void * operator new(size_t n)   { void * p = take(n, CALLER); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = take(n, CALLER); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept   { return take(n, CALLER); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n, CALLER); }
void operator delete(void * p) noexcept           { std::free(p); }
void operator delete[](void * p) noexcept         { std::free(p); }
void operator delete(void * p, size_t) noexcept   { std::free(p); }
void operator delete[](void * p, size_t) noexcept { std::free(p); }

extern "C" {

static FILE * do_fopen(const char * path, const char * mode, void * caller) {
  Own own;
  REAL(fopen, FILE * (*)(const char *, const char *));
  if (!inside(path)) return real_fopen(path, mode);
  if (int e = open_fault()) { errno = e; return NULL; }
  if (from_libstdcxx(caller)) {
    FILE * f = real_fopen(path, mode);
    if (f) { files()[fileno(f)] = File{path, mode_writes(mode)}; streams()[f] = fileno(f); }
    return f;
  }
  REAL(close, int (*)(int));
  int flags = mode[0] == 'r' ? (std::strchr(mode, '+') ? O_RDWR : O_RDONLY)
            : (std::strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
  int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags | O_CLOEXEC, 0666));
  if (fd < 0) return NULL;
  Cookie * c = new Cookie{fd, mode_writes(mode)};
  cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
  FILE * f = fopencookie(c, mode, io);
  if (!f) { real_close(fd); delete c; return NULL; }
  files()[fd] = File{path, c->writing};
  return f;
}
FILE * fopen(const char * path, const char * mode)   { return do_fopen(path, mode, __builtin_return_address(0)); }
FILE * fopen64(const char * path, const char * mode) { return do_fopen(path, mode, __builtin_return_address(0)); }

int fclose(FILE * f) {
  REAL(fclose, int (*)(FILE *));
  auto it = streams().find(f);
  if (it == streams().end()) return real_fclose(f);
  int fd = it->second;
  streams().erase(it);
  int e = active ? close_fault(fd, files()[fd].write) : 0;
  files().erase(fd);
  int r = real_fclose(f);
  if (e) { errno = e; return EOF; }
  return r;
}

static int do_open(const char * path, int flags, mode_t mode) {
  if (inside(path) && !(flags & (O_DIRECTORY | O_PATH))) {
    if (int e = open_fault()) { errno = e; return -1; }
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (fd >= 0) { Own own; files()[fd] = File{path, (flags & O_ACCMODE) != O_RDONLY}; }
    return fd;
  }
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open(const char * path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return do_open(path, flags, m);
}
int open64(const char * path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return do_open(path, flags, m);
}
int close(int fd) {
  REAL(close, int (*)(int));
  auto it = files().find(fd);
  if (it == files().end()) return real_close(fd);
  int e = active ? close_fault(fd, it->second.write) : 0;
  files().erase(fd);
  int r = real_close(fd);
  if (e) { errno = e; return -1; }
  return r;
}
ssize_t write(int fd, const void * p, size_t n) {
  REAL(write, ssize_t (*)(int, const void *, size_t));
  if (!active || !files().count(fd)) return real_write(fd, p, n);
  return write_some(fd, static_cast<const char *>(p), n, true);
}
ssize_t writev(int fd, const struct iovec * v, int n) {
  REAL(writev, ssize_t (*)(int, const struct iovec *, int));
  if (!active || !files().count(fd)) return real_writev(fd, v, n);
  ssize_t done = 0;
  for (int i = 0; i < n; ++i) {
    if (v[i].iov_len == 0) continue;
    ssize_t r = write_some(fd, static_cast<const char *>(v[i].iov_base), v[i].iov_len, done == 0);
    if (r < 0) return done ? done : r;
    done += r;
    if (static_cast<size_t>(r) < v[i].iov_len) break;
  }
  return done;
}
ssize_t read(int fd, void * p, size_t n) {
  REAL(read, ssize_t (*)(int, void *, size_t));
  if (!active || !files().count(fd)) return real_read(fd, p, n);
  return read_some(fd, static_cast<char *>(p), n, true);
}
int rename(const char * a, const char * b) {
  REAL(rename, int (*)(const char *, const char *));
  if (inside(a)) call();
  return real_rename(a, b);
}
int unlink(const char * a) {
  REAL(unlink, int (*)(const char *));
  if (inside(a)) call();
  return real_unlink(a);
}
}

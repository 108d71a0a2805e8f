// One simulated machine: a server that forks a fresh process ("life") per block of operations, runs the
// library's real readers, writers, seed file and log code in it over the simulated disk, and reports.
#include "simio.hpp"
#include "formats.hpp"
#include "extra.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
int out_fd = -1;

std::string slurp(const std::string & p, bool & there) {
  int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY));
  there = fd >= 0;
  std::string s;
  if (fd < 0) return s;
  char buf[65536]; long n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s.append(buf, n);
  syscall(SYS_close, fd);
  return s;
}

std::string clean(std::string s) {
  for (char & c : s) if (c == '\n' || c == '\r' || static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) c = ' ';
  if (s.size() > 160) s.resize(160);
  return s;
}
}
void say(const std::string & line) {
  std::string s = line + "\n";
  size_t done = 0;
  while (done < s.size()) {
    long r = syscall(SYS_write, out_fd, s.data() + done, s.size() - done);
    if (r <= 0) _exit(3);
    done += r;
  }
}
std::vector<sim::Fault> parse_faults(std::istringstream & in) {
  int k = 0; in >> k;
  std::vector<sim::Fault> v;
  for (int i = 0; i < k; ++i) {
    std::string t; in >> t;
    for (char & c : t) if (c == ':') c = ' ';
    std::istringstream x(t);
    sim::Fault f; int once = 0;
    x >> f.kind >> f.at >> f.err >> once; f.once = once;
    v.push_back(f);
  }
  return v;
}
// runs body; "OK", "EXC what", or "NONSTD"
std::string guarded(const std::function<void()> & body) {
  try { body(); return "OK"; }
  catch (const std::bad_alloc &) { sim::end(); return "EXC bad_alloc"; }
  catch (const std::exception & e) { sim::end(); return "EXC " + clean(e.what()); }
  catch (...) { sim::end(); return "NONSTD"; }
}

namespace {
void op_write(std::istringstream & in) {
  std::string fmt, name; uint64_t shape, seed, fseed;
  in >> fmt >> shape >> seed >> name >> fseed;
  std::vector<sim::Fault> faults = parse_faults(in);
  Format * f = find_format(fmt);
  std::function<void()> save = [&] { f->write(shape, seed, name); };
  std::function<void(const std::string &)> copy;
  if (fseed % 4 == 1) {                                       // what is saved has itself been loaded
    mkdir("via", 0777);
    if (chdir("via")) _exit(3);
    for (const std::string & file : f->files(name)) unlink(file.c_str());
    sim::begin({}, sim::Totals(), 1);
    guarded([&] { f->write(shape, seed, name); copy = f->loaded(shape, name); });
    sim::end();
    for (const std::string & file : f->files(name)) unlink(file.c_str());
    if (chdir("..")) _exit(3);
    if (copy) save = [&] { copy(name); };
  }
  mkdir("ref", 0777);
  if (chdir("ref")) _exit(3);
  for (const std::string & file : f->files(name)) unlink(file.c_str());   // what a life that ended here left behind
  sim::begin({}, sim::Totals(), 1);
  std::string r = guarded(save);
  sim::Totals t = sim::end();
  if (chdir("..")) _exit(3);
  if (r != "OK") { say("W REFEXC - 0 0 " + r); return; }
  int before = sim::open_tracked();
  sim::begin(faults, t, fseed);
  r = guarded(save);
  sim::end();
  std::string fired = sim::fired();
  bool harm = sim::harmful();
  std::string what = r.substr(0, r.find(' '));
  if (r == "OK") {
    for (const std::string & file : f->files(name)) {
      bool a, b;
      std::string want = slurp("ref/" + file, a), got = slurp(file, b);
      if (!a) continue;
      if (!b) { what = "OKDIFF"; r += " " + file + " does not exist"; break; }
      if (want != got) {
        size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        what = "OKDIFF";
        r += " " + file + ": " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(i);
        break;
      }
    }
  }
  for (const std::string & file : f->files(name)) unlink(("ref/" + file).c_str());
  say("W " + what + " " + fired + " " + (harm ? "1" : "0") + " " + std::to_string(sim::open_tracked() - before) + " " + clean(r));
}

void op_read(std::istringstream & in) {
  std::string fmt, name; uint64_t fseed, rshape; int nc;
  in >> fmt >> name >> rshape >> fseed >> nc;
  std::vector<std::pair<uint64_t, uint64_t>> cand(nc);
  for (auto & c : cand) in >> c.first >> c.second;
  std::vector<sim::Fault> faults = parse_faults(in);
  Format * f = find_format(fmt);
  reuse = fseed % 3 == 1 ? fseed : 0;
  std::vector<Dump> want(nc);
  for (int i = 0; i < nc; ++i) f->expect(cand[i].first, cand[i].second, name, want[i]);
  auto once = [&](const std::vector<sim::Fault> & fl, const sim::Totals & ref, sim::Totals & tot, const char * tag) {
    Dump got;
    int before = sim::open_tracked();
    std::function<void()> load = [&] { f->read(rshape, name, got); };
    sim::begin(fl, ref, fseed);
    std::string r = guarded(load);
    tot = sim::end();
    std::string fired = sim::fired();
    bool harm = sim::harmful();
    std::string what = r.substr(0, r.find(' '));
    std::string list = "-";
    if (r == "OK") {
      what = "GOT"; list = "";
      for (int i = 0; i < nc; ++i) {
        std::string c = compare(*f, want[i], got);
        list += (i ? "," : "") + c.substr(0, c.find(' '));
        r = c;
      }
      if (nc == 0) list = "-";
    }
    say(std::string("R") + tag + " " + what + " " + list + " " + fired + " " + (harm ? "1" : "0") + " " + std::to_string(sim::open_tracked() - before) + " " + clean(r));
  };
  sim::Totals t, t2;
  once({}, sim::Totals(), t, "0");
  if (!faults.empty()) { say("b"); once(faults, t, t2, "1"); }
}

// what happens to the files behind the library's back
void op_outside(const std::string & k, std::istringstream & in) {
  std::string file; in >> file;
  if (k == "T") {                                             // the tail is lost
    double keep; in >> keep;
    bool there; std::string s = slurp(file, there);
    if (there) { if (truncate(file.c_str(), static_cast<off_t>(s.size() * keep))) _exit(3); }
    say(std::string("T ") + (there ? "OK" : "NONE") + " - 0 0 -");
  }
  else if (k == "D") { bool there; slurp(file, there); if (there) unlink(file.c_str()); say(std::string("D ") + (there ? "OK" : "NONE") + " - 0 0 -"); }
  else {                                                      // somebody puts a file there
    std::string content; in >> content;
    for (char & c : content) if (c == '$') c = '\n'; else if (c == '_') c = ' ';
    if (content == "<empty>") content = "";
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666));
    if (syscall(SYS_write, fd, content.data(), content.size()) < 0) _exit(3);
    syscall(SYS_close, fd);
    say("F OK - 0 0 -");
  }
}

int life(const std::vector<std::string> & ops) {
  rlimit rl; rl.rlim_cur = 6; rl.rlim_max = 8; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  int null = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR));
  dup2(null, 2);
  if (!ops.empty() && ops[0][0] == 'L') {                        // the screen of a life that logs
    int scr = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "screen", O_WRONLY | O_CREAT | O_TRUNC, 0666));
    dup2(scr, 1);
  }
  else dup2(null, 1);
  for (const std::string & o : ops) {
    std::istringstream in(o);
    std::string k; in >> k;
    say("B");
    if (k == "W") op_write(in);
    else if (k == "R") op_read(in);
    else if (k == "T" || k == "D" || k == "F") op_outside(k, in);
    else extra_op(k, in);
  }
  say("Z");
  return 0;
}

long rss_mb(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  long a = 0, b = 0; f >> a >> b;
  return b / 256;
}
} // namespace

int main(int argc, char ** argv) {
  if (argc > 1 && std::string(argv[1]) == "formats") { for (auto & n : format_names()) { Format * f = find_format(n); std::printf("%s %d %d\n", n.c_str(), f->prefix_ok, f->tail_ok); } return 0; }
  std::string dir, line;
  { std::ostringstream o; o << 1.5 << ' ' << 7 << ' ' << true; std::istringstream i(o.str()); double d; int k; i >> d >> k; }   // what the C++ library sets up once
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string k; in >> k;
    if (k == "DIR") { in >> dir; if (chdir(dir.c_str())) return 2; sim::set_root(dir); continue; }
    if (k != "LIFE") return 2;
    int n; in >> n;
    std::vector<std::string> ops(n);
    for (auto & o : ops) std::getline(std::cin, o);
    int p[2];
    if (pipe(p)) return 2;
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) { syscall(SYS_close, p[0]); out_fd = p[1]; int rc = life(ops); syscall(SYS_exit_group, rc); }
    syscall(SYS_close, p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    std::string got; bool run_away = false; int idle = 0;
    for (;;) {
      char buf[65536];
      long r = syscall(SYS_read, p[0], buf, sizeof buf);
      if (r > 0) { got.append(buf, r); continue; }
      if (r == 0) break;
      usleep(idle < 50 ? 200 : 2000); ++idle;
      if (idle % 20 == 0 && rss_mb(pid) > 1500) { run_away = true; kill(pid, SIGKILL); }
    }
    syscall(SYS_close, p[0]);
    int st = 0; waitpid(pid, &st, 0);
    std::cout << got << "END " << (WIFEXITED(st) ? WEXITSTATUS(st) : -1) << " " << (WIFSIGNALED(st) ? WTERMSIG(st) : 0) << " " << run_away << "\n";
    std::cout.flush();
  }
  return 0;
}

// The seed file (NRLib::Random) and the log (NRLib::LogKit) over the simulated disk.
#include "extra.hpp"
#include "../core/ref_rng.cpp"       // independent model of the generator
#include <nrlib/random/random.hpp>
#include <nrlib/random/randomgenerator.hpp>
#include <nrlib/iotools/logkit.hpp>
#include <nrlib/iotools/logstream.hpp>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <sys/syscall.h>
#include <unistd.h>
using namespace NRLib;

namespace {
// where the generator may be: one place, or several after checkpoints that failed (a failed one may or may not
// have drawn a number)
std::vector<Dsfmt> hyp;
void only(unsigned long s) { hyp.assign(1, Dsfmt()); hyp[0].seed(static_cast<uint32_t>(s)); }
unsigned long start = 0;
std::string seed_file;

std::string raw(const std::string & p) {
  int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY));
  if (fd < 0) return "<none>";
  char buf[4096]; long n = syscall(SYS_read, fd, buf, sizeof buf);
  syscall(SYS_close, fd);
  std::string s(buf, n > 0 ? n : 0);
  for (char & c : s) if (c == '\n') c = '$'; else if (c == ' ') c = '_';
  return s.empty() ? "<empty>" : s;
}
std::string text(unsigned long id, long len) {
  std::string s = "m" + std::to_string(id) + ":";
  if (id % 11 == 0) return "";
  if (id % 5 == 0) s += "100% %s %d\n\t";
  while (static_cast<long>(s.size()) < len - 1) s += static_cast<char>('a' + (id + s.size()) % 26);
  return id % 3 == 0 ? s : s + "\n";
}
std::map<std::string, LogStream *> & added() { static std::map<std::string, LogStream *> m; return m; }
std::vector<int> ints(std::istringstream & in) { int n; in >> n; std::vector<int> v(n); for (int & x : v) in >> x; return v; }
}

void extra_op(const std::string & k, std::istringstream & in) {
  if (k == "K") syscall(SYS_exit_group, 98);                 // the machine stops between two operations
  unsigned long fseed = 0; long wb = 0, rb = 0;
  in >> fseed >> wb >> rb;
  std::vector<sim::Fault> faults = parse_faults(in);
  sim::Totals t; t.wbytes = wb; t.rbytes = rb; t.allocs = t.liballocs = 20;
  int before = sim::open_tracked();
  std::string name, info = "-", r;
  auto run = [&](const std::function<void()> & f) {
    sim::begin(faults, t, fseed); r = guarded(f); sim::end();
  };

  // ---- seed file
  if (k == "SX") {
    unsigned long s; in >> s;
    run([&] { Random::Initialize(s); });
    only(s); start = s;
    info = Random::GetStartSeed() == start ? "same" : "other:" + std::to_string(Random::GetStartSeed());
  }
  else if (k == "SI") {
    in >> name;
    std::string content = raw(name);
    run([&] { Random::Initialize(name); });
    if (r == "OK") {
      info = std::to_string(Random::GetStartSeed());
      start = Random::GetStartSeed(); only(start); seed_file = name;
    }
    else if (!hyp.empty()) info = Random::GetStartSeed() == start ? "same" : "other:" + std::to_string(Random::GetStartSeed());
    info += " " + content;
  }
  else if (k == "SD") {
    int n; in >> n;
    if (hyp.empty()) { say("S OK - 0 0 -"); return; }
    run([&] {
      std::vector<char> fits(hyp.size(), 1);
      static RandomGenerator other(4711); static Dsfmt model; static bool fresh = true;      // a stream of its own, which must not disturb
      if (fresh) { model.seed(4711); fresh = false; }
      bool own = true;
      unsigned kind = static_cast<unsigned>(n) * 2654435761u;
      for (int i = 0; i < n; ++i) {
        kind = kind * 1664525u + 1013904223u;
        int what = (kind >> 24) % 4;
        if ((kind >> 16) % 8 == 0)
          own = own && (what == 0 ? other.Unif01() == model.unif() : what == 1 ? other.Norm01() == model.norm() : what == 2 ? other.Unif01Open() == model.open() : static_cast<uint32_t>(other.DrawUint32()) == model.u32());
        uint32_t gu = 0; double gd = 0;
        if (what == 3) gu = static_cast<uint32_t>(Random::DrawUint32());
        else gd = what == 0 ? Random::Unif01() : what == 1 ? Random::Norm01() : Random::Unif01Open();
        for (size_t j = 0; j < hyp.size(); ++j)
          if (what == 3 ? gu != hyp[j].u32() : gd != (what == 0 ? hyp[j].unif() : what == 1 ? hyp[j].norm() : hyp[j].open())) fits[j] = 0;
      }
      if (!own) fits.assign(fits.size(), 0);
      std::vector<Dsfmt> left;
      for (size_t j = 0; j < hyp.size(); ++j) if (fits[j]) left.push_back(hyp[j]);
      info = left.empty() ? "other" : "same";
      if (!left.empty()) hyp = left;
    });
  }
  else if (k == "SW") {
    in >> name;
    std::vector<Dsfmt> next = hyp;
    std::vector<uint32_t> v;
    for (Dsfmt & h : next) v.push_back(h.u32());
    if (!seed_file.empty()) for (uint32_t x : v) say("V " + std::to_string(x));
    run([&] { Random::WriteSeedToFile(); });
    if (seed_file.empty()) info = "nofile";
    else {
      std::string c = raw(seed_file);
      info = c;
      if (r == "OK") {
        std::vector<Dsfmt> left;
        for (size_t j = 0; j < next.size(); ++j) if (c == std::to_string(v[j]) + "$") left.push_back(next[j]);
        hyp = left.empty() ? next : left;
      }
      else hyp.insert(hyp.end(), next.begin(), next.end());
    }
  }
  // ---- log
  else if (k == "LF") {
    int kind; in >> name >> kind;
    if (kind == 0) { int lv, inc; in >> lv >> inc; run([&] { LogKit::SetFileLog(name, lv, inc != 0); }); }
    if (kind == 1) { int ig; in >> ig; std::vector<int> v = ints(in); run([&] { LogKit::SetFileLog(name, v, ig != 0); }); }
    if (kind == 2) { int lv, ph, ig; in >> lv >> ph >> ig; run([&] { LogKit::SetFileLog(name, lv, ph, ig != 0); }); }
    if (kind == 3) { int lv; in >> lv; run([&] { LogStream * s = new FileLogStream(name, lv); added()[name] = s; LogKit::AddLogStream(s); }); }
  }
  else if (k == "LR") { in >> name; run([&] { LogKit::RemoveLogStream(added()[name]); }); }
  else if (k == "LS") {
    int kind; in >> kind;
    if (kind == 0) { int lv, inc; in >> lv >> inc; run([&] { LogKit::SetScreenLog(lv, inc != 0); }); }
    else { int ig; in >> ig; std::vector<int> v = ints(in); run([&] { LogKit::SetScreenLog(v, ig != 0); }); }
  }
  else if (k == "LM") {
    int how, level, phase; unsigned long id; long len; in >> how >> level >> phase >> id >> len;
    std::string m = text(id, len);
    run([&] {
      if (how == 0) { if (phase < 0) LogKit::LogMessage(level, m); else LogKit::LogMessage(level, phase, m); }
      else { if (phase < 0) LogKit::LogFormatted(level, "%s", m.c_str()); else LogKit::LogFormatted(level, phase, "%s", m.c_str()); }
    });
  }
  else if (k == "LH") { int level; unsigned long id; in >> level >> id; run([&] { LogKit::WriteHeader("header" + std::to_string(id), static_cast<LogKit::MessageLevels>(level)); }); }
  else if (k == "LP") { int level; in >> level >> name; run([&] { LogKit::SetPrefix(name, level); }); }
  else if (k == "LB") run([&] { LogKit::StartBuffering(); });
  else if (k == "LE") run([&] { LogKit::EndBuffering(); });
  else if (k == "LX") run([&] { LogKit::EndLog(); added().clear(); });
  else if (k == "LN") { int level; in >> level; info = std::to_string(LogKit::GetNMessages(level)); r = "OK"; }
  std::string what = r.substr(0, r.find(' '));
  say(k.substr(0, 1) + " " + what + " " + sim::fired() + " " + (sim::harmful() ? "1" : "0") + " " + std::to_string(sim::open_tracked() - before) + " " + info + " | " + r);
}

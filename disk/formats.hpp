// What the library can save and load: how each kind of object is generated from a (shape, seed) pair,
// written, read back and compared.
#pragma once
#include <cstdint>
#include <map>
#include <functional>
#include <memory>
#include <string>
#include <vector>

struct Item { std::string label; double v = 0; std::string s; double tol = 0; bool text = false; bool soft = false; };  // soft: the last value of a file, which a cut may change
typedef std::vector<Item> Record;
struct Dump {
  Record              head;
  std::vector<Record> records;
  std::vector<Dump>   alts;        // what a shortened file may be read as
  void num(const std::string & l, double v, double tol = 0) { head.push_back(Item{l, v, "", tol, false}); }
  void str(const std::string & l, const std::string & s)    { head.push_back(Item{l, 0, s, 0, true}); }
};
inline Item num(double v, double tol = 0)   { return Item{"", v, "", tol, false}; }
inline Item str(const std::string & s)      { return Item{"", 0, s, 0, true}; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed, uint64_t salt = 0) : s(seed * 0x9E3779B97F4A7C15ULL + salt * 0xD1B54A32D192ED03ULL + 12345) { next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
                    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  long   in(long a, long b) { return a + static_cast<long>(next() % static_cast<uint64_t>(b - a + 1)); }
  bool   one_in(long n)     { return in(1, n) == 1; }
};

extern uint64_t reuse;      // not 0: read into an object that held something else before
struct Format {
  bool prefix_ok = false;   // a shortened file may be read as its leading records (the last of them torn)
  bool exact_prefix = false;// ... and then every one of those records is exact
  bool tail_ok   = false;   // a file cut inside its very last value cannot be recognised as cut
  bool subset_ok = false;   // some of the files may be shortened: some of the records, in order, each of them exact
  int  extra     = 0;       // records a shortened file may have beyond those written (torn end marker)
  bool writes    = true;
  virtual ~Format() {}
  virtual std::vector<std::string> files(const std::string & name) { return {name}; }
  virtual void expect(uint64_t shape, uint64_t seed, const std::string & name, Dump & d) = 0;
  virtual void write(uint64_t shape, uint64_t seed, const std::string & name) = 0;
  virtual void read(uint64_t shape, const std::string & name, Dump & d) = 0;
  // loads the file and gives a function that saves what was loaded under a name; none if there is no such way
  virtual std::function<void(const std::string &)> loaded(uint64_t, const std::string &) { return nullptr; }
};
void more_formats(std::map<std::string, Format *> & m);
Format * find_format(const std::string & name);
std::vector<std::string> format_names();

// "EQ", "PREFIX n/N", "TAIL", or "DIFF text"
std::string compare(const Format & f, const Dump & want, const Dump & got);

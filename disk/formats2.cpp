#include <set>
// More of what the library can save and load: Eclipse grids, XML documents, NORSAR wells, tables, trends,
// other wavelet formats, and what the statistics and variogram parts write.
#include "formats.hpp"
#include <nrlib/eclipsegrid/eclipsegrid.hpp>
#include <nrlib/eclipsegrid/eclipsecarfin.hpp>
#include <nrlib/eclipsegrid/eclipsecarfingroup.hpp>
#include <nrlib/eclipsegrid/eclipsefault.hpp>
#include <nrlib/tinyxml/tinyxml.h>
#include <nrlib/well/norsarwell.hpp>
#include <nrlib/wavelet/wavelet.hpp>
#include <nrlib/pointset/pointset.hpp>
#include <nrlib/iotools/tabularfile.hpp>
#include <nrlib/iotools/fileio.hpp>
#include <nrlib/trend/trendkit.hpp>
#include <nrlib/statistics/nodalkrigingdata2d.hpp>
#include <nrlib/statistics/continuouskrigingdata2d.hpp>
#include <nrlib/variogram/covgrid2d.hpp>
#include <nrlib/variogram/variogram.hpp>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <list>
#include <fstream>
#include <map>
#include <memory>
using namespace NRLib;

namespace {
double dec(Rng & r, long lo, long hi, double unit) { return r.in(lo, hi) / unit; }
long size(Rng & r, long lo, long mid, long hi) {
  if (r.one_in(90)) return r.in(hi, 3 * hi);
  return r.one_in(6) ? r.in(mid, hi) : r.in(lo, mid);
}
std::string txt(double v, int prec) { char b[60]; std::snprintf(b, sizeof b, "%.*f", prec, v); return b; }
// what some other program wrote
void put_file(const std::string & name, const std::string & content) {
  std::ofstream f;
  OpenWrite(f, name, std::ios::out | std::ios::binary);
  f.write(content.data(), content.size());
  f.close();
  if (!f) throw IOError("writing " + name);
}
std::string get_file(const std::string & name) {
  std::ifstream f;
  OpenRead(f, name, std::ios::in | std::ios::binary);
  std::string s;
  char b[4096];
  while (f.read(b, sizeof b) || f.gcount() > 0) s.append(b, f.gcount());
  if (f.bad()) throw IOError("reading " + name);
  return s;
}

// ------------------------------------------------------------------ Eclipse grids
struct EclSpec {
  long ni, nj, nk;
  std::vector<double> coord, zcorn;
  std::vector<int> act;
  std::map<std::string, std::vector<double>> par;
  struct Seg { std::string name; int v[6]; int face; };
  std::vector<Seg> seg;
  struct Fin { std::string name; long v[6], n[3]; int nwmax; std::map<std::string, std::vector<double>> par; };
  std::vector<Fin> fin;
  bool split, three;
};
const char * const PNAMES[] = {"PERMX", "PORO", "NTG", "a_Parameter", "SATNUM"};
// what is written but can not be read by the library itself
struct Groups {
  struct Nnc { int v[6]; double t; };
  struct Mul { int v[6], face; double m; };
  std::vector<Nnc> nnc; std::vector<Mul> mul; std::vector<std::vector<std::string>> am;
  Groups() {}
  Groups(const EclSpec & s, uint64_t seed) {
    Rng b(seed, 33);
    for (long k = b.in(0, 2); k > 0; --k) { am.push_back(std::vector<std::string>()); if (!s.fin.empty()) am.back().push_back(s.fin[0].name); }
    for (long k = b.in(0, 3); k > 0; --k) { Nnc n; for (int & v : n.v) v = b.in(1, 9); n.t = dec(b, 0, 99999, 1e4); nnc.push_back(n); }
    for (long k = b.in(0, 3); k > 0; --k) { Mul n; for (int & v : n.v) v = b.in(2, 9); n.face = b.in(0, 5); n.m = dec(b, 0, 99999, 1e4); mul.push_back(n); }
  }
  void fill(Dump & d) const {
    Record r;
    for (auto & n : nnc) { r.clear(); r.push_back(str("EDITNNC")); for (int v : n.v) r.push_back(num(v)); r.push_back(num(n.t, 1e-6)); d.records.push_back(r); }
    for (auto & n : mul) {
      r.clear(); r.push_back(str("MULTIPLY"));
      r.push_back(str(n.face < 2 ? "'TRANX'" : n.face < 4 ? "'TRANY'" : "'TRANZ'")); r.push_back(num(n.m, 1e-6));
      for (int c = 0; c < 3; ++c) for (int k = 0; k < 2; ++k) r.push_back(num(n.v[2 * c] - (n.face == 2 * c + 1 ? 1 : 0)));
      d.records.push_back(r);
    }
    for (auto & n : am) { r.clear(); r.push_back(str("AMALGAM")); for (auto & x : n) r.push_back(str("'" + x + "'")); d.records.push_back(r); }
  }
  static void parse(const std::string & t, Dump & d) {
    std::istringstream in(t); in.exceptions(std::ios::badbit);
    std::string l, section; Record r;
    while (std::getline(in, l)) {
      if (l.compare(0, 2, "--") == 0) continue;
      std::istringstream w(l); w.exceptions(std::ios::badbit); std::string x;
      while (w >> x) {
        if (section.empty()) { if (x == "EDITNNC" || x == "MULTIPLY" || x == "AMALGAM") { section = x; r.assign(1, str(x)); } }
        else if (x == "/") {
          if (r.size() == 1 && !(section == "AMALGAM" && l.size() > 2)) section.clear(); else { d.records.push_back(r); r.assign(1, str(section)); }
        }
        else if (x[0] == '\'') r.push_back(str(x));
        else r.push_back(num(atof(x.c_str())));
      }
    }
    if (!section.empty()) throw FileFormatError("section " + section + " has no end");
    auto rank = [](const Record & q) { return q[0].s == "EDITNNC" ? 0 : q[0].s == "MULTIPLY" ? 1 : 2; };
    std::stable_sort(d.records.begin(), d.records.end(), [&](const Record & x, const Record & y) { return rank(x) < rank(y); });
  }
};
struct Eclipse : Format {
  bool group;                          // with what can be written but not read back
  explicit Eclipse(bool g) : group(g) { prefix_ok = true; exact_prefix = true; subset_ok = true; }
  static std::map<std::string, std::vector<double>> params(Rng & a, Rng & b, long n) {
    std::map<std::string, std::vector<double>> m;
    for (const char * p : PNAMES)
      if (a.one_in(3)) {
        bool big = b.one_in(3);
        for (long i = 0; i < n; ++i) m[p].push_back(big && b.one_in(4) ? dec(b, -90000000000000L, 90000000000000L, 1e5) : dec(b, -900000, 900000, 1e5));
      }
    return m;
  }
  EclSpec make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 31), b(seed, 32);
    EclSpec s;
    s.split = shape & 1; s.three = shape & 2;
    s.ni = size(a, 1, 4, 9); s.nj = size(a, 1, 4, 9); s.nk = size(a, 1, 4, 9);
    for (long j = 0; j <= s.nj; ++j)
      for (long i = 0; i <= s.ni; ++i) {
        double x = 100 * i + dec(b, -20000, 20000, 1e3), y = 100 * j + dec(b, -20000, 20000, 1e3);
        for (double v : {x, y, dec(b, 1000000, 1100000, 1e3), x + dec(b, -9000, 9000, 1e3), y + dec(b, -9000, 9000, 1e3), dec(b, 2000000, 2100000, 1e3)}) s.coord.push_back(v);
      }
    for (long k = 0; k < 8 * s.ni * s.nj * s.nk; ++k) s.zcorn.push_back(dec(b, 1000000, 2100000, 1e3));
    for (long k = 0; k < s.ni * s.nj * s.nk; ++k) s.act.push_back(b.one_in(5) ? 0 : 1);
    s.act[b.in(0, s.act.size() - 1)] = 1;
    s.par = params(a, b, s.act.size());
    long nf = a.in(0, 3);
    for (long f = 0; f < nf; ++f) {
      long ns = b.in(1, 4);
      for (long k = 0; k < ns; ++k) {
        EclSpec::Seg g; g.name = "F" + std::to_string(f);
        for (int c = 0; c < 3; ++c) { long n = c == 0 ? s.ni : c == 1 ? s.nj : s.nk; g.v[2 * c] = b.in(0, n - 1); g.v[2 * c + 1] = b.in(g.v[2 * c], n - 1); }
        g.face = b.in(0, 5);
        s.seg.push_back(g);
      }
    }
    long nr = a.in(0, 2);
    for (long f = 0; f < nr; ++f) {
      EclSpec::Fin g; g.name = "LGR" + std::to_string(f); g.nwmax = b.one_in(2) ? -1 : b.in(0, 9);
      for (int c = 0; c < 3; ++c) {
        long n = c == 0 ? s.ni : c == 1 ? s.nj : s.nk;
        g.v[2 * c] = a.in(0, n - 1); g.v[2 * c + 1] = a.in(g.v[2 * c], std::min(n - 1, g.v[2 * c] + 1));
        g.n[c] = (g.v[2 * c + 1] - g.v[2 * c] + 1) * a.in(1, 2);
      }
      g.par = params(a, b, g.n[0] * g.n[1] * g.n[2]);
      s.fin.push_back(g);
    }
    return s;
  }
  static void fill_params(EclipseGrid & g, const std::map<std::string, std::vector<double>> & m) {
    for (auto & p : m) {
      Grid<double> v(g.GetNI(), g.GetNJ(), g.GetNK());
      for (size_t i = 0; i < p.second.size(); ++i) v(i) = p.second[i];
      g.AddParameter(p.first, v);
    }
  }
  std::vector<std::string> names(uint64_t shape, const std::string & n) {
    std::vector<std::string> v(1, n);
    if (shape & 1) { v.push_back(n + "_par"); if (shape & 2) v.push_back(n + "_rest"); }
    return v;
  }
  std::vector<std::string> files(const std::string & n) override { return {n, n + "_par", n + "_rest"}; }
  static std::vector<Item> nums(const std::vector<double> & v, double tol) { std::vector<Item> r; for (double x : v) r.push_back(num(x, tol)); return r; }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    EclSpec s = make(shape, seed);
    Record r;
    if (group) { Groups q(s, seed); q.fill(d); return; }
    r.push_back(num(s.ni)); r.push_back(num(s.nj)); r.push_back(num(s.nk)); d.records.push_back(r);
    d.records.push_back(nums(s.coord, 1e-6));
    d.records.push_back(nums(s.zcorn, 1e-6));
    r.clear();
    for (int v : s.act) r.push_back(num(v));
    for (long j = 0; j <= s.nj; ++j)
      for (long i = 0; i <= s.ni; ++i) {
        bool on = false;
        for (long jj = j - 1; jj <= j; ++jj)
          for (long ii = i - 1; ii <= i; ++ii)
            if (ii >= 0 && jj >= 0 && ii < s.ni && jj < s.nj)
              for (long k = 0; k < s.nk; ++k) on = on || s.act[ii + s.ni * (jj + s.nj * k)];
        r.push_back(num(on));
      }
    d.records.push_back(r);
    for (auto & p : s.par) { r = nums(p.second, 1e-4); r.insert(r.begin(), str(p.first)); d.records.push_back(r); }
    if (!s.seg.empty()) {
      r.clear();
      for (auto & g : s.seg) { r.push_back(str(g.name)); for (int v : g.v) r.push_back(num(v)); r.push_back(num(g.face)); }
      d.records.push_back(r);
    }
    for (auto & f : s.fin) {
      r.clear();
      r.push_back(str(f.name)); for (long v : f.v) r.push_back(num(v)); for (long v : f.n) r.push_back(num(v));
      for (auto & p : f.par) { r.push_back(str(p.first)); for (double v : p.second) r.push_back(num(v, 1e-4)); }
      d.records.push_back(r);
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    EclSpec s = make(shape, seed);
    EclipseGrid g(s.ni, s.nj, s.nk);
    for (long j = 0, c = 0; j <= s.nj; ++j)
      for (long i = 0; i <= s.ni; ++i, c += 6)
        g.SetPillar(i, j, Line(Point(s.coord[c], s.coord[c + 1], s.coord[c + 2]), Point(s.coord[c + 3], s.coord[c + 4], s.coord[c + 5]), true, true));
    size_t c = 0;                                // the order of the format: x fastest, two values per cell and direction
    for (long k = 0; k < s.nk; ++k) for (int kk = 0; kk < 2; ++kk)
      for (long j = 0; j < s.nj; ++j) for (int jj = 0; jj < 2; ++jj)
        for (long i = 0; i < s.ni; ++i) for (int ii = 0; ii < 2; ++ii) g.SetZCorner(i, j, k, ii, jj, kk, s.zcorn[c++]);
    for (size_t i = 0; i < s.act.size(); ++i) g.SetActive(i, s.act[i] != 0);
    fill_params(g, s.par);
    std::map<std::string, EclipseFault> fl;
    for (auto & q : s.seg) {
      EclipseFault::Segment x; x.i_from = q.v[0]; x.i_to = q.v[1]; x.j_from = q.v[2]; x.j_to = q.v[3]; x.k_from = q.v[4]; x.k_to = q.v[5];
      x.face = static_cast<Face>(q.face);
      fl[q.name].SetName(q.name); fl[q.name].AddSegment(x);
    }
    for (auto & f : fl) g.AddFault(f.second);
    for (auto & q : s.fin) {
      EclipseGrid sub(q.n[0], q.n[1], q.n[2]);
      fill_params(sub, q.par);
      g.AddGridRefinement(EclipseCarFin(q.name, sub, g, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.nwmax));
    }
    if (group) {
      Groups q(s, seed);
      for (auto & x : q.am) {
        EclipseCarFinGroup gr("G");
        if (!x.empty()) gr.AddCarFin(*g.RefinementsBegin());
        g.AddRefinementGroup(gr);
      }
      for (auto & x : q.nnc) g.AddEditNNC(EclipseEditNNC(x.v[0], x.v[1], x.v[2], x.v[3], x.v[4], x.v[5], x.t));
      for (auto & x : q.mul) { Face f = static_cast<Face>(x.face); g.AddTransMult(EclipseTransMult(x.v[0], x.v[1], x.v[2], x.v[3], x.v[4], x.v[5], x.m, f)); }
    }
    if (!s.split) g.WriteToFile(n, true);
    else {
      std::vector<std::list<std::string>> kw(2);
      kw[0] = {"SPECGRID", "COORD", "ZCORN", "ACTNUM"};
      if (s.three) {
        for (auto & p : s.par) kw[1].push_back(p.first);
        kw[1].push_back("FAULTS");
        kw.resize(3);
      }
      g.WriteToFiles(names(shape, n), kw);
    }
    g.ClearRefinementGroups();
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    if (group) { std::string t; for (auto & f : names(shape, n)) t += get_file(f); Groups::parse(t, d); return; }
    std::unique_ptr<EclipseGrid> gp;
    if (shape & 1) gp.reset(new EclipseGrid(names(shape, n))); else gp.reset(new EclipseGrid(n));
    const EclipseGrid & g = *gp;
    Record r;
    std::vector<Record> all;
    size_t upto = 0;                             // the last section that is not as it was before reading
    auto add = [&](bool there) { if (there || !(shape & 1)) all.push_back(r); if (there) upto = all.size(); r.clear(); };
    r.push_back(num(g.GetNI())); r.push_back(num(g.GetNJ())); r.push_back(num(g.GetNK()));
    add(g.GetN() > 0);
    bool any = false;
    auto val = [&](double v) { if (v != 0) any = true; r.push_back(num(v)); };
    for (size_t j = 0; j <= g.GetNJ(); ++j)
      for (size_t i = 0; i <= g.GetNI(); ++i) {
        if (g.GetN() == 0) break;
        const Line & l = g.GetPillar(i, j);
        val(l.GetPt1().x); val(l.GetPt1().y); val(l.GetPt1().z); val(l.GetPt2().x); val(l.GetPt2().y); val(l.GetPt2().z);
      }
    add(any); any = false;
    for (size_t k = 0; k < g.GetNK(); ++k) for (int kk = 0; kk < 2; ++kk)
      for (size_t j = 0; j < g.GetNJ(); ++j) for (int jj = 0; jj < 2; ++jj)
        for (size_t i = 0; i < g.GetNI(); ++i) for (int ii = 0; ii < 2; ++ii) val(g.GetZCorner(i, j, k, ii, jj, kk));
    add(any); any = false;
    for (size_t k = 0; k < g.GetNK(); ++k) for (size_t j = 0; j < g.GetNJ(); ++j) for (size_t i = 0; i < g.GetNI(); ++i) val(g.IsActive(i, j, k));
    if (g.GetN() > 0) for (size_t j = 0; j <= g.GetNJ(); ++j) for (size_t i = 0; i <= g.GetNI(); ++i) val(g.IsPillarActive(i, j));
    add(any);
    for (auto p = g.ParametersBegin(); p != g.ParametersEnd(); ++p) {
      r.push_back(str(p->first));
      for (size_t i = 0; i < p->second.GetN(); ++i) r.push_back(num(p->second(i)));
      add(true);
    }
    if (!g.GetFaults().empty()) {
      for (auto & f : g.GetFaults()) for (auto & x : f.second.GetSegments()) {
        r.push_back(str(f.second.GetName()));
        for (int v : {x.i_from, x.i_to, x.j_from, x.j_to, x.k_from, x.k_to}) r.push_back(num(v));
        r.push_back(num(x.face));
      }
      add(true);
    }
    for (auto p = g.RefinementsBegin(); p != g.RefinementsEnd(); ++p) {
      size_t v[6]; (*p)->GetLocation(v[0], v[1], v[2], v[3], v[4], v[5]);
      r.push_back(str((*p)->GetName()));
      for (size_t x : v) r.push_back(num(x));
      size_t q[3]; (*p)->GetRefinements(q[0], q[1], q[2]);
      for (int c = 0; c < 3; ++c) r.push_back(num(q[c] * (v[2 * c + 1] - v[2 * c] + 1)));
      const EclipseGrid & sub = (*p)->GetGrid();
      for (auto w = sub.ParametersBegin(); w != sub.ParametersEnd(); ++w) {
        r.push_back(str(w->first));
        for (size_t i = 0; i < w->second.GetN(); ++i) r.push_back(num(w->second(i)));
      }
      add(true);
    }
    d.records.assign(all.begin(), all.begin() + upto);
  }
  std::function<void(const std::string &)> loaded(uint64_t shape, const std::string & n) override {
    if (group || shape & 1) return nullptr;
    auto g = std::make_shared<EclipseGrid>(n);
    return [g](const std::string & to) { g->WriteToFile(to, true); };
  }
};

// ------------------------------------------------------------------ XML
// written by other programs: with map axes and comments
struct EclipseMap : Format {
  EclipseMap() { prefix_ok = true; exact_prefix = true; }
  struct S { EclSpec e; bool local, map; double ox, oy, th, ex, ey; };
  S make(uint64_t shape, uint64_t seed) {
    Eclipse ec(false);
    Rng a(shape, 54), b(seed, 55);
    S s; s.e = ec.make(shape, seed);
    s.map = !b.one_in(4); s.local = s.map && b.one_in(2);
    s.ox = dec(b, -9999999, 9999999, 1e2); s.oy = dec(b, -9999999, 9999999, 1e2);
    s.th = b.in(0, 310) / 100.0; s.ex = b.in(1, 500); s.ey = b.in(1, 500);
    return s;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    Record r{num(s.e.ni), num(s.e.nj), num(s.e.nk)};
    d.records.push_back(r); r.clear();
    // the directions of the axes as the file states them
    double x3 = at(s.ox + s.ex * std::cos(s.th)) - s.ox, y3 = at(s.oy + s.ex * std::sin(s.th)) - s.oy, len = std::sqrt(x3 * x3 + y3 * y3);
    for (size_t i = 0; i < s.e.coord.size(); i += 3) {
      double x = s.e.coord[i], y = s.e.coord[i + 1];
      if (s.local) { r.push_back(num(s.ox + (x * x3 - y * y3) / len, 1e-5)); r.push_back(num(s.oy + (x * y3 + y * x3) / len, 1e-5)); }
      else { r.push_back(num(x, 1e-6)); r.push_back(num(y, 1e-6)); }
      r.push_back(num(s.e.coord[i + 2], 1e-6));
    }
    d.records.push_back(r); r.clear();
    for (double v : s.e.zcorn) r.push_back(num(v, 1e-6));
    d.records.push_back(r); r.clear();
    for (int v : s.e.act) r.push_back(num(v));
    d.records.push_back(r);
    for (auto & p : s.e.par) { r.assign(1, str(p.first)); for (double v : p.second) r.push_back(num(v, 1e-4)); d.records.push_back(r); }
  }
  static double at(double v) { return atof(txt(v, 6).c_str()); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    Rng b(seed, 56);
    auto note = [&]() { return std::string(b.one_in(3) ? "-- a remark / with a slash and 12 numbers\n" : b.one_in(3) ? "\n" : ""); };
    std::string t;
    if (s.map) {
      t += "MAPUNITS\n" + note() + "'METRES' /\n\nMAPAXES\n" + note();
      t += txt(s.ox - s.ey * std::sin(s.th), 6) + " " + txt(s.oy + s.ey * std::cos(s.th), 6) + " " + txt(s.ox, 6) + " " + txt(s.oy, 6) + "\n" + txt(s.ox + s.ex * std::cos(s.th), 6) + " " + txt(s.oy + s.ex * std::sin(s.th), 6) + "\n" + note() + "/\n\nGRIDUNIT\n" + note();
      t += s.local ? "'METRES' ' ' /\n" : "'METRES' 'MAP ' /\n";
    }
    t += "SPECGRID\n " + std::to_string(s.e.ni) + " " + std::to_string(s.e.nj) + " " + std::to_string(s.e.nk) + " 1 F /\n\n";
    bool big = b.one_in(40);
    auto list = [&](const std::string & k, const std::vector<double> & v, int p) {
      size_t from = t.size();
      t += k + "\n";
      long at = big && b.one_in(3) ? b.in(0, v.size()) : -1;       // much white space, so that the list goes on beyond one million characters
      size_t upto = from + 1000000 + b.in(0, 40);
      for (size_t i = 0; i <= v.size(); ++i) {
        if (static_cast<long>(i) == at && t.size() < upto) { big = false; while (t.size() + 80 < upto) t += std::string(79, ' ') + "\n"; t += std::string(upto - t.size(), ' '); }
        if (i < v.size()) t += txt(v[i], p) + ((i + 1) % 5 ? " " : "\n");
      }
      t += b.one_in(2) ? "/\n" : "\n /\n\n";
    };
    list("COORD", s.e.coord, 3); list("ZCORN", s.e.zcorn, 3);
    list("ACTNUM", std::vector<double>(s.e.act.begin(), s.e.act.end()), 0);
    for (auto & p : s.e.par) list(p.first, p.second, 5);
    put_file(n, t);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    EclipseGrid g(n);
    Record r;
    std::vector<Record> all; size_t upto = 0; bool any = g.GetN() > 0;
    auto add = [&]() { all.push_back(r); if (any) upto = all.size(); r.clear(); any = false; };
    auto val = [&](double v) { if (v != 0) any = true; r.push_back(num(v)); };
    r = {num(g.GetNI()), num(g.GetNJ()), num(g.GetNK())};
    add();
    for (size_t j = 0; g.GetN() > 0 && j <= g.GetNJ(); ++j)
      for (size_t i = 0; i <= g.GetNI(); ++i) {
        const Line & l = g.GetPillar(i, j);
        val(l.GetPt1().x); val(l.GetPt1().y); val(l.GetPt1().z); val(l.GetPt2().x); val(l.GetPt2().y); val(l.GetPt2().z);
      }
    any = false;                                 // pillars that were never read all lie in the origin of the map axes
    for (size_t k = 3; k < r.size(); ++k) any = any || r[k].v != r[k % 3].v;
    add();
    for (size_t k = 0; k < g.GetNK(); ++k) for (int kk = 0; kk < 2; ++kk)
      for (size_t j = 0; j < g.GetNJ(); ++j) for (int jj = 0; jj < 2; ++jj)
        for (size_t i = 0; i < g.GetNI(); ++i) for (int ii = 0; ii < 2; ++ii) val(g.GetZCorner(i, j, k, ii, jj, kk));
    add();
    for (size_t k = 0; k < g.GetNK(); ++k) for (size_t j = 0; j < g.GetNJ(); ++j) for (size_t i = 0; i < g.GetNI(); ++i) val(g.IsActive(i, j, k));
    add();
    for (auto p = g.ParametersBegin(); p != g.ParametersEnd(); ++p) { r.assign(1, str(p->first)); any = true; for (size_t i = 0; i < p->second.GetN(); ++i) r.push_back(num(p->second(i))); add(); }
    d.records.assign(all.begin(), all.begin() + upto);
  }
};

struct Xml : Format {
  Xml() { prefix_ok = true; exact_prefix = true; }
  static std::string text(Rng & b, bool attr) {
    static const char * const W[] = {"word", "a<b", "x&y", "it's", "\"said\"", "1.5e-3", "\xc3\xa6\xc3\xb8\xc3\xa5", "]]", "--", "&amp;", "a>b", "/", "=", "gt;"};
    std::string s;
    for (long k = b.in(1, 4); k > 0; --k) s += (s.empty() ? "" : " ") + std::string(W[b.in(0, 13)]);
    if (b.one_in(30)) s += std::string(b.in(1, 6000), 'z');
    if (attr && b.one_in(8)) return "";
    return s;
  }
  static void grow(Rng & b, TiXmlElement * e, int depth) {
    for (long k = b.in(0, 3); k > 0; --k) { if (b.one_in(3)) e->SetAttribute("n" + std::to_string(k), static_cast<int>(b.in(-99999, 99999))); else e->SetAttribute("a" + std::to_string(k), text(b, true)); }
    long n = depth > 3 ? 0 : b.in(0, 4);
    for (long k = 0; k < n; ++k) {
      TiXmlElement * c = new TiXmlElement("el" + std::to_string(b.in(0, 30)));
      grow(b, c, depth + 1);
      e->LinkEndChild(c);
      if (b.one_in(6)) e->LinkEndChild(new TiXmlComment((" note " + std::to_string(b.in(0, 999)) + " ").c_str()));
    }
    if (n == 0 && b.one_in(2)) {
      TiXmlText * t = new TiXmlText(text(b, false));
      if (b.one_in(5)) t->SetCDATA(true);
      e->LinkEndChild(t);
    }
  }
  static void build(uint64_t, uint64_t seed, TiXmlDocument & doc) {
    Rng b(seed, 35);
    doc.LinkEndChild(new TiXmlDeclaration("1.0", "UTF-8", ""));
    TiXmlElement * e = new TiXmlElement("root");
    grow(b, e, 0);
    if (b.one_in(4)) for (long k = b.in(10, 80); k > 0; --k) { TiXmlElement * c = new TiXmlElement("many"); grow(b, c, 2); e->LinkEndChild(c); }
    doc.LinkEndChild(e);
  }
  static std::string flat(const TiXmlNode * n) {
    std::string s = std::to_string(n->Type()) + "(" + n->Value() + ")";
    if (const TiXmlText * t = n->ToText()) s += t->CDATA() ? "C" : "T";
    if (const TiXmlElement * e = n->ToElement())
      for (const TiXmlAttribute * a = e->FirstAttribute(); a; a = a->Next()) s += std::string("[") + a->Name() + "|" + a->Value() + "]";
    s += "{";
    for (const TiXmlNode * c = n->FirstChild(); c; c = c->NextSibling()) s += flat(c);
    return s + "}";
  }
  static void fill(const TiXmlDocument & doc, Dump & d) {
    for (const TiXmlNode * c = doc.FirstChild(); c; c = c->NextSibling()) d.records.push_back(Record(1, str(flat(c))));
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { TiXmlDocument doc; build(shape, seed, doc); fill(doc, d); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    TiXmlDocument doc;
    build(shape, seed, doc);
    if (!doc.SaveFile(n)) throw IOError("SaveFile says no");
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    TiXmlDocument doc;
    if (reuse) build(0, reuse, doc);
    if (!doc.LoadFile(n)) throw IOError(std::string("LoadFile says no: ") + doc.ErrorDesc());
    if (doc.Error()) throw IOError("LoadFile says yes, but there is an error");
    fill(doc, d);
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto x = std::make_shared<TiXmlDocument>();
    if (!x->LoadFile(n)) return nullptr;
    return [x](const std::string & to) { if (!x->SaveFile(to)) throw IOError("SaveFile says no"); };
  }
};

// ------------------------------------------------------------------ NORSAR wells (main file, track file, log files)
struct Norsar : Format {
  struct Sec { std::vector<std::string> names; int md; std::vector<std::vector<double>> rows; };
  struct S { Sec track; std::vector<Sec> log; double x, y; };
  static Sec section(Rng & a, Rng & b, const std::string & pre, std::vector<double> mds) {
    Sec s;
    long n = a.in(2, 4);
    s.md = a.in(0, n - 2);                       // never last, so that a cut last value is not a depth
    for (long k = 0; k < n; ++k) s.names.push_back(k == s.md ? "MD" : pre + std::to_string(k));
    for (double m : mds) {
      std::vector<double> r;
      for (long k = 0; k < n; ++k) r.push_back(k == s.md ? m : dec(b, 10000, 9999999, 1e4));
      s.rows.push_back(r);
    }
    return s;
  }
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 36), b(seed, 37);
    S s; s.x = dec(b, -999999, 999999, 1e2); s.y = dec(b, -999999, 999999, 1e2);
    long n = size(a, 2, 12, 120);
    std::vector<double> grid; double m = 1000;
    for (long i = 0; i < 2 * n; ++i) { m += dec(b, 10, 999, 1e2); grid.push_back(std::floor(m * 1e4 + .5) / 1e4); }
    auto pick = [&](bool all) { std::vector<double> v; size_t lo = b.in(0, n), hi = b.in(n, 2 * n - 1); for (size_t i = lo; i <= hi; ++i) if (all || !b.one_in(4)) v.push_back(grid[i]); if (v.empty()) v.push_back(grid[0]); return v; };
    s.track = section(a, b, "TR", pick(b.one_in(2)));
    long nl = a.in(0, 2);
    for (long k = 0; k < nl; ++k) s.log.push_back(section(a, b, "LOG" + std::to_string(k) + "_", pick(b.one_in(2))));
    return s;
  }
  std::vector<std::string> files(const std::string & n) override { return {n, n + ".nwt", n + "_0.nwl", n + "_1.nwl"}; }
  static void merged(const S & s, size_t k, Dump & d) {
    d.num("x", s.x, 1e-6); d.num("y", s.y, 1e-6);
    std::vector<const Sec *> secs(1, &s.track);
    for (size_t i = 0; i < k; ++i) secs.push_back(&s.log[i]);
    std::map<double, std::vector<const std::vector<double> *>> at;
    for (size_t q = 0; q < secs.size(); ++q)
      for (auto & r : secs[q]->rows) { auto & v = at[r[secs[q]->md]]; v.resize(secs.size(), NULL); v[q] = &r; }
    for (size_t q = 0; q < secs.size(); ++q)
      for (size_t c = 0; c < secs[q]->names.size(); ++c) {
        bool md = static_cast<int>(c) == secs[q]->md;
        if (md && q) continue;
        Record r; r.push_back(str(secs[q]->names[c]));
        for (auto & p : at) {
          const std::vector<double> * row = p.second[q];
          Item it = num(md ? p.first : row ? (*row)[c] : -999.0, 1e-6);
          it.soft = row && row == &secs[q]->rows.back() && c + 1 == secs[q]->names.size();
          r.push_back(it);
        }
        d.records.push_back(r);
      }
    std::sort(d.records.begin(), d.records.end(), [](const Record & a, const Record & b) { return a[0].s < b[0].s; });
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    merged(s, s.log.size(), d);
    for (size_t k = 0; k < s.log.size(); ++k) { Dump x; merged(s, k, x); d.alts.push_back(x); }
  }
  static std::string table(const Sec & s, int skip) {
    std::string t;
    for (int i = 0; i < skip; ++i) t += "a header line\n";
    for (auto & r : s.rows) { for (size_t c = 0; c < r.size(); ++c) t += (c ? " " : "") + txt(r[c], 4); t += "\n"; }
    return t;
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    Rng b(seed, 63);
    auto more = [&]() { return std::string(b.one_in(5) ? "   a remark" : ""); };
    std::string m = "[Version information]\nVERSION 1000\nFORMAT ASCII\n[Well information]\nMDMIN m 0.0\nMDMAX m 9999.0\nMDMINSTEP m 0.1\nMDMAXSTEP m 10.0\n";
    m += "UTMX m " + txt(s.x, 2) + "\nUTMY m " + txt(s.y, 2) + "\nEKB m 25.0\nUNDEFVAL NONE -999.0\n[Well track data information]\n";
    auto par = [&](const Sec & q) {
      m += "NUMMD " + std::to_string(q.rows.size()) + more() + "\nNUMPAR " + std::to_string(q.names.size()) + more() + "\n";
      for (auto & x : q.names) m += x + " unit" + more() + "\n";
    };
    par(s.track);
    m += "[Well log data information]\n";
    for (size_t k = 0; k < s.log.size(); ++k) { m += "LOGNAME log" + std::to_string(k) + "\nIN_FILE " + n + "_" + std::to_string(k) + ".nwl\n"; par(s.log[k]); }
    put_file(n, m);
    put_file(n + ".nwt", table(s.track, 1));
    for (size_t k = 0; k < s.log.size(); ++k) put_file(n + "_" + std::to_string(k) + ".nwl", table(s.log[k], 2));
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    NorsarWell w(n);
    d.num("x", w.GetXPosOrigin()); d.num("y", w.GetYPosOrigin());
    for (auto & p : w.GetContLog()) {
      Record r; r.push_back(str(p.first));
      for (double v : p.second) r.push_back(num(v));
      d.records.push_back(r);
    }
  }
};

// ------------------------------------------------------------------ tables
struct Table : Format {
  Table() { prefix_ok = true; }
  struct S { std::string head; std::vector<std::vector<double>> rows; };
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 40), b(seed, 41);
    S s;
    for (long k = a.in(0, 3); k > 0; --k) s.head += b.one_in(3) ? "\n" : "# X Y " + std::to_string(b.in(0, 99)) + "\n";
    long c = a.in(1, 6), n = size(a, 1, 15, 200);
    for (long i = 0; i < n; ++i) { std::vector<double> r; for (long k = 0; k < c; ++k) r.push_back(dec(b, 1000, 999999999, 1e3) * (b.one_in(4) ? -1 : 1)); s.rows.push_back(r); }
    for (auto & r : s.rows) for (auto & v : r) if (v == -999.0) v = 1.5;
    return s;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    for (auto & r : s.rows) { Record q; for (double v : r) q.push_back(num(v, 1e-5)); d.records.push_back(q); }
    for (size_t c = 1; c < s.rows[0].size(); ++c) {              // cut in the first row, which tells how many columns there are
      Dump x; Record q(d.records[0].begin(), d.records[0].begin() + c);
      q.back().soft = true; x.records.push_back(q); d.alts.push_back(x);
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    std::string t = s.head;
    for (auto & r : s.rows) { for (size_t c = 0; c < r.size(); ++c) t += (c ? "  " : "") + txt(r[c], 3); t += "\n"; }
    put_file(n, t);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    TabularFile t;
    if (shape & 1) t = TabularFile(n);
    else {
      size_t first, nc; bool last; std::string l;
      if (!TabularFile::CheckFile(n, first, nc, last, l)) throw FileFormatError("no table");
      t.ReadFromFile(n, first, nc, last);
    }
    for (size_t i = 0; t.GetNColumns() && i < t.GetColumn(0).size(); ++i) {
      Record r;
      for (size_t c = 0; c < t.GetNColumns(); ++c) r.push_back(num(t.GetColumn(c).at(i)));
      d.records.push_back(r);
    }
  }
};

// ------------------------------------------------------------------ trends written by other programs
struct TrendF : Format {
  int kind;                                     // 0: 1D Jason style, 1: 2D text, 2: 3D text, 3: 3D binary
  explicit TrendF(int k) : kind(k) { tail_ok = k < 3; }
  struct S { long n[3]; double s0, dz; std::vector<double> v; };
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 42), b(seed, 43);
    S s; s.n[0] = size(a, 2, 8, 30); s.n[1] = kind ? size(a, 2, 8, 30) : 1; s.n[2] = kind > 1 ? size(a, 2, 6, 12) : 1;
    s.s0 = dec(b, -99999, 99999, 1e2); s.dz = dec(b, 1, 9999, 1e2);
    for (long i = 0; i < s.n[0] * s.n[1] * s.n[2]; ++i) s.v.push_back(static_cast<float>(dec(b, -999999, 999999, 1e3)));
    return s;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    for (int k = 0; k <= std::min(kind, 2); ++k) d.num("n", s.n[k]);
    if (kind == 0) { d.num("s0", s.s0, 1e-6); d.num("dz", s.dz, 1e-6); }
    for (double v : s.v) d.records.push_back(Record(1, num(v, kind == 3 ? 0 : 1e-3)));
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    std::string t;
    if (kind == 3) {
      auto be = [&](uint32_t u) { for (int k = 24; k >= 0; k -= 8) t += static_cast<char>((u >> k) & 255); };
      for (long k : s.n) be(static_cast<uint32_t>(k));
      for (double v : s.v) { float f = static_cast<float>(v); uint32_t u; memcpy(&u, &f, 4); be(u); }
    }
    else {
      if (kind == 0) t = "\"* a comment\n\"* another\n" + txt(s.s0, 2) + "\n" + txt(s.dz, 2) + "\n" + std::to_string(s.n[0]) + "\n";
      else for (int k = 0; k <= kind; ++k) t += std::to_string(s.n[k]) + (k == kind ? "\n" : " ");
      for (size_t i = 0; i < s.v.size(); ++i) t += txt(s.v[i], 3) + (i % 5 == 4 ? "\n" : " ");
      t += "\n";
    }
    put_file(n, t);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    std::string err;
    if (kind == 0) {
      std::vector<double> v; double s0 = 0, dz = 0;
      ReadTrend1D(n, err, v, s0, dz);
      if (!err.empty()) throw IOError(err);
      d.num("n", v.size()); d.num("s0", s0); d.num("dz", dz);
      for (double x : v) d.records.push_back(Record(1, num(x)));
    }
    else if (kind == 1) {
      Grid2D<double> g;
      ReadTrend2DPlainAscii(n, err, g);
      if (!err.empty()) throw IOError(err);
      d.num("n", g.GetNI()); d.num("n", g.GetNJ());
      for (size_t i = 0; i < g.GetNI(); ++i) for (size_t j = 0; j < g.GetNJ(); ++j) d.records.push_back(Record(1, num(g(i, j))));
    }
    else {
      Grid<double> g;
      if (kind == 2) ReadTrend3DPlainAscii(n, err, g); else ReadTrend3DBinary(n, END_BIG_ENDIAN, err, g);
      if (!err.empty()) throw IOError(err);
      d.num("n", g.GetNI()); d.num("n", g.GetNJ()); d.num("n", g.GetNK());
      for (size_t i = 0; i < g.GetN(); ++i) d.records.push_back(Record(1, num(g(i))));
    }
  }
};

// ------------------------------------------------------------------ wavelets written by other programs
struct WaveletX : Format {
  WaveletFileType type;
  explicit WaveletX(WaveletFileType t) : type(t) { tail_ok = true; }
  struct S { long n, c; double dt; std::vector<double> v; };
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 44), b(seed, 45);
    S s; s.n = size(a, 1, 20, 200); s.c = a.in(0, s.n - 1); s.dt = a.in(1, 16) * 0.25;
    for (long i = 0; i < s.n; ++i) s.v.push_back(dec(b, -9999999, 9999999, 1e4));
    return s;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    long half = std::max(s.c, s.n - s.c - 1), len = 2 * half + 1;
    d.num("n", len); d.num("dt", s.dt, 1e-9);
    for (long i = 0; i < len; ++i) {
      long k = i - half + s.c;
      Item it = num(k >= 0 && k < s.n ? s.v[k] : 0.0, 1e-7);
      it.soft = k == s.n - 1;
      d.records.push_back(Record(1, it));
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    std::string t;
    if (type == LandmarkAscii) t = "Landmark ASCII Wavelet\n" + std::to_string(s.n) + "\n" + std::to_string(s.c) + "\n" + txt(s.dt, 2) + "\n";
    else if (type == Strata) t = "#STRATA_WHIST\nsome history\n#STRATA_WPARAMS\n~SR" + txt(s.dt, 2) + "\n~TZ" + std::to_string(s.c + 1) + "\n~NS" + std::to_string(s.n) + "\n~PR0\n";
    else t = "Syntool\n\nWavelet Data:\nTotal Samples: " + std::to_string(s.n) + "\nSample Interval: " + txt(s.dt, 2) + "\nTime Zero Sample: " + std::to_string(s.c) + "\n--------\n";
    for (long i = 0; i < s.n; ++i) t += (type == SyntoolOW ? txt(i * s.dt, 2) + " " : std::string()) + txt(s.v[i], 4) + "\n";
    put_file(n, t);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    Wavelet x(n, shape & 1 ? UnknownWavelet : type);
    d.num("n", x.GetNSamples()); d.num("dt", x.GetSampleInterval());
    for (Wavelet::const_iterator p = x.begin(); p != x.end(); ++p) d.records.push_back(Record(1, num(*p)));
  }
};

// ------------------------------------------------------------------ what is only written; the harness reads it
struct WriteOnly : Format {
  int kind;                                     // 0 nodal data, 1 continuous data, 2 covariance grid, 3 trend
  explicit WriteOnly(int k) : kind(k) { prefix_ok = true; }
  struct S { std::vector<std::vector<double>> v; long nx, ny; double dx, dy, r1, r2; };
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 46), b(seed, 47);
    S s; long n = size(a, 1, 20, 200);
    s.nx = a.in(1, 12); s.ny = a.in(1, 12); s.dx = a.in(1, 20) * .5; s.dy = a.in(1, 20) * .5; s.r1 = b.in(1, 50); s.r2 = b.in(1, 50);
    std::set<std::pair<long, long>> taken;       // data in the same node are merged
    while (static_cast<long>(s.v.size()) < n) {
      long x = b.in(0, 999), y = b.in(0, 999);
      double z = dec(b, -99999, 99999, 1e2);
      if (taken.insert({x, y}).second) s.v.push_back({double(x), double(y), z});
    }
    if (kind == 3) for (long i = 0; i < n; ++i) s.v[i][0] = i * s.dx;
    return s;
  }
  static std::unique_ptr<CovGrid2D> cov(const S & s) {
    std::unique_ptr<Variogram> v(Variogram::Create(Variogram::EXPONENTIAL, 1.0, s.r1, s.r2));
    return std::unique_ptr<CovGrid2D>(new CovGrid2D(*v, s.nx, s.ny, s.dx, s.dy));
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = make(shape, seed);
    if (kind < 2) for (auto & r : s.v) { Record q; for (double x : r) q.push_back(num(x, 1e-6)); d.records.push_back(q); }
    if (kind == 2) {
      std::unique_ptr<CovGrid2D> c = cov(s);
      Record q;
      for (double x : {2.0 * s.nx - 1, 2.0 * s.ny - 1, s.dx, s.dy, -s.dx * s.nx, s.dx * s.nx, -s.dy * s.ny, s.dy * s.ny}) q.push_back(num(x, 1e-9));
      for (long j = -s.ny + 1; j < s.ny; ++j) for (long i = -s.nx + 1; i < s.nx; ++i) q.push_back(num(c->GetCov(i, j), 1e-6));
      for (auto & x : q) d.records.push_back(Record(1, x));
    }
    if (kind == 3) {
      std::vector<double> q = {s.v[0][0], s.v.size() > 1 ? s.v[1][0] - s.v[0][0] : 0.0, s.v.back()[0]};
      for (auto & r : s.v) q.push_back(r[2]);
      for (double x : q) d.records.push_back(Record(1, num(x, 1e-5)));
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    if (kind == 0) { NodalKrigingData2D k; for (auto & r : s.v) k.AddData(static_cast<int>(r[0]), static_cast<int>(r[1]), static_cast<float>(r[2])); k.WriteToFile(n); }
    if (kind == 1) { ContinuousKrigingData2D k; for (auto & r : s.v) k.AddData(r[0], r[1], r[2]); k.WriteToFile(n); }
    if (kind == 2) cov(s)->WriteToFile(n);
    if (kind == 3) {
      std::vector<double> x, y;
      for (auto & r : s.v) { x.push_back(r[0]); y.push_back(r[2]); }
      if (x.size() == 1) x.push_back(x[0]);
      WriteTrend1D(n, x, y);
    }
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    std::string t = get_file(n);
    if (kind < 2) { size_t p = t.find('\n'); p = p == t.npos ? p : t.find('\n', p + 1); t = p == t.npos ? "" : t.substr(p + 1); }
    std::istringstream in(t); in.exceptions(std::ios::badbit);
    std::string w; Record r;
    while (in >> w) { r.push_back(num(atof(w.c_str()))); if (kind >= 2 || r.size() == 3) { d.records.push_back(r); r.clear(); } }
    if (!r.empty()) { while (r.size() < 3) r.push_back(num(-999)); d.records.push_back(r); }
  }
};
// ------------------------------------------------------------------ points and trends written by other programs
struct PointsX : Format {
  bool jason;
  explicit PointsX(bool j) : jason(j) { prefix_ok = !j; tail_ok = j; }
  struct S { std::string head; std::vector<std::vector<double>> p; };
  S make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 49), b(seed, 50);
    S s; long n = size(a, 1, 20, 300);
    for (long k = b.in(0, 2); k > 0; --k) s.head += std::string(jason ? "*" : "!") + " remark " + std::to_string(b.in(0, 99)) + "\n";
    for (long i = 0; i < n; ++i)
      s.p.push_back({dec(b, -90000000, 90000000, 1e3), dec(b, -90000000, 90000000, 1e3), dec(b, -90000000, 90000000, 1e3), double(b.in(100, 9999)), double(b.in(100, 9999))});
    return s;
  }
  static void fill(const PointSet & p, bool jason, Dump & d) {
    if (jason && (!p.HasDiscreteParameter("IL") || !p.HasDiscreteParameter("XL"))) { d.str("IL", "is missing"); return; }
    for (size_t i = 0; i < p.GetSize(); ++i) {
      Record r{num(p[i].x), num(p[i].y), num(p[i].z)};
      if (jason) { r.push_back(num(p.GetDiscreteParameter("IL").at(i))); r.push_back(num(p.GetDiscreteParameter("XL").at(i))); }
      d.records.push_back(r);
    }
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    for (auto & q : make(shape, seed).p) {
      Record r{num(q[0], 1e-6), num(q[1], 1e-6), num(q[2], 1e-6)};
      if (jason) { r.push_back(num(q[3])); r.push_back(num(q[4])); }
      d.records.push_back(r);
    }
    if (jason) d.records.back()[2].soft = true;
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed);
    std::string t = s.head;
    if (jason) {
      t += "JGWFILE horizon " + std::to_string(s.p.size()) + "\nIL XL X Y Z\n";
      for (auto & q : s.p) t += txt(q[3], 0) + " " + txt(q[4], 0) + " " + txt(q[0], 3) + " " + txt(q[1], 3) + " " + txt(q[2], 3) + "\n";
    }
    else {
      t += "New horizon\n";
      for (int k = 0; k < 7; ++k) t += "header line " + std::to_string(k) + "\n";
      for (auto & q : s.p) t += txt(q[0], 3) + " " + txt(q[1], 3) + " " + txt(q[2], 3) + "\n";
    }
    put_file(n, t);
  }
  void read(uint64_t, const std::string & n, Dump & d) override { PointSet p(n); fill(p, jason, d); }
};
struct TrendPlain : Format {
  TrendPlain() { prefix_ok = true; }
  std::vector<double> make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 51), b(seed, 52);
    std::vector<double> v;
    for (long n = size(a, 2, 20, 200); n > 0; --n) v.push_back(dec(b, -90000000, 90000000, 1e3));
    return v;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { for (double v : make(shape, seed)) d.records.push_back(Record(1, num(v, 1e-6))); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    std::string t;
    for (double v : make(shape, seed)) t += txt(v, 3) + "\n";
    put_file(n, t);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    std::string e; std::vector<double> v;
    int f = GetTrend1DFileFormat(n, e);
    if (!e.empty()) throw FileFormatError(e);
    if (f != 1) throw FileFormatError("not a plain trend");
    ReadTrend1DPlainAscii(n, e, v);
    if (!e.empty()) throw FileFormatError(e);
    for (double x : v) d.records.push_back(Record(1, num(x)));
  }
};

// ------------------------------------------------------------------ XML written by other programs
struct XmlForeign : Xml {
  // the text of a document and, beside it, what it means
  static void chars(Rng & b, bool attr, char quote, std::string & t, std::string & m) {
    static const char * const W[][2] = {{"word", "word"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&#x41;", "A"}, {"&#65;", "A"}, {"&#xe6;", "\xc3\xa6"},
                                        {"&#230;", "\xc3\xa6"}, {"&#x20AC;", "\xe2\x82\xac"}, {"\xe2\x82\xac", "\xe2\x82\xac"}, {"&#x1F600;", "\xf0\x9f\x98\x80"}, {"&#x7a;", "z"}, {"1.25", "1.25"}, {"a=b", "a=b"}, {"\xc3\xb8", "\xc3\xb8"}};
    for (long k = b.in(1, 5); k > 0; --k) {
      const char * const * w = W[b.in(0, 16)];
      if (!m.empty() && b.one_in(2)) { const char * const sp[5] = {" ", "  ", "\n", "\t", " \r\n "}; if (attr) { t += " "; m += " "; } else { t += sp[b.in(0, 4)]; m += " "; } }
      t += w[0]; m += w[1];
    }
    (void)quote;
  }
  static void element(Rng & b, int depth, std::string & t, std::string & m) {
    static const char * const SP[] = {"", " ", "\n", "\r\n", "\t ", "\n   "};
    std::string name = std::string(b.one_in(5) ? "ns:" : "") + "e" + std::to_string(b.in(0, 30)) + (b.one_in(6) ? "-x_y.z" : "");
    t += "<" + name; m += "1(" + name + ")";
    for (long k = b.in(0, 3); k > 0; --k) {
      char q = b.one_in(2) ? '"' : '\'';
      std::string v, w;
      if (!b.one_in(6)) chars(b, true, q, v, w);
      std::string an = "a" + std::to_string(k);
      t += (b.one_in(3) ? "\n  " : " ") + an + (b.one_in(4) ? " = " : "=") + q + v + q;
      m += "[" + an + "|" + w + "]";
    }
    if (b.one_in(4)) { t += b.one_in(2) ? "/>" : " />"; m += "{}"; return; }
    t += ">"; m += "{";
    bool text = false;
    for (long k = depth > 3 ? b.in(0, 1) : b.in(0, 4); k > 0; --k) {
      int c = b.in(0, 9);
      t += SP[b.in(0, 5)];
      if (c < 5 && depth < 4) { element(b, depth + 1, t, m); text = false; }
      else if (c < 6) { std::string x = " note " + std::to_string(b.in(0, 999)) + (b.one_in(3) ? " - <b> & " : " "); t += "<!--" + x + "-->"; m += "2(" + x + "){}"; text = false; }
      else if (c < 7) { std::string x = b.one_in(3) ? "a<b && c]] >" : "raw " + std::to_string(b.in(0, 99)); t += "<![CDATA[" + x + "]]>"; m += "4(" + x + ")C{}"; text = false; }
      else if (!text) { std::string v, w; chars(b, false, 0, v, w); t += v; m += "4(" + w + ")T{}"; text = true; }
    }
    t += SP[b.in(0, 5)];
    t += "</" + name + ">"; m += "}";
  }
  struct D { std::string text; std::vector<std::string> parts; };
  static D doc(uint64_t seed) {
    Rng b(seed, 53);
    D d;
    int k = b.in(0, 5);                              // without a byte order mark or a declaration the encoding is not known
    if (k < 2) d.text += "\xef\xbb\xbf";
    if (k > 0) { d.text += b.one_in(2) ? "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n" : "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\r\n"; d.parts.push_back("5(){}"); }
    else if (b.one_in(2)) { d.text += "<!DOCTYPE doc>\n"; d.parts.push_back("3(!DOCTYPE doc){}"); }
    if (b.one_in(3)) { d.text += "<!-- first -->\n"; d.parts.push_back("2( first ){}"); }
    d.parts.push_back("");
    element(b, 0, d.text, d.parts.back());
    if (b.one_in(4)) { d.text += "\n<!-- last -->"; d.parts.push_back("2( last ){}"); }
    d.text += b.one_in(2) ? "\n" : "";
    return d;
  }
  void expect(uint64_t, uint64_t seed, const std::string &, Dump & d) override { for (auto & p : doc(seed).parts) d.records.push_back(Record(1, str(p))); }
  void write(uint64_t, uint64_t seed, const std::string & n) override { put_file(n, doc(seed).text); }
};
} // namespace

void more_formats(std::map<std::string, Format *> & m) {
  m["eclipse"] = new Eclipse(false); m["eclipse_groups"] = new Eclipse(true);
  m["eclipse_map"] = new EclipseMap;
  m["points_jason"] = new PointsX(true); m["points_openworks"] = new PointsX(false); m["trend1d_plain"] = new TrendPlain; m["xml_foreign"] = new XmlForeign;
  m["xml"] = new Xml; m["norsar"] = new Norsar; m["table"] = new Table;
  m["trend1d"] = new TrendF(0); m["trend2d"] = new TrendF(1); m["trend3d"] = new TrendF(2); m["trend3d_binary"] = new TrendF(3);
  m["wavelet_landmark"] = new WaveletX(LandmarkAscii); m["wavelet_strata"] = new WaveletX(Strata); m["wavelet_syntool"] = new WaveletX(SyntoolOW);
  m["data_nodal"] = new WriteOnly(0); m["data_continuous"] = new WriteOnly(1); m["cov_grid"] = new WriteOnly(2); m["trend_write"] = new WriteOnly(3);
}

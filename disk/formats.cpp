#include "formats.hpp"
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/stormgrid/stormfaciesgrid.hpp>
#include <nrlib/segy/segy.hpp>
#include <nrlib/segy/segytrace.hpp>
#include <nrlib/segy/segygeometry.hpp>
#include <nrlib/segy/commonheaders.hpp>
#include <nrlib/segy/traceheader.hpp>
#include <nrlib/well/rmswell.hpp>
#include <nrlib/well/laswell.hpp>
#include <nrlib/pointset/pointset.hpp>
#include <nrlib/wavelet/wavelet.hpp>
#include <nrlib/flens/nrlib_flens.hpp>
#include <nrlib/trend/trendkit.hpp>
#include <nrlib/iotools/bigfile.hpp>
#include <nrlib/iotools/fileio.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
using namespace NRLib;

namespace {
const double TXT = 1e-7;                       // what text output with six decimals keeps
double dec(Rng & r, long lo, long hi, double unit) { return r.in(lo, hi) / unit; }
long size(Rng & r, long lo, long mid, long hi) {
  if (r.one_in(90)) return r.in(hi, 5 * hi);
  return r.one_in(6) ? r.in(mid, hi) : r.in(lo, mid);
}

// ------------------------------------------------------------------ surfaces
RegularSurface<double> make_surface(uint64_t shape, uint64_t seed, double missing, bool exact) {
  Rng a(shape, 1), b(seed, 2);
  if (seed % 3 == 0) { const double m[6] = {-999.0, IRAP_MISSING, STORM_MISSING, 1e30, -9999.5, 123456789.0}; missing = m[seed / 3 % 6]; }
  long ni = size(a, 2, 12, 60), nj = size(a, 2, 12, 60);
  double dx = a.in(1, 40) * 0.5, dy = a.in(1, 40) * 0.5;
  double x0 = a.in(-4000, 4000) * 0.25, y0 = a.in(-4000, 4000) * 0.25;
  RegularSurface<double> s(x0, y0, dx * (ni - 1), dy * (nj - 1), ni, nj);
  long sparse = b.in(0, 3);
  for (long j = 0; j < nj; ++j)
    for (long i = 0; i < ni; ++i) {
      double v = exact ? static_cast<double>(b.in(-1000000000000L, 1000000000000L)) / 1048577.0 : dec(b, -5000000000L, 5000000000L, 1000000.0);
      if (b.one_in(9) && sparse == 0) v = missing;
      s(i, j) = v;
    }
  s.SetMissingValue(missing);
  return s;
}
template <class S> void dump_surface(const S & s, double tol, Dump & d) {
  d.num("ni", s.GetNI()); d.num("nj", s.GetNJ());
  d.num("dx", s.GetDX(), 1e-6); d.num("dy", s.GetDY(), 1e-6);
  for (size_t j = 0; j < s.GetNJ(); ++j) {
    Record r;
    for (size_t i = 0; i < s.GetNI(); ++i) {
      double v = s(i, j);
      if (s.IsMissing(v)) r.push_back(str("missing")); else r.push_back(num(v, tol));
    }
    d.records.push_back(r);
  }
}
struct SurfIrap : Format {
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    RegularSurface<double> s = make_surface(shape, seed, -999.0, false);
    dump_surface(s, TXT, d); d.num("x0", s.GetXMin(), 1e-3); d.num("y0", s.GetYMin(), 1e-3);
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    make_surface(shape, seed, -999.0, false).WriteToFile(n, SURF_IRAP_CLASSIC_ASCII);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    RegularSurface<double> s;
    if (reuse) { s = make_surface(reuse, reuse, -999.0, false); s.ReadFromFile(n, shape & 1 ? SURF_UNKNOWN : SURF_IRAP_CLASSIC_ASCII); }
    else s = shape & 1 ? RegularSurface<double>(n) : RegularSurface<double>(n, SURF_IRAP_CLASSIC_ASCII);
    dump_surface(s, TXT, d); d.num("x0", s.GetXMin(), 1e-3); d.num("y0", s.GetYMin(), 1e-3);
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto s = std::make_shared<RegularSurface<double>>(n);
    return [s](const std::string & to) { s->WriteToFile(to, SURF_IRAP_CLASSIC_ASCII); };
  }
};
struct SurfIrapRotated : Format {
  static RegularSurfaceRotated<double> make(uint64_t shape, uint64_t seed) {
    RegularSurface<double> s = make_surface(shape, seed, -999.0, false);
    Rng a(shape, 3);
    return RegularSurfaceRotated<double>(s, a.in(-170, 170) * 3.141592653589793 / 180.0);
  }
  static void fill(const RegularSurfaceRotated<double> & s, Dump & d) {
    dump_surface(s, TXT, d);
    d.num("angle", s.GetAngle(), 1e-6); d.num("x0", s.GetXRef(), 0.011); d.num("y0", s.GetYRef(), 0.011);
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override { make(shape, seed).WriteToFile(n, SURF_IRAP_CLASSIC_ASCII); }
  void read(uint64_t, const std::string & n, Dump & d) override {
    if (reuse) { RegularSurfaceRotated<double> s = make(reuse, reuse); s.ReadFromFile(n); fill(s, d); }
    else fill(RegularSurfaceRotated<double>(n), d);
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto s = std::make_shared<RegularSurfaceRotated<double>>(n);
    return [s](const std::string & to) { s->WriteToFile(to, SURF_IRAP_CLASSIC_ASCII); };
  }
};
struct SurfStorm : Format {
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    RegularSurface<double> s = make_surface(shape, seed, STORM_MISSING, true);
    dump_surface(s, 0, d); d.num("x0", s.GetXMin(), 1e-9); d.num("y0", s.GetYMin(), 1e-9);
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    make_surface(shape, seed, STORM_MISSING, true).WriteToFile(n, SURF_STORM_BINARY);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    RegularSurface<double> s;
    if (reuse) { s = make_surface(reuse, reuse, -999.0, true); s.ReadFromFile(n, shape & 1 ? SURF_UNKNOWN : SURF_STORM_BINARY); }
    else s = shape & 1 ? RegularSurface<double>(n) : RegularSurface<double>(n, SURF_STORM_BINARY);
    dump_surface(s, 0, d); d.num("x0", s.GetXMin(), 1e-9); d.num("y0", s.GetYMin(), 1e-9);
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto s = std::make_shared<RegularSurface<double>>(n);
    return [s](const std::string & to) { s->WriteToFile(to, SURF_STORM_BINARY); };
  }
};

// written by other programs: a header and a file with the values
struct SgriSurf : Format {
  bool rotated, multi;
  explicit SgriSurf(bool r, bool m = false) : rotated(r), multi(m) {}
  struct S { long ni, nj, grids; double dx, dy, x0, y0, angle, missing; std::string data; std::vector<float> v; };
  S make(uint64_t shape, uint64_t seed, const std::string & n) {
    Rng a(shape, 44), b(seed, 45);
    S s; s.ni = size(a, 1, 12, 60); s.nj = size(a, 1, 12, 60);
    s.dx = a.in(1, 400) * 0.25; s.dy = a.in(1, 400) * 0.25; s.x0 = a.in(-4000, 4000) * 0.5; s.y0 = a.in(-4000, 4000) * 0.5;
    s.angle = rotated ? a.in(-150, 150) / 64.0 : 0; s.missing = a.one_in(2) ? -999.0 : -99999.0;
    s.data = b.one_in(2) ? n + ".Sgri" : "";
    s.grids = multi ? a.in(1, 4) : 1;
    for (long i = 0; i < s.ni * s.nj * s.grids; ++i) s.v.push_back(b.one_in(12) ? static_cast<float>(s.missing) : static_cast<float>(b.in(-100000000, 100000000)) * 0.0017f);
    return s;
  }
  std::vector<std::string> files(const std::string & n) override { return {n, n + ".Sgri"}; }
  void expect(uint64_t shape, uint64_t seed, const std::string & n, Dump & d) override {
    S s = make(shape, seed, n);
    if (multi) {
      for (long g = 0; g < s.grids; ++g) {
        Record r{num(s.ni), num(s.nj), num(s.angle), num(s.x0 - 0.5 * s.dx), num(s.y0 - 0.5 * s.dy), num((s.ni - 1) * s.dx), num((s.nj - 1) * s.dy), num(s.missing)};
        for (long i = 0; i < s.ni * s.nj; ++i) r.push_back(num(s.v[g * s.ni * s.nj + i]));
        d.records.push_back(r);
      }
      return;
    }
    d.num("ni", s.ni); d.num("nj", s.nj); d.num("angle", s.angle, 1e-9); d.num("x0", s.x0 - 0.5 * s.dx, 1e-6); d.num("y0", s.y0 - 0.5 * s.dy, 1e-6);
    d.num("lx", s.ni * s.dx, 1e-6); d.num("ly", s.nj * s.dy, 1e-6); d.num("missing", s.missing);
    Record r; for (float v : s.v) r.push_back(v == static_cast<float>(s.missing) ? str("missing") : num(v));
    d.records.push_back(r);
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = make(shape, seed, n);
    { std::ofstream f; OpenWrite(f, n + ".Sgri", std::ios::out | std::ios::binary); WriteBinaryFloatArray(f, s.v.begin(), s.v.end()); f.close(); if (!f) throw IOError("data"); }
    std::string labels; for (long g = 0; g < s.grids; ++g) labels += "label " + std::to_string((seed + g) % 10) + "\n";
    char b[400];
    std::snprintf(b, sizeof b, "NORSAR General Grid Format v1.0\n2\nX (km)\nY (km)\nZ\n%ld\n%s1 1\n%ld %ld\n%.8g %.8g\n%.8g %.8g\n%.8g\n%.8g\n%s\n0\n",
                  s.grids, labels.c_str(), s.ni, s.nj, s.dx, s.dy, s.x0, s.y0, s.angle, s.missing, s.data.c_str());
    std::ofstream f; OpenWrite(f, n, std::ios::out | std::ios::binary); f << b; f.close(); if (!f) throw IOError("header");
  }
  template <class T> void fill(const T & t, const RegularSurface<double> & s, double angle, Dump & d) {
    d.num("ni", s.GetNI()); d.num("nj", s.GetNJ()); d.num("angle", angle); d.num("x0", s.GetXMin()); d.num("y0", s.GetYMin());
    d.num("lx", s.GetLengthX()); d.num("ly", s.GetLengthY()); d.num("missing", t.GetMissingValue());
    Record r; for (size_t i = 0; i < s.GetN(); ++i) r.push_back(t.IsMissing(s(i)) ? str("missing") : num(s(i)));
    d.records.push_back(r);
  }
  void read(uint64_t shape, const std::string & name, Dump & d) override {
    std::string n = "./" + name;
    if (multi) {
      for (const RegularSurfaceRotated<float> & s : ReadMultipleSgriSurf(n, std::vector<std::string>())) {
        Record r{num(s.GetNI()), num(s.GetNJ()), num(s.GetAngle()), num(s.GetXRef()), num(s.GetYRef()), num(s.GetLengthX()), num(s.GetLengthY()), num(s.GetMissingValue())};
        for (size_t j = 0; j < s.GetNJ(); ++j) for (size_t i = 0; i < s.GetNI(); ++i) r.push_back(num(s(i, j)));
        d.records.push_back(r);
      }
      return;
    }
    if (rotated) {
      RegularSurfaceRotated<double> s = shape & 1 ? RegularSurfaceRotated<double>(n) : RegularSurfaceRotated<double>(n, SURF_SGRI);
      RegularSurface<double> u(s.GetXRef(), s.GetYRef(), s.GetLengthX(), s.GetLengthY(), s.GetNI(), s.GetNJ());
      for (size_t i = 0; i < s.GetNI(); ++i) for (size_t j = 0; j < s.GetNJ(); ++j) u(i, j) = s(i, j);
      fill(s, u, s.GetAngle(), d);
    }
    else { RegularSurface<double> s = shape & 1 ? RegularSurface<double>(n) : RegularSurface<double>(n, SURF_SGRI); fill(s, s, 0.0, d); }
  }
};

// ------------------------------------------------------------------ grids over a volume
struct Shape3 { long nx, ny, nz, surfaces; double x0, y0, lx, ly, angle; };
Shape3 shape3(uint64_t shape) {
  Rng a(shape, 4);
  Shape3 s;
  s.nx = size(a, 1, 8, 30); s.ny = size(a, 1, 8, 30); s.nz = size(a, 1, 6, 20);
  s.surfaces = a.in(0, 3);
  s.x0 = a.in(-300, 300); s.y0 = a.in(-300, 300);
  s.lx = s.nx * a.in(1, 9); s.ly = s.ny * a.in(1, 9);
  s.angle = a.one_in(2) ? 0.0 : a.in(1, 80) * 3.141592653589793 / 180.0;
  return s;
}
RegularSurface<double> flat(const Shape3 & s, uint64_t seed, int which, double level) {
  Rng b(seed, 40 + which);
  double m = 2 * (s.lx + s.ly);
  long n = b.in(3, 7);
  RegularSurface<double> z(s.x0 - m, s.y0 - m, 2 * m + s.lx, 2 * m + s.ly, n, n);
  for (size_t i = 0; i < z.GetN(); ++i) z(i) = level + b.in(0, 100000) / 65536.0;
  z.SetMissingValue(STORM_MISSING);
  return z;
}
void set_volume(const Shape3 & s, uint64_t seed, Volume & v) {
  v.SetDimensions(s.x0, s.y0, s.lx, s.ly);
  v.SetAngle(s.angle);
  double top = 1000, bot = 1400;
  if (s.surfaces == 0) { ConstantSurface<double> t(top), b(bot); v.SetSurfaces(t, b); }
  else if (s.surfaces == 1) { ConstantSurface<double> b(bot); v.SetSurfaces(flat(s, seed, 0, top), b); }
  else if (s.surfaces == 2) { v.SetSurfaces(flat(s, seed, 0, top), flat(s, seed, 1, bot)); }
  else v.SetSurfaces(flat(s, seed, 0, top), flat(s, seed, 1, bot), flat(s, seed, 2, top), flat(s, seed, 3, bot));
}
void dump_surf_any(const char * l, const Surface<double> & s, Dump & d) {
  const RegularSurface<double> * r = dynamic_cast<const RegularSurface<double> *>(&s);
  const ConstantSurface<double> * c = dynamic_cast<const ConstantSurface<double> *>(&s);
  std::string n(l);
  if (c) d.num(n + " level", c->GetZ(), 1e-9);
  if (r) { d.num(n + " ni", r->GetNI()); for (size_t i = 0; i < r->GetN(); ++i) d.num(n, (*r)(i)); }
}
// a volume without erosion surfaces is saved and loaded as one with erosion surfaces at level 0
void dump_volume(const Volume & v, Dump & d, bool erosion) {
  d.num("xmin", v.GetXMin(), 1e-9); d.num("ymin", v.GetYMin(), 1e-9); d.num("lx", v.GetLX(), 1e-9); d.num("ly", v.GetLY(), 1e-9);
  d.num("angle", v.GetAngle(), 1e-6);
  dump_surf_any("top", v.GetTopSurface(), d); dump_surf_any("bot", v.GetBotSurface(), d);
  if (erosion) { dump_surf_any("erosion top", v.GetErosionTop(), d); dump_surf_any("erosion bot", v.GetErosionBot(), d); }
  else { d.num("erosion top level", 0, 1e-9); d.num("erosion bot level", 0, 1e-9); }
}
std::vector<std::string> volume_files(const std::string & n) { return {n, n + "_top", n + "_bot", n + "_erosion_top", n + "_erosion_bot"}; }

struct StormCont : Format {
  bool ascii;
  explicit StormCont(bool a) : ascii(a) { tail_ok = false; }
  StormContGrid make(uint64_t shape, uint64_t seed) {
    Shape3 s = shape3(shape);
    Volume v; set_volume(s, seed, v);
    StormContGrid g(v, s.nx, s.ny, s.nz);
    Rng b(seed, 5);
    for (size_t i = 0; i < g.GetN(); ++i)
      g(i) = ascii ? static_cast<float>(b.in(-999, 999) * 0.01) : static_cast<float>(b.in(-100000000, 100000000)) * 0.0017f;
    if (b.one_in(2)) for (int k = 0; k < 3; ++k) g(b.in(0, g.GetN() - 1)) = -999.f;
    g.SetMissingCode(-999.f);
    g.SetFormat(ascii ? StormContGrid::STORM_ASCII : StormContGrid::STORM_BINARY);
    g.SetZoneNumber(static_cast<int>(b.in(0, 90)));
    g.SetModelFileName("model" + std::to_string(b.in(0, 99)));
    g.SetVariableName("var" + std::to_string(b.in(0, 99)));
    return g;
  }
  Endianess endian(uint64_t shape) { return !ascii && (shape & 2) ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; }
  void fill(const StormContGrid & g, Dump & d, bool erosion = true) {
    d.num("nx", g.GetNI()); d.num("ny", g.GetNJ()); d.num("nz", g.GetNK());
    d.num("format", g.GetFormat()); d.num("zone", g.GetZoneNumber()); d.num("missing", g.GetMissingCode());
    d.str("model", g.GetModelFileName()); d.str("variable", g.GetVariableName());
    dump_volume(g, d, erosion);
    Record r;
    for (size_t i = 0; i < g.GetN(); ++i) r.push_back(num(g(i), ascii ? 1e-6 : 0));
    d.records.push_back(r);
  }
  std::vector<std::string> files(const std::string & n) override { return volume_files(n); }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d, shape3(shape).surfaces == 3); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    make(shape, seed).WriteToFile(n, "", false, endian(shape));
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    if (shape & 4) { StormContGrid g(n, endian(shape)); fill(g, d); }
    else if (reuse) { StormContGrid g = make(reuse, reuse); g.ReadFromFile(n, true, endian(shape)); fill(g, d); }
    else { StormContGrid g; g.ReadFromFile(n, true, endian(shape)); fill(g, d); }
  }
  std::function<void(const std::string &)> loaded(uint64_t shape, const std::string & n) override {
    auto g = std::make_shared<StormContGrid>(n, endian(shape)); Endianess e = endian(shape);
    return [g, e](const std::string & to) { g->WriteToFile(to, "", false, e); };
  }
};
// written only; read here by what its parts say
struct Crava : Format {
  StormCont grid{false};
  std::vector<double> head(const StormContGrid & g, uint64_t seed) {
    Rng b(seed, 46);
    std::vector<double> h = {g.GetXMin(), g.GetYMin(), g.GetDX(), g.GetDY(), double(g.GetNI()), double(g.GetNJ())};
    for (int k = 0; k < 6; ++k) h.push_back(dec(b, -900000, 900000, 1e3));
    h.push_back(g.GetAngle()); h.push_back(g.GetNI()); h.push_back(g.GetNJ()); h.push_back(g.GetNK());
    return h;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    StormContGrid g = grid.make(shape, seed);
    Record r;
    for (double v : head(g, seed)) r.push_back(num(v));
    for (size_t i = 0; i < g.GetNI(); ++i) for (size_t j = 0; j < g.GetNJ(); ++j) for (size_t k = 0; k < g.GetNK(); ++k) r.push_back(num(g(i, j, k)));
    d.records.push_back(r);
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    StormContGrid g = grid.make(shape, seed);
    std::vector<double> h = head(g, seed);
    g.WriteCravaFile(n, h[6], h[7], h[8], h[9], h[10], h[11]);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    std::ifstream f;
    OpenRead(f, n, std::ios::in | std::ios::binary);
    std::string l; std::getline(f, l);
    if (l != "crava_fftgrid_binary") throw FileFormatError("not a crava file");
    Record r; size_t cells = 1;
    for (int k = 0; k < 16; ++k) {
      double v = k == 4 || k == 5 || k > 12 ? ReadBinaryInt(f) : ReadBinaryDouble(f);
      r.push_back(num(v)); if (k > 12) cells *= static_cast<size_t>(v);
    }
    for (size_t i = 0; i < cells && i < 100000000; ++i) r.push_back(num(ReadBinaryFloat(f)));
    if (!CheckEndOfFile(f)) throw FileFormatError("too long");
    d.records.push_back(r);
  }
};
struct Sgri : Format {
  StormContGrid make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 4);
    Shape3 s = shape3(shape); s.surfaces = 0; s.angle = 0;
    s.lx = s.nx * 1000.0 * a.in(1, 4); s.ly = s.ny * 1000.0 * a.in(1, 4); s.x0 = 1000.0 * a.in(-5, 5); s.y0 = 1000.0 * a.in(-5, 5);
    Volume v; v.SetDimensions(s.x0, s.y0, s.lx, s.ly); v.SetAngle(0.0);
    ConstantSurface<double> t(1000), b2(1000.0 + 4.0 * s.nz); v.SetSurfaces(t, b2);
    StormContGrid g(v, s.nx, s.ny, s.nz);
    Rng b(seed, 6);
    for (size_t i = 0; i < g.GetN(); ++i) g(i) = static_cast<float>(b.in(-100000000, 100000000)) * 0.0017f;
    g.SetMissingCode(-999.f);
    return g;
  }
  std::string header(const std::string & n) { return "./" + n; }   // the reader puts the header's directory before the data file's name
  std::vector<std::string> files(const std::string & n) override { return {n, n + ".Sgri"}; }
  void fill(const StormContGrid & g, Dump & d, bool scaled) {
    double f = scaled ? 1.0 : 0.001;
    d.num("nx", g.GetNI()); d.num("ny", g.GetNJ()); d.num("nz", g.GetNK());
    d.num("missing", g.GetMissingCode());
    d.num("xmin", g.GetXMin() * f, 1e-4); d.num("ymin", g.GetYMin() * f, 1e-4); d.num("lx", g.GetLX() * f, 1e-4); d.num("ly", g.GetLY() * f, 1e-4);
    d.num("angle", g.GetAngle(), 1e-6);
    Record r;
    for (size_t i = 0; i < g.GetN(); ++i) r.push_back(num(g(i)));
    d.records.push_back(r);
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d, false); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    make(shape, seed).WriteToSgriFile(n + ".Sgri", header(n), "label" + std::to_string(seed % 10), 4.0);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    if (reuse) { StormContGrid g = make(reuse, reuse); g.ReadFromFile(header(n)); fill(g, d, true); }
    else { StormContGrid g(header(n)); fill(g, d, true); }
  }
};
// an SGRI grid, loaded and saved as a STORM grid
struct SgriStorm : Format {
  Sgri sgri;
  std::vector<std::string> files(const std::string & n) override { std::vector<std::string> v = volume_files(n); v.push_back(n + "_from"); v.push_back(n + "_from.Sgri"); return v; }
  void fill(const StormContGrid & g, Dump & d, bool scaled) {
    sgri.fill(g, d, scaled);
    d.num("format", scaled ? g.GetFormat() : StormContGrid::STORM_BINARY); d.num("zone", scaled ? g.GetZoneNumber() : 0);
    d.str("model", scaled ? g.GetModelFileName() : "ModelFile"); d.str("variable", scaled ? g.GetVariableName() : "UNKNOWN");
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(sgri.make(shape, seed), d, false); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    sgri.write(shape, seed, n + "_from");
    StormContGrid g(sgri.header(n + "_from"));
    g.WriteToFile(n);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    StormContGrid g;
    if (reuse) g = sgri.make(reuse, reuse);
    g.ReadFromFile(n); fill(g, d, true);
  }
};
struct StormFacies : Format {
  bool ascii;
  explicit StormFacies(bool a) : ascii(a) {}
  StormFaciesGrid make(uint64_t shape, uint64_t seed) {
    Shape3 s = shape3(shape);
    Volume v; set_volume(s, seed, v);
    StormFaciesGrid g(v, s.nx, s.ny, s.nz);
    Rng b(seed, 7);
    long nf = b.in(1, 5), nb = b.in(1, 7);
    std::vector<std::string> names; for (long i = 0; i < nf; ++i) names.push_back("facies" + std::to_string(b.in(0, 99)));
    std::vector<int> body; for (long i = 0; i < nb; ++i) body.push_back(static_cast<int>(b.in(0, nf - 1)));
    g.SetFaciesNames(names); g.SetBodyFacies(body); g.SetMissingCode(-999);
    for (size_t i = 0; i < g.GetN(); ++i) g(i) = b.one_in(20) ? -999 : static_cast<int>(b.in(0, nb - 1));
    g.SetFormat(ascii ? StormFaciesGrid::STORM_ASCII : StormFaciesGrid::STORM_BINARY);
    g.SetZoneNumber(static_cast<int>(b.in(0, 90)));
    g.SetModelFileName("model" + std::to_string(b.in(0, 99)));
    return g;
  }
  Endianess endian(uint64_t shape) { return !ascii && (shape & 2) ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; }
  void fill(const StormFaciesGrid & g, Dump & d, bool erosion = true) {
    d.num("nx", g.GetNI()); d.num("ny", g.GetNJ()); d.num("nz", g.GetNK());
    d.num("format", g.GetFormat()); d.num("zone", g.GetZoneNumber()); d.num("missing", g.GetMissingCode());
    d.str("model", g.GetModelFileName());
    dump_volume(g, d, erosion);
    Record r;
    for (size_t i = 0; i < g.GetN(); ++i) {
      r.push_back(num(g(i)));
      if (i < 64 && !g.IsMissing(g(i))) r.push_back(str(g.GetFaciesName(g.GetFaciesFromCell(i))));
    }
    d.records.push_back(r);
  }
  std::vector<std::string> files(const std::string & n) override { return volume_files(n); }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d, shape3(shape).surfaces == 3); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override { make(shape, seed).WriteToFile(n, endian(shape)); }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    StormFaciesGrid g;
    if (reuse) g = make(reuse, reuse);
    g.ReadFromFile(n, true, endian(shape)); fill(g, d);
  }
  std::function<void(const std::string &)> loaded(uint64_t shape, const std::string & n) override {
    auto g = std::make_shared<StormFaciesGrid>(); Endianess e = endian(shape);
    g->ReadFromFile(n, true, e);
    return [g, e](const std::string & to) { g->WriteToFile(to, e); };
  }
};

// ------------------------------------------------------------------ SEG-Y
const float SEGY_MISSING = -99999.f;
struct Segy : Format {
  int how;                     // 0: WriteTrace with inline and crossline, 1: StoreTrace + WriteAllTracesToFile
  explicit Segy(int h) : how(h) { prefix_ok = true; exact_prefix = true; }
  struct S { long nil, nxl, nz; double z0, dz, x0, y0, dx, dy; short scal; long first, last, sub; int head; double c = 1, sn = 0; bool down = false, across = false, back = false;
    double x(double u, double w) const { return x0 + c * u - sn * w; }
    double y(double u, double w) const { return y0 + sn * u + c * w; } };
  virtual TraceHeaderFormat layout(const S & s) { return TraceHeaderFormat(s.head); }
  virtual double unit(const S & s) { return s.scal < 0 ? -1.001 / s.scal : 0; }   // coordinates are cut, not rounded, to the unit of the file
  virtual S shp(uint64_t shape) {
    Rng a(shape, 8);
    S s; s.nil = size(a, 2, 5, 14); s.nxl = size(a, 2, 5, 14); s.nz = size(a, 2, 20, 200);
    s.z0 = 100.0 * a.in(0, 30); s.dz = a.one_in(3) ? a.in(1, 16) * 0.25 : a.in(1, 4); s.x0 = 1000.0 * a.in(1, 400); s.y0 = 1000.0 * a.in(1, 400);
    s.dx = 2 * a.in(3, 20); s.dy = 2 * a.in(3, 20);
    const short sc[6] = {1, 1, 1, -10, -100, 10};
    s.scal = sc[a.in(0, 5)];
    if (s.scal < 0) { double f = -1.0 / s.scal; s.x0 += 7 * f; s.y0 += 3 * f; s.dx += 2 * f * a.in(0, 4); s.dy += 2 * f * a.in(0, 4); }
    if (s.scal > 0 && a.one_in(4)) { s.x0 = -s.x0; s.y0 = -s.y0; }
    if (s.scal == 10) { s.dx = 20 * a.in(1, 4); s.dy = 20 * a.in(1, 4); }
    s.first = 0; s.last = s.nz - 1; s.sub = s.nxl;
    const int hd[8] = {0, 0, 0, 1, 2, 3, 4, 5};
    s.head = (shape & 7) == 4 ? 0 : hd[(shape >> 3) & 7];       // layout of the trace headers
    if ((shape & 7) == 4) { s.scal = 1; s.dx = 50; s.dy = 100; s.x0 = std::floor(std::fabs(s.x0)); s.y0 = std::floor(std::fabs(s.y0)); }
    if ((shape & 7) == 2) { s.first = a.in(0, s.nz - 1); s.last = a.in(s.first, s.nz - 1); }   // read inside a volume thinner than the data
    if ((shape & 7) == 3) s.sub = a.in(1, s.nxl);                                               // read inside a volume smaller than the survey
    turn(s, shape);
    if (how == 1) { s.back = s.down; s.down = s.across = false; }   // written in the order of the geometry
    return s;
  }
  // the survey is turned, and its traces come in another order
  static void turn(S & s, uint64_t shape) {
    Rng a(shape, 71);
    int mode = static_cast<int>(shape & 7);
    if (mode == 4) return;                                     // the layout is guessed from how the numbers grow
    s.down = a.one_in(3); s.across = mode != 2 && mode != 3 && a.one_in(3);
    if (s.nil < 2 || s.nxl < 2 || !a.one_in(2)) return;
    double f = s.scal > 1 ? s.scal : 1;
    s.dx = 10 * f * a.in(1, 5); s.dy = 10 * f * a.in(1, 5);
    const double cs[6] = {.8, .6, 0, -.6, -.8, .8}, sn[6] = {.6, .8, 1, .8, .6, -.6};
    long k = a.in(0, 5);
    s.c = cs[k]; s.sn = sn[k];
  }
  struct T { double x, y; int il, xl; std::vector<float> data; };
  virtual std::vector<T> traces(uint64_t shape, uint64_t seed) {
    S s = shp(shape); Rng b(seed, 9);
    std::vector<T> v;
    for (long k = 0; k < s.nil * s.nxl; ++k) {
      long j = s.across ? k % s.nil : k / s.nxl, i = s.across ? k / s.nil : k % s.nxl;
      if (s.down) i = s.nxl - 1 - i;
      T t; t.x = s.x(s.dx * (i + 0.5), s.dy * (j + 0.5)); t.y = s.y(s.dx * (i + 0.5), s.dy * (j + 0.5));
      t.il = 100 + 2 * static_cast<int>(j); t.xl = 700 + static_cast<int>(i);
      for (long z = 0; z < s.nz; ++z) t.data.push_back(static_cast<float>(b.in(-1000000, 1000000)) * 0.013f);
      v.push_back(t);
    }
    return v;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    S s = shp(shape);
    d.num("nz", s.nz); d.num("dz", s.dz);
    std::vector<T> v = traces(shape, seed);
    for (const T & t : v) {
      Record r;
      if (t.xl - 700 >= s.sub) continue;
      r.push_back(num(t.x, unit(s))); r.push_back(num(t.y, unit(s))); r.push_back(num(t.il)); r.push_back(num(t.xl));
      for (long k = 0; k < s.nz; ++k) r.push_back(k < s.first || k > s.last ? str("missing") : num(t.data[k]));
      d.records.push_back(r);
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = shp(shape);
    std::vector<T> v = traces(shape, seed);
    TraceHeaderFormat th(layout(s));
    SegyGeometry g(s.x0, s.y0, s.dx, s.dy, s.nxl, s.nil, 99.0, 699.5, -2.0 * s.sn / s.dy, 2.0 * s.c / s.dy, s.c / s.dx, s.sn / s.dx, std::atan2(s.sn, s.c));
    SegY f(n, s.z0, s.nz, s.dz, TextualHeader::standardHeader(), th);
    if (how == 0) {
      long variant = seed % 4;
      if (variant == 1) f.SetGeometry(&g);
      for (const T & t : v) {
        if (variant == 1) f.WriteTrace(t.x, t.y, t.data, NULL, 0.f, 0.f, s.scal);
        else if (variant == 2) {
          TraceHeader h(th);
          h.SetDt(static_cast<unsigned short>(s.dz * 1000)); h.SetStartTime(static_cast<float>(s.z0)); h.SetScalCo(s.scal);
          h.SetUtmx(t.x); h.SetUtmy(t.y); h.SetInline(t.il); h.SetCrossline(t.xl);
          f.WriteTrace(h, t.data, NULL);
        }
        else f.WriteTrace(t.x, t.y, t.il, t.xl, t.data, s.scal);
      }
    }
    else {
      f.SetGeometry(&g);
      if (s.back) std::reverse(v.begin(), v.end());              // the order in which traces are stored does not matter
      for (const T & t : v) f.StoreTrace(t.x, t.y, t.data, NULL);
      f.WriteAllTracesToFile(s.scal);
    }
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    S s = shp(shape);
    int mode = static_cast<int>(shape & 7);
    if (mode == 4) {                                   // let the library find out how the trace headers are laid out
      SegY f(n, s.z0);
      next(f, d);
      return;
    }
    SegY f(n, mode == 5 ? SEGY_MISSING : s.z0, layout(s));
    if (mode == 0 || mode == 5) {
      next(f, d);
      TraceHeaderFormat l = layout(s);
      if (shape & 64) { if (SegY::FindNumberOfTraces(n, &l) != d.records.size()) d.num("count differs", 1); }
    }
    else if (mode == 6 || mode == 7) indexed(f, s, mode == 7, d);
    else {
      Volume v;
      if (mode != 1) {
        ConstantSurface<double> top(s.z0 + (mode == 2 ? s.dz * (s.first + 0.25) : 0)), bot(s.z0 + s.dz * (mode == 2 ? s.last + 0.25 : s.nz));
        if (mode == 2 && s.first == s.last) bot = ConstantSurface<double>(s.z0 + s.dz * (s.last + 0.5));
        v.SetDimensions(s.x0, s.y0, s.dx * s.sub, s.dy * s.nil); v.SetAngle(std::atan2(s.sn, s.c)); v.SetSurfaces(top, bot);
      }
      f.ReadAllTraces(mode == 1 ? NULL : &v, 0.0, mode == 3);
      d.num("nz", f.GetNz()); d.num("dz", f.GetDz());
      std::vector<float> all;
      if (mode == 1) all = f.GetAllValues();
      size_t at = 0;
      for (size_t i = 0; i < f.GetNTraces(); ++i) {
        SegYTrace * t = f.getTrace(static_cast<int>(i));
        if (t && mode == 1) for (size_t k = 0; k < f.GetNz(); ++k, ++at) if (at >= all.size() || all[at] != t->GetValue(k)) { d.num("GetAllValues differs", 1); break; }
        if (t) add(t, f.GetNz(), d);
        else if (mode != 3) { for (size_t k = i + 1; k < f.GetNTraces(); ++k) if (f.getTrace(static_cast<int>(k))) d.num("gap", 1); }
      }
    }
  }
  void next(SegY & f, Dump & d) {
    d.num("nz", f.GetNz()); d.num("dz", f.GetDz());
    for (int i = 0; i < 100000; ++i) {
      SegYTrace * t = f.GetNextTrace();
      if (!t) break;
      add(t, f.GetNz(), d);
      delete t;
    }
  }
  // find all trace headers first, then fetch the data of each trace by its inline and crossline
  void indexed(SegY & f, const S & s, bool keep, Dump & d) {
    f.FindAndSetGridGeometry(false, keep);
    d.num("nz", f.GetNz()); d.num("dz", f.GetDz());
    for (long m = 0; m < s.nil * s.nxl; ++m) {
        long j = s.across ? m % s.nil : m / s.nxl, i = s.across ? m / s.nil : m % s.nxl;
        if (s.down) i = s.nxl - 1 - i;
        int il = 100 + 2 * static_cast<int>(j), xl = 700 + static_cast<int>(i);
        if (!f.IsTraceDefined(il, xl)) continue;
        std::vector<float> v;
        double x = s.x(s.dx * (i + 0.5), s.dy * (j + 0.5)), y = s.y(s.dx * (i + 0.5), s.dy * (j + 0.5));
        if ((i + j) % 3 == 0) f.GetTraceData(il, xl, v);
        else if ((i + j) % 3 == 1) f.GetTraceData(x, y, v);
        else f.GetTraceData(f.GetFilePos(il, xl), v);
        if (keep) { const TraceHeader & h = f.GetTraceHeader(il, xl); x = h.GetUtmx(); y = h.GetUtmy(); il = h.GetInline(); xl = h.GetCrossline(); }
        Record r;
        r.push_back(num(x)); r.push_back(num(y)); r.push_back(num(il)); r.push_back(num(xl));
        for (float g : v) r.push_back(num(g));
        d.records.push_back(r);
      }
  }
  void add(SegYTrace * t, size_t nz, Dump & d) {
    Record r;
    r.push_back(num(t->GetX())); r.push_back(num(t->GetY())); r.push_back(num(t->GetInline())); r.push_back(num(t->GetCrossline()));
    for (size_t k = 0; k < nz; ++k) r.push_back(t->GetValue(k) == SEGY_MISSING ? str("missing") : num(t->GetValue(k)));
    d.records.push_back(r);
  }
};

// SEG-Y files of other programs: other number formats, coordinate scales and places of the header words
struct SegyForeign : Segy {
  SegyForeign() : Segy(3) {}
  struct L { int sc, x, y, il, xl; };
  static L places(const S & s) {
    static const L std_[6] = {{71, 73, 77, 9, 21}, {71, 73, 77, 221, 21}, {71, 181, 185, 189, 193}, {71, 73, 77, 5, 21}, {71, 73, 77, 181, 185}, {71, 73, 77, 185, 189}};
    static const L own[3] = {{71, 73, 77, 197, 201}, {215, 217, 221, 13, 17}, {89, 81, 85, 225, 229}};
    return s.head >= 10 ? own[s.head - 10] : std_[s.head];
  }
  TraceHeaderFormat layout(const S & s) override {
    if (s.head < 10) return TraceHeaderFormat(s.head);
    L l = places(s);
    return TraceHeaderFormat(0, 0, l.sc, l.x, l.y, l.il, l.xl, 109, 0);
  }
  double unit(const S & s) override { return 1e-6; }
  S shp(uint64_t shape) override {
    S s = Segy::shp(shape);
    Rng a(shape, 64);
    if ((shape & 7) == 4) return s;
    if (a.one_in(3)) s.head = 10 + static_cast<int>(a.in(0, 2));
    const short sc[10] = {0, 1, -10, -100, -1000, -10000, 10, 100, 1000, 1};
    s.scal = sc[a.in(0, 9)];
    s.x0 = 1000.0 * a.in(1, 150); s.y0 = 1000.0 * a.in(1, 150); s.dx = 2 * a.in(3, 20); s.dy = 2 * a.in(3, 20);
    if (s.scal < 0) { double f = 1.0 / std::min<int>(-s.scal, 100); s.x0 += 7 * f; s.y0 += 3 * f; }
    if (s.scal > 1) { s.dx = 2.0 * s.scal * a.in(1, 4); s.dy = 2.0 * s.scal * a.in(1, 4); }
    if (a.one_in(4)) { s.x0 = -s.x0; s.y0 = -s.y0; }
    turn(s, shape);
    return s;
  }
  static int number(uint64_t shape) { const int f[4] = {1, 2, 3, 5}; Rng a(shape, 65); return f[a.in(0, 3)]; }
  static void word(std::string & b, size_t at, uint32_t v) { for (int k = 0; k < 4; ++k) b[at + k] = static_cast<char>(v >> (24 - 8 * k)); }
  static void half(std::string & b, size_t at, uint32_t v) { for (int k = 0; k < 2; ++k) b[at + k] = static_cast<char>(v >> (8 - 8 * k)); }
  std::vector<T> traces(uint64_t shape, uint64_t seed) override { std::vector<std::string> raw; return both(shape, seed, raw); }
  std::vector<T> both(uint64_t shape, uint64_t seed, std::vector<std::string> & raw) {
    std::vector<T> v = Segy::traces(shape, seed);
    Rng b(seed, 66);
    int fmt = number(shape);
    for (T & t : v) {
      std::string o(t.data.size() * (fmt == 3 ? 2 : 4), 0);
      for (size_t k = 0; k < t.data.size(); ++k) {
        if (fmt == 1) {
          uint32_t frac = static_cast<uint32_t>(b.in(1 << 20, (1 << 24) - 1)), e = static_cast<uint32_t>(b.in(58, 70)), sign = b.one_in(2);
          if (b.one_in(40)) { frac = 0; e = 0; sign = 0; }
          t.data[k] = static_cast<float>(std::ldexp(sign ? -static_cast<double>(frac) : frac, 4 * (static_cast<int>(e) - 64) - 24));
          word(o, 4 * k, sign << 31 | e << 24 | frac);
        }
        else if (fmt == 2) { long x = b.in(-16000000, 16000000); t.data[k] = static_cast<float>(x); word(o, 4 * k, static_cast<uint32_t>(x)); }
        else if (fmt == 3) { long x = b.in(-32000, 32000); t.data[k] = static_cast<float>(x); half(o, 2 * k, static_cast<uint32_t>(x)); }
        else { uint32_t x; std::memcpy(&x, &t.data[k], 4); word(o, 4 * k, x); }
      }
      raw.push_back(o);
    }
    return v;
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    S s = shp(shape); L l = places(s);
    std::vector<std::string> raw;
    std::vector<T> v = both(shape, seed, raw);
    std::string o(3600, '\x40');
    for (int k = 0; k < 40; ++k) o[80 * k] = '\xc3';
    o.replace(3200, 400, std::string(400, '\0'));
    half(o, 3216, static_cast<uint32_t>(s.dz * 1000)); half(o, 3220, static_cast<uint32_t>(s.nz)); half(o, 3224, number(shape));
    double f = s.scal < 0 ? -1.0 * s.scal : s.scal > 0 ? 1.0 / s.scal : 1;
    for (size_t i = 0; i < v.size(); ++i) {
      std::string h(240, '\0');
      word(h, 0, static_cast<uint32_t>(i + 1));
      half(h, 114, static_cast<uint32_t>(s.nz)); half(h, 116, static_cast<uint32_t>(s.dz * 1000)); half(h, 108, static_cast<uint32_t>(s.z0));
      half(h, l.sc - 1, static_cast<uint32_t>(static_cast<int>(s.scal)));
      word(h, l.x - 1, static_cast<uint32_t>(std::lround(v[i].x * f))); word(h, l.y - 1, static_cast<uint32_t>(std::lround(v[i].y * f)));
      word(h, l.il - 1, static_cast<uint32_t>(v[i].il)); word(h, l.xl - 1, static_cast<uint32_t>(v[i].xl));
      o += h + raw[i];
    }
    std::ofstream q; OpenWrite(q, n, std::ios::out | std::ios::binary); q << o; q.close(); if (!q) throw IOError("segy");
  }
};

// a cube made of a grid: what is in the file is what the cube in memory contains
struct SegyGrid : Segy {
  SegyGrid() : Segy(2) {}
  SegY * cube(uint64_t shape, uint64_t seed, const std::string & n, bool file) {
    Rng a(shape, 47), b(seed, 48);
    long nx = size(a, 2, 5, 12), ny = size(a, 2, 5, 12), nz = size(a, 2, 12, 60), up = a.in(0, 3), down = a.in(0, 3);
    double x0 = 1000.0 * a.in(1, 400), y0 = 1000.0 * a.in(1, 400), dx = 2 * a.in(3, 20), dy = 2 * a.in(3, 20), dz = a.in(1, 4), z0 = 100.0 * a.in(0, 30);
    Volume v; v.SetDimensions(x0, y0, dx * nx, dy * ny); v.SetAngle(0.0);
    ConstantSurface<double> top(z0 + up * dz), bot(z0 + (up + nz) * dz); v.SetSurfaces(top, bot);
    StormContGrid g(v, nx, ny, nz);
    for (size_t i = 0; i < g.GetN(); ++i) g(i) = static_cast<float>(b.in(-100000000, 100000000)) * 0.0017f;
    SegyGeometry geo(x0, y0, dx, dy, nx, ny, 99.0, 699.5, 0.0, 2.0 / dy, 1.0 / dx, 0.0, 0.0);
    return new SegY(&g, &geo, z0, dz, static_cast<int>(nz + up + down), n, file, TraceHeaderFormat(TraceHeaderFormat::SEISWORKS), shape & 8);
  }
  void expect(uint64_t shape, uint64_t seed, const std::string & n, Dump & d) override {
    std::unique_ptr<SegY> f(cube(shape, seed, n, false));
    d.num("nz", f->GetNz()); d.num("dz", f->GetDz());
    for (size_t i = 0; i < f->GetNTraces(); ++i) add(f->getTrace(static_cast<int>(i)), f->GetNz(), d);
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override { std::unique_ptr<SegY> f(cube(shape, seed, n, true)); }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    SegY f(n, SEGY_MISSING, TraceHeaderFormat(TraceHeaderFormat::SEISWORKS));
    next(f, d);
  }
};

// ------------------------------------------------------------------ wells
struct RmsWellF : Format {
  RmsWellF() { prefix_ok = true; }
  struct W { std::string name; std::map<std::string, std::vector<double>> c; std::map<std::string, std::vector<int>> i; };
  W make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 10), b(seed, 11);
    long n = size(a, 1, 20, 400), nc = a.in(0, 3), nd = a.in(0, 2);
    W w; w.name = "W-" + std::to_string(b.in(1, 99));
    const char * xyz[3] = {"X", "Y", "Z"};
    for (int k = 0; k < 3; ++k) for (long j = 0; j < n; ++j) w.c[xyz[k]].push_back(dec(b, 1, 99999999, 1000.0));
    for (long k = 0; k < nc; ++k) for (long j = 0; j < n; ++j) w.c["CONT" + std::to_string(k)].push_back(b.one_in(10) ? -999.0 : dec(b, 0, 9999999, 10000.0));
    for (long k = 0; k < nd; ++k) for (long j = 0; j < n; ++j) w.i["DISC" + std::to_string(k)].push_back(j && b.one_in(10) ? -999 : static_cast<int>(b.in(0, 6)));
    return w;
  }
  void fill(const W & w, Dump & d) {
    d.str("name", w.name);
    std::string names; for (auto & p : w.c) names += p.first + " "; for (auto & p : w.i) names += p.first + " ";
    d.str("logs", names);
    size_t n = w.c.at("X").size();
    for (size_t j = 0; j < n; ++j) {
      Record r;
      for (auto & p : w.c) r.push_back(num(p.second[j], 1e-3 * 1e-3));
      for (auto & p : w.i) r.push_back(num(p.second[j]));
      d.records.push_back(r);
    }
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    W w = make(shape, seed);
    Well well(w.c, w.i, w.name);
    RMSWell r(well);
    r.WriteToFile(n);
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    (void)shape;
    RMSWell r(n);
    W w; w.name = r.GetWellName();
    w.c = r.GetContLog(); w.i = r.GetDiscLog();
    size_t m = w.c["X"].size();
    for (auto & p : w.c) if (p.second.size() != m) { d.str("length of " + p.first, "differs"); return; }
    for (auto & p : w.i) if (p.second.size() != m) { d.str("length of " + p.first, "differs"); return; }
    fill(w, d);
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto w = std::make_shared<RMSWell>(n);
    return [w](const std::string & to) { w->WriteToFile(to); };
  }
};
struct LasWellF : Format {
  LasWellF() { tail_ok = true; }
  virtual bool xy() { return false; }
  struct W { std::string name; long n; double start, step; bool time; std::vector<std::vector<double>> logs; };
  W make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 12), b(seed, 13);
    W w; w.n = size(a, 2, 20, 300); w.start = a.in(0, 8000) * 0.5; w.step = a.in(1, 8) * 0.125; w.time = a.one_in(2);
    w.name = "LAS" + std::to_string(b.in(1, 99));
    long nl = a.in(0, 4);
    for (long k = 0; k < nl; ++k) {
      std::vector<double> v;
      for (long j = 0; j < w.n; ++j) v.push_back(b.one_in(10) ? -999.25 : dec(b, -999999, 9999999, 1000.0));
      w.logs.push_back(v);
    }
    return w;
  }
  static std::vector<std::string> info(const W & w) { return {"Comp " + w.name, w.name + " field", "59 N 2 E", "2011-09-23", "uwi" + w.name}; }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    W w = make(shape, seed);
    d.str("name", w.name); d.num("logs", w.logs.size() + 1);
    for (const std::string & x : info(w)) d.str("info", x);
    for (size_t k = 0; k < w.logs.size(); ++k) d.str("unit", "u" + std::to_string(k));
    for (long j = 0; j < w.n; ++j) {
      Record r; r.push_back(num(w.start + j * w.step, 6e-4));
      for (auto & l : w.logs) { if (l[j] == -999.25) r.push_back(str("missing")); else r.push_back(num(l[j], 1e-6)); }
      d.records.push_back(r);
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    W w = make(shape, seed);
    LasWell l(w.name, w.n, w.start, w.step, w.time ? LasWell::Time : LasWell::Depth, w.time ? "MS" : "M", info(w)[0], info(w)[1], info(w)[2], info(w)[3], info(w)[4]);
    for (size_t k = 0; k < w.logs.size(); ++k) l.AddLog("LOG" + std::to_string(k), "u" + std::to_string(k), "a comment", w.logs[k]);
    std::vector<std::string> c; c.push_back("written by a simulation");
    l.WriteToFile(n, c);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    LasWell l(n);
    d.str("name", l.GetWellName()); d.num("logs", l.GetNContLog());
    if (xy()) { d.num("x", l.GetXPos0()); d.num("y", l.GetYPos0()); }
    else {                                          // what the library keeps without giving it out
      std::ifstream in; OpenRead(in, n);
      std::string t; std::map<std::string, std::string> m;
      while (std::getline(in, t)) {
        size_t p = t.find('.'), q = t.rfind(':');
        if (p == std::string::npos || q == std::string::npos || q < p) continue;
        std::string k = t.substr(0, p), v = t.substr(p + 1, q - p - 1);
        auto trim = [](std::string & x) { while (!x.empty() && isspace(static_cast<unsigned char>(x.back()))) x.pop_back(); while (!x.empty() && isspace(static_cast<unsigned char>(x[0]))) x.erase(0, 1); };
        trim(k); trim(v); m.insert({k, v});
      }
      if (in.bad()) throw IOError("las text");
      for (const char * k : {"COMP", "FLD", "LOC", "DATE", "UWI"}) d.str("info", m[k]);
    }
    const char * dn = l.HasContLog("DEPT") ? "DEPT" : "TIME";
    const std::vector<double> & depth = static_cast<const Well &>(l).GetContLog(dn);
    std::vector<const std::vector<double> *> v;
    for (size_t k = 0; k + 1 < l.GetNContLog(); ++k) {
      std::string nm = "LOG" + std::to_string(k);
      if (!l.HasContLog(nm)) { d.str("log", "LOG" + std::to_string(k) + " is not there"); return; }
      d.str("unit", l.GetLogUnit(nm));
      v.push_back(&static_cast<const Well &>(l).GetContLog(nm));
      if (v.back()->size() != depth.size()) { d.str("length", "differs"); return; }
    }
    for (size_t j = 0; j < depth.size(); ++j) {
      Record r; r.push_back(num(depth[j]));
      for (auto p : v) { if (l.IsMissing((*p)[j])) r.push_back(str("missing")); else r.push_back(num((*p)[j])); }
      d.records.push_back(r);
    }
  }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto w = std::make_shared<LasWell>(n);
    return [w](const std::string & to) { w->WriteToFile(to, std::vector<std::string>(1, "copied")); };
  }
};

// LAS files of other programs: wrapped, delimited by commas, with more sections, with or without the number of records
struct LasForeign : LasWellF {
  bool open;                                        // the header does not tell how many records there are
  explicit LasForeign(bool o) : open(o) { if (open) { tail_ok = false; prefix_ok = true; } }
  struct F { W w; double x, y; bool wrap, comma, par, oth; std::string unit; };
  F from(uint64_t shape, uint64_t seed) {
    Rng a(shape, 60), b(seed, 61);
    F f; f.w = make(shape, seed);
    f.x = dec(b, -99999999, 99999999, 100.0); f.y = dec(b, -99999999, 99999999, 100.0);
    f.wrap = b.one_in(2); f.comma = b.one_in(3); f.par = b.one_in(2); f.oth = b.one_in(2); f.unit = f.w.time ? "MS" : "M";
    if (b.one_in(2)) f.w.name = "34/10-A-" + std::to_string(b.in(1, 99)) + " T2";
    if (open) { double z = f.w.start; std::vector<double> v; for (long j = 0; j < f.w.n; ++j) { v.push_back(z); z += dec(b, 1, 9999, 1000.0); z = std::floor(z * 1000 + .5) / 1000; } f.w.logs.push_back(v); }
    return f;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    F f = from(shape, seed);
    size_t nl = f.w.logs.size() - (open ? 1 : 0);
    d.str("name", f.w.name); d.num("logs", nl + 1); d.num("x", f.x, 1e-6); d.num("y", f.y, 1e-6);
    for (size_t k = 0; k < nl; ++k) d.str("unit", "u" + std::to_string(k));
    for (long j = 0; j < f.w.n; ++j) {
      Record r; r.push_back(num(open ? f.w.logs.back()[j] : f.w.start + j * f.w.step, 6e-4));
      for (size_t k = 0; k < nl; ++k) { double v = f.w.logs[k][j]; if (v == -999.25) r.push_back(str("missing")); else r.push_back(num(v, 1e-6)); }
      d.records.push_back(r);
    }
  }
  static std::string t(double v, int p) { char b[64]; std::snprintf(b, sizeof b, "%.*f", p, v); return b; }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    F f = from(shape, seed);
    Rng b(seed, 62);
    size_t nl = f.w.logs.size() - (open ? 1 : 0);
    auto note = [&]() { return std::string(b.one_in(4) ? "# a remark. with : marks\n" : b.one_in(5) ? "\n" : ""); };
    std::string o = "~Version Information\n VERS.                 2.0 :  CWLS LOG ASCII STANDARD\n" + note() + " WRAP.                 " + (f.wrap ? "YES" : "NO") + " :  lines\n";
    if (f.comma) o += " DLM .               COMMA : delimiter\n";
    o += "~Well Information\n#MNEM.UNIT   DATA : DESCRIPTION\n STRT." + f.unit + "   " + t(f.w.start, 4) + " :START\n" + note();
    o += " STOP." + f.unit + "   " + (open ? t(b.one_in(2) ? f.w.start - 1 : -999.25, 4) : t(f.w.start + (f.w.n - 1) * f.w.step, 4)) + " :STOP\n";
    o += " STEP." + f.unit + "   " + t(open ? 0 : f.w.step, 4) + " :STEP\n NULL.   -999.2500 : missing\n COMP.   ANY COMPANY : COMPANY\n WELL.   " + f.w.name + " : WELL\n";
    o += note() + " XWELL.M   " + t(f.x, 2) + " : east\n YWELL.M   " + t(f.y, 2) + " : north\n";
    if (f.par && b.one_in(2)) { o += "~Parameter Information\n BHT.DEGC   35.5000 : temperature\n"; f.par = false; }
    o += "~Curve Information\n " + std::string(f.w.time ? "TIME" : "DEPT") + "." + f.unit + "      : along\n";
    for (size_t k = 0; k < nl; ++k) o += " LOG" + std::to_string(k) + " .u" + std::to_string(k) + "   00 000 : log no " + std::to_string(k) + "\n" + note();
    if (f.par) o += "~Parameter Information\n BHT.DEGC   35.5000 : temperature\n";
    if (f.oth) o += "~Other\n a free text\n";
    o += "~A  the data\n";
    for (long j = 0; j < f.w.n; ++j) {
      o += t(open ? f.w.logs.back()[j] : f.w.start + j * f.w.step, 4);
      for (size_t k = 0; k < nl; ++k) {
        bool nx = f.wrap && k % 3 == 0;
        o += (nx ? std::string("\n") : f.comma ? std::string(",") : std::string(b.in(1, 4), ' ')) + t(f.w.logs[k][j], 4);
      }
      o += "\n";
    }
    std::ofstream q; OpenWrite(q, n, std::ios::out | std::ios::binary); q << o; q.close(); if (!q) throw IOError("las");
  }
  bool xy() override { return true; }
};

// ------------------------------------------------------------------ point sets
struct Points : Format {
  PointSet::FileFormat fmt; double unit; bool active = false;               // active: leave out the points marked as not active
  Points(PointSet::FileFormat f, bool act = false) : fmt(f), unit(f == PointSet::RmsInternalPoints ? 1e3 : 1e6), active(act) {
    prefix_ok = true;
    if (f == PointSet::RoxarText) extra = 1;
  }
  PointSet make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 14), b(seed, 15);
    long n = size(a, 1, 25, 500), ni = 0, nf = 0, ns = 0;
    if (fmt == PointSet::RmsInternalPoints) { ni = a.in(active, 2); nf = a.in(0, 2); ns = a.in(0, 2); }
    PointSet p;
    for (long i = 0; i < n; ++i) {
      double x = dec(b, -90000000, 90000000, unit), y = dec(b, -90000000, 90000000, unit), z = dec(b, -90000000, 90000000, unit);
      if (x == 999.0 && y == 999.0) x = 998.0;
      p.AddPoint(Point(x, y, z));
    }
    for (long k = 0; k < ni; ++k) { bool mark = active && k == ni - 1; std::vector<int> v; for (long i = 0; i < n; ++i) v.push_back(static_cast<int>(mark ? b.in(0, 1) : b.in(-9, 99))); p.AddDiscreteParameter(mark ? "Active" : "disc" + std::to_string(k), v); }
    for (long k = 0; k < nf; ++k) { std::vector<double> v; for (long i = 0; i < n; ++i) v.push_back(b.one_in(9) ? -999.0 : dec(b, -9999999, 9999999, 1e3)); p.AddContParameter("cont" + std::to_string(k), v); }
    for (long k = 0; k < ns; ++k) { std::vector<std::string> v; for (long i = 0; i < n; ++i) v.push_back(b.one_in(3) ? "two words " + std::to_string(b.in(0, 9)) : "word" + std::to_string(b.in(0, 99))); p.AddStringParameter("text" + std::to_string(k), v); }
    return p;
  }
  void fill(const PointSet & p, Dump & d, bool choose = false) {
    const std::vector<int> * mark = NULL;
    if (choose) for (auto & t : p.GetDiscreteParameters()) if (t.first == "Active") mark = &t.second;
    std::string tags;
    for (auto & t : p.GetDiscreteParameters()) tags += "d:" + t.first + " ";
    for (auto & t : p.GetContParameters())     tags += "f:" + t.first + " ";
    for (auto & t : p.GetStringParameters())   tags += "s:" + t.first + " ";
    d.str("tags", tags);
    for (auto & t : p.GetDiscreteParameters()) if (t.second.size() != p.GetSize()) { d.str(t.first, "has another length"); return; }
    for (auto & t : p.GetContParameters())     if (t.second.size() != p.GetSize()) { d.str(t.first, "has another length"); return; }
    for (auto & t : p.GetStringParameters())   if (t.second.size() != p.GetSize()) { d.str(t.first, "has another length"); return; }
    for (size_t i = 0; i < p.GetSize(); ++i) {
      if (mark && (*mark)[i] != 1) continue;
      Record r;
      r.push_back(num(p[i].x, 0.1 / unit)); r.push_back(num(p[i].y, 0.1 / unit)); r.push_back(num(p[i].z, 0.1 / unit));
      for (auto & t : p.GetDiscreteParameters()) r.push_back(num(t.second[i]));
      for (auto & t : p.GetContParameters())     r.push_back(num(t.second[i], 1e-4));
      for (auto & t : p.GetStringParameters())   r.push_back(str(t.second[i]));
      d.records.push_back(r);
    }
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override { fill(make(shape, seed), d, active); }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override { make(shape, seed).WriteToFile(n, fmt); }
  void read(uint64_t, const std::string & n, Dump & d) override { PointSet p(n, active); fill(p, d); }
  std::function<void(const std::string &)> loaded(uint64_t , const std::string & n) override {
    auto p = std::make_shared<PointSet>(n); PointSet::FileFormat f = fmt;
    return [p, f](const std::string & to) { p->WriteToFile(to, f); };
  }
};

// ------------------------------------------------------------------ wavelets, matrices, vectors, trends
struct WaveletF : Format {
  WaveletF() { tail_ok = true; }
  struct W { long n; double dt; std::vector<double> v; };
  W make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 16), b(seed, 17);
    W w; w.n = 2 * size(a, 1, 20, 300) + 1; w.dt = a.in(1, 8) * 0.5;
    for (long i = 0; i < w.n; ++i) w.v.push_back(b.in(-99999, 99999) * 0.01);
    return w;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    W w = make(shape, seed);
    d.num("n", w.n); d.num("dt", w.dt, 1e-9);
    for (double v : w.v) d.records.push_back(Record(1, num(v, 1e-6)));
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    W w = make(shape, seed);
    Wavelet x(w.n, w.dt);
    long i = 0;
    for (Wavelet::iterator p = x.begin(); p != x.end(); ++p) *p = w.v[i++];
    std::vector<std::string> t; t.push_back("a header line");
    x.WriteToFile(n, JasonAscii, t);
  }
  void read(uint64_t, const std::string & n, Dump & d) override {
    Wavelet x(n, JasonAscii);
    d.num("n", x.GetNSamples()); d.num("dt", x.GetSampleInterval());
    for (Wavelet::const_iterator p = x.begin(); p != x.end(); ++p) d.records.push_back(Record(1, num(*p)));
  }
};
struct MatrixF : Format {
  LinalgFileFormat fmt; int kind;          // 0 matrix, 1 symmetric matrix, 2 vector
  MatrixF(LinalgFileFormat f, int k) : fmt(f), kind(k) { tail_ok = f == MatrixAscii; }
  void dims(uint64_t shape, int & r, int & c) {
    Rng a(shape, 18);
    r = static_cast<int>(size(a, 1, 9, 40)); c = static_cast<int>(size(a, 1, 9, 40));
    if (kind == 1) c = r;
    if (kind == 2) c = 1;
  }
  std::vector<double> vals(uint64_t shape, uint64_t seed, int r, int c) {
    (void)shape; Rng b(seed, 19);
    std::vector<double> v;
    for (int i = 0; i < r * c; ++i) v.push_back(b.in(-99999999, 99999999) * (b.one_in(5) ? 1e-12 : 1e-4));
    if (kind == 1) for (int i = 0; i < r; ++i) for (int j = 0; j < i; ++j) v[i * c + j] = v[j * c + i];
    return v;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    int r, c; dims(shape, r, c);
    std::vector<double> v = vals(shape, seed, r, c);
    for (double x : v) d.records.push_back(Record(1, num(x, fmt == MatrixAscii ? std::fabs(x) * 1e-8 : 0)));
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    int r, c; dims(shape, r, c);
    std::vector<double> v = vals(shape, seed, r, c);
    if (kind == 0) { Matrix m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = v[i * c + j]; WriteMatrixToFile(n, m, fmt); }
    if (kind == 1) { SymmetricMatrix m(r); for (int i = 0; i < r; ++i) for (int j = i; j < c; ++j) m(i, j) = v[i * c + j]; WriteMatrixToFile(n, m, fmt); }
    if (kind == 2) { Vector m(r); for (int i = 0; i < r; ++i) m(i) = v[i]; WriteVectorToFile(n, m, fmt); }
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    int r, c; dims(shape, r, c);
    if (kind == 2) { Vector m = ReadVectorFromFile(n, r, fmt); for (int i = 0; i < r; ++i) d.records.push_back(Record(1, num(m(i)))); }
    else { Matrix m = ReadMatrixFromFile(n, r, c, fmt); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) d.records.push_back(Record(1, num(m(i, j)))); }
  }
};

// ------------------------------------------------------------------ typed binary arrays through both kinds of stream
struct Raw : Format {
  bool big;
  explicit Raw(bool b) : big(b) {}
  struct P { int type; Endianess e; std::vector<double> v; };
  std::vector<P> make(uint64_t shape, uint64_t seed) {
    Rng a(shape, 20), b(seed, 21);
    std::vector<P> out;
    long parts = a.in(1, 5);
    for (long k = 0; k < parts; ++k) {
      P p; p.type = static_cast<int>(a.in(0, 4)); p.e = a.one_in(2) ? END_BIG_ENDIAN : END_LITTLE_ENDIAN;
      if (p.type == 4 ) p.e = END_BIG_ENDIAN;
      long n = size(a, 1, 40, 5000);
      for (long i = 0; i < n; ++i) {
        if (p.type == 0) p.v.push_back(static_cast<double>(b.in(-32768, 32767)));
        else if (p.type == 1) p.v.push_back(static_cast<double>(b.in(-2147483647, 2147483647)));
        else if (p.type == 2) p.v.push_back(static_cast<float>(b.in(-100000000, 100000000)) * 0.0017f);
        else if (p.type == 3) p.v.push_back(static_cast<double>(b.in(-1000000000000L, 1000000000000L)) / 1048577.0);
        else p.v.push_back(b.in(-65536, 65536) / 16.0);
      }
      const double odd[] = {0.0, -0.0, 1e-310, 4.9e-324, -1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, std::nan("")};
      const float oddf[] = {0.f, -0.f, 1e-40f, 1.4e-45f, -3.4028235e38f, HUGE_VALF, -HUGE_VALF, std::nanf("")};
      if (b.one_in(3)) for (int i = 0; i < 3; ++i) {
        double & x = p.v[b.in(0, n - 1)];
        long w = b.in(0, 7);
        x = p.type == 0 ? (w & 1 ? -32768 : 32767) : p.type == 1 ? (w & 1 ? -2147483648.0 : 2147483647.0) : p.type == 2 ? oddf[w] : p.type == 3 ? odd[w] : 0.0;
      }
      out.push_back(p);
    }
    return out;
  }
  void expect(uint64_t shape, uint64_t seed, const std::string &, Dump & d) override {
    for (const P & p : make(shape, seed)) { Record r; for (double v : p.v) r.push_back(num(v)); d.records.push_back(r); }
  }
  template <class F> void put(F & f, const std::vector<P> & v) {
    for (const P & p : v) {
      bool single = p.v.size() <= 3;
      if (p.type == 0) { std::vector<short> x(p.v.begin(), p.v.end()); if (single) for (short s : x) WriteBinaryShort(f, s, p.e); else WriteBinaryShortArray(f, x.begin(), x.end(), p.e); }
      if (p.type == 1) { std::vector<int> x(p.v.begin(), p.v.end()); if (single) for (int s : x) WriteBinaryInt(f, s, p.e); else WriteBinaryIntArray(f, x.begin(), x.end(), p.e); }
      if (p.type == 2) { std::vector<float> x(p.v.begin(), p.v.end()); if (single) for (float s : x) WriteBinaryFloat(f, s, p.e); else WriteBinaryFloatArray(f, x.begin(), x.end(), p.e); }
      if (p.type == 3) { if (single) for (double s : p.v) WriteBinaryDouble(f, s, p.e); else WriteBinaryDoubleArray(f, p.v.begin(), p.v.end(), p.e); }
      if (p.type == 4) { std::vector<float> x(p.v.begin(), p.v.end()); if (single) for (float s : x) WriteBinaryIbmFloat(f, s, p.e); else WriteBinaryIbmFloatArray(f, x.begin(), x.end(), p.e); }
    }
  }
  template <class F> void get(F & f, const std::vector<P> & v, Dump & d) {
    for (const P & p : v) {
      size_t n = p.v.size(); bool single = n <= 3; Record r;
      if (p.type == 0) { std::vector<short> x(n); if (single) for (short & s : x) s = ReadBinaryShort(f, p.e); else ReadBinaryShortArray(f, x.begin(), n, p.e); for (short s : x) r.push_back(num(s)); }
      if (p.type == 1) { std::vector<int> x(n); if (single) for (int & s : x) s = ReadBinaryInt(f, p.e); else ReadBinaryIntArray(f, x.begin(), n, p.e); for (int s : x) r.push_back(num(s)); }
      if (p.type == 2) { std::vector<float> x(n); if (single) for (float & s : x) s = ReadBinaryFloat(f, p.e); else ReadBinaryFloatArray(f, x.begin(), n, p.e); for (float s : x) r.push_back(num(s)); }
      if (p.type == 3) { std::vector<double> x(n); if (single) for (double & s : x) s = ReadBinaryDouble(f, p.e); else ReadBinaryDoubleArray(f, x.begin(), n, p.e); for (double s : x) r.push_back(num(s)); }
      if (p.type == 4) { std::vector<float> x(n); if (single) for (float & s : x) s = ReadBinaryIbmFloat(f, p.e); else ReadBinaryIbmFloatArray(f, x.begin(), n, p.e); for (float s : x) r.push_back(num(s)); }
      d.records.push_back(r);
    }
  }
  void write(uint64_t shape, uint64_t seed, const std::string & n) override {
    std::vector<P> v = make(shape, seed);
    if (big) { BigFile f; f.OpenWrite(n); put(f, v); f.close(); if (f.GetErrorCode()) throw IOError("closing " + n); }
    else { std::ofstream f; OpenWrite(f, n, std::ios::out | std::ios::binary); put(f, v); f.close(); if (!f) throw IOError("closing " + n); }
  }
  void read(uint64_t shape, const std::string & n, Dump & d) override {
    std::vector<P> v = make(shape, 0);
    if (big) { BigFile f; f.OpenRead(n); get(f, v, d); }
    else { std::ifstream f; OpenRead(f, n, std::ios::in | std::ios::binary); get(f, v, d); }
  }
};

std::map<std::string, Format *> & table() {
  static std::map<std::string, Format *> * t = NULL;
  if (!t) {
    t = new std::map<std::string, Format *>;
    auto & m = *t;
    m["irap"] = new SurfIrap; m["irap_rotated"] = new SurfIrapRotated; m["storm_surface"] = new SurfStorm;
    m["storm_binary"] = new StormCont(false); m["storm_ascii"] = new StormCont(true); m["sgri_storm"] = new SgriStorm; m["sgri"] = new Sgri;
    m["facies_binary"] = new StormFacies(false); m["facies_ascii"] = new StormFacies(true);
    m["segy_stream"] = new Segy(0); m["segy_cube"] = new Segy(1); m["segy_foreign"] = new SegyForeign; m["segy_grid"] = new SegyGrid; m["crava"] = new Crava;
    m["sgri_surface"] = new SgriSurf(false); m["sgri_surface_rotated"] = new SgriSurf(true); m["sgri_surfaces"] = new SgriSurf(true, true);
    m["rms_well"] = new RmsWellF; m["las_well"] = new LasWellF; m["las_foreign"] = new LasForeign(false); m["las_open"] = new LasForeign(true);
    m["points_xyz"] = new Points(PointSet::GeneralXYZ); m["points_roxar"] = new Points(PointSet::RoxarText);
    m["points_rms"] = new Points(PointSet::RmsInternalPoints); m["points_active"] = new Points(PointSet::RmsInternalPoints, true);
    m["wavelet"] = new WaveletF;
    m["matrix_ascii"] = new MatrixF(MatrixAscii, 0); m["matrix_binary"] = new MatrixF(MatrixBinary, 0);
    m["symmetric_ascii"] = new MatrixF(MatrixAscii, 1); m["symmetric_binary"] = new MatrixF(MatrixBinary, 1);
    m["vector_ascii"] = new MatrixF(MatrixAscii, 2); m["vector_binary"] = new MatrixF(MatrixBinary, 2);
    m["raw_stream"] = new Raw(false); m["raw_bigfile"] = new Raw(true);
    more_formats(m);
  }
  return *t;
}

bool same(const Item & a, const Item & b) {
  if (a.text != b.text) return false;
  if (a.text) return a.s == b.s;
  if (std::isnan(a.v) || std::isnan(b.v)) return std::isnan(a.v) && std::isnan(b.v);
  if (a.tol == 0) return a.v == b.v && std::signbit(a.v) == std::signbit(b.v);
  return std::fabs(a.v - b.v) <= a.tol;
}
bool same(const Record & a, const Record & b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
std::string show(const Item & i) {
  if (i.text) return "'" + i.s + "'";
  char buf[40]; std::snprintf(buf, sizeof buf, "%.10g", i.v); return buf;
}
std::string differ(const Record & a, const Record & b) {
  if (a.size() != b.size()) return "lengths " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i])) return (a[i].label.empty() ? "item " + std::to_string(i) : a[i].label) + " is " + show(b[i]) + " instead of " + show(a[i]);
  return "";
}
// a is what the record was, b what is left of it: everything up to the cut as written, the item at the cut
// anything, what would have followed undefined
bool cut_short(const Record & a, const Record & b) {
  if (a.size() != b.size()) return false;
  size_t d = 0;
  while (d < a.size() && same(a[d], b[d])) ++d;
  for (size_t i = d + 1; i < b.size(); ++i)
    if (!same(a[i], b[i]) && !(b[i].text ? b[i].s.empty() || b[i].s == "UNDEF" : b[i].v == -999)) return false;
  return true;
}
} // namespace

uint64_t reuse = 0;
Format * find_format(const std::string & n) { auto i = table().find(n); return i == table().end() ? NULL : i->second; }
std::vector<std::string> format_names() { std::vector<std::string> v; for (auto & p : table()) v.push_back(p.first); return v; }

std::string compare(const Format & f, const Dump & want, const Dump & got) {
  size_t n = got.records.size(), N = want.records.size(), good = 0;
  while (good < n && good < N && same(want.records[good], got.records[good])) ++good;
  bool head = same(want.head, got.head);
  if (head && n == N && good == N) return "EQ";
  if (f.prefix_ok && n == 0) return "PREFIX 0/" + std::to_string(N);
  if (head && f.prefix_ok && f.exact_prefix && n <= N && good == n) return "PREFIX " + std::to_string(n) + "/" + std::to_string(N);
  if (head && f.prefix_ok && !f.exact_prefix && n <= N + f.extra && (good == n || (good + 1 == n && (good >= N || cut_short(want.records[good], got.records[good]))))) return "PREFIX " + std::to_string(n) + "/" + std::to_string(N);
  if (head && f.tail_ok && n == N && good + 1 == N) return "TAIL";
  if (head && n == N) {
    bool soft = true;
    for (size_t i = 0; i < N && soft; ++i) {
      soft = want.records[i].size() == got.records[i].size();
      for (size_t k = 0; soft && k < want.records[i].size(); ++k) soft = want.records[i][k].soft || same(want.records[i][k], got.records[i][k]);
    }
    if (soft) return "TAIL";
  }
  if (f.subset_ok && head) {
    size_t k = 0;
    for (size_t i = 0; i < N && k < n; ++i) if (same(want.records[i], got.records[k])) ++k;
    if (k == n) return "PREFIX";
  }
  for (const Dump & a : want.alts) { std::string c = compare(f, a, got); if (c.compare(0, 4, "DIFF") != 0) return "PREFIX"; }
  if (!head) return "DIFF header: " + differ(want.head, got.head);
  if (good < n && good < N) return "DIFF record " + std::to_string(good) + " of " + std::to_string(N) + ": " + differ(want.records[good], got.records[good]);
  return "DIFF " + std::to_string(n) + " records instead of " + std::to_string(N);
}

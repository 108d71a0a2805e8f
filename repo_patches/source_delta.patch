From da4fdfb319bdb26bcd29e25c26352abcf3dea6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:36 +0000
Subject: [PATCH 01/40] fix: release the random generator that every 1D and 2D
 simulation leaked

---
 src/nrlib/variogram/gaussianfield.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..d7a20d1 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -27,6 +27,7 @@
 #include "../grid/grid2d.hpp"
 #include "../grid/grid.hpp"
 #include "../random/random.hpp"
+#include "../exception/exception.hpp"
 
 #include "../fft/fftgrid2d.hpp"
 #include "../fft/fftgrid3d.hpp"
@@ -198,12 +199,13 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                                     // bool   user_defined_padding,
                                     Grid2D<double> & grid_out)
 {
+  RandomGenerator   local_rg;
   RandomGenerator * rg = NULL;
   try {
-    unsigned long seed = Random::GetStartSeed();
-    rg = new RandomGenerator(seed);
+    local_rg.Initialize(Random::GetStartSeed());
+    rg = &local_rg;
   }
-  catch (std::exception) {
+  catch (NRLib::Exception &) {
     // This will occur if NRLib::Random is not initilized. In this case,
     // use rg = NULL, which will be resolved by the other
     // Simulate2DGaussianField function
@@ -279,9 +281,10 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
-    rg->Initialize(NRLib::Random::DrawUint32());
+    local_rg.Initialize(NRLib::Random::DrawUint32());
+    rg = &local_rg;
   }
   for (int k = 0; k < n_fields; k++) {
     for (size_t i = 0; i < nx_tot; i++)
@@ -318,9 +321,10 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
-    rg->Initialize(NRLib::Random::DrawUint32());
+    local_rg.Initialize(NRLib::Random::DrawUint32());
+    rg = &local_rg;
   }
   std::vector<double> noise(nxp);
   for(size_t i = 0; i < nxp; i++)
-- 
2.43.0


From 41629e10dcb14300968fbfb86eff1edc61e8d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 02/40] fix: report FFT memory and plan failures as exceptions
 instead of dereferencing NULL

---
 src/gaussfft.cpp            |  2 +-
 src/nrlib/fft/fft.cpp       |  7 +++++--
 src/nrlib/fft/fft.hpp       | 32 ++++++++++++++++++++++++--------
 src/nrlib/fft/fftgrid2d.cpp | 13 +++++++++----
 src/nrlib/fft/fftgrid2d.hpp |  7 +++++++
 src/nrlib/fft/fftgrid3d.cpp | 13 +++++++++----
 src/nrlib/fft/fftgrid3d.hpp |  7 +++++++
 7 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..f29793c 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -122,7 +122,7 @@ py::array_t<double> GaussFFT::SimulateWithAdvancedSettings(NRLib::Variogram * va
   try {
     NRLib::Random::GetStartSeed();
   }
-  catch (NRLib::Exception e) {
+  catch (NRLib::Exception &) {
     // NRLib::Random is not initialized yet. Use empty initializer:
     NRLib::Random::Initialize();
   }
diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..6f669ef 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "fft.hpp"
+#include "../exception/exception.hpp"
 
 template <>
 void NRLib::NRLibPrivate::ComputeFFT1D<double>(size_t n,
@@ -28,7 +29,8 @@ void NRLib::NRLibPrivate::ComputeFFT1D<double>(size_t n,
 {
   fftw_complex* out_data = reinterpret_cast<fftw_complex*>(out);
   fftw_plan p = fftw_plan_dft_r2c_1d(static_cast<int>(n), in, out_data, FFTW_ESTIMATE);
-  assert(p != 0);
+  if (p == NULL)
+    throw NRLib::FFTError("Failed to create FFT plan.");
 
   fftw_execute(p);
   fftw_destroy_plan(p);
@@ -41,7 +43,8 @@ void NRLib::NRLibPrivate::ComputeFFTInv1D<double>(size_t n,
 {
   fftw_complex* in_data = reinterpret_cast<fftw_complex*>(in);
   fftw_plan p = fftw_plan_dft_c2r_1d(static_cast<int>(n), in_data, out, FFTW_ESTIMATE);
-  assert(p != 0);
+  if (p == NULL)
+    throw NRLib::FFTError("Failed to create FFT plan.");
 
   fftw_execute(p);
   fftw_destroy_plan(p);
diff --git a/src/nrlib/fft/fft.hpp b/src/nrlib/fft/fft.hpp
index c03d6b0..2efaa6d 100644
--- a/src/nrlib/fft/fft.hpp
+++ b/src/nrlib/fft/fft.hpp
@@ -26,6 +26,7 @@
 #include <cmath>
 #include <complex>
 #include <iterator>
+#include <new>
 #include <vector>
 
 #include <fftw3.h>
@@ -61,6 +62,21 @@ namespace NRLib {
      // Declare specialization - to ensure Linux compilation.
     template <> void ComputeFFT1D(size_t size, double *in, std::complex<double> * out);
     template <> void ComputeFFTInv1D(size_t size, std::complex<double> * in, double *out);
+    /// Memory block allocated with fftw_malloc. Released when the block goes out of scope.
+    /// \throw std::bad_alloc if the memory can not be allocated.
+    template <typename T> class FFTBuffer {
+    public:
+      explicit FFTBuffer(size_t n) : data_(reinterpret_cast<T *>(fftw_malloc(n * sizeof(T)))) {
+        if (data_ == NULL)
+          throw std::bad_alloc();
+      }
+      ~FFTBuffer() { fftw_free(data_); }
+      T * Get() { return data_; }
+    private:
+      FFTBuffer(const FFTBuffer &);
+      FFTBuffer & operator=(const FFTBuffer &);
+      T * data_;
+    };
     template<class FI> void AddPadding(FI begin, FI end, double *v, size_t padSize, size_t sizeOrig, double scale_factor);
   }
 }
@@ -88,7 +104,8 @@ void NRLib::ComputeFFT1D(FI begin, FI end, std::vector<std::complex<double> >& v
     pad_size = FindNewSizeWithPadding(pad_size + orig_size) - orig_size;
 
   size_t tot_size = orig_size + pad_size;
-  double * real_data = reinterpret_cast<double *> (fftw_malloc(tot_size * sizeof(double)));
+  NRLibPrivate::FFTBuffer<double> real_buffer(tot_size);
+  double * real_data = real_buffer.Get();
 
   FI itLoop = begin;
   double scale_factor(1.0);
@@ -98,7 +115,8 @@ void NRLib::ComputeFFT1D(FI begin, FI end, std::vector<std::complex<double> >& v
     real_data[i] = scale_factor  * (*itLoop++);
 
   size_t complex_size = (tot_size / 2) + 1;
-  std::complex<double> * complex_data = reinterpret_cast<std::complex<double> *> (fftw_malloc(complex_size * sizeof(std::complex<double>)));
+  NRLibPrivate::FFTBuffer<std::complex<double> > complex_buffer(complex_size);
+  std::complex<double> * complex_data = complex_buffer.Get();
 
   NRLibPrivate::AddPadding(begin, end, real_data, pad_size, orig_size, scale_factor);
   NRLibPrivate::ComputeFFT1D(tot_size, real_data, complex_data);
@@ -111,8 +129,6 @@ void NRLib::ComputeFFT1D(FI begin, FI end, std::vector<std::complex<double> >& v
     vOut[i] = complex_data[i];;
     vOut[tot_size - i] = complex_data[i];
   }
-  fftw_free(real_data);
-  fftw_free(complex_data);
 }
 
 template<class FI>
@@ -126,11 +142,13 @@ NRLib::ComputeFFTInv1D(const std::vector<std::complex<double> >& vIn, FI begin,
   size_t data_size = distance(begin, end);
 
   //Copy values in vector to the correct internal data structures
-  std::complex<double> * complex_data = reinterpret_cast<std::complex<double> *> (fftw_malloc(tot_size * sizeof(std::complex<double>)));
+  NRLibPrivate::FFTBuffer<std::complex<double> > complex_buffer(tot_size);
+  std::complex<double> * complex_data = complex_buffer.Get();
   for (size_t i = 0; i < tot_size; i++)
     complex_data[i] = vIn[i];
 
-  double * real_data = reinterpret_cast<double *> (fftw_malloc(tot_size * sizeof(double)));
+  NRLibPrivate::FFTBuffer<double> real_buffer(tot_size);
+  double * real_data = real_buffer.Get();
 
   NRLibPrivate::ComputeFFTInv1D(tot_size, complex_data, real_data);
 
@@ -141,8 +159,6 @@ NRLib::ComputeFFTInv1D(const std::vector<std::complex<double> >& vIn, FI begin,
   for (size_t i = 0; i < data_size; i++) {
     *begin++ = real_data[i] * scale_factor;
   }
-  fftw_free(real_data);
-  fftw_free(complex_data);
 }
 
 /// Implementation "private"
diff --git a/src/nrlib/fft/fftgrid2d.cpp b/src/nrlib/fft/fftgrid2d.cpp
index 8e3c5a5..f2a97d5 100644
--- a/src/nrlib/fft/fftgrid2d.cpp
+++ b/src/nrlib/fft/fftgrid2d.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "fftgrid2d.hpp"
+#include "../exception/exception.hpp"
 
 namespace NRLib {
 
@@ -30,7 +31,8 @@ namespace NRLib {
     fftw_complex* out_data = reinterpret_cast<fftw_complex*>(out);
     fftw_plan p = fftw_plan_dft_r2c_2d(static_cast<int>(nj), static_cast<int>(ni),
       in, out_data, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftw_execute(p);
     fftw_destroy_plan(p);
@@ -44,7 +46,8 @@ namespace NRLib {
     fftw_complex* in_data = reinterpret_cast<fftw_complex*>(in);
     fftw_plan p = fftw_plan_dft_c2r_2d(static_cast<int>(nj), static_cast<int>(ni),
       in_data, out, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftw_execute(p);
     fftw_destroy_plan(p);
@@ -58,7 +61,8 @@ namespace NRLib {
     fftwf_complex* out_data = reinterpret_cast<fftwf_complex*>(out);
     fftwf_plan p = fftwf_plan_dft_r2c_2d(static_cast<int>(nj), static_cast<int>(ni),
       in, out_data, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftwf_execute(p);
     fftwf_destroy_plan(p);
@@ -72,7 +76,8 @@ namespace NRLib {
     fftwf_complex* in_data = reinterpret_cast<fftwf_complex*>(in);
     fftwf_plan p = fftwf_plan_dft_c2r_2d(static_cast<int>(nj), static_cast<int>(ni),
       in_data, out, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftwf_execute(p);
     fftwf_destroy_plan(p);
diff --git a/src/nrlib/fft/fftgrid2d.hpp b/src/nrlib/fft/fftgrid2d.hpp
index 375dab2..c8e6cfe 100644
--- a/src/nrlib/fft/fftgrid2d.hpp
+++ b/src/nrlib/fft/fftgrid2d.hpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <complex>
+#include <new>
 #include <iostream>
 
 // Must set MKL's /include/fftw or fftw's include directory as additional include directory.
@@ -187,6 +188,12 @@ FFTGrid2D<T>::FFTGrid2D(size_t ni, size_t nj,  size_t padding_ni,
   size_t complex_datalen = n_complex * sizeof(std::complex<T>);
   complex_data_ = reinterpret_cast<std::complex<T>*>(fftw_malloc(complex_datalen));
 
+  if (real_data_ == NULL || complex_data_ == NULL) {
+    fftw_free(real_data_);
+    fftw_free(complex_data_);
+    throw std::bad_alloc();
+  }
+
   for (size_t i = 0; i < ni_tot_*nj_tot_; ++i) {
     real_data_[i] = 0;
   }
diff --git a/src/nrlib/fft/fftgrid3d.cpp b/src/nrlib/fft/fftgrid3d.cpp
index 9200390..32545d9 100644
--- a/src/nrlib/fft/fftgrid3d.cpp
+++ b/src/nrlib/fft/fftgrid3d.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "fftgrid3d.hpp"
+#include "../exception/exception.hpp"
 
 namespace NRLib {
 
@@ -30,7 +31,8 @@ namespace NRLib {
     fftw_complex* out_data = reinterpret_cast<fftw_complex*>(out);
     fftw_plan p = fftw_plan_dft_r2c_3d(static_cast<int>(nk), static_cast<int>(nj), static_cast<int>(ni),
       in, out_data, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftw_execute(p);
     fftw_destroy_plan(p);
@@ -44,7 +46,8 @@ namespace NRLib {
     fftw_complex* in_data = reinterpret_cast<fftw_complex*>(in);
     fftw_plan p = fftw_plan_dft_c2r_3d(static_cast<int>(nk), static_cast<int>(nj), static_cast<int>(ni),
       in_data, out, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftw_execute(p);
     fftw_destroy_plan(p);
@@ -58,7 +61,8 @@ namespace NRLib {
     fftwf_complex* out_data = reinterpret_cast<fftwf_complex*>(out);
     fftwf_plan p = fftwf_plan_dft_r2c_3d(static_cast<int>(nk), static_cast<int>(nj), static_cast<int>(ni),
       in, out_data, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftwf_execute(p);
     fftwf_destroy_plan(p);
@@ -72,7 +76,8 @@ namespace NRLib {
     fftwf_complex* in_data = reinterpret_cast<fftwf_complex*>(in);
     fftwf_plan p = fftwf_plan_dft_c2r_3d(static_cast<int>(nk), static_cast<int>(nj), static_cast<int>(ni),
       in_data, out, FFTW_ESTIMATE);
-    assert(p != 0);
+    if (p == NULL)
+      throw FFTError("Failed to create FFT plan.");
 
     fftwf_execute(p);
     fftwf_destroy_plan(p);
diff --git a/src/nrlib/fft/fftgrid3d.hpp b/src/nrlib/fft/fftgrid3d.hpp
index 985fe63..61e06f4 100644
--- a/src/nrlib/fft/fftgrid3d.hpp
+++ b/src/nrlib/fft/fftgrid3d.hpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <complex>
+#include <new>
 
 // Must set MKL's /include/fftw or fftw's include directory as additional include directory.
 #include <fftw3.h>
@@ -211,6 +212,12 @@ FFTGrid3D<T>::FFTGrid3D(size_t ni, size_t nj,  size_t nk, size_t padding_ni,
   size_t complex_datalen = n_complex * sizeof(std::complex<T>);
   complex_data_ = reinterpret_cast<std::complex<T>*>(fftw_malloc(complex_datalen));
 
+  if (real_data_ == NULL || complex_data_ == NULL) {
+    fftw_free(real_data_);
+    fftw_free(complex_data_);
+    throw std::bad_alloc();
+  }
+
   for (size_t i = 0; i < ni_tot_*nj_tot_*nk_tot_; ++i)
     real_data_[i] = 0;
 
-- 
2.43.0


From d058c7af1110bc4de8215b129b2cf41dc8e89cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:38 +0000
Subject: [PATCH 03/40] fix: serialise access to the process-wide random
 generator

---
 src/gaussfft.cpp          | 26 ++++++++++++++++++++++++++
 src/gaussfft.hpp          |  4 ++++
 src/gaussfftinterface.cpp |  5 ++---
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index f29793c..5aef453 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -5,6 +5,7 @@
 #include <pybind11/numpy.h>
 
 #include <iostream>
+#include <mutex>
 
 #include "nrlib/iotools/stringtools.hpp"
 #include "nrlib/exception/exception.hpp"
@@ -17,6 +18,14 @@
 
 namespace py = pybind11;
 
+namespace {
+  // The module declares that it runs without the GIL and with one GIL per
+  // interpreter, while NRLib::Random is one generator for the whole process.
+  // Every access to that generator is made under this lock. The Python API is
+  // never used while the lock is held.
+  std::mutex random_mutex;
+}
+
 /***************************/
 std::string GaussFFT::Quote()
 {
@@ -92,6 +101,20 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
   return NRLib::Variogram::Create(t, power, range_x, range_y, range_z, azimuth_angle, dip_angle, 1.0);
 }
 
+/****************************************/
+void GaussFFT::SetSeed(unsigned long seed)
+{
+  std::lock_guard<std::mutex> lock(random_mutex);
+  NRLib::Random::Initialize(seed);
+}
+
+/******************************/
+unsigned long GaussFFT::GetSeed()
+{
+  std::lock_guard<std::mutex> lock(random_mutex);
+  return NRLib::Random::GetStartSeed();
+}
+
 /******************************************************************/
 py::array_t<double> GaussFFT::Simulate(NRLib::Variogram * variogram,
                                        size_t             nx,
@@ -119,6 +142,7 @@ py::array_t<double> GaussFFT::SimulateWithAdvancedSettings(NRLib::Variogram * va
                                                            double             scaling_y,
                                                            double             scaling_z)
 {
+  std::unique_lock<std::mutex> lock(random_mutex);
   try {
     NRLib::Random::GetStartSeed();
   }
@@ -137,6 +161,8 @@ py::array_t<double> GaussFFT::SimulateWithAdvancedSettings(NRLib::Variogram * va
     result = GaussFFT::Simulate3D(variogram, nx, dx, ny, dy, nz, dz, padding_x, padding_y, padding_z, scaling_x, scaling_y, scaling_z);
   }
 
+  lock.unlock();
+
   py::array_t<double> np_result = py::cast(result);
   return np_result;
 }
diff --git a/src/gaussfft.hpp b/src/gaussfft.hpp
index 6cd5a5f..e9072eb 100644
--- a/src/gaussfft.hpp
+++ b/src/gaussfft.hpp
@@ -29,6 +29,10 @@ CreateVariogram(const std::string & type,
                 double      dip_angle,
                 double      power);
 
+void SetSeed(unsigned long seed);
+
+unsigned long GetSeed();
+
 py::array_t<double>Simulate(NRLib::Variogram * variogram,
                                        size_t             nx,
                                        double             dx,
diff --git a/src/gaussfftinterface.cpp b/src/gaussfftinterface.cpp
index 41bbb5e..5f27095 100644
--- a/src/gaussfftinterface.cpp
+++ b/src/gaussfftinterface.cpp
@@ -186,9 +186,8 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // NRLib::Random
   //
   {
-    void(*ptr)(unsigned long) = &NRLib::Random::Initialize;
-    m.def("seed", ptr,                          set_seed_docstring.c_str());
-    m.def("seed", &NRLib::Random::GetStartSeed, get_seed_docstring.c_str());
+    m.def("seed", &GaussFFT::SetSeed, set_seed_docstring.c_str());
+    m.def("seed", &GaussFFT::GetSeed, get_seed_docstring.c_str());
   }
 
   //
-- 
2.43.0


From 7ae58eeb80f1afb75cd4ea567da79f50b881fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:53 +0000
Subject: [PATCH 04/40] fix: keep the smoothing kernel from underflowing to
 zero for short variogram ranges

---
 src/nrlib/variogram/fftcovgrid.cpp |  8 +++++---
 src/nrlib/variogram/fftcovgrid.hpp | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index 0a898d7..b6dd655 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -82,9 +82,11 @@ namespace NRLib { namespace FFTCovGridUtilities
     assert(scaling_z > 1e-12);
     std::vector<double> axis_ranges = FFTCovGridUtilities::FindVariogramRanges(variogram);
 
-    double sx = pow(scaling_x, 1.0/(axis_ranges[0] * axis_ranges[0]));
-    double sy = pow(scaling_y, 1.0/(axis_ranges[1] * axis_ranges[1]));
-    double sz = pow(scaling_z, 1.0/(axis_ranges[2] * axis_ranges[2]));
+    // The factors are kept as logarithms: pow(scaling, 1/range^2) itself underflows
+    // to zero for short ranges.
+    double sx = log(scaling_x)/(axis_ranges[0] * axis_ranges[0]);
+    double sy = log(scaling_y)/(axis_ranges[1] * axis_ranges[1]);
+    double sz = log(scaling_z)/(axis_ranges[2] * axis_ranges[2]);
 
     std::vector<double> scaling_factors;
     scaling_factors.push_back(sx);
diff --git a/src/nrlib/variogram/fftcovgrid.hpp b/src/nrlib/variogram/fftcovgrid.hpp
index 56e7030..3290008 100644
--- a/src/nrlib/variogram/fftcovgrid.hpp
+++ b/src/nrlib/variogram/fftcovgrid.hpp
@@ -49,7 +49,7 @@ private:
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 };
 
 /// Same as FFTCovGrid1D, but for two dimensions
@@ -74,9 +74,9 @@ private:
                                   double            scaling_x,
                                   double            scaling_y);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 };
 
 /// Same as FFTCovGrid1D, but for three dimensions
@@ -106,11 +106,11 @@ private:
                                   double            scaling_y,
                                   double            scaling_z);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 
-  double FindSmoothingFactorZ(double ddz) { return pow(sz_, ddz * ddz); }
+  double FindSmoothingFactorZ(double ddz) { return exp(sz_ * ddz * ddz); }
 };
 
 }
-- 
2.43.0


From a23a81e1b3a965ffeaa14abb4256526eab06e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:56 +0000
Subject: [PATCH 05/40] fix: report a failing disk while reading text files
 instead of looping or stopping short

A read error sets badbit, not eofbit. CheckEndOfFile then reported that more
data follows (for ever), ReadNextQuoted never left its loops, and a token or
line that was cut short by the error was returned as if it were complete.
---
 src/nrlib/iotools/fileio.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index f751ff5..145e981 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -225,6 +225,8 @@ std::istream& NRLib::ReadNextToken(std::istream & stream,
       s = s+c;
     }
   }
+  if (stream.bad()) // The token may be cut short.
+    throw IOError("Error reading from file.");
   if (stream.good() == true) // Do not insert anything at eof.
     stream.putback(c);       // Put back to make sure that line-numbers are OK.
   return stream;
@@ -258,6 +260,8 @@ std::istream& NRLib::GetNextNonEmptyLine(std::istream & stream,
       return stream;
     }
   }
+  if (stream.bad())
+    throw IOError("Error reading from file.");
   line = "";
   return stream;
 }
@@ -298,6 +302,8 @@ void NRLib::SkipComments(std::istream & stream,
       if (c == '\n')
         line_num++;
     }
+    if (stream.bad())
+      throw IOError("Error reading from file.");
 
     if (c == comment_symbol) {
       std::getline(stream, line);
@@ -315,6 +321,9 @@ bool NRLib::CheckEndOfFile(std::istream& stream)
 {
   char c;
   stream >> c;
+  if (stream.bad()) {
+    throw IOError("Error reading from file.");
+  }
   if (stream.eof()) {
     return true;
   }
@@ -421,7 +430,7 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
   char c = 0;
 
   int found = 0;
-  while( found == 0 && !stream.eof() ){
+  while( found == 0 && stream.good() ){
     stream.get(c);
     if (c == '\n'){
       line++;
@@ -432,7 +441,7 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
     }
   }
   s ="";
-  while( found == 1  && !stream.eof() ) {
+  while( found == 1  && stream.good() ) {
     s = s+c;
     stream.get(c);
     if (c == '\n'){
@@ -442,6 +451,8 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
       found++;
     }
   }
+  if (stream.bad())
+    throw IOError("Error reading from file.");
   if (s == "")              //We are at end of file if nothing is read.
     throw EndOfFile();
 
-- 
2.43.0


From f8d906da0125b1928d17f7bab36971b891ca8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:31 +0000
Subject: [PATCH 06/40] fix: notice short reads and failed writes of BigFile
 and SEG-Y files

The binary readers treated any non-empty read from a BigFile as complete, so a
truncated file was padded with whatever the buffer held; the SEG-Y binary and
trace headers did the same. BigFile::close threw away the result of fclose and
SegY never flushed its output, so a full disk went unnoticed. A SEG-Y file
without traces made ReadAllTraces write outside its trace table.
---
 src/nrlib/iotools/bigfile.cpp    | 26 +++++++++++++++++++++++---
 src/nrlib/iotools/bigfile.hpp    |  6 ++++++
 src/nrlib/iotools/fileio.hpp     | 20 ++++++++++----------
 src/nrlib/segy/commonheaders.cpp |  3 ++-
 src/nrlib/segy/segy.cpp          | 12 +++++++-----
 src/nrlib/segy/traceheader.cpp   |  2 +-
 6 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/nrlib/iotools/bigfile.cpp b/src/nrlib/iotools/bigfile.cpp
index 73185eb..a3c5be5 100644
--- a/src/nrlib/iotools/bigfile.cpp
+++ b/src/nrlib/iotools/bigfile.cpp
@@ -47,7 +47,12 @@ BigFile::BigFile()
 
 BigFile::~BigFile()
 {
-  close();
+  try {
+    close();
+  }
+  catch (IOError&) {
+    // Can not be reported from here. Use close() to know.
+  }
 }
 
 
@@ -163,14 +168,29 @@ void BigFile::clear()
 }
 
 
+void BigFile::flush()
+{
+  if (file_ != NULL && fflush(file_) != 0) {
+    error_code_ = errno;
+    throw IOError("Error writing to file " + filename_.string() + ": " + GetErrorMessage());
+  }
+}
+
+
 void BigFile::close()
 {
-  if (file_ != NULL)
-    fclose(file_);
+  bool ok = true;
+  if (file_ != NULL && fclose(file_) != 0) {
+    error_code_ = errno;
+    ok = false;
+  }
   file_ = NULL;
 
   delete[] buffer_;
   buffer_ = 0;
+
+  if (!ok)
+    throw IOError("Error closing file " + filename_.string() + ": " + GetErrorMessage());
 }
 
 
diff --git a/src/nrlib/iotools/bigfile.hpp b/src/nrlib/iotools/bigfile.hpp
index a66b6af..30f6551 100644
--- a/src/nrlib/iotools/bigfile.hpp
+++ b/src/nrlib/iotools/bigfile.hpp
@@ -50,6 +50,12 @@ public:
 
   /// Clear error codes.
   void clear();
+
+  /// Hand everything written so far to the operating system.
+  /// \throws IOError if some of it could not be written.
+  void flush();
+
+  /// \throws IOError if data written to the file could not be stored.
   void close();
 
   bool good() const { return (file_ != NULL && !ferror(file_) && !feof(file_)); }
diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 2d1f490..630b8d1 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -581,7 +581,7 @@ short NRLib::ReadBinaryShort(F& stream,
   unsigned short us;
   char buffer[2];
 
-  if (!stream.read(buffer, 2)) {
+  if (!stream.read(buffer, 2) || stream.eof()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -643,7 +643,7 @@ I NRLib::ReadBinaryShortArray(F& stream,
   std::vector<std::uint16_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(2 * n))) {
+                   static_cast<std::streamsize>(2 * n)) || stream.eof()) {
     throw Exception("Error reading from stream (f).");
   }
 
@@ -701,7 +701,7 @@ int NRLib::ReadBinaryInt(F& stream,
   unsigned int ui;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || stream.eof()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -763,7 +763,7 @@ I NRLib::ReadBinaryIntArray(F& stream,
   std::vector<std::uint32_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(4 * n))) {
+                   static_cast<std::streamsize>(4 * n)) || stream.eof()) {
     throw Exception("Error reading from stream (g).");
   }
 
@@ -821,7 +821,7 @@ float NRLib::ReadBinaryFloat(F& stream,
   float f;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || stream.eof()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -883,7 +883,7 @@ I NRLib::ReadBinaryFloatArray(F& stream,
 {
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4 * n)) || stream.eof()) {
     throw Exception("Error reading from stream (h).");
   }
 
@@ -946,7 +946,7 @@ double NRLib::ReadBinaryDouble(F& stream,
   double d;
   char buffer[8];
 
-  if (!stream.read(buffer, 8)) {
+  if (!stream.read(buffer, 8) || stream.eof()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -1008,7 +1008,7 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
   std::vector<std::uint64_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(8 * n))) {
+                   static_cast<std::streamsize>(8 * n)) || stream.eof()) {
     throw Exception("Error reading from stream (i).");
   }
 
@@ -1074,7 +1074,7 @@ I NRLib::ReadBinaryIbmFloatArray(F& stream,
   std::vector<std::uint32_t> buffer(n);
 
   std::string error;
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4 * n)) || stream.eof()) {
     if (stream.eof())
       error = "Error reading binary IBM float array. Trying to read 4*" + NRLib::ToString(n) + " elements when end-of-file was reached.\n";
     else {
@@ -1139,7 +1139,7 @@ float NRLib::ReadBinaryIbmFloat(F& stream,
   float f = 0.0;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || stream.eof()) {
     if (stream.eof())
       throw EndOfFile();
     else
diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 92abd48..db50cbc 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -210,7 +210,8 @@ void
 BinaryHeader::Update(NRLib::BigFile& file)
 {
   char buffer[26];
-  file.read(buffer, 26);
+  if (file.read(buffer, 26) != 26)
+    throw EndOfFile();
 
   NRLib::ParseInt32BE(&buffer[4], lino_);
   NRLib::ParseInt16BE(&buffer[16], hdt_);
diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index fd076dd..9e37d97 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -337,11 +337,8 @@ SegY::~SegY()
   if (binary_header_!=NULL)
     delete binary_header_;
   binary_header_ = NULL;
-  if (traces_.size() > 0) {
-    for (size_t i = 0; i < n_traces_; i++)
-      delete traces_[i];
-  }
-  file_.close();
+  for (size_t i = 0; i < traces_.size(); i++)
+    delete traces_[i];
 }
 
 void SegY::Initialize(const std::string       & fileName,
@@ -612,6 +609,9 @@ SegY::ReadAllTraces(const Volume * volume,
                     bool           onlyVolume,
                     bool           relative_padding)
 {
+  if (n_traces_ == 0)
+    throw FileFormatError("SegY-file \"" + file_.GetFileName().string() + "\" contains no traces.");
+
   single_trace_ = false;
   traces_.resize(n_traces_);
 
@@ -1449,6 +1449,8 @@ SegY::WriteAllTracesToFile(short scalcoinitial)
       WriteBinaryFloatArray(file_,trace.begin(),trace.end());
     }
   }
+  file_.flush();
+
   sort(traces_.begin(), traces_.end(), SortIndex);
   //Traces are sorted, but NULL traces are all at beginning, instead of at correct location.
   for (i = 0; i < traces_.size(); i++) {
diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 794ae2d..8728c83 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -427,7 +427,7 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
 
 void TraceHeader::Read(NRLib::BigFile& in_file)
 {
-  if (!(in_file.read(buffer_,240))) {
+  if (in_file.read(buffer_,240) != 240) {
     // end of file
     throw EndOfFile();
   }
-- 
2.43.0


From 849587cb914ab697c227ed3d42aa0d94ac88ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 07/40] fix: report files that could not be written completely

The writers of surfaces, grids, wells, point sets, wavelets, matrices, trends,
kriging data and Eclipse grids never looked at their stream after the last
item, so with a full or failing disk they left a truncated file and returned
normally.
---
 src/nrlib/eclipsegrid/eclipsegrid.cpp            |  4 ++++
 src/nrlib/flens/nrlib_flens.cpp                  |  3 +++
 src/nrlib/iotools/fileio.cpp                     | 10 ++++++++++
 src/nrlib/iotools/fileio.hpp                     |  5 +++++
 src/nrlib/pointset/pointset.cpp                  |  3 +++
 src/nrlib/statistics/continuouskrigingdata2d.cpp |  2 +-
 src/nrlib/statistics/nodalkrigingdata2d.cpp      |  2 +-
 src/nrlib/stormgrid/stormcontgrid.cpp            |  5 ++++-
 src/nrlib/stormgrid/stormfaciesgrid.cpp          |  1 +
 src/nrlib/surface/surfaceio.hpp                  |  4 ++--
 src/nrlib/trend/trendkit.cpp                     |  2 +-
 src/nrlib/variogram/covgrid2d.cpp                |  2 +-
 src/nrlib/wavelet/waveletio.cpp                  |  1 +
 src/nrlib/well/laswell.cpp                       |  2 ++
 src/nrlib/well/rmswell.cpp                       |  2 +-
 15 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7328e87..14f33c5 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -419,6 +419,7 @@ void EclipseGrid::WriteToFile(const std::string& file_name,
 
   EclipseEditNNC::WriteEditNNC(out_file, editNNC_);
   EclipseTransMult::WriteMultiply(out_file, trans_mult_);
+  CloseWrite(out_file, file_name);
 }
 
 
@@ -442,6 +443,7 @@ void EclipseGrid::WriteToFiles(const std::vector<std::string>             & file
         WriteKeyword(out_file, *it);
         parameters_written.insert(*it);
       }
+      CloseWrite(out_file, file_names[j]);
     }
   }
 }
@@ -538,6 +540,8 @@ void EclipseGrid::WriteRemainingParameters(const std::string           & file_na
 
   if (parameters_written.find("AMALGAM") == parameters_written.end())
     WriteKeyword(out_file, "AMALGAM");
+
+  CloseWrite(out_file, file_name);
 }
 
 
diff --git a/src/nrlib/flens/nrlib_flens.cpp b/src/nrlib/flens/nrlib_flens.cpp
index a47aecd..bd5c853 100644
--- a/src/nrlib/flens/nrlib_flens.cpp
+++ b/src/nrlib/flens/nrlib_flens.cpp
@@ -475,6 +475,7 @@ void NRLib::WriteMatrixToFile(const std::string   & filename,
       }
     }
   }
+  NRLib::CloseWrite(file, filename);
 }
 
 
@@ -508,6 +509,7 @@ void NRLib::WriteMatrixToFile(const std::string            & filename,
       }
     }
   }
+  NRLib::CloseWrite(file, filename);
 }
 
 
@@ -532,5 +534,6 @@ void NRLib::WriteVectorToFile(const std::string   & filename,
       NRLib::WriteBinaryDouble(file, vector(i));
     }
   }
+  NRLib::CloseWrite(file, filename);
 }
 
diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 145e981..c557599 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -204,6 +204,16 @@ void NRLib::CreateDirIfNotExists(const std::string & filename)
 }
 #endif
 
+void NRLib::CloseWrite(std::ofstream&     stream,
+                       const std::string& filename)
+{
+  stream.close();
+  if (!stream) {
+    throw IOError("Error writing to file " + filename + ".");
+  }
+}
+
+
 std::istream& NRLib::ReadNextToken(std::istream & stream,
                                    std::string  & s,
                                    int          & line_num)
diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 630b8d1..ed5aaf4 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -67,6 +67,11 @@ namespace NRLib {
                  std::ios_base::openmode mode= std::ios_base::out ,
                  bool                    create_dir = true);
 
+  /// \brief Close a file that has been written.
+  /// \throws IOError if something written to the file could not be stored.
+  void CloseWrite(std::ofstream&     stream,
+                  const std::string& filename);
+
   void CopyFile(const std::string & from_path,
                 const std::string & to_path,
                 bool                allow_overwrite);
diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index c4cd840..e8da0f4 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -519,6 +519,7 @@ PointSet::WriteInternalPoints(const std::string& filename) const
     file << "\n";
   }
 
+  NRLib::CloseWrite(file, filename);
 }
 
 
@@ -541,6 +542,7 @@ PointSet::WriteRoxarText(const std::string& filename) const
   xyz[2] = 999.000000;
   NRLib::WriteAsciiArray(file, xyz.begin(), xyz.end(), 3);
 
+  NRLib::CloseWrite(file, filename);
 }
 
 
@@ -557,6 +559,7 @@ PointSet::WriteGeneralXYZ(const std::string& filename) const
     xyz[2] = points_[i].z;
     NRLib::WriteAsciiArray(file, xyz.begin(), xyz.end(), 3);
   }
+  NRLib::CloseWrite(file, filename);
 }
 
 
diff --git a/src/nrlib/statistics/continuouskrigingdata2d.cpp b/src/nrlib/statistics/continuouskrigingdata2d.cpp
index 9d277cb..972e692 100644
--- a/src/nrlib/statistics/continuouskrigingdata2d.cpp
+++ b/src/nrlib/statistics/continuouskrigingdata2d.cpp
@@ -83,7 +83,7 @@ ContinuousKrigingData2D::WriteToFile(const std::string & fileName) const
           << std::setw(5)  << xvector_[k] << " "
           << std::setw(5)  << yvector_[k] << " "
           << std::setw(10) << data_[k]   << std::endl;
-  file.close();
+  NRLib::CloseWrite(file, fileName);
 }
 
 //----------------------------------------------------------------------
diff --git a/src/nrlib/statistics/nodalkrigingdata2d.cpp b/src/nrlib/statistics/nodalkrigingdata2d.cpp
index 53a6009..79dab34 100644
--- a/src/nrlib/statistics/nodalkrigingdata2d.cpp
+++ b/src/nrlib/statistics/nodalkrigingdata2d.cpp
@@ -127,7 +127,7 @@ NodalKrigingData2D::WriteToFile(const std::string & fileName) const
           << std::setw(5)  << indexI_[k] << " "
           << std::setw(5)  << indexJ_[k] << " "
           << std::setw(10) << data_[k]   << std::endl;
-  file.close();
+  NRLib::CloseWrite(file, fileName);
 }
 
 //--------------------------------------------------------------
diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 18771c1..868c56b 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -218,6 +218,7 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   // Final 0 (Number of barriers)
   if (plainAscii==false)
     file << 0;
+  CloseWrite(file, filename);
 }
 
 void StormContGrid::WriteToSgriFile(const std::string & file_name,
@@ -266,6 +267,7 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
   //fName = fileName + IO::SuffixSgri();
   header_file << file_name << std::endl;
   header_file << "0\n";
+  CloseWrite(header_file, file_name_header);
 
   std::ofstream file;
   OpenWrite(file, file_name, std::ios::out | std::ios::binary);
@@ -277,6 +279,7 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
 
   // Final 0 (Number of barriers)
   file << 0;
+  CloseWrite(file, file_name);
 }
 
 
@@ -743,7 +746,7 @@ StormContGrid::WriteCravaFile(const std::string & file_name,
       }
     }
 
-    bin_file.close();
+    NRLib::CloseWrite(bin_file, file_name);
   }
   catch (NRLib::Exception & e) {
     std::string message = "Error: "+std::string(e.what())+"\n";
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 9827cba..c3d68c8 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -151,6 +151,7 @@ void StormFaciesGrid::WriteToFile(const std::string& filename, Endianess file_fo
 
   // Final 0 (Number of barriers)
   file << 0;
+  CloseWrite(file, filename);
 }
 
 
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index ab8f4d9..557a946 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -413,7 +413,7 @@ void NRLib::WriteIrapClassicAsciiSurf(const RegularSurface<A> & surf,
        file << "\n";
     }
   }
-  file.close();
+  CloseWrite(file, filename);
 }
 
 
@@ -442,7 +442,7 @@ void NRLib::WriteStormBinarySurf(const RegularSurface<A> & surf,
     std::replace(data.begin(), data.end(), surf.GetMissingValue(), static_cast<A>(STORM_MISSING));
     WriteBinaryDoubleArray(file, data.begin(), data.end());
   }
-  file.close();
+  CloseWrite(file, filename);
 }
 
 #endif // NRLIB_SURFACEIO_HPP
diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index e55da08..b1bfe49 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -139,7 +139,7 @@ void WriteTrend1D(const std::string         & filename,
   for (size_t i = 0; i < trend.size(); i++) {
     file << trend[i] << "\n";
   }
-  file.close();
+  CloseWrite(file, filename);
 }
 
 //----------------------------------------------------//
diff --git a/src/nrlib/variogram/covgrid2d.cpp b/src/nrlib/variogram/covgrid2d.cpp
index 5003c24..30ef3fd 100644
--- a/src/nrlib/variogram/covgrid2d.cpp
+++ b/src/nrlib/variogram/covgrid2d.cpp
@@ -123,6 +123,6 @@ CovGrid2D::WriteToFile(const std::string & name) const
     for(int i=-nx_+1;i<nx_;i++)
       file << GetCov(i,j) << " ";
   file << std::endl;
-  file.close();
+  NRLib::CloseWrite(file, name);
 }
 
diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index c98c388..dcd88c8 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -188,6 +188,7 @@ void WriteJasonAsciiFile(const std::string&              filename,
   out << NRLib::ToString(wavelet.GetNSamples()) + "\n";
 
   NRLib::WriteAsciiArray(out, wavelet.begin(), wavelet.end(), 1);
+  NRLib::CloseWrite(out, filename);
 }
 
 
diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index eccf3e3..c23d242 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -533,6 +533,7 @@ void LasWell::WriteToFile(const std::string              & filename,
 
   if (GetNContLog() == 0) {
     // No log data in file.
+    CloseWrite(file, filename);
     return;
   }
 
@@ -570,6 +571,7 @@ void LasWell::WriteToFile(const std::string              & filename,
     }
     file << "\n";
   }
+  CloseWrite(file, filename);
 }
 
 
diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 69e1c86..cad6bee 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -283,5 +283,5 @@ void RMSWell::WriteToFile(const std::string& filename)
     }
     file << "\n";
   }
-  file.close();
+  CloseWrite(file, filename);
 }
-- 
2.43.0


From d4d9ec91e5b54c77f6140b0540ebf69b7645b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 08/40] fix: never leave an incomplete seed in the seed file,
 nor forget the seed in use

WriteSeedToFile emptied the seed file before writing to it and ignored what
close had to say: a crash or a full disk left no seed, or the first digits of
one, which the next run would take for a seed. Initialize(file) overwrote the
seed reported by GetStartSeed before it knew that the file could be read.
---
 src/nrlib/random/random.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..2ab69f1 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -22,6 +22,7 @@
 #include "random.hpp"
 #include "../exception/exception.hpp"
 
+#include <cstdio>
 #include <ctime>
 #include <cmath>
 #include <fstream>
@@ -52,9 +53,11 @@ void Random::Initialize(const std::string& filename) {
   if (!file) {
     throw Exception("Error opening seed file " + filename + "\n");
   }
-  if (!(file >> start_seed_)) {
+  unsigned long seed;
+  if (!(file >> seed)) {
     throw Exception("Error reading seed from seed file " + filename + "\n");
   }
+  start_seed_ = seed;
   seed_file_ = filename;
   use_seed_file_ = true;
   is_initialized_ = true;
@@ -130,12 +133,21 @@ unsigned long Random::GetStartSeed()
 void Random::WriteSeedToFile()
 {
   if (use_seed_file_) {
-    std::ofstream file(seed_file_.c_str());
+    // Write to a temporary file first, to never leave an incomplete seed behind.
+    std::string tmp_file = seed_file_ + ".tmp";
+    std::ofstream file(tmp_file.c_str());
     if (!file) {
-      throw Exception("Error opening seed file " + seed_file_ + "\n");
+      throw Exception("Error opening seed file " + tmp_file + "\n");
     }
     file << DrawUint32() << "\n";
+    file.close();
     if (!file) {
+      throw Exception("Error writing to seed file " + tmp_file + "\n");
+    }
+#if defined(_WIN32)
+    std::remove(seed_file_.c_str());
+#endif
+    if (std::rename(tmp_file.c_str(), seed_file_.c_str()) != 0) {
       throw Exception("Error writing to seed file " + seed_file_ + "\n");
     }
   }
-- 
2.43.0


From 6cdfd6802c4a46f7deb9469ae241175815d9be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:35 +0000
Subject: [PATCH 09/40] fix: stop reading a LAS file when the disk fails or a
 section is wrong

The loops waited for end of file, which a failed read never reaches, and the
header loop never moved past a repeated or unknown section.
---
 src/nrlib/well/laswell.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index c23d242..d75361b 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -53,6 +53,8 @@ LasWell::LasWell(const std::string & filename) :
       else
         err_txt = "No log data found in well "+GetWellName()+"\n";
     }
+    if(fin.bad())
+      err_txt += "Error reading from file "+filename+"\n";
   }
   catch(Exception & e) {
     err_txt += e.what();
@@ -145,7 +147,7 @@ LasWell::ReadHeader(const std::string        & filename,
 
     bool end_of_header = false;
 
-    while ( !fin.eof() && !end_of_header) {
+    while (fin.good() && !end_of_header && err_txt == "") {
       line = NRLib::Chomp(line);
 
       if (line.empty()) {                 // Empty line, do nothing
@@ -220,7 +222,7 @@ LasWell::ParseInformation(std::vector<std::string>               & info,
 {
   if (info.size() == 0) {
     bool end_of_section = false;
-    while ( !fin.eof() && !end_of_section && err_txt == "") {
+    while (fin.good() && !end_of_section && err_txt == "") {
       getline (fin,line);
       line = NRLib::Chomp(line);
 
@@ -247,7 +249,7 @@ LasWell::ParseVersionInformation(std::ifstream & fin,
                                  std::string   & err_txt)
 {
   bool end_of_section = false;
-  while (!fin.eof() && !end_of_section) {
+  while (fin.good() && !end_of_section) {
     getline (fin,line);
     line = NRLib::Chomp(line);
     if(line.size() == 0 || line[0] == '#') {
@@ -292,7 +294,7 @@ LasWell::ParseWellInformation(std::ifstream & fin,
                               std::string   & err_txt)
 {
   bool end_of_section = false;
-  while (!fin.eof() && !end_of_section) {
+  while (fin.good() && !end_of_section) {
     getline (fin,line);
     line = NRLib::Chomp(line);
 
@@ -365,7 +367,7 @@ LasWell::ParseCurveInformation(std::ifstream            & fin,
                                std::string              & err_txt)
 {
   bool end_of_section = false;
-  while (!fin.eof() && !end_of_section) {
+  while (fin.good() && !end_of_section) {
     getline (fin,line);
     line = NRLib::Chomp(line);
 
@@ -462,7 +464,7 @@ LasWell::GetRecord(std:: ifstream           & fin,
                    std::vector<std::string> & record) const
 {
   std::string line;
-  while(line.empty()==true && fin.eof() == false)
+  while(line.empty()==true && fin.good())
     getline(fin,line);
   if(line.empty() == true)
     return(false);
@@ -470,7 +472,7 @@ LasWell::GetRecord(std:: ifstream           & fin,
   NRLib::Substitute(line, ",", " "); //Makes comma delimited space delimited.
   record = NRLib::GetTokens(line);
   if(wrap_ == true) {
-    while(record.size() < n_items && fin.eof()==false) {
+    while(record.size() < n_items && fin.good()) {
       getline(fin,line);
       NRLib::Substitute(line, ",", " "); //Makes comma delimited space delimited.
       std::vector<std::string> items = GetTokens(line);
-- 
2.43.0


From dee25d476dfab8fa7be0504692c9ae177fb2e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:45 +0000
Subject: [PATCH 10/40] fix: report a failing disk while reading RMS wells, and
 do not hang on unmatched quotes

The well was returned with the records read so far. GetQuotedTokens looked for
the closing quote past the end of the string for ever.
---
 src/nrlib/iotools/stringtools.cpp | 2 +-
 src/nrlib/well/rmswell.cpp        | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index e810b22..17256cc 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -132,7 +132,7 @@ NRLib::GetQuotedTokens(const std::string& s)
       v.push_back(quotation);
       if (char_tmp == tmp)
         iss >> tmp;
-      while (tmp.substr((tmp.size() - 1), 1) != "\"")
+      while (iss && tmp.substr((tmp.size() - 1), 1) != "\"")
         iss >> tmp;
     }
   }
diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index cad6bee..a9f7474 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -134,6 +134,8 @@ RMSWell::RMSWell(const std::string& filename)
       }
     }
   }
+  if (file.bad())
+    throw IOError("Error reading from file " + filename + ".");
 
   AddContLog(lognames_[0], contlogs[0]);
   AddContLog(lognames_[1], contlogs[1]);
-- 
2.43.0


From 61c2492843e7df424e92f2e35ce130461de4bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:45 +0000
Subject: [PATCH 11/40] fix: read the only point of an RMS internal points
 file, and detect cut Roxar text files

A file with a single point was read as empty. A Roxar text file without its
end marker made the reader add the last point for ever.
---
 src/nrlib/pointset/pointset.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index e8da0f4..d743737 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -266,7 +266,9 @@ PointSet::ReadRoxarText(const std::string &filename)
     while (!IsRoxarFileEnder(xyz)) {
       NRLib::Point pt(xyz[0], xyz[1], xyz[2]);
       points_.push_back(pt);
-      std::getline(in_file, temp);
+      if (!std::getline(in_file, temp)) {
+        throw NRLib::Exception("Format error reading Roxar Text file " + filename);
+      }
       NRLib::ParseAsciiArrayFast(temp, xyz.begin(), 3);
     }
 
@@ -318,9 +320,9 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
   double infloat;
   size_t n_token;
 
-  bool first_point = true;
+  bool first_point = IsType<double>(type_test); // The first point is already in line.
   bool active;
-  while(!NRLib::CheckEndOfFile(file)) {
+  while(first_point || !NRLib::CheckEndOfFile(file)) {
     active = false;
     if (!first_point)
       std::getline(file, line);
-- 
2.43.0


From 46dbf147a659c9f175ff4e73f5ff69051b9e430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:45 +0000
Subject: [PATCH 12/40] fix: do not delete the surfaces of a volume twice when
 reading one of them fails

---
 src/nrlib/volume/volume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..8f24dc6 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -410,6 +410,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete z_bot_;
+  z_bot_ = NULL;
   if (IsType<double>(token)) {
     z_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     botfile = false;
@@ -420,6 +421,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_top_;
+  erosion_top_ = NULL;
   if (IsType<double>(token)) {
     erosion_top_ = new ConstantSurface<double>(ParseType<double>(token));
     toperofile = false;
@@ -430,6 +432,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_bot_;
+  erosion_bot_ = NULL;
   if (IsType<double>(token)) {
     erosion_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     boterofile = false;
-- 
2.43.0


From 9cb30c38579184461f42377ed0c921264b32e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 13/40] fix: log formatted messages of any length

LogFormatted printed into an array of 5000 (1000 with a phase) bytes on the
stack, whatever the length of the message.
---
 src/nrlib/iotools/logkit.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 8199a79..273a2ff 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -21,7 +21,9 @@
 
 #include <algorithm>
 #include <cstdarg>
+#include <cstdio>
 #include <iostream>
+#include <vector>
 
 #include "fileio.hpp"
 #include "logkit.hpp"
@@ -157,25 +159,37 @@ LogKit::LogMessage(int level, int phase, const std::string & message) {
 }
 
 
+static std::string
+ExpandFormat(const char* format, va_list ap) {
+  va_list ap_size;
+  va_copy(ap_size, ap);
+  int n = vsnprintf(NULL, 0, format, ap_size);
+  va_end(ap_size);
+  if (n < 0)
+    return std::string(format);
+  std::vector<char> message(n + 1);
+  vsnprintf(&message[0], message.size(), format, ap);
+  return std::string(&message[0]);
+}
+
+
 void
 LogKit::LogFormatted(int level, const char* format, ...) {
   va_list ap;
-  char message[5000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = ExpandFormat(format, ap);
   va_end(ap);
-  LogMessage(level, std::string(message));
+  LogMessage(level, message);
 }
 
 
 void
 LogKit::LogFormatted(int level, int phase, const char* format, ...) {
   va_list ap;
-  char message[1000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = ExpandFormat(format, ap);
   va_end(ap);
-  LogMessage(level, phase, std::string(message));
+  LogMessage(level, phase, message);
 }
 
 
-- 
2.43.0


From 97356360eb8144b238f009d3b533e7309aa07da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:39 +0000
Subject: [PATCH 14/40] fix: never combine a new SGRI header with old data, and
 check that the header is whole

WriteToSgriFile replaced the header before it touched the data file, so an
interrupted write left new geometry over old values. The reader took a number
cut short at the end of the header for the whole number, and looked for white
space after the file name past the end of the line.
---
 src/nrlib/stormgrid/stormcontgrid.cpp | 20 +++++++++++---------
 src/nrlib/surface/surfaceio.cpp       | 10 ++++------
 src/nrlib/surface/surfaceio.hpp       | 10 ++++------
 3 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 868c56b..f2deb30 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -231,6 +231,10 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
   double vert_scale = 0.001;
   double hor_scale  = 0.001;
 
+  // Empty the data file first, to never leave old data with a new header.
+  std::ofstream file;
+  OpenWrite(file, file_name, std::ios::out | std::ios::binary);
+
   std::ofstream header_file;
   NRLib::OpenWrite(header_file, file_name_header);
 
@@ -269,9 +273,6 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
   header_file << "0\n";
   CloseWrite(header_file, file_name_header);
 
-  std::ofstream file;
-  OpenWrite(file, file_name, std::ios::out | std::ios::binary);
-
   file.precision(14);
 
   // Data
@@ -658,19 +659,20 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   //Reading record 10+dim+ngrid: Undef value
   headerFile >> missing_code_;
   getline(headerFile, tmpStr);
+  if (!headerFile.good()) {
+    throw Exception("Error: Unexpected end of Sgri header file.");
+  }
   //Reading record 11+dim+ngrid: Filename of binary file.
   getline(headerFile, tmpStr);
   if (tmpStr.empty())
     binFileName = "";
   else {
     std::locale loc;
-    i = 0;
-    char c = tmpStr[i];
-    while (!std::isspace(c,loc)) {
-      i++;
-      c = tmpStr[i];
+    size_t len = 0;
+    while (len < tmpStr.size() && !std::isspace(tmpStr[len], loc)) {
+      len++;
     }
-    tmpStr.erase(tmpStr.begin()+i, tmpStr.end());
+    tmpStr.erase(len);
     binFileName = tmpStr;
   }
   //Reading record 12+dim+ngrid: Complex values
diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 815a1f8..73dfbc3 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -200,13 +200,11 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
     if (!tmp_str.empty()) {
       std::locale loc;
-      i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
-        i++;
-        c = tmp_str[i];
+      size_t len = 0;
+      while (len < tmp_str.size() && !std::isspace(tmp_str[len], loc)) {
+        len++;
       }
-      tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
+      tmp_str.erase(len);
     }
     if (tmp_str.empty())
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 557a946..6d9c005 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -334,13 +334,11 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     getline(header_file, tmp_str);
     if (!tmp_str.empty()) {
       std::locale loc;
-      int i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
-        i++;
-        c = tmp_str[i];
+      size_t len = 0;
+      while (len < tmp_str.size() && !std::isspace(tmp_str[len], loc)) {
+        len++;
       }
-      tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
+      tmp_str.erase(len);
     }
     if (tmp_str.empty())
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
-- 
2.43.0


From 4711eb50e3ac01857c27f7380e43336bff303e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:09 +0000
Subject: [PATCH 15/40] fix: close a SEG-Y cube once it is written, to hear of
 errors reported by close

---
 src/nrlib/iotools/bigfile.cpp | 9 ---------
 src/nrlib/iotools/bigfile.hpp | 4 ----
 src/nrlib/segy/segy.cpp       | 2 +-
 3 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/nrlib/iotools/bigfile.cpp b/src/nrlib/iotools/bigfile.cpp
index a3c5be5..5f75af2 100644
--- a/src/nrlib/iotools/bigfile.cpp
+++ b/src/nrlib/iotools/bigfile.cpp
@@ -168,15 +168,6 @@ void BigFile::clear()
 }
 
 
-void BigFile::flush()
-{
-  if (file_ != NULL && fflush(file_) != 0) {
-    error_code_ = errno;
-    throw IOError("Error writing to file " + filename_.string() + ": " + GetErrorMessage());
-  }
-}
-
-
 void BigFile::close()
 {
   bool ok = true;
diff --git a/src/nrlib/iotools/bigfile.hpp b/src/nrlib/iotools/bigfile.hpp
index 30f6551..f8c5480 100644
--- a/src/nrlib/iotools/bigfile.hpp
+++ b/src/nrlib/iotools/bigfile.hpp
@@ -51,10 +51,6 @@ public:
   /// Clear error codes.
   void clear();
 
-  /// Hand everything written so far to the operating system.
-  /// \throws IOError if some of it could not be written.
-  void flush();
-
   /// \throws IOError if data written to the file could not be stored.
   void close();
 
diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 9e37d97..6e1d87f 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1449,7 +1449,7 @@ SegY::WriteAllTracesToFile(short scalcoinitial)
       WriteBinaryFloatArray(file_,trace.begin(),trace.end());
     }
   }
-  file_.flush();
+  file_.close();
 
   sort(traces_.begin(), traces_.end(), SortIndex);
   //Traces are sorted, but NULL traces are all at beginning, instead of at correct location.
-- 
2.43.0


From e55743a0b3f7916b969f98aa2256712fd36f382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:40 +0000
Subject: [PATCH 16/40] fix: do not take a Roxar text file for another format
 when the disk fails

The end marker then became a point.
---
 src/nrlib/pointset/pointset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index d743737..0a51c65 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -159,6 +159,8 @@ bool PointSet::CheckFileIsRoxarText(const std::string& filename)
 
   std::string first_line;
   std::getline(in_file, first_line);
+  if (in_file.bad())
+    throw IOError("Error reading from file " + filename + ".");
 
   std::vector<std::string> tokens = GetTokens(first_line);
   if (   tokens.size() == 3 && IsType<double>(tokens[0])
-- 
2.43.0


From 670bb437d90a04e7135fe19783307897e41c5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:00 +0000
Subject: [PATCH 17/40] fix: ParseAsciiArrayFast started over when the string
 had too few elements

The last point of a file cut in the middle got its missing coordinates from the
beginning of its line instead of being refused.
---
 src/nrlib/iotools/stringtools.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index f8a0e8c..acc6109 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -202,9 +202,12 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
     }
     *begin = NRLibPrivate::UnsafeParser<T>::ParseType(&s[pos]);
     ++begin;
+    ++i;
+    if (next_pos == s.npos) {
+      break; // That was the last element.
+    }
     pos = s.find_first_not_of(whitespace, next_pos + 1);
     next_pos = s.find_first_of(whitespace, pos + 1);
-    ++i;
   }
 
   if (i != n) {
-- 
2.43.0


From 67622f19fd7f08064d317056673eff0b667f3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:27 +0000
Subject: [PATCH 18/40] fix: report log records of a LAS file that can not be
 read

With fewer than five of them the messages were dropped and the values, or all
that should have followed in a file cut short, became zeros.
---
 src/nrlib/well/laswell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index d75361b..5a11d65 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -450,6 +450,8 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     err_txt += "Wrong number of data records found in well "+GetWellName()+", found "+NRLib::ToString(n_records)
       +" while expecting "+NRLib::ToString(n_data)+".\n";
   }
+  else if(tmp_err_txt != "")
+    err_txt += tmp_err_txt;
   else {
     for(size_t i=0;i<log.size();i++) {
       AddContLog(log_name_[i],log[i]);
-- 
2.43.0


From d822357e4f57b4454a07774b35f15870238569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:35 +0000
Subject: [PATCH 19/40] fix: SGRI header cut inside the name of its data file
 was accepted

The last record of the header was not checked for being there, so a header
cut inside the name of the data file made the reader take another file
(possibly the header itself) for the data.
---
 src/nrlib/stormgrid/stormcontgrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index f2deb30..78905c2 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -677,7 +677,9 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   }
   //Reading record 12+dim+ngrid: Complex values
   bool hasComplex;
-  headerFile >> hasComplex;
+  if (!(headerFile >> hasComplex)) {
+    throw Exception("Error: Unexpected end of Sgri header file.");
+  }
   if (hasComplex != 0 ) {
     throw Exception("Error: Can not read Sgri binary file. Complex values?");
 
-- 
2.43.0


From d43fb7cf73491bcc223253b30034cd55e7a26f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 20/40] fix: reading a cut Eclipse grid file must end with an
 error

SkipComments, ReadParameterBuffer and the FAULTS, MULTIPLY and GDORIENT
loops never looked at the stream state and went on for ever (or allocated
without bound) when the file ended or the disk failed.
---
 src/nrlib/eclipsegrid/eclipsegrid.cpp  |  9 ++++++---
 src/nrlib/eclipsegrid/eclipsetools.cpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 14f33c5..16b308b 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -152,7 +152,8 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
 
   bool be_in_loop = true;
   while (be_in_loop == true){
-    std::getline(in_file, in_line);
+    if (!std::getline(in_file, in_line))
+      throw EndOfFile();
     line_tokens = GetTokens(in_line);
     if ( line_tokens.empty() ){
     }
@@ -364,7 +365,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if ( line_tokens.empty() ){
@@ -379,7 +381,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if (!line_tokens.empty()) {
diff --git a/src/nrlib/eclipsegrid/eclipsetools.cpp b/src/nrlib/eclipsegrid/eclipsetools.cpp
index 0dd9a85..59c9e9c 100644
--- a/src/nrlib/eclipsegrid/eclipsetools.cpp
+++ b/src/nrlib/eclipsegrid/eclipsetools.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "eclipsetools.hpp"
+#include "../exception/exception.hpp"
 
 #include <string>
 #include <vector>
@@ -38,12 +39,14 @@ void SkipComments( std::ifstream& in_file )
   bool comment = true;
 
   while (comment == true){
-    in_file.get(c);
+    if (!in_file.get(c))
+      throw EndOfFile();
     if ( isspace(c) ){
 
     }
     else if (c == '-'){
-      in_file.get(c);
+      if (!in_file.get(c))
+        throw EndOfFile();
       if (c == '-'){
         std::getline(in_file, line_removed);
       }
@@ -73,7 +76,13 @@ std::string ReadParameterBuffer(std::ifstream& in_file)
     counter+=K;
     buffer.resize(counter);
     in_file.read(&(buffer[counter-K]), K);
+    size_t n_read = static_cast<size_t>(in_file.gcount());
+    if (in_file.bad())
+      throw IOError("Error reading from file.");
+    buffer.resize(counter - K + n_read);
     pos = buffer.find("/", counter-K);
+    if (pos == buffer.npos && n_read < K)
+      throw EndOfFile();
   }
   if ( in_file.eof() ){
     in_file.clear();
-- 
2.43.0


From 4bdf6736c9c2190e3ac20ca7e1860ada0b53f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 21/40] fix: wide Eclipse parameter values must not run
 together

A value that fills its 15 columns was written without a separator.
---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 16b308b..bc35e41 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -562,7 +562,7 @@ void EclipseGrid::WriteContParameter(std::ofstream             & out_file,
     if(i%6 == 0){
       out_file << "\n";
     }
-    out_file << std::setw(15) << parameter(i);
+    out_file << ' ' << std::setw(14) << parameter(i);
   }
   out_file << "\n" << "  /\n\n";
 }
-- 
2.43.0


From 2525897b2e3ff8df65c3716fb4cb9206931dd823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 22/40] fix: read an Eclipse refinement back as it was written

The name kept the quotes of the file, and parameters of the refinement were
read into a grid without cells.
---
 src/nrlib/eclipsegrid/eclipsecarfin.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsecarfin.cpp b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
index 25f586f..fec697b 100644
--- a/src/nrlib/eclipsegrid/eclipsecarfin.cpp
+++ b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
@@ -220,6 +220,9 @@ bool EclipseCarFin::ReadCarFin(std::ifstream& file)
   int dummy_line = 0; // not used.
   try {
     name_ = NRLib::ReadNext<std::string>(file, dummy_line);
+    // Names are written in quotes.
+    if (name_.size() >= 2 && name_[0] == '\'' && name_[name_.size() - 1] == '\'')
+      name_ = name_.substr(1, name_.size() - 2);
     // The indices in the file format are 1 based.
     i0_ = NRLib::ReadNext<size_t>(file, dummy_line) - 1;
     i1_ = NRLib::ReadNext<size_t>(file, dummy_line) - 1;
@@ -230,6 +233,10 @@ bool EclipseCarFin::ReadCarFin(std::ifstream& file)
     nx_ = NRLib::ReadNext<size_t>(file, dummy_line);
     ny_ = NRLib::ReadNext<size_t>(file, dummy_line);
     nz_ = NRLib::ReadNext<size_t>(file, dummy_line);
+    eclipse_grid_.Resize(nx_, ny_, nz_);
+    for (size_t index = 0; index < eclipse_grid_.GetN(); ++index) {
+      eclipse_grid_.SetActive(index, true);
+    }
 
     token = NRLib::ReadNext<std::string>(file, dummy_line);
     if (NRLib::IsType<int>(token)) {
-- 
2.43.0


From 84393a8728c6d5455abffc867015ad6613efd6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 23/40] fix: Eclipse files without SPECGRID

An empty file led to an out-of-bounds access, and a parameter in a file
without SPECGRID was silently read as empty.
---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index bc35e41..735970f 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -139,6 +139,8 @@ void EclipseGrid::ClearRefinementGroups()
 
 void EclipseGrid::ReadContinuousParameter(ifstream& in_file, const std::string& map_key )
 {
+  if (geometry_.GetN() == 0)
+    throw FileFormatError("Missing keyword SPECGRID when reading parameter " + map_key + ".");
   std::string buffer = ReadParameterBuffer(in_file);
   continuous_parameters_[map_key].Resize(geometry_.GetNI(), geometry_.GetNJ(), geometry_.GetNK(), 0);
   ParseAsciiArrayFast( buffer, continuous_parameters_[map_key].begin(), geometry_.GetN());
@@ -329,7 +331,8 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
       throw Exception("Do not have map axes");
     }
   }
-  geometry_.FindMinAndMaxZValueAndSetPolygons();
+  if (geometry_.GetN() > 0)
+    geometry_.FindMinAndMaxZValueAndSetPolygons();
 }
 
 
-- 
2.43.0


From e4647a72290c49806e82c27340a211be81d54114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 24/40] fix: keep every log row beyond the track when writing
 Norsar wells

---
 src/nrlib/well/norsarwell.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 705381d..93b5248 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -320,7 +320,6 @@ NorsarWell::MergeLogs(const std::vector<std::vector<double> > & track_logs, int
       else
         mdp = 1;
     }
-    il++;
   }
 
   return(result);
-- 
2.43.0


From 5d5bbdc3e3c8a6145759cbb734a8c772c7965ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 25/40] fix: TiXmlDocument::SaveFile must report a failed close

---
 src/nrlib/tinyxml/tinyxml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index cc68af5..cafb0b5 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -1122,7 +1122,8 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
     if ( fp )
     {
         bool result = SaveFile( fp );
-        fclose( fp );
+        if ( fclose( fp ) != 0 )
+            result = false;
         return result;
     }
     return false;
-- 
2.43.0


From 88ec45a2be5998253a50ca66c311d1043c19b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 26/40] fix: report cut XML documents and stay inside the text

The parser went past the terminating zero for text, comments and UTF-8
characters that were cut short, and accepted a cut declaration or unknown
tag without an error.
---
 src/nrlib/tinyxml/tinyxml.h         |  4 +++-
 src/nrlib/tinyxml/tinyxmlparser.cpp | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.h b/src/nrlib/tinyxml/tinyxml.h
index b85f394..f6d86bd 100644
--- a/src/nrlib/tinyxml/tinyxml.h
+++ b/src/nrlib/tinyxml/tinyxml.h
@@ -350,7 +350,9 @@ protected:
         {
             //strncpy( _value, p, *length );    // lots of compilers don't like this function (unsafe),
                                                 // and the null terminator isn't needed
-            for( int i=0; p[i] && i<*length; ++i ) {
+            for( int i=0; i<*length; ++i ) {
+                if ( !p[i] )
+                    return 0;           // The text ends inside a character.
                 _value[i] = p[i];
             }
             return p + (*length);
diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index a1bb72e..a37beeb 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -631,9 +631,9 @@ const char* TiXmlBase::ReadText(    const char* p,
             }
         }
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
-    return p;
+    return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1295,13 +1295,12 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         ++p;
     }
 
-    if ( !p )
+    if ( !p || !*p )
     {
         if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+        return 0;
     }
-    if ( *p == '>' )
-        return p+1;
-    return p;
+    return p+1;
 }
 
 #ifdef TIXML_USE_STL
@@ -1379,7 +1378,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         value.append( p, 1 );
         ++p;
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
 
     return p;
@@ -1625,6 +1624,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
                 ++p;
         }
     }
+    if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
     return 0;
 }
 
-- 
2.43.0


From 2bd901ba94a334773859065ddf0913df47f0cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 27/40] fix: TabularFile::CheckFile crashed on an empty file

---
 src/nrlib/iotools/tabularfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/tabularfile.cpp b/src/nrlib/iotools/tabularfile.cpp
index f19c192..c95c1cf 100644
--- a/src/nrlib/iotools/tabularfile.cpp
+++ b/src/nrlib/iotools/tabularfile.cpp
@@ -67,6 +67,8 @@ bool TabularFile::CheckFile(const std::string & filename,
   last_line = FindLastNonEmptyLine(in_file0);
   std::vector<std::string> tokens = GetTokens(last_line);
   read_last_line = true;
+  if (tokens.empty())
+    return false;
   if (!IsType<double>(tokens[0])) {
     read_last_line = false;
   }
-- 
2.43.0


From 15ab63d7f8d3d844cb839bb60b52b5bb401e4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:10 +0000
Subject: [PATCH 28/40] fix: SGRI surface header that is cut must not be read
 with default values

None of the records of the header was checked for being there, so a cut
header gave a surface with other dimensions, angle or missing code, or with
the values of another file.
---
 src/nrlib/surface/surfaceio.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 6d9c005..1d790ed 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -348,7 +348,9 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
-    header_file >> has_complex;
+    if (!(header_file >> has_complex)) {
+      throw Exception("Error: Unexpected end of Sgri header file.");
+    }
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
     }
-- 
2.43.0


From daa14c83b991286ab4c8ed09703db7c39fa3ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:10 +0000
Subject: [PATCH 29/40] fix: keep the decimals of coordinates read from Jason
 horizon files

---
 src/nrlib/pointset/pointset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 0a51c65..33b9cb6 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -428,9 +428,9 @@ void PointSet::ReadJasonXYZ(const std::string &filename)
     }
     il[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[0].c_str());
     xl[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[1].c_str());
-    points_[i].x = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[2].c_str());
-    points_[i].y = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[3].c_str());
-    points_[i].z = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[4].c_str());
+    points_[i].x = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[2].c_str());
+    points_[i].y = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[3].c_str());
+    points_[i].z = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[4].c_str());
   }
 
   AddDiscreteParameter("IL", il);
-- 
2.43.0


From 7c3fb2afcbeb69e899826bcb65b1d7e7af130382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 30/40] fix: Jason horizon file cut after its header was read
 as points at zero

---
 src/nrlib/pointset/pointset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 33b9cb6..5decd5e 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -420,7 +420,9 @@ void PointSet::ReadJasonXYZ(const std::string &filename)
 
   // On each line: IL, XL, X, Y, Z and optionally survey name.
   for (size_t i = 0; i < n_traces; ++i) {
-    std::getline(in_file, line);
+    if (!std::getline(in_file, line)) {
+      throw FileFormatError("End of file not expected.");
+    }
     tokens = GetTokens(line);
     if (tokens.size() < 5 || tokens.size() > 6) {
       throw FileFormatError("Error in file, wrong number of tokens on line "
-- 
2.43.0


From dfaf11767fe0a61fe4283a5aa120a30a957e4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:38 +0000
Subject: [PATCH 31/40] fix: XML document cut inside its last comment was
 accepted

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index a37beeb..fe31cdd 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1378,8 +1378,12 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         value.append( p, 1 );
         ++p;
     }
-    if ( p && *p )
-        p += strlen( endTag );
+    if ( !p || !*p )
+    {
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0, encoding );
+        return 0;
+    }
+    p += strlen( endTag );
 
     return p;
 }
-- 
2.43.0


From e09d259f50f405111e703b60e2fae737810a4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 32/40] fix: a LAS well that was loaded and saved again lost
 its name and position

---
 src/nrlib/well/laswell.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 5a11d65..e385e36 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -330,6 +330,7 @@ LasWell::ParseWellToken(const std::string & token,
   if(token == "WELL") {
     if(value.empty() == false)
       SetWellName(value);
+    well_info_.push_back(line);
   }
 
   else if(token == "STRT" || token == "STOP" || token == "STEP" ||
@@ -355,6 +356,8 @@ LasWell::ParseWellToken(const std::string & token,
         err_txt += std::string(e.what())+" for keyword "+token+" under ~WELL INFORMATION in well "+GetWellName();
       }
     }
+    if(token == "XWELL" || token == "YWELL")
+      well_info_.push_back(line);
   }
   else
     well_info_.push_back(line);
-- 
2.43.0


From 9d73b4de915f7bb328db4cdf8605102512d9aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 33/40] fix: a SEG-Y sample interval that is not a whole number
 of milliseconds was cut

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 6e1d87f..34e99c2 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -887,7 +887,7 @@ SegY::ReadHeader(TraceHeader & header)
     duplicateHeader = false;
     break;
   }
-  if (header.GetDt()/1000 != dz_) {
+  if (header.GetDt()/1000.0 != dz_) {
     if(dz_ == 0)
       dz_ = static_cast<double>(header.GetDt()/1000.0);
     else if(header.GetDt() > 0) {
@@ -1193,7 +1193,7 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
 {
   binary_header_ = new BinaryHeader(file);
   nz_ = binary_header_->GetHns();
-  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000);
+  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000.0);
   if (binary_header_->GetFormat() == 3)
     datasize_ = 2;
   else
-- 
2.43.0


From cb5728d795f3fea62ac6d557979bb52e4b412d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 34/40] fix: memory running out while a volume copies its
 surfaces made it free the old ones twice

---
 src/nrlib/volume/volume.cpp | 59 ++++++++++++-------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 8f24dc6..1e119f7 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -131,6 +131,15 @@ Volume::~Volume()
 }
 
 
+// The copy is made before the old surface goes: if it cannot be made, the volume keeps what it has.
+static void ReplaceSurface(Surface<double> *& surface, const Surface<double> * source)
+{
+  Surface<double> * copy = (source != 0) ? source->Clone() : 0;
+  delete surface;
+  surface = copy;
+}
+
+
 Volume& Volume::operator=(const Volume& rhs)
 {
   /// \todo Use "copy and swap" for exception safety.
@@ -145,37 +154,13 @@ Volume& Volume::operator=(const Volume& rhs)
   angle_ = rhs.angle_;
   tolerance_=rhs.tolerance_;
 
-  delete z_top_;
-  if (rhs.z_top_ != 0) {
-    z_top_ = rhs.z_top_->Clone();
-  }
-  else {
-    z_top_ = 0;
-  }
+  ReplaceSurface(z_top_, rhs.z_top_);
 
-  delete z_bot_;
-  if (rhs.z_bot_ != 0) {
-    z_bot_ = rhs.z_bot_->Clone();
-  }
-  else {
-    z_bot_ = 0;
-  }
+  ReplaceSurface(z_bot_, rhs.z_bot_);
 
-  delete erosion_top_;
-  if (rhs.erosion_top_ != 0) {
-    erosion_top_ = rhs.erosion_top_->Clone();
-  }
-  else {
-    erosion_top_ = 0;
-  }
+  ReplaceSurface(erosion_top_, rhs.erosion_top_);
 
-  delete erosion_bot_;
-  if (rhs.erosion_bot_ != 0) {
-    erosion_bot_ = rhs.erosion_bot_->Clone();
-  }
-  else {
-    erosion_bot_ = 0;
-  }
+  ReplaceSurface(erosion_bot_, rhs.erosion_bot_);
 
   return *this;
 }
@@ -206,11 +191,9 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& bot_surf,
                          bool  skip_check)
 {
-  delete z_top_;
-  z_top_ = top_surf.Clone();
+  ReplaceSurface(z_top_, &top_surf);
 
-  delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  ReplaceSurface(z_bot_, &bot_surf);
 
   if ((lx_ > 0.0 || ly_ > 0.0 ) && skip_check == false) { //Make sure area is set, and we need to check
     CheckSurfaces();
@@ -225,17 +208,13 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& erosion_top,
                          const Surface<double>& erosion_bot)
 {
-  delete z_top_;
-  z_top_ = top_surf.Clone();
+  ReplaceSurface(z_top_, &top_surf);
 
-  delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  ReplaceSurface(z_bot_, &bot_surf);
 
-  delete erosion_top_;
-  erosion_top_ = erosion_top.Clone();
+  ReplaceSurface(erosion_top_, &erosion_top);
 
-  delete erosion_bot_;
-  erosion_bot_ = erosion_bot.Clone();
+  ReplaceSurface(erosion_bot_, &erosion_bot);
 
   if (lx_ > 0.0 || ly_ > 0.0 ) { //Check that area is set.
     CheckSurfaces();
-- 
2.43.0


From fb359908f926fbaedaff5005107523a692418c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 35/40] fix: memory running out while an XML document is loaded
 or saved left its file open

---
 src/nrlib/tinyxml/tinyxml.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index cafb0b5..1e34cb9 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -989,7 +989,16 @@ bool TiXmlDocument::LoadFile( const char* _filename, TiXmlEncoding encoding )
 
     if ( file )
     {
-        bool result = LoadFile( file, encoding );
+        bool result = false;
+        try
+        {
+            result = LoadFile( file, encoding );
+        }
+        catch ( ... )
+        {
+            fclose( file );
+            throw;
+        }
         fclose( file );
         return result;
     }
@@ -1121,7 +1130,16 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
     FILE* fp = TiXmlFOpen( filename, "w" );
     if ( fp )
     {
-        bool result = SaveFile( fp );
+        bool result = false;
+        try
+        {
+            result = SaveFile( fp );
+        }
+        catch ( ... )
+        {
+            fclose( fp );
+            throw;
+        }
         if ( fclose( fp ) != 0 )
             result = false;
         return result;
-- 
2.43.0


From 8c572b1c9724decd600306122de00c90ae6c3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 36/40] fix: memory running out while a string is split lost
 tokens or numbers without an error

---
 src/nrlib/iotools/stringtools.cpp | 3 +++
 src/nrlib/iotools/stringtools.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 17256cc..d4a2757 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -104,6 +104,7 @@ NRLib::GetTokens(const std::string& s)
 {
   std::vector<std::string> v;
   std::istringstream iss(s);
+  iss.exceptions(std::ios::badbit); // Running out of memory is not the end of the string.
   std::string tmp;
   while(iss >> tmp) {
     v.push_back(tmp);
@@ -116,6 +117,7 @@ NRLib::GetQuotedTokens(const std::string& s)
 {
   std::vector<std::string> v;
   std::istringstream iss(s);
+  iss.exceptions(std::ios::badbit); // Running out of memory is not the end of the string.
   std::string tmp;
   std::string char_tmp;
   size_t quotation_last_position = 0;
@@ -166,6 +168,7 @@ bool
 NRLib::IsNumber(const std::string & s)
 {
   std::istringstream inStream(s);
+  inStream.exceptions(std::ios::badbit); // Running out of memory does not make s something else.
   double inValue = 0.0;
   if (inStream >> inValue)
     return true;
diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index acc6109..c7938ed 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -151,6 +151,7 @@ template <typename T>
 bool NRLib::IsType(const std::string& s)
 {
   std::istringstream i(s);
+  i.exceptions(std::ios::badbit); // Running out of memory does not make s something else.
   T x;
   char c;
   if (!(i >> x) || i.get(c))
-- 
2.43.0


From 78519f8fbc4bb19be88fa9030ca9d2d0868a92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 37/40] fix: an error while a line is skipped was taken as the
 end of the file by the next token read

---
 src/nrlib/iotools/fileio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index c557599..1bfe9ed 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -220,6 +220,8 @@ std::istream& NRLib::ReadNextToken(std::istream & stream,
 {
   std::locale loc = std::locale();
   char c;
+  if (stream.bad()) // An error is not the end of the file.
+    throw IOError("Error reading from file.");
   if (!stream.good()) {
     stream.setstate(std::ifstream::failbit);
     s = "";
-- 
2.43.0


From 036183aa85e0ecf7d3a8c3956d05d431626cda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 38/40] fix: an Eclipse file with local coordinates cut before
 its grid crashed

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 735970f..d7716f7 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -299,7 +299,7 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
     }
   }
 
-  if (local_coord == true) {
+  if (local_coord == true && has_spec_grid == true) {
     if (has_map_axes == true) {
       NRLib::Transformation transformation;
       double vector_length = sqrt( pow((map_ax_x3 - map_ax_x2), 2) + pow( (map_ax_y3 - map_ax_y2), 2) );
-- 
2.43.0


From fe01f05df6bd4b991f83d721fe176dcf15d51a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 39/40] fix: a Strata wavelet with one sample took a value cut
 by a read error

---
 src/nrlib/wavelet/waveletio.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index dcd88c8..d35abf8 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -359,6 +359,10 @@ void ReadStrataFile(const std::string& filename, Wavelet& wavelet)
     }
   }
 
+  if (!end_of_header) { // Also if reading failed: the line may be cut short.
+    throw FileFormatError("Unexpected end of file.");
+  }
+
   if (n_samples == -1) {
     throw FileFormatError("\"Total Samples\" line missing.");
   }
-- 
2.43.0


From c6e5ddb6e5689ce1715c0027e8082ac86ff6b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 40/40] fix: a cut header of an SGRI file with several surfaces
 was read with made-up values

---
 src/nrlib/surface/surfaceio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 73dfbc3..27a1cbc 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -104,7 +104,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
 {
   std::ifstream header_file;
   OpenRead(header_file, filename.c_str(), std::ios::in | std::ios::binary);
-  int i, dim;
+  int i, dim = 0;
   std::string tmp_str;
   try {
     //Reading record 1: Version header
@@ -130,7 +130,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
 
     //Reading record 4+dim: Number of grids
-    int n_grid;
+    int n_grid = 0;
     header_file >> n_grid;
     if (n_grid < 1) {
       throw Exception("Error: Number of grids read from sgri file must be > 0");
@@ -214,7 +214,9 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
-    header_file >> has_complex;
+    if (!(header_file >> has_complex)) {
+      throw Exception("Error: Unexpected end of Sgri header file.");
+    }
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
     }
-- 
2.43.0


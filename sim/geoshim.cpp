// GeographicLib is only there as a compiled library. Its accesses to what the projectors hand over are announced to the simulator,
// then the real function runs: otherwise a projector that keeps its intermediate results in shared memory would look race free.
#include <dlfcn.h>

#include <GeographicLib/Geocentric.hpp>
#include <GeographicLib/LocalCartesian.hpp>
#include <GeographicLib/UTMUPS.hpp>

extern "C" {
void __tsan_read_range(void* p, unsigned long n);
void __tsan_write_range(void* p, unsigned long n);
}
#define QUIET __attribute__((no_sanitize("thread")))
namespace {
template <typename F>
QUIET F sym(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
template <typename T>
QUIET void wrote(T& x) {
  __tsan_write_range(const_cast<std::remove_const_t<T>*>(&x), sizeof(T));
}
template <typename T>
QUIET void readAll(const T* x) {
  __tsan_read_range(const_cast<T*>(x), sizeof(T));
}
using Fwd = void (*)(double, double, int&, bool&, double&, double&, double&, double&, int, bool);
using Rev = void (*)(int, bool, double, double, double&, double&, double&, double&, bool);
using Tra = void (*)(int, bool, double, double, int, bool, double&, double&, int&);
using LcF = void (*)(const GeographicLib::LocalCartesian*, double, double, double, double&, double&, double&, double*);
using GcF = void (*)(const GeographicLib::Geocentric*, double, double, double, double&, double&, double&, double*);
using LcR = void (*)(GeographicLib::LocalCartesian*, double, double, double);
Fwd fwd = sym<Fwd>("_ZN13GeographicLib6UTMUPS7ForwardEddRiRbRdS3_S3_S3_ib");
Rev rev = sym<Rev>("_ZN13GeographicLib6UTMUPS7ReverseEibddRdS1_S1_S1_b");
Tra tra = sym<Tra>("_ZN13GeographicLib6UTMUPS8TransferEibddibRdS1_Ri");
LcR lcReset = sym<LcR>("_ZN13GeographicLib14LocalCartesian5ResetEddd");
LcF lcF = sym<LcF>("_ZNK13GeographicLib14LocalCartesian10IntForwardEdddRdS1_S1_Pd");
LcF lcB = sym<LcF>("_ZNK13GeographicLib14LocalCartesian10IntReverseEdddRdS1_S1_Pd");
GcF gcF = sym<GcF>("_ZNK13GeographicLib10Geocentric10IntForwardEdddRdS1_S1_Pd");
GcF gcB = sym<GcF>("_ZNK13GeographicLib10Geocentric10IntReverseEdddRdS1_S1_Pd");
template <typename F>
QUIET F get(F& f, const char* name) {
  if (!f) f = sym<F>(name);
  return f;
}
}  // namespace

namespace GeographicLib {
QUIET void UTMUPS::Forward(real lat, real lon, int& zone, bool& northp, real& x, real& y, real& gamma, real& k, int setzone, bool mgrslimits) {
  get(fwd, "_ZN13GeographicLib6UTMUPS7ForwardEddRiRbRdS3_S3_S3_ib")(lat, lon, zone, northp, x, y, gamma, k, setzone, mgrslimits);
  wrote(zone), wrote(northp), wrote(x), wrote(y), wrote(gamma), wrote(k);
}
QUIET void UTMUPS::Reverse(int zone, bool northp, real x, real y, real& lat, real& lon, real& gamma, real& k, bool mgrslimits) {
  get(rev, "_ZN13GeographicLib6UTMUPS7ReverseEibddRdS1_S1_S1_b")(zone, northp, x, y, lat, lon, gamma, k, mgrslimits);
  wrote(lat), wrote(lon), wrote(gamma), wrote(k);
}
QUIET void UTMUPS::Transfer(int zonein, bool northpin, real xin, real yin, int zoneout, bool northpout, real& xout, real& yout, int& zone) {
  get(tra, "_ZN13GeographicLib6UTMUPS8TransferEibddibRdS1_Ri")(zonein, northpin, xin, yin, zoneout, northpout, xout, yout, zone);
  wrote(xout), wrote(yout), wrote(zone);
}
QUIET void LocalCartesian::Reset(real lat0, real lon0, real h0) {
  wrote(*this);
  get(lcReset, "_ZN13GeographicLib14LocalCartesian5ResetEddd")(this, lat0, lon0, h0);
}
QUIET void LocalCartesian::IntForward(real lat, real lon, real h, real& x, real& y, real& z, real M[dim2_]) const {
  readAll(this);
  get(lcF, "_ZNK13GeographicLib14LocalCartesian10IntForwardEdddRdS1_S1_Pd")(this, lat, lon, h, x, y, z, M);
  wrote(x), wrote(y), wrote(z);
}
QUIET void LocalCartesian::IntReverse(real x, real y, real z, real& lat, real& lon, real& h, real M[dim2_]) const {
  readAll(this);
  get(lcB, "_ZNK13GeographicLib14LocalCartesian10IntReverseEdddRdS1_S1_Pd")(this, x, y, z, lat, lon, h, M);
  wrote(lat), wrote(lon), wrote(h);
}
QUIET void Geocentric::IntForward(real lat, real lon, real h, real& X, real& Y, real& Z, real M[dim2_]) const {
  get(gcF, "_ZNK13GeographicLib10Geocentric10IntForwardEdddRdS1_S1_Pd")(this, lat, lon, h, X, Y, Z, M);
  wrote(X), wrote(Y), wrote(Z);
}
QUIET void Geocentric::IntReverse(real X, real Y, real Z, real& lat, real& lon, real& h, real M[dim2_]) const {
  get(gcB, "_ZNK13GeographicLib10Geocentric10IntReverseEdddRdS1_S1_Pd")(this, X, Y, Z, lat, lon, h, M);
  wrote(lat), wrote(lon), wrote(h);
}
}  // namespace GeographicLib

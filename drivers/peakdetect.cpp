// CPeakDetection and the medians it relies on.
#include "drv.h"

#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/operator/linedetection.h"
#include "RedshiftLibrary/operator/peakdetection.h"
#include "RedshiftLibrary/operator/peakdetectionresult.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/noiseaxis.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include "RedshiftLibrary/spectrum/spectrum.h"

static int eighths(double v) {
  double u = v * 8;
  return u == std::round(u) && std::abs(u) < 1e9 ? int(u) : -999999999;
}

struct D : drv::Driver {
  void reset() override {}
  json step(json const &o) override {
    std::string a = o["a"];
    TFloat64List y;
    for (int v : o["y"])
      y.push_back(v);
    if (a == "median") {
      CMedian<Float64> med;
      double whole = med.Find(y);
      // a part of a larger vector
      TFloat64List z(y.size() + 6, 1e6);
      std::copy(y.begin(), y.end(), z.begin() + 3);
      double part = med.Find(z.cbegin() + 3, z.cbegin() + 3 + y.size());
      return {{"ret", "ok"}, {"m", whole == part ? eighths(whole) : -999999999}};
    }
    if (a == "smooth") {
      CSpectrumFluxAxis f(y);
      f.ApplyMedianSmooth(o["hw"]);
      json l = json::array();
      for (double v : f.GetSamplesVector())
        l.push_back(eighths(v));
      return {{"ret", "ok"}, {"y", l}};
    }
    TFloat64List w;
    for (int u : o["w"])
      w.push_back(1000. + u / 2.);
    if (a == "ratio") {
      TFloat64List e = o["e"], m = o["m"];
      CSpectrumFluxAxis f = e.empty() ? CSpectrumFluxAxis(y) : CSpectrumFluxAxis(y, CSpectrumNoiseAxis(e));
      CSpectrum spc{CSpectrumSpectralAxis(w), f};
      CLineDetection det;
      double r = 0, top = 0, mad = 0;
      std::string ret = drv::attempt([&] {
        r = det.ComputeFluxes(spc, o["win"].get<int>(), TInt32Range(o["r"][0], o["r"][1]), m, &top, &mad);
      });
      if (ret != "ok")
        return {{"ret", ret}};
      bool fin = std::isfinite(r) && std::abs(r) < 2e6;
      return {{"ret", "ok"}, {"top", eighths(top)}, {"mad", eighths(mad)},
              {"ratio", std::isnan(r) ? "nan" : std::isinf(r) ? "inf" : ""},
              {"q", fin ? int(std::lround(r * 1000)) : -1}};
    }
    CSpectrum spc{CSpectrumSpectralAxis(w), CSpectrumFluxAxis(y)};
    CPeakDetection det(o["win"].get<int>(), o["cut"].get<int>() / 2., o["hw"], o["rate"], o["off"].get<int>());
    std::shared_ptr<const CPeakDetectionResult> r;
    std::string ret = drv::attempt([&] { r = det.Compute(spc); });
    if (ret != "ok")
      return {{"ret", ret}};
    if (!r)
      return {{"ret", "none"}};
    auto out = [](TInt32RangeList const &l) {
      json j = json::array();
      for (auto const &p : l)
        j.push_back({p.GetBegin(), p.GetEnd()});
      return j;
    };
    return {{"ret", "ok"}, {"peaks", out(r->PeakList)}, {"large", out(r->EnlargedPeakList)}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

// Validation and correction of CSpectrum.
#include "drv.h"

#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/LSFVariableWidth.h"
#include "RedshiftLibrary/spectrum/spectrum.h"

static double value(int v, double unit) {
  if (v == 9999)
    return NAN;
  if (v == 9998)
    return INFINITY;
  if (v == -9998)
    return -INFINITY;
  if (v == 9997)
    return 1e-200;
  return v * unit;
}
static json back(double x, double unit) {
  if (std::isnan(x))
    return 9999;
  if (std::isinf(x))
    return x > 0 ? 9998 : -9998;
  if (x == 1e-200)
    return 9997;
  return std::lround(x / unit);
}

struct D : drv::Driver {
  std::unique_ptr<CSpectrum> s;
  void reset() override { s.reset(); }
  json shown() {
    json r = json::array();
    auto const &f = s->GetFluxAxis().GetSamplesVector();
    auto const &e = s->GetErrorAxis().GetSamplesVector();
    if (f.size() != e.size())
      return "misaligned";
    for (size_t i = 0; i < f.size(); ++i)
      r.push_back({{"f", back(f[i], 0.25e-3)}, {"e", back(e[i], 0.125)}});
    return r;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    json obs;
    std::string ret;
    if (a == "new") {
      TFloat64List w, f, e;
      for (auto const &x : op["sp"]) {
        w.push_back(w.size() + 1.);
        f.push_back(value(x["f"], 0.25e-3));
        e.push_back(value(x["e"], 0.125));
      }
      CSpectrumFluxAxis axis(f.data(), f.size(), e.data(), e.size());
      s = std::make_unique<CSpectrum>(CSpectrumSpectralAxis(w), axis);
      if (!op["lsf"].empty()) {
        TFloat64List lw{op["lsf"][0].get<double>() / 2,
                        op["lsf"][1].get<double>() / 2};
        s->SetLSF(std::make_shared<CLSFGaussianVariableWidth>(
            std::make_shared<TLSFGaussianVarWidthArgs>(lw,
                                                       TFloat64List{1., 1.})));
      }
      return {{"ret", "ok"}, {"sp", shown()}};
    }
    double lo = op["lo"].get<double>() / 2, hi = op["hi"].get<double>() / 2;
    if (a == "flux")
      ret = drv::attempt([&] { s->ValidateFlux(lo, hi); });
    else if (a == "noise")
      ret = drv::attempt([&] { s->ValidateNoise(lo, hi); });
    else if (a == "correct")
      ret = drv::attempt([&] {
        bool c = op["c"] == 10 ? s->correctSpectrum(lo, hi)
                               : s->correctSpectrum(lo, hi, op["c"]);
        obs["corrected"] = c;
      });
    else
      ret = drv::attempt(
          [&] { s->ValidateSpectrum(TFloat64Range(lo, hi), op["correct"]); });
    obs["ret"] = ret;
    obs["sp"] = shown();
    return obs;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

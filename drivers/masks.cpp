// Sample masks, wavelength ranges as masks, statistics over masks.
#include "drv.h"

#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/axis.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include "RedshiftLibrary/spectrum/spectrum.h"

static TFloat64List dbl(json const &l) {
  TFloat64List v;
  for (auto const &x : l)
    v.push_back(x.get<int>());
  return v;
}
static json out(CMask const &m) {
  json v = json::array();
  for (int i = 0; i < m.GetMasksCount(); i++)
    v.push_back(int(m[i]));
  return v;
}
static int share(double x) { return std::isfinite(x) ? int(std::round(x * 720720)) : -1; }
static int milli(double x) { return std::isfinite(x) && std::abs(x) < 1e6 ? int(std::round(x * 1000)) : -9; }

struct D : drv::Driver {
  CMask m[2];
  void reset() override { m[0] = m[1] = CMask(); }
  json step(json const &o) override {
    std::string a = o["a"];
    int k = o.value("k", 1) - 1, j = o.value("j", 1) - 1;
    CMask &s = m[k];
    json x = 0, st;
    std::string ret = drv::attempt([&] {
      TFloat64Range range;
      if (o.contains("b"))
        range = TFloat64Range(o["b"].get<int>(), o["e"].get<int>());
      if (a == "new") {
        CMask n(o["v"].size());
        for (int i = 0; i < n.GetMasksCount(); i++)
          n[i] = Mask(o["v"][i].get<int>());
        s = n;
      } else if (a == "make")
        s = CMask(o["n"].get<int>(), o["d"].get<int>());
      else if (a == "copy")
        s = m[j];
      else if (a == "set")
        s[o["i"].get<int>() - 1] = Mask(o["d"].get<int>());
      else if (a == "size")
        s.SetSize(o["n"]);
      else if (a == "and")
        s &= m[j];
      else if (a == "meet")
        x = int(s.IntersectWith(m[j]));
      else if (a == "over")
        x = share(s.CompouteOverlapFraction(m[j]));
      else if (a == "ifrac")
        x = share(s.IntersectAndComputeOverlapFraction(m[j]));
      else if (a == "count") {
        x = {s.GetMasksCount(), s.GetUnMaskedSampleCount(), s.GetMaskedSampleCount()};
        if (int(s.getMaskList().size()) != s.GetMasksCount() ||
            (s.GetMasksCount() && s.GetMasks() != s.getMaskList().data()))
          x = -1;
      } else if (a == "range")
        CSpectrumSpectralAxis(dbl(o["w"])).GetMask(range, s);
      else if (a == "axfrac")
        x = share(CSpectrumSpectralAxis(dbl(o["w"])).IntersectMaskAndComputeOverlapFraction(range, s));
      else if (a == "pick") {
        TFloat64List mk;
        for (int i = 0; i < s.GetMasksCount(); i++)
          mk.push_back(s[i]);
        TFloat64List v = dbl(o["v"]);
        TFloat64List r[3] = {CSpectrumAxis::maskVector(mk, v),
                             CSpectrumAxis(v).MaskAxis(mk).GetSamplesVector(),
                             CSpectrumSpectralAxis(v).MaskAxis(mk).GetSamplesVector()};
        x = json::array();
        for (double y : r[0])
          x.push_back(int(y));
        if (r[0] != r[1] || r[0] != r[2])
          x = -1;
      } else if (a == "stats" || a == "mstats") {
        double mean = -77, sd = -77;
        CSpectrumFluxAxis flux(CSpectrumAxis(dbl(o["f"])), CSpectrumNoiseAxis(dbl(o["err"])));
        if (a == "stats") {
          CSpectrum spc(CSpectrumSpectralAxis(dbl(o["w"])), flux);
          x = int(spc.GetMeanAndStdFluxInRange(range, mean, sd));
        } else
          x = int(flux.ComputeMeanAndSDev(s, mean, sd));
        if (mean != -77 || sd != -77)
          st = {{"mean", milli(mean)}, {"var", milli(sd * sd)}};
      }
    });
    json b = {{"ret", ret}, {"m", {out(m[0]), out(m[1])}}};
    if (ret == "ok") {
      b["x"] = x;
      if (!st.is_null())
        b["st"] = st;
    }
    return b;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

// CLineMatching, CLineMatchingResult and CRules.
#include "drv.h"

#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/operator/linematching.h"
#include "RedshiftLibrary/operator/linematchingresult.h"

static double pos(int u) { return u / 20.; }
static int unpos(double p) {
  double u = p * 20;
  return std::abs(u - std::round(u)) < 1e-9 ? int(std::lround(u)) : -1;
}
static json zz(double z) { return std::isfinite(z) && std::abs(z) < 1e4 ? int(std::lround(z * 1e5)) : -999999; }

struct D : drv::Driver {
  std::shared_ptr<CLineMatchingResult> res;
  void reset() override { res.reset(); }
  static json sol(CLineMatchingResult::TSolutionSet const &s) {
    json l = json::array();
    for (auto const &p : s) {
      int id = p.RestLineId;
      if (p.RestLine.GetID() != id)
        id = -7;
      l.push_back({unpos(p.DetectedLine.GetPosition()), int(std::lround(p.DetectedLine.GetAmplitude())), id + 1,
                   zz(p.Redshift)});
    }
    return l;
  }
  json view(CLineMatchingResult::TSolutionSetList const &l, TFloat64List const &means) {
    json v = {{"ret", "ok"}, {"sols", json::array()}, {"mean", json::array()}, {"all", json::array()},
              {"strong", json::array()}, {"max", res->GetMaxMatchingNumber()}};
    for (auto const &s : l) {
      v["sols"].push_back(sol(s));
      v["strong"].push_back(res->getNStrongRestLines(s));
    }
    for (double z : means)
      v["mean"].push_back(zz(z));
    for (auto const &s : res->SolutionSetList)
      v["all"].push_back(sol(s));
    if (res->SolutionSetList.empty())
      v["max"] = 0;
    return v;
  }
  json whole() {
    TFloat64List means;
    for (size_t i = 0; i < res->SolutionSetList.size(); ++i)
      means.push_back(res->GetMeanRedshiftSolutionByIndex(i));
    return view(res->SolutionSetList, means);
  }
  json step(json const &o) override {
    std::string a = o["a"];
    if (a == "match") {
      CLineProfile_ptr sym = std::make_unique<CLineProfileSYM>();
      CLineDetectedCatalog det;
      int i = 0;
      for (auto const &d : o["det"])
        det.Add(CLineDetected("d" + std::to_string(i++), pos(d[0]), CLine::EType(d[1].get<int>()), sym->Clone(),
                              CLine::EForce(d[2].get<int>()), d[3].get<int>(), 4, 5.6));
      CLineCatalog rest;
      i = 0;
      for (auto const &d : o["rest"]) {
        std::string n = d[3], name = n == "a"    ? linetags::oIIIa_em
                                     : n == "b"  ? linetags::oIIIb_em
                                     : n == "ha" ? linetags::halpha_em
                                     : n == "hb" ? linetags::hbeta_em
                                                 : "line" + std::to_string(i);
        rest.Add(CLine(name, pos(d[0]), CLine::EType(d[1].get<int>()), sym->Clone(),
                       CLine::EForce(d[2].get<int>()), 0., false, "-1", 1., "em", i, std::to_string(i)));
        ++i;
      }
      std::string ret = drv::attempt([&] {
        res = CLineMatching().Compute(det, rest, TFloat64Range(o["zb"].get<int>() / 1e5, o["ze"].get<int>() / 1e5),
                                      o["min"], o["tol"].get<int>() / 1000., CLine::EType(o["ty"].get<int>()),
                                      CLine::EForce(o["df"].get<int>()), CLine::EForce(o["rf"].get<int>()));
      });
      if (ret != "ok")
        return {{"ret", ret}};
      if (!res)
        return {{"ret", "none"}};
      return whole();
    }
    if (!res)
      return {{"ret", "ignored"}};
    if (a == "best" || a == "most") {
      double z = -77;
      int n = -77;
      bool ok = a == "best" ? res->GetBestRedshift(z, n) : res->GetBestMatchNumRedshift(z, n);
      if (!ok)
        return {{"ret", "no"}};
      return {{"ret", "ok"}, {"z", zz(z)}, {"n", n}};
    }
    if (a == "over")
      return view(res->GetSolutionsListOverNumber(o["n"]), res->GetAverageRedshiftListOverNumber(o["n"]));
    TFloat64List w, f;
    for (int u : o["w"])
      w.push_back(u / 40.);
    for (int v : o["y"])
      f.push_back(v);
    CSpectrum spc{CSpectrumSpectralAxis(w), CSpectrumFluxAxis(f)};
    std::string ret = drv::attempt([&] {
      res->FilterWithRules(spc, TFloat64Range(pos(o["lb"]), pos(o["le"])), pos(o["win"]));
    });
    if (ret != "ok")
      return {{"ret", ret}};
    json v = whole();
    v["out"] = json::array();
    for (auto const &s : res->FilteredSolutionSetList)
      v["out"].push_back(sol(s));
    v["codes"] = res->FilterTypeList;
    return v;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

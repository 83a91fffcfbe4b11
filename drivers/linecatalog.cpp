// The line catalogue, ratio catalogues copied from it, the detected lines and
// the choice of the best ratio catalogue.
#include "drv.h"

#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/line/lineRatioCatalog.h"
#include "RedshiftLibrary/linemodel/element.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"

struct D : drv::Driver {
  std::unique_ptr<CLineCatalog> main;
  std::vector<CLineRatioCatalog> rats;
  std::unique_ptr<CLineCatalogsTplRatio> stored;
  std::unique_ptr<CLineDetectedCatalog> det;
  void reset() override {
    main = std::make_unique<CLineCatalog>(8.);
    rats.clear();
    rats.reserve(8);
    stored = std::make_unique<CLineCatalogsTplRatio>();
    det = std::make_unique<CLineDetectedCatalog>(8.);
  }
  static json num(double x, double k = 1) {
    if (std::isnan(x))
      return -99;
    return std::isfinite(x) ? json(std::llround(x * k)) : json(1 << 30);
  }
  static TAsymParams asym(json const &a) {
    return TAsymParams(a[0].get<int>() / 2., a[1].get<int>() / 2., a[2].get<int>() / 2.);
  }
  static json row(CLine const &l) {
    static const char *names[] = {"NONE", "SYM", "LOR", "ASYM", "ASYMFIT", "SYMIGM"};
    auto const &p = l.GetProfile();
    auto a = l.GetAsymParams();
    std::string name = names[p->GetName()];
    // the profile's own questions agree with its name
    bool as = name == "ASYM" || name == "ASYMFIT";
    if (p->isAsym() != as || p->isAsymFit() != (name == "ASYMFIT") ||
        p->isAsymFixed() != (name == "ASYM") || p->isSymIgm() != (name == "SYMIGM") || p->isSymIgmFit())
      name = "incoherent";
    bool c = l.IsEmission() == (l.GetType() == CLine::EType::nType_Emission) &&
             l.IsStrong() == (l.GetForce() == CLine::EForce::nForce_Strong) &&
             l.IsWeak() == (l.GetForce() == CLine::EForce::nForce_Weak);
    return {l.GetID(), l.GetName(), num(l.GetPosition()), c ? int(l.GetType()) : 0, int(l.GetForce()),
            name, {num(a.sigma, 2), num(a.alpha, 2), num(a.delta, 2)}, num(p->GetNSigmaSupport(), 10),
            l.GetGroupName(), num(l.GetNominalAmplitude()), l.GetVelGroupName(), num(l.GetOffset()),
            l.IsOffsetFitEnabled(), l.GetStrID()};
  }
  static json rows(CLineMap const &m) {
    json r = json::array();
    for (auto const &[id, l] : m) {
      r.push_back(row(l));
      if (l.GetID() != id)
        r.push_back("misplaced");
    }
    return r;
  }
  template <typename Map> static json keys(Map const &m) {
    json r = json::array();
    for (auto const &[id, l] : m)
      r.push_back(id);
    return r;
  }
  static json view(CLineCatalog const &c) {
    json v;
    v["rows"] = rows(c.GetList());
    v["sel"] = v["grp"] = json::array();
    const char *ts[] = {"A", "E", "no"}, *fs[] = {"W", "S", "no"};
    for (int t = 1; t <= 3; ++t)
      for (int f = 1; f <= 3; ++f) {
        auto l = c.GetFilteredList(CLine::EType(t), CLine::EForce(f));
        json k = keys(l);
        if (keys(c.GetFilteredList(std::string(ts[t - 1]), std::string(fs[f - 1]))) != k)
          k = "differs";
        for (auto const &[id, line] : l)
          if (row(line) != row(c.GetList().at(id)))
            k = "altered";
        v["sel"].push_back(k);
      }
    for (auto const &[g, ls] : CLineCatalog::ConvertToGroupList(c.GetList())) {
      json ids = json::array();
      for (auto const &l : ls)
        ids.push_back(row(l) == row(c.GetList().at(l.GetID())) ? l.GetID() : -1);
      v["grp"].push_back({g, ids});
    }
    return v;
  }
  static json vels(CLineRatioCatalog const &r) {
    json v = json::array();
    for (auto n : {"em_vel", "abs_vel"}) {
      double x = -1;
      (void)drv::attempt([&] { x = r.getVelocity(n); });
      v.push_back(num(x));
    }
    return v;
  }
  static json rview(CLineRatioCatalog const &r) {
    return {{"rows", rows(r.GetList())}, {"name", r.getName()}, {"prior", num(r.getPrior())},
            {"ism", r.getIsmIndex()}, {"vel", vels(r)}};
  }
  json all(std::string const &ret) {
    json obs = {{"ret", ret}, {"main", view(*main)}, {"rats", json::array()}, {"rv", json::array()},
                {"stored", json::array()}, {"priors", json::array()}};
    for (auto const &r : rats) {
      obs["rats"].push_back(rview(r));
      obs["rv"].push_back(view(r));
    }
    for (int i = 0; i < stored->GetCatalogsCount(); ++i) {
      json v = rview(stored->GetCatalog(i));
      double e = -1, a = -1;
      (void)drv::attempt([&] { stored->GetCatalogVelocities(i, e, a); });
      if (stored->GetCatalogName(i) != v["name"] || stored->GetIsmIndex(i) != v["ism"] ||
          rows(stored->GetRestLinesList(i)) != v["rows"] ||
          (v["vel"][0] != -1 && v["vel"][1] != -1 && (num(e) != v["vel"][0] || num(a) != v["vel"][1])))
        v = "differs";
      obs["stored"].push_back(v);
    }
    for (double p : stored->getCatalogsPriors())
      obs["priors"].push_back(num(p));
    return obs;
  }
  json catalogue(json const &op) {
    std::string a = op["a"];
    int t = op.value("t", 0);
    auto &c = t ? static_cast<CLineCatalog &>(rats.at(t - 1)) : *main;
    return all(drv::attempt([&] {
      if (a == "add") {
        json const &d = op["d"];
        c.AddLineFromParams(d["name"], d["pos"].get<double>(), d["type"], d["force"], d["prof"],
                            asym(op["asym"]), d["grp"], op["amp"].get<double>(), d["vg"],
                            d["off"].get<double>(), d["fit"].get<bool>(), op["id"], d["sid"]);
      } else if (a == "amp")
        c.setLineAmplitude(op["id"], op["x"].get<double>());
      else if (a == "asym")
        c.setAsymProfileAndParams(op["p"], asym(op["asym"]));
      else if (a == "igm")
        c.convertLineProfiles2SYMIGM(nullptr);
      else if (a == "ratio")
        rats.emplace_back(op["n"].get<std::string>(), *main);
      else if (a == "vel")
        rats.at(t - 1).addVelocity(op["n"], op["x"].get<double>());
      else if (a == "prior")
        rats.at(t - 1).setPrior(op["x"].get<double>());
      else if (a == "ism")
        rats.at(t - 1).setIsmIndex(op["x"].get<double>());
      else if (a == "store")
        stored->addLineRatioCatalog(rats.at(t - 1));
    }));
  }
  json detected(json const &op) {
    std::string a = op["a"];
    std::string ret = drv::attempt([&] {
      if (a == "found")
        det->Add(CLineDetected("l" + std::to_string(op["pos"].get<int>()), op["pos"].get<double>(),
                               CLine::EType(op["ty"].get<int>()),
                               std::make_unique<CLineProfileSYM>(8.),
                               CLine::EForce(op["fo"].get<int>()), op["x"].get<double>(),
                               op["pos"].get<double>() + 1));
      else if (a == "sort")
        det->Sort();
    });
    json l = json::array(), sel = json::array();
    auto r = [&](CLineDetected const &d) {
      bool c = d.GetName() == "l" + std::to_string(std::llround(d.GetPosition())) &&
               d.GetWidth() == d.GetPosition() + 1 && d.GetProfile()->GetName() == SYM;
      return json{num(d.GetPosition()), num(d.GetAmplitude()), c ? int(d.GetType()) : 0, int(d.GetForce())};
    };
    int n = 0;
    for (auto const &[id, d] : det->GetList())
      l.push_back(id == n++ ? r(d) : json("misplaced"));
    for (int t = 1; t <= 3; ++t)
      for (int f = 1; f <= 3; ++f) {
        json s = json::array();
        for (auto const &[id, d] : det->GetFilteredList(CLine::EType(t), CLine::EForce(f)))
          s.push_back(r(d));
        sel.push_back(s);
      }
    return {{"ret", ret}, {"list", l}, {"sel", sel}};
  }
  json fit(json const &op) {
    CLineCatalogsTplRatio tpl;
    for (auto const &amps : op["cats"]) {
      CLineCatalog c(8.);
      int i = 0;
      for (auto const &x : amps) {
        c.AddLineFromParams("l", 1000 + i, "E", "S", "SYM", TAsymParams(), undefStr, 1., "v", 0., false, 3 * i, "s");
        (void)x;
        ++i;
      }
      CLineRatioCatalog r("r", c);
      i = 0;
      for (auto const &x : amps)
        r.setLineAmplitude(3 * i++, x.get<double>());
      tpl.addLineRatioCatalog(r);
    }
    TFloat64List am, er, out;
    TInt32List idx;
    for (auto const &x : op["amps"])
      am.push_back(x.get<double>());
    for (auto const &x : op["errs"])
      er.push_back(x.get<double>());
    for (auto const &x : op["idx"])
      idx.push_back(x.get<int>());
    int best = -1;
    double chi2 = 0;
    std::string ret = drv::attempt([&] { chi2 = tpl.GetBestFit(idx, am, er, out, best); });
    json o = json::array();
    for (double x : out)
      o.push_back(std::isnan(x) ? json(-999999999) : json(std::llround(x * 10007)));
    return {{"ret", ret}, {"best", best}, {"amps", o}, {"fit", std::isnan(chi2) ? -1 : std::llround(chi2 * 10007)}};
  }
  // line i is at 1000 + i, dimmed by 2^-(ebmv index) where i is odd
  json nominal(json const &op) {
    static auto const calz = [] {
      TFloat64List x, y;
      for (int k = 0; k <= 2000; ++k) {
        x.push_back(950 + k * 0.05);
        y.push_back(std::llround(x.back()) % 2 / (0.4 * std::log2(10.)));
      }
      return std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(x, y), 0., 1., 4);
    }();
    CLineCatalogsTplRatio tpl;
    auto types = op["types"].get<std::vector<std::string>>();
    auto lines = [&](json const &amps) {
      CLineCatalog c(8.);
      for (int i = 0; i < int(types.size()); ++i)
        c.AddLineFromParams("l", 1000 + i, types[i], "S", "SYM", TAsymParams(), undefStr, amps[i].get<double>(),
                            "v", 0., false, 3 * i, "s");
      return c;
    };
    json r = json::array();
    std::string ret = drv::attempt([&] {
      for (auto const &x : op["cats"]) {
        CLineRatioCatalog c("r", lines(x["amps"]));
        for (int i = 0; i < int(types.size()); ++i)
          c.setLineAmplitude(3 * i, x["amps"][i].get<double>());
        c.setIsmIndex(x["ism"].get<int>());
        tpl.addLineRatioCatalog(c);
      }
      auto all = lines(json(std::vector<int>(types.size(), 1)));
      std::vector<TLineModelElementParam_ptr> elts;
      for (auto const &e : op["elts"]) {
        CLineVector v;
        for (int i : e)
          v.push_back(all.GetList().at(3 * i));
        elts.push_back(std::make_shared<TLineModelElementParam>(v, 100., 100., "combined"));
      }
      for (auto const &c : tpl.InitLineCorrespondingAmplitudes(elts, op["ism"].get<bool>(), calz)) {
        r.push_back(json::array());
        for (auto const &e : c) {
          r.back().push_back(json::array());
          for (double x : e)
            r.back().back().push_back(num(x, 8));
        }
      }
    });
    return {{"ret", ret}, {"nom", r}};
  }
  json step(json const &op) override {
    std::string a = op["a"];
    if (a == "nominal")
      return nominal(op);
    if (a == "found" || a == "sort")
      return detected(op);
    if (a == "fit")
      return fit(op);
    return catalogue(op);
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

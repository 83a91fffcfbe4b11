// The template catalogue: its four views and what is derived from what.
#include "drv.h"

#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "RedshiftLibrary/spectrum/template/template.h"

struct D : drv::Driver {
  std::unique_ptr<CTemplateCatalog> cat;
  std::map<CTemplate const *, int> ids;
  std::vector<std::shared_ptr<CTemplate>> keep;
  int ncats = 0, nnames = 0;
  TStringList cats() { return ncats == 1 ? TStringList{"a"} : TStringList{"a", "b"}; }
  void reset() override {
    cat = std::make_unique<CTemplateCatalog>();
    ids.clear();
    keep.clear();
  }
  std::shared_ptr<CTemplate> make(std::string const &c, int nm) {
    auto t = std::make_shared<CTemplate>(
        "t" + std::to_string(nm), c, CSpectrumSpectralAxis(TFloat64List{1, 2}),
        CSpectrumFluxAxis(TFloat64List{1, 2}));
    keep.push_back(t);
    ids[t.get()] = keep.size();
    return t;
  }
  template <typename P> int id(P const &p) {
    return p ? ids.count(p.get()) ? ids[p.get()] : 999 : 0;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    CTemplateCatalog &c = *cat;
    json obs;
    obs["ret"] = drv::attempt([&] {
      if (a == "select") {
        c.m_orthogonal = op["o"].get<int>();
        c.m_logsampling = op["l"].get<int>();
      } else if (a == "home")
        c.resetCatalogState();
      else if (a == "lsf")
        c.m_ortho_LSFWidth = 1.;
      else if (a == "add")
        c.Add(make(op["c"], op["nm"]));
      else if (a == "nameless")
        c.Add(make("", 1));
      else if (a == "set")
        c.SetTemplate(make(op["c"], op["nm"]), op["i"]);
      else if (a == "clear")
        c.ClearTemplates(op["c"], op["o"].get<int>(), op["l"].get<int>(), op["i"]);
      else if (a == "clearall")
        c.ClearTemplateList(op["c"], op["o"].get<int>(), op["l"].get<int>());
    });
    CTemplateCatalog const &k = c;
    auto cs = cats();
    obs["sel"] = {int(c.m_orthogonal), int(c.m_logsampling)};
    obs["lsf"] = std::isnan(c.m_ortho_LSFWidth) ? "none" : "set";
    auto lists = [&](auto count, auto get) {
      json r = json::array();
      for (auto const &n : cs) {
        json l = json::array();
        for (int i = 0; i < count(n); ++i)
          l.push_back(id(get(n, i)));
        // and no further one
        if (drv::attempt([&] { get(n, count(n)); }) == "ok")
          l.push_back(-1);
        r.push_back(l);
      }
      return r;
    };
    auto flat = [&](auto const &l) {
      json r = json::array();
      for (auto const &t : l)
        r.push_back(id(t));
      return r;
    };
    auto found = [&](auto f) {
      json r = json::array();
      for (int n = 1; n <= nnames; ++n) {
        int x = 0;
        std::string e = drv::attempt([&] { x = id(f("t" + std::to_string(n))); });
        r.push_back(e == "ok" ? x : e == "INTERNAL_ERROR" ? 0 : -1);
      }
      return r;
    };
    obs["v"] = obs["byname"] = obs["orth"] = obs["live"] = json::array();
    for (int o : {0, 1})
      for (int l : {0, 1}) {
        obs["v"].push_back(
            lists([&](auto n) { return k.GetTemplateCount(n, o, l); },
                  [&](auto n, int i) { return k.GetTemplate(n, i, o, l); }));
        obs["byname"].push_back(found(
            [&](auto const &n) { return k.GetTemplateByName(cs, n, o, l); }));
      }
    obs["cur"] = lists([&](auto n) { return k.GetTemplateCount(n); },
                       [&](auto n, int i) { return k.GetTemplate(n, i); });
    obs["list"] = flat(k.GetTemplateList(cs));
    if (flat(c.GetTemplateList(cs)) != obs["list"])
      obs["list"] = "differs";
    for (int l : {0, 1})
      obs["orth"].push_back(flat(k.GetOrthoTemplateList(cs, l)));
    obs["curname"] =
        found([&](auto const &n) { return k.GetTemplateByName(cs, n); });
    for (auto const &n : cs)
      obs["live"].push_back(k.GetNonNullTemplateCount(n));
    obs["cats"] = k.GetCategoryList();
    return obs;
  }
};

int main(int argc, char **argv) {
  D d;
  d.ncats = d.nnames = 2;
  return drv::main_(argc, argv, d);
}

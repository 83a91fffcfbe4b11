// CPdfCandidatesZ::SetIntegrationRanges.
#include "drv.h"

#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"

struct D : drv::Driver {
  static constexpr double T = 64;
  TCandidateZbyID c;
  TCandidateZRangebyID r; // reused from one call to the next
  std::vector<std::string> ids;
  void reset() override {
    c.clear();
    r.clear();
    ids.clear();
  }
  static json half(double v) {
    double x = v * T * 2;
    return std::abs(x - std::round(x)) < 1e-6 ? int(std::lround(x)) : -999;
  }
  json step(json const &o) override {
    if (o["a"] == "add") {
      auto p = std::make_shared<TCandidateZ>();
      p->Redshift = o["c"]["z"].get<int>() / T;
      p->Deltaz = o["c"]["h"].get<int>() / T / 3;
      p->ValProba = o["c"]["p"].get<int>();
      ids.push_back("EXT" + std::to_string(ids.size()));
      c[ids.back()] = p;
      return {{"ret", "ok"}};
    }
    if (o["a"] == "default") {
      double z = o["z"].get<int>() / 1000.;
      auto p = std::make_shared<TCandidateZ>();
      p->Redshift = z;
      p->Deltaz = -1;
      TCandidateZbyID one{{"EXT0", p}};
      TCandidateZRangebyID w;
      CPdfCandidatesZ op(one);
      auto micro = [](double v) { return int(std::lround(v * 1e6)); };
      std::string ret = drv::attempt(
          [&] { op.SetIntegrationRanges(TFloat64Range(-10., 1000.), w); });
      return {{"ret", ret},
              {"dz", micro(p->Deltaz)},
              {"w", {micro(w["EXT0"].GetBegin()), micro(w["EXT0"].GetEnd())}}};
    }
    CPdfCandidatesZ op(c);
    TStringList d;
    std::string ret = drv::attempt([&] {
      d = op.SetIntegrationRanges(
          TFloat64Range(o["pdf"][0].get<int>() / T, o["pdf"][1].get<int>() / T),
          r);
    });
    json w = json::array(), dup = json::array();
    for (auto const &i : ids)
      w.push_back({half(r[i].GetBegin()), half(r[i].GetEnd())});
    for (auto const &i : d)
      dup.push_back(std::find(ids.begin(), ids.end(), i) - ids.begin() + 1);
    return {{"ret", ret}, {"w", w}, {"dup", dup}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

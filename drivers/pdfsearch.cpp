// COperatorPdfz::Compute: likelihoods to ranked candidates.
#include "drv.h"

#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/operator/pdfz.h"

struct D : drv::Driver {
  static constexpr double T = 64;
  static double z(int u) { return (u - 64) / T; }
  static int tick(double v) {
    double x = v * T + 64;
    return std::abs(x - std::round(x)) < 1e-6 ? int(std::lround(x)) : -999;
  }
  static int near(double v) {
    return std::isfinite(v) && std::abs(v) < 2e9 ? int(std::lround(v)) : 2000000000;
  }
  static CZGridParam param(json const &p) {
    int c = p["c"];
    return CZGridParam(TFloat64Range(z(p["lo"]), z(p["hi"])), p["step"].get<int>() / T,
                       c == -1 ? NAN : z(c));
  }
  void reset() override {}
  static std::shared_ptr<PdfCandidatesZResult>
  run(json const &o, int max, int pw, ChisquareArray const &a, std::unique_ptr<COperatorPdfz> &op) {
    double merit = o["merit"].get<int>() ? std::log(o["merit"].get<int>() + 0.37) : 0.;
    op.reset(new COperatorPdfz(o["how"], 2. * o["sep"][0].get<int>() / o["sep"][1].get<int>(),
                               merit, max, false, "EXT", o["border"], pw));
    return op->Compute(a);
  }
  json step(json const &o) override {
    ChisquareArray a;
    std::unique_ptr<COperatorPdfz> op, op2;
    std::shared_ptr<PdfCandidatesZResult> full, top;
    int lo = o["base"]["lo"];
    bool none = false, small = false;
    std::vector<std::shared_ptr<TCandidateZ>> parents;
    std::string ret = drv::attempt([&] {
      TZGridListParams ps{param(o["base"])};
      for (auto const &s : o["subs"]) {
        ps.push_back(param(s));
        a.zgridParams.push_back(param(s));
        parents.push_back(std::make_shared<TCandidateZ>());
        a.parentCandidates.emplace_back("P" + std::to_string(parents.size()), parents.back());
      }
      a.redshifts = CZGridListParams(ps).getZGrid(false);
      a.zstep = o["base"]["step"].get<int>() / T;
      for (auto const &w : o["ws"]) {
        TFloat64List chi, pr;
        for (double r : a.redshifts) {
          int k = tick(r) - lo;
          chi.push_back(-2. * std::log(w.at(k).get<int>()));
          pr.push_back(o["q"].empty() ? 0. : std::log(o["q"].at(k).get<int>()));
        }
        a.chisquares.push_back(chi);
        a.zpriors.push_back(pr);
      }
      double tot = 0;
      for (int v : o["mp"])
        tot += v;
      for (int v : o["mp"])
        a.modelpriors.push_back(v / tot);
      Flag.resetFlag();
      full = run(o, 1000, o["pw"], a, op);
      Flag.resetFlag();
      top = run(o, o["max"], o["pw"], a, op2);
    });
    auto has = [](WarningCode w) { return bool(Flag.getBitMask() & (1u << int(w))); };
    none = has(WarningCode::PDF_PEAK_NOT_FOUND);
    small = has(WarningCode::PDF_INTEGRATION_WINDOW_TOO_SMALL);
    Flag.resetFlag();
    if (ret != "ok")
      return {{"ret", ret}};
    json pdf = json::array(), c = json::array(), t = json::array();
    for (double v : op->m_postmargZResult->valProbaLog)
      pdf.push_back(near(std::exp(v) / T * 1e4));
    auto ids = [&](std::string const &id, TCandidateZ const &x) {
      int par = 1;
      std::string p;
      if (!parents.empty()) {
        auto n = id.find('_');
        p = id.substr(0, n);
        par = std::stoi(p.substr(1));
        if (n == std::string::npos || x.ParentId != p || x.ParentObject != parents.at(par - 1))
          par = -1;
        p += "_";
      } else if (x.ParentId != "" || x.ParentObject)
        par = -1;
      if (id.substr(0, p.size() + 3) != p + "EXT")
        par = -1;
      return json{par, std::stoi(id.substr(p.size() + 3))};
    };
    for (auto const &[id, x] : full->m_ranked_candidates) {
      json i = ids(id, *x);
      double dz = x->Deltaz * T;
      c.push_back({{"par", i[0]}, {"i", i[1]}, {"u", tick(x->Redshift)},
                   {"p", near(std::exp(x->ValProba) / T * 1e4)}, {"sum", near(x->ValSumProba * 1e4)},
                   {"lo", std::isnan(x->ValSumProbaZmin) ? -1 : tick(x->ValSumProbaZmin)},
                   {"hi", std::isnan(x->ValSumProbaZmax) ? -1 : tick(x->ValSumProbaZmax)},
                   {"rank", x->Rank}, {"dz", near(std::min(dz * 1000, 1e6))},
                   {"q", near(std::min(dz * dz * M_LN2 * 100, 1e6))}});
    }
    for (auto const &[id, x] : top->m_ranked_candidates)
      t.push_back(ids(id, *x));
    return {{"ret", "ok"}, {"pdf", pdf}, {"c", c}, {"top", t}, {"none", none}, {"small", small},
            {"ev", near(std::exp(op->m_postmargZResult->valMargEvidenceLog) * 1e3)}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

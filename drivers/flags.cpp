// CFlagWarning
#include "drv.h"

#include "RedshiftLibrary/common/flag.h"

struct D : drv::Driver {
  void reset() override { Flag.resetFlag(); }
  json step(json const &op) override {
    if (op["a"] == "clear")
      Flag.resetFlag();
    else {
      int code = op["code"];
      std::string text = op["text"];
      if (op["via"] == "plain")
        Flag.warning(WarningCode(code), text);
      else
        Flag.warning(WarningCode(code), "v=%d %s", code, text.c_str());
    }
    json o{{"ret", "ok"}, {"bits", json::array()}, {"msgs", json::array()}};
    unsigned m = Flag.getBitMask();
    for (int b = 0; b < 32; ++b)
      if (m & (1u << b))
        o["bits"].push_back(b);
    for (auto const &[c, t] : Flag.getListMessages())
      o["msgs"].push_back({{"code", int(c)}, {"text", t}});
    return o;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}

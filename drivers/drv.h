// Runs operation histories against the real library and records, after every
// operation, what a client observes.
//   driver HISTORIES OUT STATUS START
// HISTORIES: one JSON array of operations per line.  OUT (appended): one JSON
// object {"op":..., "obs":...} per line, a "reset" line before each history.
// A crash or a hang is recorded as the observation of the running operation.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <nlohmann/json.hpp>
#include <string>
#include <unistd.h>

#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/log/consolehandler.h"
#include "RedshiftLibrary/log/log.h"

using json = nlohmann::json;
using namespace NSEpic;

namespace drv {
inline int outfd = -1, statusfd = -1;
inline std::string outbuf;
inline std::string pending; // the running operation, as JSON
inline long current = -1;

inline void flushOut() {
  size_t o = 0;
  while (o < outbuf.size()) {
    ssize_t n = ::write(outfd, outbuf.data() + o, outbuf.size() - o);
    if (n <= 0)
      _exit(4);
    o += n;
  }
  outbuf.clear();
}
inline void emit(json const &op, json const &obs) {
  outbuf += json{{"op", op}, {"obs", obs}}.dump();
  outbuf += '\n';
  if (outbuf.size() > (1u << 16))
    flushOut();
}
inline void status(const char *what) {
  std::string s = std::to_string(current) + " " + what + "\n";
  (void)!::write(statusfd, s.data(), s.size());
}
inline void onSignal(int sig) {
  const char *name = sig == SIGSEGV   ? "SIGSEGV"
                     : sig == SIGABRT ? "SIGABRT"
                     : sig == SIGFPE  ? "SIGFPE"
                     : sig == SIGALRM ? "TIMEOUT"
                                      : "SIGNAL";
  (void)!::write(outfd, outbuf.data(), outbuf.size());
  const char *a = "{\"op\":", *b = ",\"obs\":{\"crash\":\"", *c = "\"}}\n";
  (void)!::write(outfd, a, strlen(a));
  (void)!::write(outfd, pending.data(), pending.size());
  (void)!::write(outfd, b, strlen(b));
  (void)!::write(outfd, name, strlen(name));
  (void)!::write(outfd, c, strlen(c));
  char buf[64];
  int n = snprintf(buf, sizeof buf, "%ld %s\n", current,
                   sig == SIGALRM ? "hang" : "crash");
  (void)!::write(statusfd, buf, n);
  _exit(3);
}

// the name of the library's error code, or the kind of foreign exception
inline std::string errName(ErrorCode c) {
  switch (c) {
  case ErrorCode::INTERNAL_ERROR: return "INTERNAL_ERROR";
  case ErrorCode::EXTERNAL_LIB_ERROR: return "EXTERNAL_LIB_ERROR";
  case ErrorCode::INVALID_SPECTRUM_WAVELENGTH: return "INVALID_SPECTRUM_WAVELENGTH";
  case ErrorCode::INVALID_SPECTRUM_FLUX: return "INVALID_SPECTRUM_FLUX";
  case ErrorCode::INVALID_NOISE: return "INVALID_NOISE";
  case ErrorCode::INVALID_WAVELENGTH_RANGE: return "INVALID_WAVELENGTH_RANGE";
  case ErrorCode::NEGATIVE_CONTINUUMFIT: return "NEGATIVE_CONTINUUMFIT";
  case ErrorCode::BAD_CONTINUUMFIT: return "BAD_CONTINUUMFIT";
  case ErrorCode::NULL_AMPLITUDES: return "NULL_AMPLITUDES";
  case ErrorCode::PDF_PEAK_NOT_FOUND: return "PDF_PEAK_NOT_FOUND";
  case ErrorCode::STDESTIMATION_FAILED: return "STDESTIMATION_FAILED";
  case ErrorCode::MAX_AT_BORDER_PDF: return "MAX_AT_BORDER_PDF";
  case ErrorCode::MISSING_PARAMETER: return "MISSING_PARAMETER";
  case ErrorCode::BAD_PARAMETER_VALUE: return "BAD_PARAMETER_VALUE";
  case ErrorCode::UNKNOWN_ATTRIBUTE: return "UNKNOWN_ATTRIBUTE";
  case ErrorCode::BAD_LINECATALOG: return "BAD_LINECATALOG";
  case ErrorCode::BAD_LOGSAMPLEDSPECTRUM: return "BAD_LOGSAMPLEDSPECTRUM";
  case ErrorCode::BAD_COUNTMATCH: return "BAD_COUNTMATCH";
  case ErrorCode::BAD_TEMPLATECATALOG: return "BAD_TEMPLATECATALOG";
  case ErrorCode::INVALID_SPECTRUM: return "INVALID_SPECTRUM";
  case ErrorCode::OVERLAPFRACTION_NOTACCEPTABLE: return "OVERLAPFRACTION_NOTACCEPTABLE";
  case ErrorCode::DZ_NOT_COMPUTABLE: return "DZ_NOT_COMPUTABLE";
  case ErrorCode::INCOHERENT_INPUTPARAMETERS: return "INCOHERENT_INPUTPARAMETERS";
  case ErrorCode::BAD_CALZETTICORR: return "BAD_CALZETTICORR";
  case ErrorCode::CRANGE_VALUE_OUTSIDERANGE: return "CRANGE_VALUE_OUTSIDERANGE";
  case ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE: return "CRANGE_VECTBORDERS_OUTSIDERANGE";
  case ErrorCode::CRANGE_NO_INTERSECTION: return "CRANGE_NO_INTERSECTION";
  case ErrorCode::INVALID_MERIT_VALUES: return "INVALID_MERIT_VALUES";
  case ErrorCode::TPL_NAME_EMPTY: return "TPL_NAME_EMPTY";
  case ErrorCode::EMPTY_LIST: return "EMPTY_LIST";
  case ErrorCode::LESS_OBSERVED_SAMPLES_THAN_AMPLITUDES_TO_FIT: return "LESS_OBSERVED_SAMPLES_THAN_AMPLITUDES_TO_FIT";
  case ErrorCode::SPECTRUM_CORRECTION_ERROR: return "SPECTRUM_CORRECTION_ERROR";
  case ErrorCode::SCOPESTACK_ERROR: return "SCOPESTACK_ERROR";
  case ErrorCode::FLAT_ZPDF: return "FLAT_ZPDF";
  case ErrorCode::NEGATIVE_CONTINUUM: return "NEGATIVE_CONTINUUM";
  case ErrorCode::NULL_MODEL: return "NULL_MODEL";
  case ErrorCode::INVALID_SPECTRUM_INDEX: return "INVALID_SPECTRUM_INDEX";
  case ErrorCode::UNKNOWN_AIR_VACUUM_CONVERSION: return "UNKNOWN_AIR_VACUUM_CONVERSION";
  case ErrorCode::BAD_LINE_TYPE: return "BAD_LINE_TYPE";
  case ErrorCode::BAD_LINE_FORCE: return "BAD_LINE_FORCE";
  case ErrorCode::FFT_WITH_PHOTOMETRY_NOTIMPLEMENTED: return "FFT_WITH_PHOTOMETRY_NOTIMPLEMENTED";
  case ErrorCode::MULTIOBS_WITH_PHOTOMETRY_NOTIMPLEMENTED: return "MULTIOBS_WITH_PHOTOMETRY_NOTIMPLEMENTED";
  case ErrorCode::MISSING_PHOTOMETRIC_DATA: return "MISSING_PHOTOMETRIC_DATA";
  case ErrorCode::MISSING_PHOTOMETRIC_TRANSMISSION: return "MISSING_PHOTOMETRIC_TRANSMISSION";
  case ErrorCode::PDF_NORMALIZATION_FAILED: return "PDF_NORMALIZATION_FAILED";
  case ErrorCode::INSUFFICIENT_TEMPLATE_COVERAGE: return "INSUFFICIENT_TEMPLATE_COVERAGE";
  case ErrorCode::INSUFFICIENT_LSF_COVERAGE: return "INSUFFICIENT_LSF_COVERAGE";
  case ErrorCode::INVALID_LSF: return "INVALID_LSF";
  case ErrorCode::SPECTRUM_NOT_LOADED: return "SPECTRUM_NOT_LOADED";
  case ErrorCode::LSF_NOT_LOADED: return "LSF_NOT_LOADED";
  case ErrorCode::UNALLOWED_DUPLICATES: return "UNALLOWED_DUPLICATES";
  case ErrorCode::UNSORTED_ARRAY: return "UNSORTED_ARRAY";
  case ErrorCode::INVALID_DIRECTORY: return "INVALID_DIRECTORY";
  case ErrorCode::INVALID_FILEPATH: return "INVALID_FILEPATH";
  case ErrorCode::INVALID_PARAMETER: return "INVALID_PARAMETER";
  case ErrorCode::MISSING_CONFIG_OPTION: return "MISSING_CONFIG_OPTION";
  case ErrorCode::BAD_FILEFORMAT: return "BAD_FILEFORMAT";
  case ErrorCode::INCOHERENT_CONFIG_OPTIONS: return "INCOHERENT_CONFIG_OPTIONS";
  case ErrorCode::ATTRIBUTE_NOT_SUPPORTED: return "ATTRIBUTE_NOT_SUPPORTED";
  case ErrorCode::INCOMPATIBLE_PDF_MODELSHAPES: return "INCOMPATIBLE_PDF_MODELSHAPES";
  case ErrorCode::UNKNOWN_RESULT_TYPE: return "UNKNOWN_RESULT_TYPE";
  case ErrorCode::RELIABILITY_NEEDS_TENSORFLOW: return "RELIABILITY_NEEDS_TENSORFLOW";
  case ErrorCode::OUTPUT_READER_ERROR: return "OUTPUT_READER_ERROR";
  case ErrorCode::PYTHON_API_ERROR: return "PYTHON_API_ERROR";
  case ErrorCode::INVALID_NAME: return "INVALID_NAME";
  case ErrorCode::INVALID_FILTER_INSTRUCTION: return "INVALID_FILTER_INSTRUCTION";
  case ErrorCode::INVALID_FILTER_KEY: return "INVALID_FILTER_KEY";
  case ErrorCode::NO_CLASSIFICATION: return "NO_CLASSIFICATION";
  case ErrorCode::INVALID_PARAMETER_FILE: return "INVALID_PARAMETER_FILE";
  case ErrorCode::DUPLICATED_LINES: return "DUPLICATED_LINES";
  case ErrorCode::STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE: return "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE";
  case ErrorCode::LINE_RATIO_UNKNOWN_LINE: return "LINE_RATIO_UNKNOWN_LINE";
  }
  return "code" + std::to_string(int(c));
}

template <typename F> inline std::string attempt(F f) {
  try {
    f();
    return "ok";
  } catch (AmzException const &e) {
    return errName(e.getErrorCode());
  } catch (std::exception const &e) {
    return "std";
  } catch (int) {
    return "int";
  }
}

struct Driver {
  virtual ~Driver() = default;
  virtual void reset() = 0;
  virtual json step(json const &op) { return {}; }
  virtual void run(json const &ops) {
    for (auto const &op : ops)
      one(op, [&] { return step(op); });
  }
  void one(json const &op, std::function<json()> f) {
    pending = op.dump();
    json obs = f();
    emit(op, obs);
  }
};

inline int main_(int argc, char **argv, Driver &d, int seconds = 10) {
  if (argc < 5)
    return 2;
  std::ifstream in(argv[1]);
  outfd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
  statusfd = ::open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  long start = atol(argv[4]);
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL})
    sigaction(s, &sa, nullptr);
  std::string line;
  for (current = 0; std::getline(in, line); ++current) {
    if (current < start || line.empty())
      continue;
    json ops = json::parse(line);
    pending = "{\"a\":\"reset\"}";
    alarm(seconds);
    d.reset();
    emit({{"a", "reset"}}, json::object());
    d.run(ops);
    alarm(0);
  }
  flushOut();
  status("done");
  _exit(0);
}
} // namespace drv

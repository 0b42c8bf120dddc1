// Evaluates a trader directly through the library, for comparison with what
// the trader program prints and logs. Input and output are plain text, so the
// result does not depend on record files, options or printing.
//   reftool MODE TRADER START END MONTHS BASE QUOTE LIQUIDITY VOLUME_RATIO
//           TICKS SIDE LOG_PREFIX
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "base/base.h"
#include "base/side_input.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"

using namespace trader;  // NOLINT

namespace {

std::unique_ptr<TraderEmitter> Rebalancing(float alpha, float epsilon) {
  RebalancingTraderConfig c;
  c.set_alpha(alpha);
  c.set_epsilon(epsilon);
  return std::unique_ptr<TraderEmitter>(new RebalancingTraderEmitter(c));
}
std::unique_ptr<TraderEmitter> Stop(float margin, float move, float inc, float dec) {
  StopTraderConfig c;
  c.set_stop_order_margin(margin);
  c.set_stop_order_move_margin(move);
  c.set_stop_order_increase_per_day(inc);
  c.set_stop_order_decrease_per_day(dec);
  return std::unique_ptr<TraderEmitter>(new StopTraderEmitter(c));
}

float F(const char* s) { return strtof(s, nullptr); }

}  // namespace

int main(int argc, char** argv) {
  if (argc != 13) return 2;
  const bool batch = !strcmp(argv[1], "batch"), stop = !strcmp(argv[2], "stop");
  AccountConfig ac;
  ac.set_start_base_balance(strtod(argv[6], nullptr));
  ac.set_start_quote_balance(strtod(argv[7], nullptr));
  ac.set_base_unit(0.00001f);
  ac.set_quote_unit(0.01f);
  for (FeeConfig* f : {ac.mutable_market_order_fee_config(), ac.mutable_stop_order_fee_config(), ac.mutable_limit_order_fee_config()}) {
    f->set_relative_fee(0.005f);
    f->set_fixed_fee(0);
    f->set_minimum_fee(0);
  }
  ac.set_market_liquidity(strtod(argv[8], nullptr));
  ac.set_max_volume_ratio(strtod(argv[9], nullptr));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(strtoll(argv[3], nullptr, 10));
  ec.set_end_timestamp_sec(strtoll(argv[4], nullptr, 10));
  ec.set_evaluation_period_months(atoi(argv[5]));
  ec.set_fast_eval(batch);
  OhlcHistory ticks;
  std::unique_ptr<SideInput> side;
  {
    std::ifstream in(argv[10]);
    std::string line;
    while (std::getline(in, line)) {
      char* p = const_cast<char*>(line.c_str());
      ticks.emplace_back();
      OhlcTick& t = ticks.back();
      t.set_timestamp_sec(strtoll(p, &p, 10));
      t.set_open(strtof(p, &p));
      t.set_high(strtof(p, &p));
      t.set_low(strtof(p, &p));
      t.set_close(strtof(p, &p));
      t.set_volume(strtof(p, &p));
    }
    SideHistory sh;
    std::ifstream sin(argv[11]);
    while (std::getline(sin, line)) {
      std::istringstream is(line);
      std::string x;
      is >> x;
      sh.emplace_back();
      sh.back().set_timestamp_sec(strtoll(x.c_str(), nullptr, 10));
      while (is >> x) sh.back().add_signal(F(x.c_str()));
    }
    if (!sh.empty()) side.reset(new SideInput(sh));
  }
  std::vector<std::unique_ptr<TraderEmitter>> e;
  if (!batch) {
    e.push_back(stop ? Stop(0.1f, 0.1f, 0.01f, 0.1f) : Rebalancing(0.7f, 0.05f));
  } else if (stop) {
    for (float m : {0.05, 0.1, 0.15, 0.2}) for (float v : {0.05, 0.1, 0.15, 0.2}) for (float i : {0.01, 0.05, 0.1}) for (float d : {0.01, 0.05, 0.1}) e.push_back(Stop(m, v, i, d));
  } else {
    for (float a : {0.1f, 0.3f, 0.5f, 0.7f, 0.9f}) for (float x : {0.01f, 0.05f, 0.1f, 0.2f}) e.push_back(Rebalancing(a, x));
  }
  for (auto& em : e) {
    std::ofstream ex, tr;
    if (strcmp(argv[12], "-")) {
      ex.open(std::string(argv[12]) + ".exchange");
      tr.open(std::string(argv[12]) + ".trader");
    }
    CsvLogger logger(ex.is_open() ? &ex : nullptr, tr.is_open() ? &tr : nullptr);
    const EvaluationResult r = EvaluateTrader(ac, ec, ticks, side.get(), *em, &logger);
    printf("trader\t%s\t%.9g\n", r.name().c_str(), r.score());
    for (auto& p : r.period()) {
      printf("period\t%lld\t%lld\t%.9g\t%.9g\t%.9g\t%.9g\t%d\n", static_cast<long long>(p.start_timestamp_sec()), static_cast<long long>(p.end_timestamp_sec()), p.final_gain(),
             p.base_final_gain(), p.result().trader_volatility(), p.result().base_volatility(), p.result().total_executed_orders());
    }
  }
  return 0;
}

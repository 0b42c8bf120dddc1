// Monitors for the shipped traders: rebalancing rule (R01), trailing stop
// automaton (R02), catalogue and instance independence (R03).
#include "eval/eval.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
#include "world.h"

using namespace vf;      // NOLINT
using namespace trader;  // NOLINT

namespace {

constexpr double u = 1.0 / (1 << 24);

std::string S(const Order& o) { return o.ShortDebugString(); }
std::string S(const std::vector<Order>& v) {
  std::string r;
  for (auto& o : v) r += (r.empty() ? "{" : "} {") + S(o);
  return v.empty() ? "none" : r + "}";
}
std::string Dump(const std::vector<Order>& v) {
  std::string r;
  for (auto& o : v) { std::string s = o.SerializeAsString(); r += Fmt("%zu:", s.size()) + s; }
  return r;
}

// ------------------------------------------------------------------- R01

// Judges the orders emitted for one update. Returns "" or key: message.
std::pair<std::string, std::string> JudgeRebalancing(double a, double e, double p, double b, double q, const std::vector<Order>& got, int* cls) {
  const double pv = b * p + q, beta = b * p / pv, up = a * (1 + e), down = a * (1 - e);
  const std::string at = Fmt("alpha %.9g, epsilon %.9g, price %.9g, base %.9g, quote %.9g (share %.9g, band %.9g .. %.9g); emitted ", a, e, p, b, q, beta, down, up) + S(got);
  auto bad = [&](const char* k, const std::string& m) { return std::make_pair(std::string(k), m + "; " + at); };
  for (auto& o : got) {
    if (!o.has_type() || !o.has_side() || !o.has_base_amount() || !(o.base_amount() > 0) || !std::isfinite(o.base_amount())) return bad("invalid-order", "invalid order");
    if (o.type() == Order::STOP) return bad("order-type", "stop order");
    if (o.type() == Order::LIMIT && !(o.has_price() && o.price() > 0 && std::isfinite(o.price()))) return bad("invalid-price", "invalid limit price");
  }
  size_t market = 0;
  for (auto& o : got) market += o.type() == Order::MARKET;
  const double tol = 16 * u;
  const bool over = beta > up * (1 + tol), maybe_over = beta > up * (1 - tol);
  const bool under = beta < down * (1 - tol), maybe_under = beta < down * (1 + tol);
  if (over || under || market) {
    if (!(maybe_over || maybe_under)) return bad("market-inside-band", "market order although the share is inside the band");
    if (got.size() != 1 || market != 1) return bad("market-count", "expected exactly one market order");
    const bool sell = maybe_over && !under;
    if (got[0].side() != (sell ? Order::SELL : Order::BUY)) return bad("market-side", "wrong side");
    const double want = sell ? ((1 - a) * pv - q) / p : (q - (1 - a) * pv) / p;
    if (!Near(got[0].base_amount(), want, 4 * u, 12 * u * pv / p)) return bad("market-size", Fmt("size %.9g, expected %.9g", got[0].base_amount(), want));
    // The share after trading at this price is the target.
    const double nb = b + (sell ? -1 : 1) * static_cast<double>(got[0].base_amount());
    if (!Near(nb * p / pv, a, 0, 20 * u)) return bad("market-target", Fmt("share after the trade %.9g", nb * p / pv));
    *cls = sell ? 1 : 2;
    return {};
  }
  // Inside the band.
  int sells = 0, buys = 0;
  *cls = 3;
  for (auto& o : got) (o.side() == Order::SELL ? sells : buys)++;
  if (sells > 1 || buys > 1) return bad("limit-count", "more than one limit order on one side");
  for (int side = 0; side < 2; ++side) {
    const bool sell = side == 0;
    const double edge = sell ? up : down;
    const Order* o = nullptr;
    for (auto& x : got) if ((x.side() == Order::SELL) == sell) o = &x;
    // Price at which the share reaches the edge; infinite if it never does.
    const double price = edge < 1 && b > 0 ? edge * q / ((1 - edge) * b) : INFINITY;
    const double ptol = 10 * u + 8 * u / std::max(1e-9, std::fabs(1 - edge));
    const bool fuzzy = std::fabs(1 - edge) < 1e-5;
    const double lo_lim = sell ? p : p / 100, hi_lim = sell ? 100 * p : p;
    const bool sure_no = !fuzzy && (edge >= 1 || b <= 1e-6 * (1 - 4 * u) || q <= 1e-6 * (1 - 4 * u) || price < lo_lim * (1 - ptol) || price > hi_lim * (1 + ptol));
    const bool sure_yes = !fuzzy && edge < 1 && b > 1e-6 * (1 + 4 * u) && q > 1e-6 * (1 + 4 * u) && price > lo_lim * (1 + ptol) && price < hi_lim * (1 - ptol);
    if (o == nullptr) {
      if (sure_yes) return bad(sell ? "limit-sell-missing" : "limit-buy-missing", Fmt("no limit %s at %.9g", sell ? "sell" : "buy", price));
      continue;
    }
    if (sure_no) return bad(sell ? "limit-sell-unexpected" : "limit-buy-unexpected", Fmt("limit %s not allowed here (edge price %.9g)", sell ? "sell" : "buy", price));
    if (!fuzzy && !Near(o->price(), price, ptol)) return bad(sell ? "limit-sell-price" : "limit-buy-price", Fmt("limit %s price %.9g, expected %.9g", sell ? "sell" : "buy", o->price(), price));
    if (sell ? o->price() < p * (1 - u) : o->price() > p * (1 + u)) return bad("limit-side-of-price", "limit price on the wrong side of the current price");
    const double want = sell ? b * e / (1 + e) : b * e / (1 - e);
    if (!Near(o->base_amount(), want, 8 * u + 4 * u / (1 - e))) return bad(sell ? "limit-sell-size" : "limit-buy-size", Fmt("limit %s size %.9g, expected %.9g", sell ? "sell" : "buy", o->base_amount(), want));
    *cls += sell ? 1 : 2;
  }
  return {};
}

RebalancingTraderConfig RandomRebalancing(Rng& g) {
  RebalancingTraderConfig c;
  c.set_alpha(g.Chance(0.5) ? g.Pick({0.1f, 0.3f, 0.5f, 0.7f, 0.9f, 0.25f, 0.75f}) : static_cast<float>(g.Dbl(0.01, 0.999)));
  c.set_epsilon(g.Chance(0.5) ? g.Pick({0.01f, 0.05f, 0.1f, 0.2f, 0.5f, 0.25f}) : static_cast<float>(g.Chance(0.5) ? g.LogU(0.001, 0.1) : g.Dbl(0.01, 0.99)));
  return c;
}

// Balances whose share is at, near or away from an interesting point.
void RandomBalances(Rng& g, double p, double a, double e, float& b, float& q) {
  const double pv = g.LogU(1e-2, 1e7);
  double beta;
  switch (g.Int(0, 9)) {
    case 0: beta = 0; break;
    case 1: beta = 1; break;
    case 2: case 3: { const double edge = g.Chance(0.5) ? a * (1 + e) : a * (1 - e); beta = edge * (1 + g.Pick({-1.0, 1.0}) * g.Pick({0.0, 1e-7, 1e-5, 1e-3})); break; }
    case 4: case 5: case 6: beta = a * (1 + e * g.Dbl(-1, 1)); break;
    case 7: beta = g.Pick({1e-6, 1 - 1e-6}); break;
    default: beta = g.Dbl();
  }
  beta = std::min(1.0, std::max(0.0, beta));
  b = beta * pv / p; q = (1 - beta) * pv;
  if (g.Chance(0.03)) b = g.Pick({1e-6f, 0.9e-6f, 1.1e-6f, 1e-8f});
  if (g.Chance(0.03)) q = g.Pick({1e-6f, 0.9e-6f, 1.1e-6f, 1e-8f});
  if (!(b > 0 || q > 0)) q = 1;
}

OhlcTick Tick(Rng& g, int64_t ts, float close) {
  OhlcTick t;
  t.set_timestamp_sec(ts); t.set_close(close);
  const float o = close * static_cast<float>(g.Dbl(0.8, 1.25));
  t.set_open(o);
  t.set_high(std::max(o, close) * static_cast<float>(g.Dbl(1, 1.5))); t.set_low(std::min(o, close) * static_cast<float>(g.Dbl(0.6, 1)));
  t.set_volume(g.Chance(0.1) ? 0 : g.Volume(1e-3, 1e4));
  return t;
}
std::vector<float> Signals(Rng& g) {
  std::vector<float> s;
  if (g.Chance(0.3)) for (int i = g.Int(1, 3); i > 0; --i) s.push_back(RandomSignal(g));
  return s;
}

class RecordingEmitter : public TraderEmitter {
 public:
  explicit RecordingEmitter(const TraderEmitter* in) : in_(in) {}
  std::string GetName() const override { return in_->GetName(); }
  std::unique_ptr<Trader> NewTrader() const override { recs.emplace_back(new Recording); return std::unique_ptr<Trader>(new WrappedTrader(in_->NewTrader(), recs.back().get())); }
  mutable std::vector<std::unique_ptr<Recording>> recs;

 private:
  const TraderEmitter* in_;
};

// Executes `e` over a random world through the evaluation and returns what it recorded.
std::unique_ptr<Recording> ExecuteIn(Rng& g, const TraderEmitter& e) {
  HistOptions h;
  h.rate = g.Pick({60, 300, 1800, 3600, 86400});
  h.n = g.Int(2, 150); h.price = g.LogU(0.1, 1e5); h.vol = g.Pick({0.005, 0.05, 0.3}); h.missing = g.Pick({0.0, 0.05});
  OhlcHistory hist = RandomHistory(g, h);
  AccountConfig a = RandomAccount(g, h.price);
  for (FeeConfig* f : {a.mutable_market_order_fee_config(), a.mutable_stop_order_fee_config(), a.mutable_limit_order_fee_config()}) { f->clear_fixed_fee(); f->clear_minimum_fee(); }
  if (a.start_base_balance() == 0 && a.start_quote_balance() == 0) a.set_start_quote_balance(1000);
  RecordingEmitter r(&e);
  auto t = r.NewTrader();
  ExecuteTrader(a, hist.begin(), hist.end(), nullptr, g.Chance(0.5), *t, nullptr);
  return std::move(r.recs[0]);
}

void CaseR01(Ctx& c, Rng& g) {
  const RebalancingTraderConfig cfg = RandomRebalancing(g);
  RebalancingTraderEmitter em(cfg);
  const double a = cfg.alpha(), e = cfg.epsilon();
  auto judge = [&](double p, float b, float q, const std::vector<Order>& got, const char* where) {
    int cls = 0;
    auto v = JudgeRebalancing(a, e, p, b, q, got, &cls);
    if (!v.first.empty()) { c.Fail("R01", v.first, v.second + where); return false; }
    static const char* const names[] = {"", "market_sells", "market_buys", "quiet_inside_band", "only_sell_limit", "only_buy_limit", "both_limits"};
    c.Ev(names[cls]);
    c.Distinct(Comb(Comb(Bits(cfg.alpha()), Bits(cfg.epsilon())), cls));
    return true;
  };
  if (g.Chance(0.2)) {
    auto rec = ExecuteIn(g, em);
    c.Ev("executions");
    for (auto& up : rec->updates) {
      OhlcTick t;
      t.ParseFromString(up.tick);
      if (!judge(t.close(), up.base, up.quote, up.emitted, "; inside an execution")) return;
    }
    return;
  }
  auto t = em.NewTrader();
  int64_t ts = g.Int(1, 2000000000);
  const bool repeat = g.Chance(0.2);
  float last_p = 0, last_b = 0, last_q = 0;
  for (int i = g.Int(1, 12); i > 0; --i) {
    float p = g.Chance(0.2) ? g.Pick({1.0f, 100.0f, 1024.0f}) : static_cast<float>(g.LogU(1e-3, 1e6));
    float b, q;
    RandomBalances(g, p, a, e, b, q);
    if (repeat && last_p > 0) {  // Nothing or only some of it changes.
      if (g.Chance(0.6)) { b = last_b; q = last_q; }
      if (g.Chance(0.6)) p = last_p;
    }
    last_p = p; last_b = b; last_q = q;
    const OhlcTick tick = Tick(g, ts, p);
    std::vector<Order> got, again;
    t->Update(tick, Signals(g), b, q, got);
    if (!judge(p, b, q, got, "")) return;
    em.NewTrader()->Update(tick, Signals(g), b, q, again);
    if (Dump(got) != Dump(again)) {
      c.Fail("R01", "history-dependence", Fmt("after earlier updates the trader emits %s, a fresh one emits %s; tick %s, base %.9g, quote %.9g", S(got).c_str(), S(again).c_str(), tick.ShortDebugString().c_str(), b, q));
      return;
    }
    if (c.WantSample()) c.Sample(Fmt("alpha %g epsilon %g price %.9g base %.9g quote %.9g -> %s", a, e, p, b, q, S(got).c_str()));
    ts += g.Int(1, 100000);
  }
}

// ------------------------------------------------------------------- R02

struct StopState {
  bool started = false;
  int mode = 0;  // 1 long, 2 cash
  int64_t ts = 0;
  double stop = 0;
};

std::pair<std::string, std::string> JudgeStop(const StopTraderConfig& cfg, StopState& s, int64_t ts, float price, float b, float q, const std::vector<Order>& got, std::string* cls) {
  const std::string at = Fmt("margin %.9g, move %.9g, up %.9g, down %.9g; time %" PRId64 " (last %" PRId64 "), price %.9g, base %.9g, quote %.9g, last mode %d, last stop %.9g; emitted ",
      cfg.stop_order_margin(), cfg.stop_order_move_margin(), cfg.stop_order_increase_per_day(), cfg.stop_order_decrease_per_day(), ts, s.ts, price, b, q, s.mode, s.stop) + S(got);
  auto bad = [&](const char* k, const std::string& m) { return std::make_pair(std::string(k), m + "; " + at); };
  if (got.size() != 1) return bad("order-count", "expected exactly one order");
  const Order& o = got[0];
  if (!o.has_type() || o.type() != Order::STOP) return bad("order-type", "not a stop order");
  if (!o.has_side() || !o.has_price() || !(o.price() > 0) || !std::isfinite(o.price())) return bad("invalid-order", "invalid order");
  const double value = static_cast<double>(b) * price;
  const bool exact = static_cast<double>(static_cast<float>(value)) == value;
  const bool amb = !exact && std::fabs(value - q) <= 2 * u * q;
  int mode = value >= q ? 1 : 2;
  if (amb) mode = o.side() == Order::SELL ? 1 : 2;
  if (mode == 1 ? o.side() != Order::SELL : o.side() != Order::BUY) return bad("side", "wrong side");
  if (mode == 1 ? !o.has_base_amount() || o.base_amount() != b : !o.has_quote_amount() || o.quote_amount() != q) return bad("amount", "not the whole balance");
  const double p = price, got_stop = o.price();
  const double margin = cfg.stop_order_margin(), move = cfg.stop_order_move_margin();
  if (!s.started || mode != s.mode || ts - s.ts >= 3600) {
    const double want = mode == 1 ? (1 - margin) * p : (1 + margin) * p;
    if (!Near(got_stop, want, 4 * u / (1 - margin))) return bad("restart-price", Fmt("stop price %.9g, expected %.9g after a (re)start", got_stop, want));
    *cls = !s.started ? "starts" : mode != s.mode ? "mode_changes" : "gap_restarts";
  } else {
    if (mode == 1 ? got_stop < s.stop : got_stop > s.stop) return bad("ratchet", "the stop price moved away from the market");
    const double days = (ts - s.ts) / 86400.0;
    double want;
    const double thr = mode == 1 ? (1 - move) * p : (1 + move) * p;
    if (mode == 1) {
      want = s.stop <= thr ? std::max(s.stop, std::min(thr, s.stop * std::pow(1.0 + cfg.stop_order_increase_per_day(), days))) : s.stop;
    } else {
      want = s.stop >= thr ? std::min(s.stop, std::max(thr, s.stop * std::pow(1.0 - cfg.stop_order_decrease_per_day(), days))) : s.stop;
    }
    if (!Near(got_stop, want, 16 * u + 4 * u / (1 - move))) {
      const bool beyond = mode == 1 ? got_stop > thr : got_stop < thr;
      return bad(beyond ? "beyond-margin" : "rate", Fmt("stop price %.9g, expected %.9g (move threshold %.9g)", got_stop, want, thr));
    }
    *cls = want == s.stop ? "held" : want == thr ? "moved_to_margin" : "moved_at_rate";
  }
  s = {true, mode, ts, got_stop};
  return {};
}

// Set for the memory-safety workload: more degenerate parameters and times.
bool degenerate = false;

StopTraderConfig RandomStop(Rng& g) {
  StopTraderConfig c;
  auto v = [&]() -> float { return g.Chance(degenerate ? 0.2 : 0.02) ? 0.0f : g.Chance(0.4) ? g.Pick({0.05f, 0.1f, 0.15f, 0.2f, 0.01f, 0.5f}) : g.Chance(0.5) ? g.Dbl(0.001, 0.95) : g.LogU(0.001, 0.3); };
  c.set_stop_order_margin(v()); c.set_stop_order_move_margin(v());
  c.set_stop_order_increase_per_day(g.Chance(0.1) ? static_cast<float>(g.LogU(1, 20)) : v()); c.set_stop_order_decrease_per_day(v());
  return c;
}

void CaseR02(Ctx& c, Rng& g) {
  const StopTraderConfig cfg = RandomStop(g);
  StopTraderEmitter em(cfg);
  StopState st;
  std::string cls;
  uint64_t trail = 0;
  auto judge = [&](int64_t ts, float p, float b, float q, const std::vector<Order>& got, const char* where) {
    auto v = JudgeStop(cfg, st, ts, p, b, q, got, &cls);
    if (!v.first.empty()) { c.Fail("R02", v.first, v.second + where); return false; }
    c.Ev(cls.c_str());
    trail = Comb(trail, HashStr(cls) + (st.mode == 1));
    return true;
  };
  if (g.Chance(0.2)) {
    auto rec = ExecuteIn(g, em);
    c.Ev("executions");
    for (auto& up : rec->updates) {
      OhlcTick t;
      t.ParseFromString(up.tick);
      if (!judge(up.ts, t.close(), up.base, up.quote, up.emitted, "; inside an execution")) return;
    }
    c.Distinct(trail);
    return;
  }
  auto t = em.NewTrader();
  int64_t ts = g.Chance(degenerate ? 0.3 : 0.1) ? g.Int(1, 5000) : g.Chance(0.1) ? (int64_t{1} << 32) + g.Int(-5000, 5000) : g.Int(1, 2000000000);
  double p = g.Chance(0.3) ? 1024 : g.LogU(1e-2, 1e5);
  float b = g.Chance(0.2) ? 0 : g.LogU(1e-3, 1e3), q = g.Chance(0.3) && b > 0 ? 0 : g.LogU(1e-2, 1e6);
  const bool still = g.Chance(0.05);
  const double drift = still ? 0 : g.Dbl(-0.02, 0.02), vol = still ? 0 : g.Pick({0.0, 0.003, 0.05, 0.4});
  const int mode_change = g.Int(0, 3);
  for (int i = g.Chance(0.02) ? 2000 : g.Int(1, 60); i > 0; --i) {
    std::vector<Order> got;
    t->Update(Tick(g, ts, p), Signals(g), b, q, got);
    if (!judge(ts, static_cast<float>(p), b, q, got, "")) return;
    if (c.WantSample() && i == 1) c.Sample(Fmt("%s, price %.9g, base %.9g, quote %.9g, %s -> %s", em.GetName().c_str(), p, b, q, cls.c_str(), S(got).c_str()));
    ts += g.Chance(0.06) ? g.Pick<int64_t>({3599, 3600, 3601, 86400, 172800, g.Chance(0.05) ? (1LL << 31) + 100 : 7200, g.Chance(0.05) ? (1LL << 32) + 100 : 7000}) : g.Pick({1, 60, 300, 1800, 3599});
    p *= std::exp(drift + g.Dbl(-vol, vol));
    if (p < 1e-3 || p > 1e6) p = g.LogU(1, 1000);
    if (g.Chance(0.1)) {
      switch (mode_change) {
        case 0: break;
        case 1: b *= g.Dbl(0.2, 3); break;
        case 2: if (g.Chance(0.5)) { q = b * static_cast<float>(p); } else { b = g.LogU(1e-3, 1e3); q = g.LogU(1e-2, 1e6); } break;  // exactly half
        default: if (g.Chance(0.5)) { q += b * p; b = 0; } else { b += q / p; q = 0; }
      }
      if (!(b > 0 || q > 0)) q = 1;
      if (b > 1e6 || q > 1e8) { b = 1; q = 1; }
    }
  }
  c.Distinct(trail);
}

// ------------------------------------------------------------------- R03

// "kind-trader[a|b]" -> kind, numbers
bool ParseName(const std::string& n, std::string& kind, std::vector<std::string>& num) {
  const size_t l = n.find('['), r = n.rfind(']');
  if (l == std::string::npos || r != n.size() - 1 || r < l) return false;
  kind = n.substr(0, l);
  num.assign(1, "");
  for (size_t i = l + 1; i < r; ++i) { if (n[i] == '|') num.push_back(""); else num.back() += n[i]; }
  return true;
}

struct Inst {
  std::unique_ptr<TraderEmitter> own;
  const TraderEmitter* em = nullptr;
  bool stop = false;
  RebalancingTraderConfig rc;
  StopTraderConfig sc;
};

// An emitter with known parameters, from the catalogue or custom.
std::vector<std::vector<float>> kStopGrid() { return {{0.05f, 0.1f, 0.15f, 0.2f}, {0.05f, 0.1f, 0.15f, 0.2f}, {0.01f, 0.05f, 0.1f}, {0.01f, 0.05f, 0.1f}}; }
std::vector<std::vector<float>> kRebGrid() { return {{0.1f, 0.3f, 0.5f, 0.7f, 0.9f}, {0.01f, 0.05f, 0.1f, 0.2f}}; }

std::vector<std::vector<float>> Cross(const std::vector<std::vector<float>>& grid) {
  std::vector<std::vector<float>> r{{}};
  for (auto& axis : grid) {
    std::vector<std::vector<float>> n;
    for (auto& p : r) for (float v : axis) { n.push_back(p); n.back().push_back(v); }
    r = n;
  }
  return r;
}

std::string NameOf(bool stop, const std::vector<float>& v) {
  std::string s = stop ? "stop-trader[" : "rebalancing-trader[";
  for (size_t i = 0; i < v.size(); ++i) s += Fmt(i ? "|%.3f" : "%.3f", v[i]);
  return s + "]";
}

// Whether the emitter's traders behave as a trader with these parameters.
bool Behaves(Ctx& c, Rng& g, const TraderEmitter& e, bool stop, const std::vector<float>& v) {
  auto t = e.NewTrader();
  StopTraderConfig sc;
  if (stop) { sc.set_stop_order_margin(v[0]); sc.set_stop_order_move_margin(v[1]); sc.set_stop_order_increase_per_day(v[2]); sc.set_stop_order_decrease_per_day(v[3]); }
  StopState st;
  std::string sc_cls;
  int64_t ts = 1500000000;
  double p = 1000;
  // Rising, then (in the other mode) falling prices exercise every parameter.
  for (int i = 0; i < 12; ++i) {
    float b, q;
    if (stop) { b = i < 6 ? 1 : 0; q = i < 6 ? 0 : 1000; p *= i == 6 ? 1 : i < 6 ? (i == 4 ? 1.5 : 1.02) : (i == 10 ? 0.6 : 0.98); }
    else RandomBalances(g, p, v[0], v[1], b, q);
    std::vector<Order> got;
    t->Update(Tick(g, ts, p), {}, b, q, got);
    int cls = 0;
    auto r = stop ? JudgeStop(sc, st, ts, static_cast<float>(p), b, q, got, &sc_cls) : JudgeRebalancing(v[0], v[1], static_cast<float>(p), b, q, got, &cls);
    if (!r.first.empty()) {
      c.Fail("R03", "parameters", e.GetName() + " does not behave as " + NameOf(stop, v) + ": " + r.second);
      return false;
    }
    ts += 1800;
  }
  return true;
}

void Catalogue(Ctx& c, Rng& g) {
  const bool stop = g.Chance(0.3);
  const std::string name = stop ? "stop" : "rebalancing";
  auto one = GetTrader(name);
  const std::vector<float> def = stop ? std::vector<float>{0.1f, 0.1f, 0.01f, 0.1f} : std::vector<float>{0.7f, 0.05f};
  if (!one || one->GetName() != NameOf(stop, def)) { c.Fail("R03", "default-name", "default " + name + " trader is " + (one ? one->GetName() : "null") + ", expected " + NameOf(stop, def)); return; }
  if (!Behaves(c, g, *one, stop, def)) return;
  auto batch = GetBatchOfTraders(name);
  auto want = Cross(stop ? kStopGrid() : kRebGrid());
  std::map<std::string, std::vector<float>> left;
  for (auto& w : want) left[NameOf(stop, w)] = w;
  for (auto& e : batch) {
    const std::string n = e->GetName();
    auto it = left.find(n);
    if (it == left.end()) { c.Fail("R03", "batch-member", "batch contains " + n + " which is repeated or not one of the documented combinations"); return; }
    if (!Behaves(c, g, *e, stop, it->second)) return;
    left.erase(it);
    c.Ev("catalogue_entries");
    c.Distinct(HashStr(n));
  }
  if (!left.empty()) { c.Fail("R03", "batch-missing", "batch lacks " + left.begin()->first); return; }
  if (c.WantSample()) c.Sample(Fmt("%s: default %s, batch of %zu", name.c_str(), one->GetName().c_str(), batch.size()));
}

void CustomBatch(Ctx& c, Rng& g) {
  const bool stop = g.Chance(0.4);
  std::vector<std::vector<float>> grid;
  const bool wide = g.Chance(0.4);
  for (int i = 0; i < (stop ? 4 : 2); ++i) {
    std::set<int> vals;
    for (int k = g.Int(1, stop ? 2 : 4); k > 0; --k) vals.insert(wide ? g.Int(1, stop && i == 2 ? 20000 : 950) : g.Int(10, 400));
    grid.emplace_back();
    for (int x : vals) grid.back().push_back(x / 1000.0f);
  }
  auto batch = stop ? StopTraderEmitter::GetBatchOfTraders(grid[0], grid[1], grid[2], grid[3]) : RebalancingTraderEmitter::GetBatchOfTraders(grid[0], grid[1]);
  std::map<std::string, std::vector<float>> left;
  for (auto& w : Cross(grid)) left[NameOf(stop, w)] = w;
  for (auto& e : batch) {
    auto it = left.find(e->GetName());
    if (it == left.end()) { c.Fail("R03", "batch-member", "batch contains unexpected or repeated " + e->GetName()); return; }
    if (!Behaves(c, g, *e, stop, it->second)) return;
    left.erase(it);
    c.Ev("grid_members");
  }
  if (!left.empty()) c.Fail("R03", "batch-missing", "batch lacks " + left.begin()->first);
}

void Interleave(Ctx& c, Rng& g) {
  struct One {
    std::shared_ptr<TraderEmitter> em;
    bool stop;
    std::vector<OhlcTick> ticks;
    std::vector<std::pair<float, float>> bal;
    std::vector<std::vector<float>> sig;
    std::unique_ptr<Trader> t;
    size_t pos = 0;
    std::vector<std::string> orders, states;
    std::string fresh;  // State before the first update.
  };
  std::vector<One> v;
  std::vector<std::shared_ptr<TraderEmitter>> ems;
  std::vector<bool> stops;
  for (int i = g.Int(1, 3); i > 0; --i) {
    const bool stop = g.Chance(0.5);
    stops.push_back(stop);
    if (stop) ems.emplace_back(new StopTraderEmitter(RandomStop(g))); else ems.emplace_back(new RebalancingTraderEmitter(RandomRebalancing(g)));
  }
  const int n = g.Int(2, 5);
  for (int i = 0; i < n; ++i) {
    v.emplace_back();
    One& o = v.back();
    const int k = g.Int(0, ems.size() - 1);
    o.em = ems[k]; o.stop = stops[k];
    int64_t ts = g.Chance(degenerate ? 0.3 : 0.05) ? g.Int(1, 5000) : g.Int(1, 2000000000);
    const bool huge = g.Chance(0.05);
    double p = huge ? g.LogU(1e20, 1e29) : g.LogU(0.1, 1e4);
    for (int j = g.Int(1, 25); j > 0; --j) {
      float b, q;
      RandomBalances(g, p, 0.5, 0.1, b, q);
      if (huge) { b = g.LogU(1, 1e6); q = g.LogU(1, 1e36); }
      if (o.stop && g.Chance(0.8) && !o.bal.empty()) { b = o.bal.back().first; q = o.bal.back().second; }
      o.ticks.push_back(Tick(g, ts, p)); o.bal.push_back({b, q}); o.sig.push_back(Signals(g));
      ts += g.Chance(0.1) ? 5000 : g.Int(1, 3599);
      p *= std::exp(g.Dbl(-0.1, 0.1));
    }
    o.t = o.em->NewTrader();
    o.fresh = o.t->GetInternalState();
  }
  auto step = [&](One& o) {
    std::vector<Order> got;
    o.t->Update(o.ticks[o.pos], o.sig[o.pos], o.bal[o.pos].first, o.bal[o.pos].second, got);
    o.orders.push_back(Dump(got));
    o.states.push_back(o.t->GetInternalState());
    // Internal state: time, balances, close (and mode, stop price).
    std::vector<std::string> f{""};
    for (char ch : o.states.back()) { if (ch == ',') f.push_back(""); else f.back() += ch; }
    std::vector<double> want{double(o.ticks[o.pos].timestamp_sec()), o.bal[o.pos].first, o.bal[o.pos].second, o.ticks[o.pos].close()};
    bool ok = f.size() == (o.stop ? 6u : 4u);
    for (size_t i = 0; ok && i < 4; ++i) {
      char* end = nullptr;
      const double x = strtod(f[i].c_str(), &end);
      ok = *end == 0 && !f[i].empty() && std::fabs(x - want[i]) <= (i == 0 ? 0 : 0.00051 + 1e-9 * std::fabs(want[i]));
    }
    if (ok && o.stop && got.size() == 1) {
      char* end = nullptr;
      const double x = strtod(f[5].c_str(), &end);
      ok = *end == 0 && std::fabs(x - got[0].price()) <= 0.00051 + 1e-9 * got[0].price() && f[4] == (got[0].side() == Order::SELL ? "LONG" : "CASH");
    }
    if (!ok) c.Fail("R03", "internal-state", Fmt("internal state \"%s\" after time %.0f, base %.9g, quote %.9g, close %.9g, orders %s", o.states.back().c_str(), want[0], want[1], want[2], want[3], S(got).c_str()));
    ++o.pos;
    c.Ev("interleaved_updates");
  };
  uint64_t sched = 0;
  for (;;) {
    std::vector<int> open;
    for (int i = 0; i < n; ++i) if (v[i].pos < v[i].ticks.size()) open.push_back(i);
    if (open.empty() || !c.violations.empty()) break;
    const int i = g.Pick(open);
    sched = Comb(sched, i);
    step(v[i]);
  }
  if (!c.violations.empty()) return;
  c.Distinct(sched);
  for (auto& o : v) {
    auto t = o.em->NewTrader();
    if (t->GetInternalState() != o.fresh) {
      c.Fail("R03", "fresh-state", Fmt("%s: two new instances start with states \"%s\" and \"%s\"", o.em->GetName().c_str(), o.fresh.c_str(), t->GetInternalState().c_str()));
      return;
    }
    for (size_t i = 0; i < o.ticks.size(); ++i) {
      std::vector<Order> got;
      t->Update(o.ticks[i], o.sig[i], o.bal[i].first, o.bal[i].second, got);
      if (Dump(got) != o.orders[i] || t->GetInternalState() != o.states[i]) {
        c.Fail("R03", "instance-independence", Fmt("%s, update %zu: interleaved with %d other instances its state is \"%s\", alone \"%s\" with orders %s", o.em->GetName().c_str(), i, n - 1, o.states[i].c_str(), t->GetInternalState().c_str(), S(got).c_str()));
        return;
      }
    }
  }
}

void CaseR03(Ctx& c, Rng& g) {
  const double x = g.Dbl();
  if (x < 0.1) Catalogue(c, g);
  else if (x < 0.2) CustomBatch(c, g);
  else Interleave(c, g);
}

void CaseAll(Ctx& c, Rng& g) {
  degenerate = true;
  switch (g.Int(0, 2)) { case 0: CaseR01(c, g); break; case 1: CaseR02(c, g); break; default: CaseR03(c, g); }
}

}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"R01", CaseR01}, {"R02", CaseR02}, {"R03", CaseR03}, {"all", CaseAll}});
}

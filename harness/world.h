// Random worlds (histories, side inputs, accounts), scripted recording traders
// and a recording logger, shared by the evaluation harnesses.
#ifndef VERIF_HARNESS_WORLD_H
#define VERIF_HARNESS_WORLD_H
#include "base/account.h"
#include "base/base.h"
#include "base/side_input.h"
#include "base/trader.h"
#include "common.h"
#include "logging/logger.h"

namespace vf {
using namespace trader;  // NOLINT

struct HistOptions {
  int64_t start = 1483228800;
  int64_t rate = 3600;
  int n = 100;
  double vol = 0.02;       // per tick
  double zero_volume = 0.1;
  double missing = 0.0;    // probability of skipping timestamps altogether
  double flat = 0.05;
  double price = 1000;
  double own_price = 0.3;  // zero-volume ticks with prices of their own
};

inline OhlcTick RandomTick(Rng& g, int64_t ts, float& prev_close, const HistOptions& h) {
  OhlcTick t;
  t.set_timestamp_sec(ts);
  const bool quiet = prev_close > 0 && g.Chance(h.zero_volume);
  if (quiet && !g.Chance(h.own_price)) {
    t.set_open(prev_close); t.set_high(prev_close); t.set_low(prev_close); t.set_close(prev_close);
    t.set_volume(0);
    return t;
  }
  float o = (prev_close > 0 ? prev_close : h.price) * std::exp(g.Dbl(-0.3, 0.3) * h.vol);
  if (o > h.price * 1e3) o = h.price;
  if (o < h.price * 1e-3) o = h.price;
  float c = g.Chance(h.flat) ? o : static_cast<float>(o * std::exp(g.Dbl(-1, 1) * h.vol));
  float hi = std::max(o, c) * (g.Chance(0.2) ? 1 : std::exp(g.Dbl(0, 0.5) * h.vol));
  float lo = std::min(o, c) * (g.Chance(0.2) ? 1 : std::exp(-g.Dbl(0, 0.5) * h.vol));
  t.set_open(o); t.set_close(c); t.set_high(std::max(hi, std::max(o, c))); t.set_low(std::min(lo, std::min(o, c)));
  t.set_volume(quiet ? 0 : g.Volume(0.01, 1000));
  prev_close = c;
  return t;
}

inline OhlcHistory RandomHistory(Rng& g, const HistOptions& h) {
  OhlcHistory r;
  int64_t ts = h.start;
  float prev = 0;
  for (int i = 0; i < h.n; ++i) {
    r.push_back(RandomTick(g, ts, prev, h));
    ts += h.rate;
    if (g.Chance(h.missing)) ts += h.rate * g.Int(1, 40);
  }
  if (h.zero_volume > 0 && h.zero_volume < 1 && g.Chance(0.05)) {  // A history that starts with a gap.
    for (int i = g.Int(1, 3); i-- > 0;) if (i < h.n) r[i].set_volume(0);
  }
  return r;
}

inline float RandomSignal(Rng& g) {
  switch (g.Int(0, 9)) {
    case 0: return 0;
    case 1: return -0.0f;
    case 2: return g.Pick({1e-40f, -3e38f, 3e38f, 1e-30f});
    default: return g.Dbl(-100, 100);
  }
}

inline SideHistory RandomSide(Rng& g, int n, int signals, int64_t from, int64_t to) {
  std::set<int64_t> ts;
  for (int i = 0; i < n; ++i) ts.insert(std::max<int64_t>(1, g.Int(from, to)));
  SideHistory r;
  for (int64_t t : ts) {
    SideInputRecord s;
    s.set_timestamp_sec(t);
    for (int i = 0; i < signals; ++i) s.add_signal(RandomSignal(g));
    r.push_back(s);
  }
  return r;
}

inline FeeConfig RandomFee(Rng& g) {
  FeeConfig f;
  f.set_relative_fee(g.Pick({0.0f, 0.005f, 0.001f, 0.02f}));
  if (g.Chance(0.3)) f.set_fixed_fee(g.Dbl(0, 1));
  if (g.Chance(0.3)) f.set_minimum_fee(g.Dbl(0, 2));
  return f;
}

inline AccountConfig RandomAccount(Rng& g, double price) {
  AccountConfig c;
  const int k = g.Int(0, 4);
  const float bu = g.Pick({0.00001f, 0.001f, 0.0f}), qu = g.Pick({0.01f, 0.0f});
  float b = k == 0 ? 0 : g.LogU(0.5, 50);
  float q = k == 1 ? 0 : g.LogU(0.5, 50) * price;
  if (bu > 0) b = bu * std::round(b / bu);
  if (qu > 0) q = qu * std::round(q / qu);
  c.set_start_base_balance(b);
  c.set_start_quote_balance(q);
  c.set_base_unit(bu);
  c.set_quote_unit(qu);
  *c.mutable_market_order_fee_config() = RandomFee(g);
  *c.mutable_stop_order_fee_config() = RandomFee(g);
  *c.mutable_limit_order_fee_config() = RandomFee(g);
  c.set_market_liquidity(g.Pick({0.0f, 0.5f, 0.9f, 1.0f}));
  c.set_max_volume_ratio(g.Pick({0.0f, 0.0f, 0.1f, 0.9f, 0.0f, 0.0f, 0.1f, 0.9f, 2.5f}));
  return c;
}

// Over long histories, fees and slippage may ruin a portfolio down to
// numbers that vanish in a float; the shipped traders need a portfolio of
// some value. With a quote unit, nothing is traded for less than that.
inline void KeepSolvent(AccountConfig& c, size_t num_ticks, double price) {
  if (num_ticks < 250 || c.quote_unit() > 0) return;
  c.set_quote_unit(1e-7 * (c.start_base_balance() * price + c.start_quote_balance()));
}

struct Update {
  std::string tick;
  std::vector<float> signals;
  float base, quote;
  bool orders_empty;
  std::vector<Order> emitted;
  int64_t ts;
};

inline bool SameSignals(const std::vector<float>& a, const std::vector<float>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!SameF(a[i], b[i])) return false;
  return true;
}
inline bool SameUpdate(const Update& a, const Update& b) {
  if (a.tick != b.tick || !SameF(a.base, b.base) || !SameF(a.quote, b.quote) || !SameSignals(a.signals, b.signals) || a.emitted.size() != b.emitted.size()) return false;
  for (size_t i = 0; i < a.emitted.size(); ++i) if (a.emitted[i].SerializeAsString() != b.emitted[i].SerializeAsString()) return false;
  return true;
}

struct Recording { std::vector<Update> updates; };

// A deterministic trader whose orders depend on a hash of everything it was
// ever given. All its state is derived from what Update receives.
class ScriptedTrader : public Trader {
 public:
  ScriptedTrader(uint64_t script, Recording* rec) : script_(script), hash_(script), rec_(rec) {}
  void Update(const OhlcTick& t, const std::vector<float>& sig, float base, float quote, std::vector<Order>& orders) override {
    const bool empty = orders.empty();
    hash_ = Comb(hash_, HashStr(t.SerializeAsString()));
    for (float f : sig) hash_ = Comb(hash_, Bits(f));
    hash_ = Comb(Comb(hash_, Bits(base)), Bits(quote));
    hash_ = Comb(hash_, orders.size());
    ++n_;
    Rng g(hash_);
    std::vector<Order> out;
    const int kind = script_ % 4;
    const bool flood = script_ % 16 == 9 && g.Chance(0.1);  // Many small orders at once.
    const int k = flood ? g.Int(13, g.Pick({20, 40, 300, 1100})) : kind == 0 ? g.Int(0, 2) : kind == 1 ? (g.Chance(0.2) ? g.Int(0, 12) : 0) : g.Int(0, 5);
    for (int i = 0; i < k; ++i) {
      Order o;
      o.set_type(g.Pick({Order::MARKET, Order::STOP, Order::LIMIT}));
      o.set_side(g.Pick({Order::BUY, Order::SELL}));
      const float p = t.close() * static_cast<float>(g.Dbl(0.99, 1.01));
      if (o.type() != Order::MARKET || g.Chance(0.05)) o.set_price(p);  // a market order ignores its price
      const double f = flood ? g.Dbl(0.0002, 0.02) : g.Dbl(0.05, 0.6);
      float b = o.side() == Order::SELL ? f * base : f * quote / p;
      if (!(b > 1e-4f)) b = static_cast<float>(g.Dbl(0.01, 1));
      if (g.Chance(0.5)) o.set_base_amount(b); else o.set_quote_amount(b * p);
      out.push_back(o);
    }
    if (!out.empty() && g.Chance(0.1)) {  // The same order several times.
      const Order o = g.Pick(out);
      const int m = g.Int(1, 3);
      for (int i = 0; i < m; ++i) out.insert(out.begin() + g.Int(0, out.size()), o);
    }
    if (g.Chance(0.1)) out = last_;  // The same orders as last time.
    last_ = out;
    if (rec_) {
      vf::Update u{t.SerializeAsString(), sig, base, quote, empty, out, t.timestamp_sec()};
      rec_->updates.push_back(std::move(u));
    }
    for (auto& o : out) orders.push_back(o);
  }
  std::string GetInternalState() const override {
    switch (script_ / 16 % 8) {
      case 0: return Fmt("idle,%d", n_ / 7);   // changes rarely
      case 1: return script_ & 1 ? "" : "constant";
      case 2: {  // Long, with special characters.
        static const int kLen[] = {0, 60, 255, 256, 511, 512, 513, 1023, 1024, 1500, 4095, 4096, 4097, 9000};
        std::string s = Fmt("%d,%016" PRIx64, n_, hash_) + ",%s %d%n \"q\" {x;y} \\t \xc3\xa9 100%,";
        if (n_ % 5 == 0) s += "\nsecond line\r\n";
        if (n_ % 8 == 0) s += std::string(kLen[hash_ % 14], 'a' + n_ % 26) + ",end";
        return s;
      }
      default: return Fmt("%d,%016" PRIx64, n_, hash_);
    }
  }

 private:
  uint64_t script_, hash_;
  int n_ = 0;
  std::vector<Order> last_;
  Recording* rec_;
};

// Wraps any trader, recording what it is given and what it emits.
class WrappedTrader : public Trader {
 public:
  WrappedTrader(std::unique_ptr<Trader> in, Recording* rec) : in_(std::move(in)), rec_(rec) {}
  void Update(const OhlcTick& t, const std::vector<float>& sig, float base, float quote, std::vector<Order>& orders) override {
    vf::Update u{t.SerializeAsString(), sig, base, quote, orders.empty(), {}, t.timestamp_sec()};
    const size_t had = orders.size();
    in_->Update(t, sig, base, quote, orders);
    u.emitted.assign(orders.begin() + std::min(had, orders.size()), orders.end());
    rec_->updates.push_back(std::move(u));
  }
  std::string GetInternalState() const override { return in_->GetInternalState(); }

 private:
  std::unique_ptr<Trader> in_;
  Recording* rec_;
};

struct Row {
  bool has_order = false;
  std::string tick, order;
  int64_t ts = 0;
  float base = 0, quote = 0, fee = 0;
};
inline bool SameRow(const Row& a, const Row& b) {
  return a.has_order == b.has_order && a.tick == b.tick && a.order == b.order && SameF(a.base, b.base) && SameF(a.quote, b.quote) && SameF(a.fee, b.fee);
}

class RecordingLogger : public Logger {
 public:
  std::vector<Row> rows;
  std::vector<std::string> states;
  std::vector<int> order_of_calls;  // 0 tick row, 1 order row, 2 state
  void LogExchangeState(const OhlcTick& t, const Account& a) override {
    rows.push_back({false, t.SerializeAsString(), "", t.timestamp_sec(), a.base_balance, a.quote_balance, a.total_fee});
    order_of_calls.push_back(0);
  }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override {
    rows.push_back({true, t.SerializeAsString(), o.SerializeAsString(), t.timestamp_sec(), a.base_balance, a.quote_balance, a.total_fee});
    order_of_calls.push_back(1);
  }
  void LogTraderState(absl::string_view s) override {
    states.emplace_back(s.data(), s.size());
    order_of_calls.push_back(2);
  }
};

class ScriptedEmitter : public TraderEmitter {
 public:
  explicit ScriptedEmitter(uint64_t script, bool record = true) : script_(script), record_(record) {}
  std::string GetName() const override { return Fmt("scripted[%" PRIu64 "]", script_); }
  std::unique_ptr<Trader> NewTrader() const override {
    Recording* r = nullptr;
    if (record_) { recordings.emplace_back(new Recording); r = recordings.back().get(); }
    return std::unique_ptr<Trader>(new ScriptedTrader(script_, r));
  }
  mutable std::vector<std::unique_ptr<Recording>> recordings;

 private:
  uint64_t script_;
  bool record_;
};
}  // namespace vf
#endif

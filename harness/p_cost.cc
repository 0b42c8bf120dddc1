// P01: work per tick does not depend on window or history length, total work is
// proportional to the input, and streaming needs no memory that grows with it.
// Cost is counted, not timed: executed basic blocks of the instrumented code,
// bytes allocated and bytes moved. Runs at two sizes are compared.
#include <malloc.h>

#include "base/history.h"
#include "eval/eval.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"
#include "logging/csv_logger.h"
#include "traders/trader_factory.h"
#include "util/proto.h"
#include "world.h"

namespace {
thread_local uint64_t g_alloc = 0;
int64_t g_live = 0, g_peak = 0;  // Only meaningful while one thread runs.
#define NOCOV __attribute__((no_sanitize_coverage, noinline))
NOCOV void* Alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  const int64_t u = malloc_usable_size(p);
  g_alloc += u;
  g_live += u;
  if (g_live > g_peak) g_peak = g_live;
  return p;
}
NOCOV void Free(void* p) {
  if (!p) return;
  g_live -= malloc_usable_size(p);
  free(p);
}
}  // namespace
NOCOV void* operator new(size_t n) { return Alloc(n); }
NOCOV void* operator new[](size_t n) { return Alloc(n); }
NOCOV void operator delete(void* p) noexcept { Free(p); }
NOCOV void operator delete[](void* p) noexcept { Free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { Free(p); }
NOCOV void operator delete[](void* p, size_t) noexcept { Free(p); }

namespace {
using namespace vf;       // NOLINT
using namespace trader;   // NOLINT

NOCOV uint64_t Cost() { return verif_blocks + (verif_moved + g_alloc) / 16; }

struct Meter {
  uint64_t c0;
  int64_t l0;
  Meter() { g_peak = g_live; l0 = g_live; c0 = Cost(); }
  uint64_t Work() const { return Cost() - c0; }
  int64_t Live() const { return g_live - l0; }
  int64_t Peak() const { return g_peak - l0; }
};

volatile double g_sink;

// ------------------------------------------------------------- indicators

struct Subject {
  virtual ~Subject() {}
  virtual void Feed(const OhlcTick& t) = 0;
  virtual void Read() = 0;
};
template <typename T, typename U, typename G>
struct SubjectOf : Subject {
  T x; U u; G g;
  SubjectOf(T a, U b, G c) : x(std::move(a)), u(b), g(c) {}
  void Feed(const OhlcTick& t) override { u(x, t); }
  void Read() override { g_sink = g(x); }
};
template <typename T, typename U, typename G>
std::unique_ptr<Subject> Make(T* a, U b, G c) {  // a: heap instance (callbacks hold its address)
  return std::unique_ptr<Subject>(new SubjectOf<std::unique_ptr<T>, U, G>(std::unique_ptr<T>(a), b, c));
}

constexpr int kKinds = 12;
const char* KindName(int k) {
  static const char* n[] = {"LastNOhlcTicks", "SimpleMovingAverage", "ExponentialMovingAverage", "RelativeStrengthIndex", "MovingAverageConvergenceDivergence",
                            "StochasticOscillator", "Volatility", "SlidingWindowMeanAndVariance", "ExponentialMovingAverageHelper", "SlidingWindowMinimum",
                            "SlidingWindowMaximum", "Volatility without window"};
  return n[k];
}

std::unique_ptr<Subject> NewSubject(int kind, int n, int period, bool revise) {
  switch (kind) {
    case 0: return Make(new LastNOhlcTicks(n, period), [](auto& x, const OhlcTick& t) { x->Update(t); }, [](auto& x) { return double(x->GetLastNOhlcTicks().size()); });
    case 1: return Make(new SimpleMovingAverage(n, period), [](auto& x, const OhlcTick& t) { x->Update(t); }, [](auto& x) { return x->GetSimpleMovingAverage() + x->GetNumOhlcTicks(); });
    case 2: return Make(new ExponentialMovingAverage(2.0f, n, period), [](auto& x, const OhlcTick& t) { x->Update(t); }, [](auto& x) { return x->GetExponentialMovingAverage() + x->GetNumOhlcTicks(); });
    case 3: return Make(new RelativeStrengthIndex(n, period), [](auto& x, const OhlcTick& t) { x->Update(t); },
                        [](auto& x) { return x->GetRelativeStrengthIndex() + x->GetUpwardChangeModifiedMovingAverage() + x->GetDownwardChangeModifiedMovingAverage() + x->GetNumOhlcTicks(); });
    case 4: return Make(new MovingAverageConvergenceDivergence(n, 2 * n, n, period), [](auto& x, const OhlcTick& t) { x->Update(t); },
                        [](auto& x) { return x->GetFastExponentialMovingAverage() + x->GetSlowExponentialMovingAverage() + x->GetMACDSeries() + x->GetMACDSignal() + x->GetDivergence() + x->GetNumOhlcTicks(); });
    case 5: return Make(new StochasticOscillator(n, period), [](auto& x, const OhlcTick& t) { x->Update(t); },
                        [](auto& x) { return x->GetLow() + x->GetHigh() + x->GetK() + x->GetFastD() + x->GetSlowD() + x->GetNumOhlcTicks(); });
    case 6:
    case 11: return Make(new Volatility(kind == 11 ? 0 : n, period), [](auto& x, const OhlcTick& t) { x->Update(t, 1, t.close()); }, [](auto& x) { return x->GetVolatility() + x->GetNumOhlcTicks(); });
    case 7: return Make(new SlidingWindowMeanAndVariance(n), [revise, k = 0](auto& x, const OhlcTick& t) mutable { if (revise && k++ % 3) x->UpdateCurrentValue(t.close()); else x->AddNewValue(t.close()); },
                        [](auto& x) { return x->GetMean() + x->GetVariance() + x->GetStandardDeviation() + x->GetWindowSize() + x->GetNumValues(); });
    case 8: return Make(new ExponentialMovingAverageHelper(), [revise, k = 0](auto& x, const OhlcTick& t) mutable { if (revise && k++ % 3) x->UpdateCurrentValue(t.close(), 0.1f); else x->AddNewValue(t.close(), 0.1f); },
                        [](auto& x) { return x->GetExponentialMovingAverage() + x->GetNumValues(); });
    case 9: return Make(new SlidingWindowMinimum(n), [revise, k = 0](auto& x, const OhlcTick& t) mutable { if (revise && k++ % 3) x->UpdateCurrentValue(t.close()); else x->AddNewValue(t.close()); },
                        [](auto& x) { return x->GetSlidingWindowMinimum() + x->GetWindowSize() + x->GetNumValues(); });
    default: return Make(new SlidingWindowMaximum(n), [revise, k = 0](auto& x, const OhlcTick& t) mutable { if (revise && k++ % 3) x->UpdateCurrentValue(t.close()); else x->AddNewValue(t.close()); },
                         [](auto& x) { return x->GetSlidingWindowMaximum() + x->GetWindowSize() + x->GetNumValues(); });
  }
}

double Level(Rng& g, int stream, int i) {
  switch (stream) {
    case 0: return 100;
    case 1: return 100 + i * 0.01;
    case 2: return 1000 - i * 0.01;
    case 3: return 100 + i % 50;
    case 4: return 100 - i % 700 * 0.1;
    case 5: return 100 + (i % 1000 == 0 ? 100 : 0);
    default: return 100 * std::exp(g.Dbl(-0.1, 0.1));
  }
}

struct Run { double first, second, read, worst_read; int64_t mid, end, peak; };

Run RunSubject(int kind, int n, int period, bool revise, const std::vector<OhlcTick>& ticks) {
  Run r{};
  Meter m;
  auto s = NewSubject(kind, n, period, revise);
  const size_t h = ticks.size() / 2;
  uint64_t a = Cost();
  for (size_t i = 0; i < h; ++i) s->Feed(ticks[i]);
  r.first = double(Cost() - a) / h;
  r.mid = m.Live();
  a = Cost();
  for (size_t i = h; i < ticks.size(); ++i) s->Feed(ticks[i]);
  r.second = double(Cost() - a) / (ticks.size() - h);
  r.end = m.Live();
  r.peak = m.Peak();
  for (int i = 0; i < 20; ++i) {
    a = Cost();
    s->Read();
    r.worst_read = std::max(r.worst_read, double(Cost() - a));
  }
  return r;
}

void CaseIndicators(Ctx& c, Rng& g) {
  const int kind = g.Int(0, kKinds - 1), stream = g.Int(0, 6);
  const int n1 = g.Int(1, 24), n2 = g.Pick({800, 2000, 5000});
  const int rate = g.Pick({60, 300, 3600}), per = g.Pick({1, 1, 3, 10});
  const bool revise = g.Chance(0.5);
  std::vector<OhlcTick> ticks;
  const int total = g.Pick({5, 8}) * n2;
  float prev = 0;
  HistOptions ho;
  int64_t ts = 1483228800;
  for (int i = 0; i < total; ++i) {
    OhlcTick t;
    const float v = Level(g, stream, i);
    t.set_timestamp_sec(ts);
    t.set_open(prev > 0 ? prev : v); t.set_close(v); t.set_high(std::max(t.open(), v)); t.set_low(std::min(t.open(), v)); t.set_volume(1);
    prev = v;
    ts += rate * (g.Chance(0.01) ? g.Int(2, 5) : 1);
    ticks.push_back(t);
  }
  const Run a = RunSubject(kind, n1, rate * per, revise, ticks), b = RunSubject(kind, n2, rate * per, revise, ticks);
  const std::string d = Fmt("%s, N %d and %d, %d ticks, %d per period, stream %d%s", KindName(kind), n1, n2, total, per, stream, revise ? ", with revisions" : "");
  c.Ev("indicator_updates", 2 * total);
  c.Ev("blocks_counted", uint64_t((a.first + a.second + b.first + b.second) * total / 2));
  c.Distinct(Comb(Comb(Comb(kind, stream), Comb(n1, n2)), Comb(per, revise)));
  if (c.WantSample()) c.Sample(Fmt("%s: work per update %.1f and %.1f, reading %.0f and %.0f, memory %lld and %lld", d.c_str(), a.second, b.second, a.worst_read, b.worst_read, (long long)a.end, (long long)b.end));
  if (b.second > 3 * a.second + 80) c.Fail("P01", "update-cost", Fmt("%s: one update costs %.1f at the small window and %.1f at the large one", d.c_str(), a.second, b.second));
  if (a.second > 2 * a.first + 40) c.Fail("P01", "update-cost-grows", Fmt("%s: an update of the small window costs %.1f in the first half and %.1f in the second half", d.c_str(), a.first, a.second));
  if (b.worst_read > 3 * a.worst_read + 120) c.Fail("P01", "read-cost", Fmt("%s: reading costs %.0f at the small window and %.0f at the large one", d.c_str(), a.worst_read, b.worst_read));
  if (a.end - a.mid > 2048 + 128 * n1) c.Fail("P01", "indicator-memory", Fmt("%s: memory of the small window grew from %lld to %lld bytes in the second half", d.c_str(), (long long)a.mid, (long long)a.end));
  if (b.end > 8192 + 512LL * n2) c.Fail("P01", "indicator-memory", Fmt("%s: the large window holds %lld bytes", d.c_str(), (long long)b.end));
}

// ------------------------------------------------------------ side inputs

SideHistory Side(Rng& g, int n, int signals, int64_t start, int step) {
  SideHistory r;
  r.reserve(n);
  int64_t ts = start;
  for (int i = 0; i < n; ++i) {
    SideInputRecord s;
    s.set_timestamp_sec(ts);
    for (int k = 0; k < signals; ++k) s.add_signal(g.Dbl(-1, 1));
    r.push_back(s);
    ts += g.Chance(0.8) ? step : step * g.Int(1, 3);
  }
  return r;
}

void CaseSide(Ctx& c, Rng& g) {
  const int n1 = g.Int(300, 1500), n2 = n1 * g.Pick({16, 40}), signals = g.Int(1, 5), step = g.Pick({60, 3600, 86400});
  double hinted[2], plain[2], far[2], get[2];
  for (int k = 0; k < 2; ++k) {
    const int n = k ? n2 : n1;
    const SideHistory h = Side(g, n, signals, 1000000, step);
    const SideInput s(h);
    const int steps = 1000;
    // Near hints: the index moves by at most one record per look-up. The small
    // case is a handful of records, the large one starts anywhere.
    const SideHistory few(h.begin(), h.begin() + std::min(n, 5));
    const SideInput sf(few);
    const SideInput& sn = k ? s : sf;
    const int nn = sn.GetNumberOfRecords(), first = k ? g.Int(0, n - 1002) : 0;
    int idx = first;
    uint64_t a = Cost();
    for (int i = 0; i < steps; ++i) {
      if (idx + 1 >= nn) idx = first;
      const int64_t ts = i % 3 == 0 ? h[idx + 1].timestamp_sec() : h[idx].timestamp_sec() + (h[idx + 1].timestamp_sec() - h[idx].timestamp_sec()) / 2;
      idx = sn.GetSideInputIndex(ts, idx);
      if (idx < 0) return;
    }
    hinted[k] = double(Cost() - a) / steps;
    a = Cost();
    for (int i = 0; i < 200; ++i) g_sink = s.GetSideInputIndex(h[g.Int(0, n - 1)].timestamp_sec() + g.Int(0, 10));
    plain[k] = (Cost() - a) / 200.0;
    a = Cost();
    for (int i = 0; i < 200; ++i) { const int p = g.Int(0, n - 1); g_sink = s.GetSideInputIndex(h[g.Int(p, n - 1)].timestamp_sec(), p); }
    far[k] = (Cost() - a) / 200.0;
    std::vector<float> out;
    out.reserve(signals);
    a = Cost();
    for (int i = 0; i < 200; ++i) { out.clear(); s.GetSideInputSignals(g.Int(0, n - 1), out); g_sink = s.GetSideInputSignal(g.Int(0, n - 1), 0) + s.GetSideInputTimestamp(g.Int(0, n - 1)); }
    get[k] = (Cost() - a) / 200.0;
    c.Ev("lookups", steps + 600);
  }
  c.Distinct(Comb(Comb(n1, n2), Comb(signals, step)));
  const std::string d = Fmt("%d and %d records, %d signals", n1, n2, signals);
  if (c.WantSample()) c.Sample(Fmt("%s: hinted %.1f/%.1f, unhinted %.1f/%.1f, far hint %.1f/%.1f, signals %.1f/%.1f", d.c_str(), hinted[0], hinted[1], plain[0], plain[1], far[0], far[1], get[0], get[1]));
  if (hinted[1] > 2 * hinted[0] + 6) c.Fail("P01", "hinted-lookup", Fmt("%s: a look-up with a near hint costs %.1f and %.1f", d.c_str(), hinted[0], hinted[1]));
  if (plain[1] > 3 * plain[0] + 80) c.Fail("P01", "lookup", Fmt("%s: a look-up costs %.1f and %.1f", d.c_str(), plain[0], plain[1]));
  if (far[1] > 3 * far[0] + 80) c.Fail("P01", "far-lookup", Fmt("%s: a look-up with a distant hint costs %.1f and %.1f", d.c_str(), far[0], far[1]));
  if (get[1] > 2 * get[0] + 40) c.Fail("P01", "signals", Fmt("%s: fetching signals costs %.1f and %.1f", d.c_str(), get[0], get[1]));
}

// -------------------------------------------------------------- execution

struct NullBuf : std::streambuf {
  uint64_t n = 0;
  int overflow(int ch) override { ++n; return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; }
};

class CheapTrader : public Trader {
 public:
  explicit CheapTrader(int k) : k_(k) {}
  void Update(const OhlcTick& t, const std::vector<float>&, float base, float quote, std::vector<Order>& orders) override {
    ++n_;
    for (int i = 0; i < k_; ++i) {
      Order o;
      o.set_type(Order::MARKET);
      o.set_side((n_ + i) % 2 ? Order::BUY : Order::SELL);
      const float a = ((n_ + i) % 2 ? quote : base) * 0.1f;
      if (!(a > 0)) continue;
      if ((n_ + i) % 2) o.set_quote_amount(a); else o.set_base_amount(a);
      orders.push_back(o);
    }
  }
  std::string GetInternalState() const override { return "1,2,3"; }
 private:
  int k_, n_ = 0;
};

class CheapEmitter : public TraderEmitter {
 public:
  explicit CheapEmitter(int k) : k_(k) {}
  std::string GetName() const override { return "cheap"; }
  std::unique_ptr<Trader> NewTrader() const override { return std::unique_ptr<Trader>(new CheapTrader(k_)); }
 private:
  int k_;
};

OhlcHistory Hist(Rng& g, int n, int rate, double zero) {
  HistOptions h;
  h.n = n; h.rate = rate; h.zero_volume = zero;
  OhlcHistory r = RandomHistory(g, h);
  return r;
}

bool Linear(double w1, double w2, double n1, double n2, double slack) { return w2 <= w1 * (n2 / n1) * 1.6 + slack; }

void CaseExec(Ctx& c, Rng& g) {
  const int n1 = g.Int(500, 1200), f = 8, n2 = n1 * f;
  const int rate = g.Pick({300, 3600, 21600});
  const double zero = g.Pick({0.0, 0.1, 0.6});
  const bool fast = g.Chance(0.4), log = g.Chance(0.4), side = g.Chance(0.6);
  const int orders = g.Int(0, 3), mode = g.Int(0, 3);
  const bool shipped = g.Chance(0.4);
  AccountConfig acc = RandomAccount(g, 1000);
  acc.set_start_base_balance(1000); acc.set_start_quote_balance(1000000);
  KeepSolvent(acc, n2, 1000);
  auto emitters = GetBatchOfTraders(g.Pick({"stop", "rebalancing"}));
  const TraderEmitter& ship = *emitters[g.Int(0, emitters.size() - 1)];
  const CheapEmitter cheap(orders);
  const TraderEmitter& em = shipped ? ship : static_cast<const TraderEmitter&>(cheap);
  const OhlcHistory big = Hist(g, n2, rate, zero);
  const OhlcHistory small(big.begin(), big.begin() + n1);
  const int rate_side = rate * g.Pick({1, 5, 24});
  const SideHistory sh = Side(g, n2 * rate / rate_side + 2, g.Int(1, 4), big.front().timestamp_sec() - g.Int(0, 5) * rate, rate_side);
  const SideInput si(sh);
  const SideInput* sp = side ? &si : nullptr;
  double w[2];
  int64_t peak[2];
  int periods[2] = {1, 1};
  EvaluationConfig ec;
  const int months = mode == 2 ? g.Int(1, 3) : 0;
  ec.set_fast_eval(fast);
  for (int k = 0; k < 2; ++k) {
    const OhlcHistory& h = k ? big : small;
    NullBuf nb1, nb2;
    std::ostream o1(&nb1), o2(&nb2);
    CsvLogger logger(&o1, &o2);
    Logger* lp = log ? &logger : nullptr;
    if (mode <= 1) {
      auto t = em.NewTrader();
      Meter m;
      ExecuteTrader(acc, h.begin(), h.end(), sp, fast, *t, lp);
      w[k] = m.Work(); peak[k] = m.Peak();
    } else {
      // The window(s) grow with the history (mode 2) or stay the same (mode 3).
      ec.set_start_timestamp_sec(h.front().timestamp_sec());
      ec.set_end_timestamp_sec((mode == 2 ? h : small).back().timestamp_sec() + rate);
      ec.set_evaluation_period_months(months);
      Meter m;
      EvaluationResult r = EvaluateTrader(acc, ec, h, sp, em, lp);
      w[k] = m.Work(); peak[k] = m.Peak();
      periods[k] = r.period_size();
    }
  }
  c.Ev("executions", 2);
  c.Ev("ticks_executed", n1 + (mode == 3 ? n1 : n2));
  c.Ev("blocks_counted", uint64_t(w[0] + w[1]));
  c.Distinct(Comb(Comb(Comb(mode, fast * 4 + log * 2 + side), Comb(orders, shipped)), Comb(rate, HashStr(em.GetName()))));
  const std::string d = Fmt("%s of %d and %d ticks (%s%s%s, %s, %d and %d periods)", mode <= 1 ? "execution" : mode == 2 ? "evaluation" : "evaluation of the first ticks", n1, n2, fast ? "fast" : "full", log ? ", logged" : "",
                            side ? ", side input" : "", em.GetName().c_str(), periods[0], periods[1]);
  if (c.WantSample()) c.Sample(Fmt("%s: work %.0f and %.0f, peak memory %lld and %lld", d.c_str(), w[0], w[1], (long long)peak[0], (long long)peak[1]));
  const double grow = mode == 3 ? 1 : mode == 2 ? std::max<double>(f, double(periods[1]) / std::max(1, periods[0])) : f;
  // With several periods a short last part of the history may not be executed.
  const double slack = 20000 + (mode == 2 ? 1.6 * w[0] * f : 0);
  if (mode == 2 && periods[0] == 0) { c.Ev("no_period"); return; }
  if (!Linear(w[0], w[1], 1, grow, slack)) c.Fail("P01", mode == 3 ? "evaluation-outside-window" : "execution-cost", Fmt("%s: work %.0f and %.0f, more than proportional", d.c_str(), w[0], w[1]));
  const double extra = mode == 3 ? 0 : n2 - n1;
  if (peak[1] > peak[0] + 32768 + 16 * extra + 512.0 * std::max(0, periods[1] - periods[0])) c.Fail("P01", "execution-memory", Fmt("%s: peak memory %lld and %lld bytes", d.c_str(), (long long)peak[0], (long long)peak[1]));
}

void CaseTraders(Ctx& c, Rng& g) {
  auto emitters = GetBatchOfTraders(g.Pick({"stop", "rebalancing"}));
  const TraderEmitter& em = *emitters[g.Int(0, emitters.size() - 1)];
  const int n = g.Pick({4000, 10000, 40000});
  const OhlcHistory h = Hist(g, n, g.Pick({300, 3600}), 0);
  auto t = em.NewTrader();
  std::vector<Order> orders;
  orders.reserve(8);
  float base = 10, quote = 5000;
  const std::vector<float> sig(g.Int(0, 3), 1.0f);
  const bool flip = g.Chance(0.5);
  uint64_t half[2] = {0, 0};
  int64_t live[2];
  Meter m;
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < n / 2; ++i) {
      const uint64_t a = Cost();
      orders.clear();
      t->Update(h[k * (n / 2) + i], sig, base, quote, orders);
      if (i % 4 == 0) g_sink = t->GetInternalState().size();
      half[k] += Cost() - a;
      if (flip && i % 500 == 499) std::swap(base, quote);
    }
    orders.clear();
    live[k] = m.Live();
  }
  c.Ev("trader_updates", n);
  c.Distinct(Comb(HashStr(em.GetName()), Comb(n, flip)));
  const std::string d = Fmt("%s, %d updates", em.GetName().c_str(), n);
  if (c.WantSample()) c.Sample(Fmt("%s: work %" PRIu64 " and %" PRIu64 ", memory %lld and %lld", d.c_str(), half[0], half[1], (long long)live[0], (long long)live[1]));
  if (half[1] > 2 * half[0] + 20000) c.Fail("P01", "trader-cost", Fmt("%s: the first half costs %" PRIu64 ", the second half %" PRIu64, d.c_str(), half[0], half[1]));
  if (live[1] > live[0] + 4096) c.Fail("P01", "trader-memory", Fmt("%s: memory grew from %lld to %lld bytes", d.c_str(), (long long)live[0], (long long)live[1]));
}

// ---------------------------------------------------------------- history

PriceHistory Prices(Rng& g, int n, double invalid, double jumps) {
  PriceHistory r;
  r.reserve(n);
  int64_t ts = 1483228800;
  double p = 1000;
  int bad = 0;
  for (int i = 0; i < n; ++i) {
    PriceRecord x;
    x.set_timestamp_sec(ts);
    p *= std::exp(g.Dbl(-0.001, 0.001));
    if (bad == 0 && g.Chance(invalid)) bad = g.Int(1, 20);
    x.set_price(bad > 0 ? -1 : g.Chance(jumps) ? p * g.Pick({0.2, 5.0}) : p);
    if (bad > 0) --bad;
    x.set_volume(g.Dbl(0, 5));
    r.push_back(x);
    ts += g.Chance(0.01) ? g.Int(100, 3000) : g.Int(0, 60);
  }
  return r;
}

void CaseHistory(Ctx& c, Rng& g) {
  const int n1 = g.Int(600, 1500), f = 8, n2 = n1 * f;
  const double invalid = g.Pick({0.0, 0.01, 0.2}), jumps = g.Pick({0.0, 0.01, 0.3});
  const PriceHistory big = Prices(g, n2, invalid, jumps);
  const PriceHistory small(big.begin(), big.begin() + n1);
  const int what = g.Int(0, 6);
  static const char* names[] = {"Resample", "RemoveOutliers", "GetPriceHistoryGaps", "GetOutlierIndicesWithContext", "HistorySubset", "HistorySubsetCopy", "SideInput construction"};
  const int rate = g.Pick({60, 300, 3600});
  const size_t top = g.Pick({1, 10, 100});
  const bool out = g.Chance(0.5);
  const float dev = g.Pick({0.01f, 0.05f});
  const size_t lc = g.Int(0, 10), rc = g.Int(0, 10), last = g.Pick({0, 20, 1000000});
  const int spacing = g.Pick({1, 3, 40});
  double w[2];
  int64_t live[2], peak[2];
  int64_t result[2] = {0, 0};
  for (int k = 0; k < 2; ++k) {
    const PriceHistory& h = k ? big : small;
    std::vector<size_t> idx;
    if (what == 3) for (size_t i = 0; i < h.size(); i += g.Int(1, spacing)) idx.push_back(i);
    SideHistory sh;
    if (what == 6) sh = Side(g, h.size(), 3, 1000, 60);
    Meter m;
    switch (what) {
      case 0: { auto r = Resample(h.begin(), h.end(), rate); result[k] = r.size(); w[k] = m.Work(); live[k] = m.Live(); break; }
      case 1: { std::vector<size_t> o; auto r = RemoveOutliers(h.begin(), h.end(), dev, out ? &o : nullptr); result[k] = r.size(); w[k] = m.Work(); live[k] = m.Live(); break; }
      case 2: { auto r = GetPriceHistoryGaps(h.begin(), h.end(), 0, 0, top); result[k] = r.size(); w[k] = m.Work(); live[k] = m.Live(); break; }
      case 3: { auto r = GetOutlierIndicesWithContext(idx, h.size(), lc, rc, last); result[k] = r.size(); w[k] = m.Work(); live[k] = m.Live(); break; }
      case 4: {
        for (int i = 0; i < 50; ++i) { auto r = HistorySubset(h, small[g.Int(0, n1 - 1)].timestamp_sec(), small[g.Int(0, n1 - 1)].timestamp_sec()); g_sink = r.second - r.first; }
        w[k] = m.Work(); live[k] = m.Live();
        break;
      }
      case 5: { auto r = HistorySubsetCopy(h, small[n1 / 4].timestamp_sec(), small[n1 / 2].timestamp_sec()); result[k] = r.size(); w[k] = m.Work(); live[k] = m.Live(); break; }
      default: { SideInput s(sh); w[k] = m.Work(); live[k] = m.Live(); }
    }
    peak[k] = m.Peak();
  }
  c.Ev("history_operations", 2);
  c.Ev("blocks_counted", uint64_t(w[0] + w[1]));
  c.Distinct(Comb(Comb(what, HashStr(Fmt("%g %g", invalid, jumps))), Comb(Comb(rate, top), Comb(lc, rc + 100 * spacing + last))));
  const std::string d = Fmt("%s of %d and %d records (invalid %g, jumps %g, results %lld and %lld)", names[what], n1, n2, invalid, jumps, (long long)result[0], (long long)result[1]);
  if (c.WantSample()) c.Sample(Fmt("%s: work %.0f and %.0f, memory %lld and %lld", d.c_str(), w[0], w[1], (long long)peak[0], (long long)peak[1]));
  double grow = f;
  if (what == 0) grow = std::max<double>(f, result[0] ? double(result[1]) / result[0] : f);  // empty intervals count
  if (what == 4) grow = 1;
  if (what == 5) grow = 1;
  if (!Linear(w[0], w[1], 1, grow, what == 4 ? 4 * w[0] + 4000 : what == 3 ? w[0] * grow + 20000 : 20000))
    c.Fail("P01", std::string("cost-") + names[what], Fmt("%s: work %.0f and %.0f, more than proportional", d.c_str(), w[0], w[1]));
  const bool flat = what == 4 || what == 5;
  if (peak[1] > peak[0] * (flat ? 1 : 2.5 * grow) + 16384 + (what == 2 ? 256.0 * n2 : 0))
    c.Fail("P01", std::string("memory-") + names[what], Fmt("%s: peak memory %lld and %lld bytes", d.c_str(), (long long)peak[0], (long long)peak[1]));
}

// ------------------------------------------------------------------- files

void CaseIo(Ctx& c, Rng& g) {
  const int n1 = g.Int(500, 2000), f = 8, n2 = n1 * f;
  const OhlcHistory big = Hist(g, n2, 300, 0.1);
  const bool compress = g.Chance(0.5);
  const int stop = g.Chance(0.5) ? g.Int(1, n1) : 0;
  double ww[2], wr[2];
  int64_t peakw[2], peakr[2], got[2] = {0, 0};
  for (int k = 0; k < 2; ++k) {
    const int n = k ? n2 : n1;
    NullBuf nb;
    std::ostream os(&nb);
    {
      Meter m;
      if (!WriteDelimitedMessagesToOStream(big.begin(), big.begin() + n, os, compress).ok()) return;
      ww[k] = m.Work(); peakw[k] = m.Peak();
    }
    std::stringstream ss;
    if (!WriteDelimitedMessagesToOStream(big.begin(), big.begin() + n, ss, compress).ok()) return;
    {
      int64_t seen = 0;
      Meter m;
      auto st = ReadDelimitedMessagesFromIStream<OhlcTick>(ss, [&seen, stop](const OhlcTick&) -> ReaderStatus { return ++seen == stop ? ReaderSignal::kBreak : ReaderSignal::kContinue; });
      wr[k] = m.Work(); peakr[k] = m.Peak();
      got[k] = seen;
      if (!st.ok()) return;
    }
  }
  c.Ev("records_streamed", 2 * (n1 + n2));
  c.Distinct(Comb(Comb(n1, compress), stop));
  const std::string d = Fmt("%d and %d records, %scompressed, reader ends after %lld and %lld", n1, n2, compress ? "" : "un", (long long)got[0], (long long)got[1]);
  if (c.WantSample()) c.Sample(Fmt("%s: writing %.0f and %.0f (peak %lld and %lld), reading %.0f and %.0f (peak %lld and %lld)", d.c_str(), ww[0], ww[1], (long long)peakw[0], (long long)peakw[1], wr[0], wr[1], (long long)peakr[0], (long long)peakr[1]));
  if (!Linear(ww[0], ww[1], 1, f, 50000)) c.Fail("P01", "write-cost", Fmt("%s: writing costs %.0f and %.0f", d.c_str(), ww[0], ww[1]));
  if (!Linear(wr[0], wr[1], 1, stop ? 1 : f, 50000)) c.Fail("P01", "read-cost", Fmt("%s: reading costs %.0f and %.0f", d.c_str(), wr[0], wr[1]));
  if (peakw[1] > peakw[0] + 65536 + 8 * (n2 - n1)) c.Fail("P01", "write-memory", Fmt("%s: writing needs %lld and %lld bytes", d.c_str(), (long long)peakw[0], (long long)peakw[1]));
  if (peakr[1] > peakr[0] + 65536 + 8 * (n2 - n1)) c.Fail("P01", "read-memory", Fmt("%s: reading needs %lld and %lld bytes", d.c_str(), (long long)peakr[0], (long long)peakr[1]));
}

void Case(Ctx& c, Rng& g) {
  switch (g.Int(0, 9)) {
    case 0: case 1: case 2: case 3: CaseIndicators(c, g); break;
    case 4: CaseSide(c, g); break;
    case 5: case 6: CaseExec(c, g); break;
    case 7: CaseTraders(c, g); break;
    case 8: CaseHistory(c, g); break;
    default: CaseIo(c, g);
  }
}

}  // namespace

int main(int argc, char** argv) { return vf::Main(argc, argv, {{"P01", Case}}); }

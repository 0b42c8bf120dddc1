// Monitors for the indicators: aggregation (I01), definitions (I02) and
// numerical soundness (I03). Every getter is compared after every update with
// a recomputation in double precision that carries a rigorous bound on what
// single-precision rounding may contribute.
#include <deque>
#include <functional>

#include "base/base.h"
#include "base/history.h"
#include "common.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"

using namespace vf;       // NOLINT
using namespace trader;   // NOLINT

namespace {

constexpr double u = 1.0 / (1 << 24);  // Unit round-off of float.

OhlcTick T(int64_t ts, float o, float h, float l, float c, float v) {
  OhlcTick t;
  t.set_timestamp_sec(ts); t.set_open(o); t.set_high(h); t.set_low(l); t.set_close(c); t.set_volume(v);
  return t;
}
std::string S(const OhlcTick& t) {
  return Fmt("[%" PRId64 " o%.9g h%.9g l%.9g c%.9g v%.9g]", static_cast<int64_t>(t.timestamp_sec()), t.open(), t.high(), t.low(), t.close(), t.volume());
}

// ----------------------------------------------------------- tick streams

struct Stream {
  int period = 0, gran = 0, kind = 0;
  std::vector<OhlcTick> ticks;
  std::string Text() const {
    return Fmt("period %d s, ticks of %d s, kind %d, %zu ticks from %" PRId64, period, gran, kind, ticks.size(),
               ticks.empty() ? 0 : static_cast<int64_t>(ticks[0].timestamp_sec()));
  }
};

Stream MakeStream(Rng& g, int n, double lo, double hi, int max_gap) {
  Stream s;
  s.period = g.Pick({1, 60, 300, 3600, 86400, 7 * 86400, 36000, 7});
  std::vector<int> divs;
  for (int d : {1, 2, 3, 5, 8, 10, 24, 60}) if (s.period % d == 0) divs.push_back(d);
  s.gran = s.period / g.Pick(divs);
  s.kind = g.Int(0, 9);
  int64_t base = g.Chance(0.1) ? (int64_t{1} << 33) : g.Chance(0.1) ? 0 : 1483228800;
  int64_t ts = base / s.gran * s.gran + g.Int(0, 30) * s.gran;
  if (ts <= 0) ts = s.gran;
  const double p_gap = g.Pick({0.0, 0.02, 0.2}), p_dup = g.Pick({0.0, 0.0, 0.1});
  double level = g.LogU(lo * 1.0001, hi * 0.9999);
  const double ratio = std::exp(g.Dbl(-0.05, 0.05));
  const double vol = g.Pick({0.0001, 0.01, 0.3});
  const bool intact = g.Chance(0.3);  // Whole-number prices: ties and exact equality.
  const bool jumpy = g.Chance(0.5);  // Ticks may open away from the previous close.
  float prev = 0;
  for (int i = 0; i < n; ++i) {
    auto cl = [&](double x) { return static_cast<float>(std::min(hi, std::max(lo, x))); };
    float o, c;
    double nl = level;
    switch (s.kind) {
      case 0: break;                                       // constant
      case 1: nl = level * ratio; break;                   // constant return
      case 2: nl = level * (1 + vol * 0.1); break;         // monotone
      case 3: if (g.Chance(0.05)) nl = g.LogU(lo, hi); break;  // jumps of many orders of magnitude
      case 4: nl = (i / 40) % 2 ? level : level * std::exp(g.Dbl(-vol, vol)); break;  // flat stretches
      case 5: nl = level * (i % 2 ? 1.1 : 1 / 1.1); break;  // alternating
      case 6: nl = g.Chance(0.02) ? hi : g.Chance(0.02) ? lo : level * std::exp(g.Dbl(-vol, vol)); break;
      default: nl = level * std::exp(g.Dbl(-vol, vol));
    }
    if (nl > hi || nl < lo) nl = s.kind == 1 || s.kind == 2 ? std::min(hi, std::max(lo, nl)) : g.LogU(lo, hi);
    o = s.kind == 0 ? cl(level) : g.Chance(0.7) && prev > 0 ? prev : cl(jumpy ? level * std::exp(g.Dbl(-vol, vol)) : level);
    c = cl(nl);
    if (intact && hi >= 100) { o = cl(std::round(o)); c = cl(std::round(c)); if (o < 1) o = cl(1); if (c < 1) c = cl(1); }
    float h = std::max(o, c), l = std::min(o, c);
    if (s.kind != 0 && g.Chance(0.5)) { h = cl(h * (1 + g.Dbl() * vol)); l = cl(l / (1 + g.Dbl() * vol)); }
    h = std::max(h, std::max(o, c)); l = std::min(l, std::min(o, c));
    level = nl;
    s.ticks.push_back(T(ts, o, h, l, c, g.Chance(0.1) ? 0 : g.Chance(0.3) ? g.Int(1, 1000) : g.Volume(1e-3, 1e4)));
    prev = c;
    if (g.Chance(p_dup)) continue;
    ts += s.gran;
    if (g.Chance(max_gap > 100 ? 0.3 : p_gap)) ts += s.gran * g.Int(1, 3 * max_gap * (s.period / s.gran));
    else if (p_gap > 0 && g.Chance(0.02)) ts += s.period;
  }
  return s;
}

// Reference aggregation: all aggregate ticks so far; volume as double.
struct Agg {
  int64_t ts;
  float o, h, l, c;
  double v;
  int parts = 0;
};
class RefAggregation {
 public:
  RefAggregation(int period, std::function<void(const Agg&, bool)> cb) : period_(period), cb_(std::move(cb)) {}
  void Feed(const OhlcTick& t) {
    const int64_t a = t.timestamp_sec() - t.timestamp_sec() % period_;
    if (!all.empty() && all.back().ts == a) {
      Agg& b = all.back();
      b.h = std::max(b.h, t.high()); b.l = std::min(b.l, t.low()); b.c = t.close(); b.v += t.volume(); ++b.parts;
      cb_(b, false);
      return;
    }
    while (!all.empty() && all.back().ts + period_ < a) {
      const float c = all.back().c;
      all.push_back({all.back().ts + period_, c, c, c, c, 0, 0});
      cb_(all.back(), true);
    }
    all.push_back({a, t.open(), t.high(), t.low(), t.close(), t.volume(), 1});
    cb_(all.back(), true);
  }
  std::vector<Agg> all;

 private:
  int period_;
  std::function<void(const Agg&, bool)> cb_;
};

bool SameTick(const Agg& a, const OhlcTick& t) {
  return a.ts == t.timestamp_sec() && a.o == t.open() && a.h == t.high() && a.l == t.low() && a.c == t.close() &&
         Near(a.v, t.volume(), 2 * u * (a.parts + 2));
}
std::string S(const Agg& a) { return Fmt("[%" PRId64 " o%.9g h%.9g l%.9g c%.9g v%.9g]", a.ts, a.o, a.h, a.l, a.c, a.v); }

// ------------------------------------------------------ reference helpers

struct Val { double v = 0, e = 0; };  // value and rounding bound

class RefWindow {  // Mean and variance over the last w values (0: all).
 public:
  explicit RefWindow(int w) : w_(w) {}
  void Add(Val x) {
    if (n_ > 0) { closed_.push_back(x_); if (w_ > 0 && static_cast<int>(closed_.size()) >= w_) { gone_ = closed_.front(); closed_.pop_front(); }
                  if (w_ == 0) { s_ += x_.v; s2_ += x_.v * x_.v; a_ += std::fabs(x_.v); closed_.clear(); maxe_ = std::max(maxe_, x_.e); } }
    x_ = x; ++n_;
    double S = std::fabs(gone_.v), S2 = gone_.v * gone_.v;
    if (w_ == 0) { S = a_; S2 = s2_; }
    for (auto& c : closed_) { S += std::fabs(c.v); S2 += c.v * c.v; }
    es_ += 3 * u * S; es2_ += 4 * u * S2;
    if (w_ == 1) es_ = es2_ = 0;
  }
  void Update(Val x) { x_ = x; }
  int Size() const { return w_ == 0 ? n_ : std::min(n_, w_); }
  int n() const { return n_; }
  Val Mean() const {
    if (n_ == 0) return {};
    double S = x_.v + s_, A = std::fabs(x_.v) + a_, e = std::max(x_.e, maxe_);
    for (auto& c : closed_) { S += c.v; A += std::fabs(c.v); e = std::max(e, c.e); }
    return {S / Size(), (es_ + 3 * u * A) / Size() + e};
  }
  Val Variance() const {
    if (n_ == 0) return {};
    double S = x_.v + s_, S2 = x_.v * x_.v + s2_, e = std::max(x_.e, maxe_);
    for (auto& c : closed_) { S += c.v; S2 += c.v * c.v; e = std::max(e, c.e); }
    const double m = S / Size(), dm = Mean().e;
    double var = 0;
    if (w_ == 0) { var = std::max(0.0, S2 / Size() - m * m); }
    else { var = (x_.v - m) * (x_.v - m); for (auto& c : closed_) var += (c.v - m) * (c.v - m); var /= Size(); }
    return {var, es2_ / Size() + 2 * std::fabs(m) * dm + dm * dm + 6 * u * (S2 / Size() + m * m) + 2 * std::sqrt(S2 / Size()) * e + e * e};
  }

 private:
  int w_, n_ = 0;
  Val x_, gone_;
  std::deque<Val> closed_;
  double s_ = 0, s2_ = 0, a_ = 0, maxe_ = 0;
  double es_ = 0, es2_ = 0;
};

class RefEma {
 public:
  void Add(Val x, double w) { prev_ = cur_; ++n_; Update(x, w); }
  void Update(Val x, double w) {
    if (n_ == 1) { cur_ = x; return; }
    cur_.v = w * x.v + (1 - w) * prev_.v;
    cur_.e = w * x.e + (1 - w) * prev_.e + 3 * u * (std::fabs(w * x.v) + std::fabs((1 - w) * prev_.v)) + u * std::fabs(w * x.v) + 2 * u * std::fabs(prev_.v) + 1e-44;
  }
  Val Get() const { return cur_; }
  int n() const { return n_; }

 private:
  Val prev_, cur_;
  int n_ = 0;
};

bool Ok(double got, Val r, double extra = 0) {
  return std::isfinite(got) && std::fabs(got - r.v) <= r.e + 2 * u * std::fabs(r.v) + extra;
}

// ------------------------------------------------------------------- I01

void CaseI01(Ctx& c, Rng& g) {
  const bool far = g.Chance(0.02);  // Outages of thousands of periods.
  const int n = far ? g.Int(2, 12) : g.Chance(0.02) ? 1500 : g.Int(1, 80);
  Stream s = MakeStream(g, n, g.Chance(0.2) ? 1e-8 : 1e-3, 1e7, far ? g.Pick({200, 1000, c.thorough ? 30000 : 5000}) : g.Pick({1, 3, 20}));
  const int N = g.Chance(0.2) ? 1 : g.Int(1, g.Pick({3, 10, 60}));
  LastNOhlcTicks w(N, s.period);
  struct Event { int kind; OhlcTick a, b; };  // 0 updated(old,new) 1 added(new) 2 added+removed(removed,new)
  std::vector<Event> events;
  std::string bad;
  auto inside = [&](const OhlcTick& t) {
    auto& d = w.GetLastNOhlcTicks();
    if (d.empty() || d.back().SerializeAsString() != t.SerializeAsString()) bad = "callback is given " + S(t) + " which is not the latest tick of the window";
    if (static_cast<int>(d.size()) > N) bad = Fmt("window has %zu ticks during a callback, N=%d", d.size(), N);
  };
  const int reg = g.Chance(0.1) ? g.Int(0, 7) : 7;
  if (reg & 1) w.RegisterLastTickUpdatedCallback([&](const OhlcTick& a, const OhlcTick& b) { events.push_back({0, a, b}); inside(b); });
  if (reg & 2) w.RegisterNewTickAddedCallback([&](const OhlcTick& b) { events.push_back({1, {}, b}); inside(b); });
  if (reg & 4) w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& a, const OhlcTick& b) { events.push_back({2, a, b}); inside(b); });
  struct Expect { int kind; Agg removed, old, now; };
  std::vector<Expect> expect;
  Agg last{};
  RefAggregation ref(s.period, [&](const Agg& a, bool added) {
    const size_t k = ref.all.size();
    Expect e{};
    e.now = a;
    if (!added) { e.kind = 0; e.old = last; }
    else if (static_cast<int>(k) <= N) e.kind = 1;
    else { e.kind = 2; e.removed = ref.all[k - 1 - N]; }
    if ((reg >> e.kind) & 1) expect.push_back(e);
    last = a;
  });
  size_t fills = 0;
  for (size_t i = 0; i < s.ticks.size(); ++i) {
    events.clear(); expect.clear(); bad.clear();
    w.Update(s.ticks[i]);
    ref.Feed(s.ticks[i]);
    const std::string at = Fmt("tick %zu %s, N=%d, %s: ", i, S(s.ticks[i]).c_str(), N, s.Text().c_str());
    if (!bad.empty()) { c.Fail("I01", "callback-state", at + bad); return; }
    if (events.size() != expect.size()) { c.Fail("I01", "callback-count", at + Fmt("%zu announcements, expected %zu", events.size(), expect.size())); return; }
    for (size_t k = 0; k < events.size(); ++k) {
      const Expect& e = expect[k];
      if (events[k].kind != e.kind) { c.Fail("I01", "callback-kind", at + Fmt("announcement %zu has kind %d, expected %d", k, events[k].kind, e.kind)); return; }
      if (!SameTick(e.now, events[k].b)) { c.Fail("I01", "callback-new", at + "announced " + S(events[k].b) + ", expected " + S(e.now)); return; }
      if (e.kind == 0 && !SameTick(e.old, events[k].a)) { c.Fail("I01", "callback-old", at + "announced old " + S(events[k].a) + ", expected " + S(e.old)); return; }
      if (e.kind == 2 && !SameTick(e.removed, events[k].a)) { c.Fail("I01", "callback-removed", at + "announced removed " + S(events[k].a) + ", expected " + S(e.removed)); return; }
    }
    auto& d = w.GetLastNOhlcTicks();
    const size_t want = std::min<size_t>(N, ref.all.size());
    if (d.size() != want) { c.Fail("I01", "window-size", at + Fmt("window has %zu ticks, expected %zu", d.size(), want)); return; }
    for (size_t k = 0; k < want; ++k) {
      const Agg& a = ref.all[ref.all.size() - want + k];
      if (!SameTick(a, d[k])) { c.Fail("I01", "window-content", at + Fmt("window[%zu] is ", k) + S(d[k]) + ", expected " + S(a)); return; }
    }
    c.Ev("window_states");
    c.Ev("announcements", events.size());
    if (expect.size() > 1) { c.Ev("gap_fills", expect.size() - 1); fills += expect.size() - 1; }
  }
  c.Distinct(Comb(Comb(N, s.period / s.gran), Comb(ref.all.size(), fills)));
  if (c.WantSample()) c.Sample(Fmt("N=%d, %s -> %zu aggregate ticks (%zu filled), last %s", N, s.Text().c_str(), ref.all.size(), fills, S(ref.all.back()).c_str()));

  // Granularity: the same history fed fine and coarse gives the same indicator values.
  struct Set {
    SimpleMovingAverage sma; ExponentialMovingAverage ema; MovingAverageConvergenceDivergence macd;
    RelativeStrengthIndex rsi; StochasticOscillator so; Volatility vol;
    Set(int a, int b, int p) : sma(a, p), ema(2, b, p), macd(a, a + b, b, p), rsi(b, p), so(a, p), vol(b, p) {}
    void Update(const OhlcTick& t) { sma.Update(t); ema.Update(t); macd.Update(t); rsi.Update(t); so.Update(t); vol.Update(t, 1.5f, 100); }
    std::vector<std::pair<const char*, double>> Get() const {
      return {{"SMA", sma.GetSimpleMovingAverage()}, {"SMA count", sma.GetNumOhlcTicks()},
              {"EMA", ema.GetExponentialMovingAverage()}, {"EMA count", ema.GetNumOhlcTicks()},
              {"MACD fast", macd.GetFastExponentialMovingAverage()}, {"MACD slow", macd.GetSlowExponentialMovingAverage()},
              {"MACD signal", macd.GetMACDSignal()}, {"MACD count", macd.GetNumOhlcTicks()},
              {"RSI U", rsi.GetUpwardChangeModifiedMovingAverage()}, {"RSI D", rsi.GetDownwardChangeModifiedMovingAverage()},
              {"RSI", rsi.GetRelativeStrengthIndex()}, {"RSI count", rsi.GetNumOhlcTicks()},
              {"SO low", so.GetLow()}, {"SO high", so.GetHigh()}, {"SO K", so.GetK()}, {"SO fast D", so.GetFastD()}, {"SO slow D", so.GetSlowD()},
              {"SO count", so.GetNumOhlcTicks()}, {"volatility", vol.GetVolatility()}, {"volatility count", vol.GetNumOhlcTicks()}};
    }
  };
  const int a = g.Int(1, 12), b = g.Int(1, 12);
  Set fine(a, b, s.period), coarse(a, b, s.period);
  const size_t limit = std::min<size_t>(s.ticks.size(), 300);
  std::vector<OhlcTick> group;
  double peak = 0;
  for (size_t i = 0; i < limit; ++i) {
    const OhlcTick& t = s.ticks[i];
    fine.Update(t);
    peak = std::max<double>(peak, t.high());
    group.push_back(t);
    const int64_t p = t.timestamp_sec() / s.period;
    if (i + 1 < limit && s.ticks[i + 1].timestamp_sec() / s.period == p) continue;
    OhlcTick m = group[0];
    m.set_timestamp_sec(p * s.period);
    for (size_t k = 1; k < group.size(); ++k) {
      m.set_high(std::max(m.high(), group[k].high())); m.set_low(std::min(m.low(), group[k].low()));
      m.set_close(group[k].close()); m.set_volume(m.volume() + group[k].volume());
    }
    group.clear();
    coarse.Update(m);
    auto x = fine.Get(), y = coarse.Get();
    for (size_t k = 0; k < x.size(); ++k) {
      // Price-valued outputs may differ by what double or float rounding leaves behind.
      if (!Near(x[k].second, y[k].second, 1e-6, 1e-13 * peak * limit + 1e-30)) {
        c.Fail("I01", std::string("granularity-") + x[k].first,
               Fmt("%s is %.9g after fine ticks, %.9g after coarse ticks (tick %zu, %s)", x[k].first, x[k].second, y[k].second, i, s.Text().c_str()));
        return;
      }
    }
    c.Ev("fine_vs_coarse_comparisons", x.size());
  }
}

// ------------------------------------------------------------------- I02 / I03

// All indicators over one stream, with their references.
struct Suite {
  int sma_n, ema_n, fast, slow, sig, rsi_n, so_n, vol_n;
  float smoothing;
  SimpleMovingAverage sma;
  ExponentialMovingAverage ema;
  MovingAverageConvergenceDivergence macd;
  RelativeStrengthIndex rsi;
  StochasticOscillator so;
  Volatility vol;
  // Reference state.
  RefEma r_ema, r_fast, r_slow, r_sig, r_up, r_down;
  RefWindow d_fast{3}, d_slow{3}, r_vol;
  double vol_prev = 0, vol_cur = 0;
  float base = 1, quote = 0;
  Val k;
  double low = 0, high = 0, max_close = 0, min_close = 0;
  RefAggregation agg;
  int period;

  Suite(int p, int a, int b, int f, int s, int sg, int r, int o, int v, float sm)
      : sma_n(a), ema_n(b), fast(f), slow(s), sig(sg), rsi_n(r), so_n(o), vol_n(v), smoothing(sm), sma(a, p), ema(sm, b, p),
        macd(f, s, sg, p), rsi(r, p), so(o, p), vol(v, p), r_vol(v), agg(p, [this](const Agg& t, bool added) { On(t, added); }), period(p) {}

  std::string Text() const {
    return Fmt("SMA %d, EMA %d (smoothing %g), MACD %d/%d/%d, RSI %d, SO %d, volatility %d", sma_n, ema_n, smoothing, fast, slow, sig, rsi_n, so_n, vol_n);
  }
  template <typename R>
  static void Put(R& r, Val x, double w, bool added) { if (added) r.Add(x, w); else r.Update(x, w); }
  static void Put(RefWindow& r, Val x, bool added) { if (added) r.Add(x); else r.Update(x); }

  void On(const Agg& t, bool added) {
    const auto& all = agg.all;
    const size_t n = all.size();
    const double close = t.c;
    max_close = n == 1 && added ? close : std::max(max_close, close);
    min_close = n == 1 && added ? close : std::min(min_close, close);
    Put(r_ema, {close, 0}, static_cast<double>(smoothing) / (1 + ema_n), added);
    Put(r_fast, {close, 0}, 2.0 / (1 + fast), added);
    Put(r_slow, {close, 0}, 2.0 / (1 + slow), added);
    Put(r_sig, Series(), 2.0 / (1 + sig), added);
    const double from = n == 1 ? t.o : all[n - 2].c;
    const double up = std::max(0.0, close - from), down = std::max(0.0, from - close);
    const double w = 1.0 / std::min<size_t>(n, rsi_n);
    Put(r_up, {up, u * up}, w, added);
    Put(r_down, {down, u * down}, w, added);
    low = high = 0;
    for (size_t i = n > static_cast<size_t>(so_n) ? n - so_n : 0; i < n; ++i) {
      low = low == 0 ? all[i].l : std::min<double>(low, all[i].l);
      high = std::max<double>(high, all[i].h);
    }
    const double span = high - low;
    k = span > 0 ? Val{100 * (close - low) / span, 100 * 6 * u} : Val{50, 0};
    Put(d_fast, k, added);
    Put(d_slow, d_fast.Mean(), added);
    if (added) vol_prev = n == 1 ? static_cast<double>(base) * t.o + quote : vol_cur;
    vol_cur = static_cast<double>(base) * close + quote;
    const double ret = std::log(vol_cur / vol_prev);
    Put(r_vol, {ret, 6 * u + 2 * u * std::fabs(ret)}, added);
  }
  Val Series() const { return {r_fast.Get().v - r_slow.Get().v, r_fast.Get().e + r_slow.Get().e + u * std::fabs(r_fast.Get().v - r_slow.Get().v)}; }

  void Feed(const OhlcTick& t) {
    sma.Update(t); ema.Update(t); macd.Update(t); rsi.Update(t); so.Update(t); vol.Update(t, base, quote);
    agg.Feed(t);
  }
  Val Sma() const {
    double s = 0;
    const size_t n = agg.all.size(), m = std::min<size_t>(n, sma_n);
    for (size_t i = n - m; i < n; ++i) s += agg.all[i].c;
    return {s / m, 2e-16 * max_close * 8 * std::min<double>(n * 64, 1e6) + 2 * u * s / m};
  }
};

Suite MakeSuite(Rng& g, int period, int n, bool wide) {
  auto len = [&] { return static_cast<int>(g.Chance(0.15) ? 1 : g.Chance(0.1) ? 200 : g.Int(1, wide ? 40 : 15)); };
  const int e = len();
  const float sm = g.Chance(0.7) ? 2.0f : g.Dbl(0.1, 1.0) * (1 + e);
  (void)n;
  return Suite(period, len(), e, len(), len(), len(), len(), len(), g.Chance(0.3) ? 0 : len(), e == 1 && sm > 2 ? 2.0f : sm);
}

void Balances(Rng& g, Suite& s, bool gap, bool start) {
  if (gap && !start) return;  // Which balances value the filled periods is not specified.
  if (!start && !g.Chance(0.05)) return;
  s.base = g.Chance(0.1) ? 0 : g.LogU(1e-3, 100);
  s.quote = g.Chance(s.base > 0 ? 0.5 : 0) ? 0 : g.LogU(1, 1e6);
}

void CheckI02(Ctx& c, const Suite& s, const std::string& at) {
  auto fail = [&](const char* key, double got, Val r) {
    c.Fail("I02", key, Fmt("%s is %.9g, expected %.9g +- %.3g; %s; ", key, got, r.v, r.e + 2 * u * std::fabs(r.v), s.Text().c_str()) + at);
  };
  auto chk = [&](const char* key, double got, Val r) { if (!Ok(got, r)) fail(key, got, r); };
  const int n = s.agg.all.size();
  auto cnt = [&](const char* key, int got, int want) { if (got != want) fail(key, got, {static_cast<double>(want), 0}); };
  chk("sma", s.sma.GetSimpleMovingAverage(), s.Sma());
  cnt("sma-count", s.sma.GetNumOhlcTicks(), std::min(n, s.sma_n));
  chk("ema", s.ema.GetExponentialMovingAverage(), s.r_ema.Get());
  cnt("ema-count", s.ema.GetNumOhlcTicks(), n);
  chk("macd-fast", s.macd.GetFastExponentialMovingAverage(), s.r_fast.Get());
  chk("macd-slow", s.macd.GetSlowExponentialMovingAverage(), s.r_slow.Get());
  chk("macd-series", s.macd.GetMACDSeries(), s.Series());
  chk("macd-signal", s.macd.GetMACDSignal(), s.r_sig.Get());
  chk("macd-divergence", s.macd.GetDivergence(), {s.Series().v - s.r_sig.Get().v, s.Series().e + s.r_sig.Get().e});
  cnt("macd-count", s.macd.GetNumOhlcTicks(), n);
  const Val U = s.r_up.Get(), D = s.r_down.Get();
  chk("rsi-up", s.rsi.GetUpwardChangeModifiedMovingAverage(), U);
  chk("rsi-down", s.rsi.GetDownwardChangeModifiedMovingAverage(), D);
  const double rsi = s.rsi.GetRelativeStrengthIndex();
  {
    const double ul = std::max(0.0, U.v - U.e), uh = U.v + U.e, dl = std::max(0.0, D.v - D.e), dh = D.v + D.e;
    double lo = ul + dh > 0 ? 100 * ul / (ul + dh) : 0, hi = uh + dl > 0 ? 100 * uh / (uh + dl) : 100;
    if (U.v == 0 && D.v == 0) lo = hi = 50;
    if (!(rsi >= lo - 3e-4 && rsi <= hi + 3e-4)) fail("rsi", rsi, {(lo + hi) / 2, (hi - lo) / 2});
  }
  cnt("rsi-count", s.rsi.GetNumOhlcTicks(), n);
  chk("so-low", s.so.GetLow(), {s.low, -2 * u * s.low});
  chk("so-high", s.so.GetHigh(), {s.high, -2 * u * s.high});
  chk("so-k", s.so.GetK(), s.k);
  chk("so-fast-d", s.so.GetFastD(), s.d_fast.Mean());
  chk("so-slow-d", s.so.GetSlowD(), s.d_slow.Mean());
  cnt("so-count", s.so.GetNumOhlcTicks(), n);
  const Val V = s.r_vol.Variance();
  const double vol = s.vol.GetVolatility();
  if (!(vol >= std::sqrt(std::max(0.0, V.v - V.e)) * (1 - 4 * u) && vol <= std::sqrt(V.v + V.e) * (1 + 4 * u)))
    fail("volatility", vol, {std::sqrt(V.v), std::sqrt(V.v + V.e) - std::sqrt(V.v)});
  cnt("volatility-count", s.vol.GetNumOhlcTicks(), n);
  c.Ev("indicator_states");
}

void CaseHelpers(Ctx& c, Rng& g) {
  const int n = g.Chance(0.02) ? 3000 : g.Int(1, 120);
  const int w = g.Chance(0.2) ? 1 : g.Int(1, g.Pick({3, 10, 60}));
  const int mw = g.Chance(0.2) ? 0 : w;
  const double scale = g.LogU(1e-3, 1e6);
  const int kind = g.Int(0, 3);
  SlidingWindowMeanAndVariance mv(mw);
  RefWindow rmv(mw);
  SlidingWindowMinimum mn(w);
  SlidingWindowMaximum mx(w);
  ExponentialMovingAverageHelper e;
  RefEma re;
  std::vector<float> all;
  float x = 0;
  auto value = [&]() -> float {
    switch (kind) {
      case 0: return g.Int(-3, 3);
      case 1: return scale * g.Dbl(-1, 1);
      case 2: return x + scale * g.Dbl(-0.1, 0.12);
      default: return scale;
    }
  };
  int updates = 0;
  for (int i = 0; i < n; ++i) {
    x = value();
    const float wt = g.Chance(0.1) ? 1.0f : g.Dbl(0.01, 1);
    mv.AddNewValue(x); rmv.Add({x, 0}); mn.AddNewValue(x); mx.AddNewValue(x); e.AddNewValue(x, wt); re.Add({x, 0}, wt);
    all.push_back(x);
    int revise = g.Chance(0.4) ? g.Int(1, 3) : 0;
    for (;;) {
      const Val M = rmv.Mean(), V = rmv.Variance();
      const std::string at = Fmt("window %d, after %d values and %d revisions, current %.9g", w, i + 1, updates, x);
      if (!Ok(mv.GetMean(), M)) c.Fail("I02", "window-mean", Fmt("mean %.9g, expected %.9g +- %.3g, ", mv.GetMean(), M.v, M.e) + at);
      if (!Ok(mv.GetVariance(), V)) c.Fail("I02", "window-variance", Fmt("variance %.9g, expected %.9g +- %.3g, ", mv.GetVariance(), V.v, V.e) + at);
      const double sd = mv.GetStandardDeviation();
      if (!(sd >= std::sqrt(std::max(0.0, V.v - V.e)) * (1 - 4 * u) && sd <= std::sqrt(V.v + V.e) * (1 + 4 * u)))
        c.Fail("I02", "window-deviation", Fmt("deviation %.9g, expected %.9g, ", sd, std::sqrt(V.v)) + at);
      if (mv.GetWindowSize() != rmv.Size() || mv.GetNumValues() != rmv.n())
        c.Fail("I02", "window-count", Fmt("window size %d, values %d, expected %d, %d, ", mv.GetWindowSize(), mv.GetNumValues(), rmv.Size(), rmv.n()) + at);
      float lo = all.back(), hi = all.back();
      for (int k = std::max<int>(0, static_cast<int>(all.size()) - w); k < static_cast<int>(all.size()); ++k) { lo = std::min(lo, all[k]); hi = std::max(hi, all[k]); }
      if (mn.GetSlidingWindowMinimum() != lo) c.Fail("I02", "window-minimum", Fmt("minimum %.9g, expected %.9g, ", mn.GetSlidingWindowMinimum(), lo) + at);
      if (mx.GetSlidingWindowMaximum() != hi) c.Fail("I02", "window-maximum", Fmt("maximum %.9g, expected %.9g, ", mx.GetSlidingWindowMaximum(), hi) + at);
      const int size = std::min<int>(w, all.size());
      if (mn.GetWindowSize() != size || mx.GetWindowSize() != size || mn.GetNumValues() != static_cast<int>(all.size()) || mx.GetNumValues() != static_cast<int>(all.size()))
        c.Fail("I02", "window-count", Fmt("minimum window size %d, values %d, expected %d, %zu, ", mn.GetWindowSize(), mn.GetNumValues(), size, all.size()) + at);
      if (!Ok(e.GetExponentialMovingAverage(), re.Get()) || e.GetNumValues() != re.n())
        c.Fail("I02", "average-helper", Fmt("average %.9g, expected %.9g +- %.3g, ", e.GetExponentialMovingAverage(), re.Get().v, re.Get().e) + at);
      c.Ev("helper_states");
      if (!c.violations.empty()) return;
      if (revise-- <= 0) break;
      x = value();
      ++updates;
      const float w2 = g.Dbl(0.01, 1);
      mv.UpdateCurrentValue(x); rmv.Update({x, 0}); mn.UpdateCurrentValue(x); mx.UpdateCurrentValue(x);
      e.UpdateCurrentValue(x, w2); re.Update({x, 0}, w2);
      all.back() = x;
    }
  }
  c.Distinct(Comb(Comb(w, n), Comb(kind, updates)));
}

void CaseI02(Ctx& c, Rng& g) {
  if (g.Chance(0.4)) { CaseHelpers(c, g); return; }
  const bool longrun = g.Chance(0.01), far = !longrun && g.Chance(0.02);
  const int n = longrun ? g.Int(2000, c.thorough ? 20000 : 5000) : far ? g.Int(2, 15) : g.Int(1, 120);
  const int scale = g.Pick({0, 0, 0, 0, 1, 2});
  Stream st = MakeStream(g, n, scale == 0 ? 0.01 : 1e-8, scale == 1 ? 1e-4 : 1e6, far ? g.Pick({200, 1000}) : g.Pick({1, 3, 10}));
  Suite s = MakeSuite(g, st.period, n, g.Chance(0.3));
  int64_t last = -1;
  for (size_t i = 0; i < st.ticks.size(); ++i) {
    const int64_t p = st.ticks[i].timestamp_sec() / st.period;
    Balances(g, s, last >= 0 && p > last + 1, i == 0);
    last = p;
    s.Feed(st.ticks[i]);
    if (!longrun || i % 7 == 0 || i + 50 > st.ticks.size()) CheckI02(c, s, Fmt("tick %zu %s, %s", i, S(st.ticks[i]).c_str(), st.Text().c_str()));
    if (!c.violations.empty()) return;
  }
  c.Max("max_aggregate_ticks", s.agg.all.size());
  c.Distinct(Comb(Comb(HashStr(s.Text()), st.kind), s.agg.all.size()));
  if (c.WantSample()) c.Sample(st.Text() + "; " + s.Text() + Fmt(" -> EMA %.9g, RSI %.6g, %%K %.6g, volatility %.6g over %zu periods",
      s.ema.GetExponentialMovingAverage(), s.rsi.GetRelativeStrengthIndex(), s.so.GetK(), s.vol.GetVolatility(), s.agg.all.size()));
}

void CheckI03(Ctx& c, const Suite& s, double dtol, const OhlcTick* cur, const std::string& at) {
  auto range = [&](const char* key, double x, double lo, double hi) {
    if (!(std::isfinite(x) && x >= lo && x <= hi)) c.Fail("I03", key, Fmt("%s is %.9g, outside [%.9g, %.9g]; %s; ", key, x, lo, hi, s.Text().c_str()) + at);
  };
  const double inf = 3.5e38;
  range("rsi", s.rsi.GetRelativeStrengthIndex(), 0, 100 + 1e-4);
  range("rsi-up", s.rsi.GetUpwardChangeModifiedMovingAverage(), 0, inf);
  range("rsi-down", s.rsi.GetDownwardChangeModifiedMovingAverage(), 0, inf);
  range("so-k", s.so.GetK(), 0, 100 + 1e-4);
  range("so-fast-d", s.so.GetFastD(), -dtol, 100 + dtol);
  range("so-slow-d", s.so.GetSlowD(), -dtol, 100 + dtol);
  range("volatility", s.vol.GetVolatility(), 0, inf);
  range("macd-series", s.macd.GetMACDSeries(), -inf, inf);
  range("macd-signal", s.macd.GetMACDSignal(), -inf, inf);
  range("macd-divergence", s.macd.GetDivergence(), -inf, inf);
  if (cur) {
    double lo = 1e300, hi = 0;
    const size_t n = s.agg.all.size(), m = std::min<size_t>(n, s.sma_n);
    for (size_t i = n - m; i < n; ++i) { lo = std::min<double>(lo, s.agg.all[i].c); hi = std::max<double>(hi, s.agg.all[i].c); }
    const double drift = 2e-16 * s.max_close * 8 * std::min<double>(n * 64, 1e6);
    range("sma", s.sma.GetSimpleMovingAverage(), lo * (1 - 2 * u) - drift, hi * (1 + 2 * u) + drift);
    auto ema = [&](const char* key, double x, Val r) { range(key, x, s.min_close - r.e, s.max_close + r.e); };
    ema("ema", s.ema.GetExponentialMovingAverage(), s.r_ema.Get());
    ema("macd-fast", s.macd.GetFastExponentialMovingAverage(), s.r_fast.Get());
    ema("macd-slow", s.macd.GetSlowExponentialMovingAverage(), s.r_slow.Get());
    range("so-low", s.so.GetLow(), 0, cur->low());
    range("so-high", s.so.GetHigh(), cur->high(), inf);
  }
  c.Ev("indicator_states");
}

void CaseI03(Ctx& c, Rng& g) {
  if (g.Chance(0.3)) {  // Variance helper on hostile values.
    const int w = g.Pick({0, 1, 2, 3, 10, 30}), n = g.Chance(0.02) ? 20000 : g.Int(1, 400), kind = g.Int(0, 3);
    SlidingWindowMeanAndVariance mv(w);
    float x = g.Chance(0.5) ? g.LogU(1e-7, 1e7) : -g.LogU(1e-7, 1e7);
    std::deque<float> win;
    double peak = 0;
    for (int i = 0; i <= n; ++i) {
      if (!(mv.GetVariance() >= 0) || !(mv.GetStandardDeviation() >= 0) || !std::isfinite(mv.GetVariance()) || !std::isfinite(mv.GetMean()))
        c.Fail("I03", "variance", Fmt("variance %.9g, deviation %.9g, mean %.9g after %d values, window %d, kind %d, last %.9g", mv.GetVariance(), mv.GetStandardDeviation(), mv.GetMean(), i, w, kind, x));
      c.Ev("variance_states");
      if (!c.violations.empty() || i == n) return;
      if (kind == 1) x = g.Chance(0.02) ? g.LogU(1e-7, 1e7) : x;
      if (kind == 2) x *= 1 + 1e-6f;
      if (kind == 3) x = g.Dbl(-1, 1) * g.LogU(1e-7, 1e7);
      x = std::min(1e7f, x);
      peak = std::max<double>(peak, std::fabs(x));
      mv.AddNewValue(x);
      if (g.Chance(0.3)) mv.UpdateCurrentValue(x);
    }
    return;
  }
  const bool longrun = g.Chance(0.015);
  const int n = longrun ? g.Int(5000, c.thorough ? 100000 : 15000) : g.Int(1, 250);
  Stream st = MakeStream(g, n, g.Chance(0.2) ? 1e-8 : 1e-3, 1e7, !longrun && n < 20 && g.Chance(0.3) ? 500 : g.Pick({1, 3, 10}));
  Suite s = MakeSuite(g, st.period, n, g.Chance(0.3));
  CheckI03(c, s, 0, nullptr, "before any update");
  int64_t last = -1;
  for (size_t i = 0; i < st.ticks.size(); ++i) {
    const int64_t p = st.ticks[i].timestamp_sec() / st.period;
    Balances(g, s, last >= 0 && p > last + 1, i == 0);
    last = p;
    s.Feed(st.ticks[i]);
    // Rounding may accumulate in the moving sums behind %D.
    const double dtol = std::max(s.d_fast.Mean().e, s.d_slow.Mean().e) + 1e-4;
    c.Max("max_d_rounding_allowance_1e6", static_cast<uint64_t>(std::min(100.0, dtol) * 1e6));
    double out = 0;
    for (double d : {double(s.so.GetFastD()), double(s.so.GetSlowD())}) out = std::max(out, std::max(-d, d - 100));
    c.Max("max_d_excess_1e6", static_cast<uint64_t>(std::max(0.0, out) * 1e6));
    CheckI03(c, s, std::min(dtol, 0.1), &st.ticks[i], Fmt("tick %zu %s, %s", i, S(st.ticks[i]).c_str(), st.Text().c_str()));
    if (!c.violations.empty()) return;
  }
  c.Max("max_aggregate_ticks", s.agg.all.size());
  c.Distinct(Comb(Comb(HashStr(s.Text()), st.kind), s.agg.all.size()));
  if (c.WantSample()) c.Sample(st.Text() + "; " + s.Text());
}

void CaseAll(Ctx& c, Rng& g) {
  switch (g.Int(0, 2)) { case 0: CaseI01(c, g); break; case 1: CaseI02(c, g); break; default: CaseI03(c, g); }
}

}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"I01", CaseI01}, {"I02", CaseI02}, {"I03", CaseI03}, {"all", CaseAll}});
}

// E01-E05, E07, L01: monitors over recorded executions of the evaluator.
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
#include "world.h"

using namespace trader;
using namespace vf;

namespace {

struct World {
  AccountConfig acc;
  OhlcHistory hist;
  SideHistory side;
  std::unique_ptr<SideInput> side_input;
  uint64_t script;
  HistOptions ho;
};

HistOptions RandomHistOptions(Rng& g, int max_n) {
  HistOptions h;
  h.start = g.Chance(0.9) ? 1483228800 + g.Int(0, 400) * 86400 : g.Pick<int64_t>({86400, 4294967296LL - 864000, 5000000000LL / 86400 * 86400});
  h.rate = g.Pick<int64_t>({60, 300, 3600, 14400, 86400});
  h.start -= h.start % h.rate;
  if (h.start <= 0) h.start = h.rate;
  h.n = g.Chance(0.1) ? g.Int(1, 3) : g.Int(4, max_n);
  h.vol = g.Pick({0.001, 0.01, 0.05, 0.2});
  h.zero_volume = g.Pick({0.0, 0.1, 0.4});
  h.missing = g.Pick({0.0, 0.0, 0.05});
  h.price = g.Pick({0.5, 100.0, 9000.0, 40000.0});
  return h;
}

std::unique_ptr<World> MakeWorld(Rng& g, int max_n) {
  auto w = std::make_unique<World>();
  if (max_n >= 100 && g.Chance(0.002)) max_n = g.Pick({3000, 20000});
  w->ho = RandomHistOptions(g, max_n);
  w->hist = RandomHistory(g, w->ho);
  w->acc = RandomAccount(g, w->ho.price);
  KeepSolvent(w->acc, w->hist.size(), w->ho.price);
  if (g.Chance(0.7)) {
    const int64_t a = w->hist.front().timestamp_sec(), b = w->hist.back().timestamp_sec();
    w->side = RandomSide(g, g.Pick({1, 2, 5, 20, 200}), g.Int(1, 4), a - (g.Chance(0.5) ? 50 * w->ho.rate : -w->ho.rate), b + 5 * w->ho.rate);
    // Align some records with ticks exactly.
    if (g.Chance(0.5)) {
      std::set<int64_t> used;
      SideHistory s2;
      for (auto& r : w->side) {
        int64_t t = r.timestamp_sec();
        if (g.Chance(0.5)) t -= t % w->ho.rate;
        if (t > 0 && (used.empty() || t > *used.rbegin())) { used.insert(t); r.set_timestamp_sec(t); s2.push_back(r); }
      }
      w->side = s2;
    }
    if (!w->side.empty()) w->side_input.reset(new SideInput(w->side));
  }
  w->script = g.U64() >> 1;
  return w;
}

// What a trader should be given at time ts.
std::vector<float> ExpectedSignals(const SideHistory& side, int64_t ts) {
  const SideInputRecord* r = nullptr;
  for (auto& s : side) if (s.timestamp_sec() <= ts) r = &s; else break;
  std::vector<float> out;
  if (!r) return out;
  for (float f : r->signal()) out.push_back(f);
  out.push_back(static_cast<float>(ts - r->timestamp_sec()));
  return out;
}

std::string Vec(const std::vector<float>& v) {
  std::string s = "(";
  for (float f : v) s += Fmt("%.9g ", f);
  return s + ")";
}

// Outcome of replaying the emitted orders through a shadow account.
struct Shadow {
  bool ok = true;
  std::string key, why;
  Account account;
  int executed = 0;
  std::vector<Row> rows;                       // expected exchange log
  std::vector<std::pair<int64_t, std::pair<double, double>>> balances;  // at updates
  void Bad(const std::string& k, const std::string& w) { if (ok) { ok = false; key = k; why = w; } }
};

Shadow Replay(const AccountConfig& c, const OhlcTick* b, const OhlcTick* e, const Recording& rec, Ctx& ctx) {
  Shadow s;
  s.account.InitAccount(c);
  size_t u = 0;
  std::vector<Order> pending;
  for (const OhlcTick* t = b; t != e; ++t) {
    const std::string ts = t->SerializeAsString();
    s.rows.push_back({false, ts, "", t->timestamp_sec(), s.account.base_balance, s.account.quote_balance, s.account.total_fee});
    for (const Order& o : pending) {
      if (s.account.ExecuteOrder(c, o, *t)) {
        ++s.executed;
        s.rows.push_back({true, ts, o.SerializeAsString(), t->timestamp_sec(), s.account.base_balance, s.account.quote_balance, s.account.total_fee});
        ctx.Ev("orders_executed");
        if (t->volume() == 0) ctx.Ev("orders_executed_on_zero_volume_ticks");
      }
    }
    if (t->volume() == 0) { ctx.Ev("zero_volume_ticks"); continue; }
    if (u >= rec.updates.size()) { s.Bad("missing-update", Fmt("no update for tick %zd {%s}", t - b, t->ShortDebugString().c_str())); return s; }
    const Update& up = rec.updates[u++];
    if (up.tick != ts) { s.Bad("wrong-tick", Fmt("update %zu received another tick than {%s}", u - 1, t->ShortDebugString().c_str())); return s; }
    if (!up.orders_empty) s.Bad("orders-not-empty", Fmt("the order list handed to the trader at update %zu was not empty", u - 1));
    if (!SameF(up.base, s.account.base_balance) || !SameF(up.quote, s.account.quote_balance)) {
      s.Bad("wrong-balances", Fmt("update %zu at tick %zd {%s}: balances given %.9g/%.9g, replaying the pending orders in order gives %.9g/%.9g", u - 1, t - b,
                                  t->ShortDebugString().c_str(), up.base, up.quote, s.account.base_balance, s.account.quote_balance));
      return s;
    }
    s.balances.push_back({t->timestamp_sec(), {up.base, up.quote}});
    pending = up.emitted;
    ctx.Ev("updates");
    ctx.Ev("orders_emitted", pending.size());
  }
  if (u != rec.updates.size()) s.Bad("extra-update", Fmt("%zu updates for %zu ticks with volume", rec.updates.size(), u));
  return s;
}

uint64_t WorldHash(const World& w, const ExecutionResult& r) {
  uint64_t h = HashStr(w.acc.SerializeAsString());
  h = Comb(h, w.hist.size());
  h = Comb(h, HashStr(r.SerializeAsString()));
  return h;
}

struct Run {
  ExecutionResult result;
  Recording rec;
  RecordingLogger log;
};

// trader kind: 0 scripted, 1 rebalancing, 2 stop
void Execute(const World& w, const OhlcHistory& h, const SideInput* si, int kind, bool fast, bool with_log, Run& out) {
  std::unique_ptr<Trader> t;
  if (kind == 0) {
    t.reset(new ScriptedTrader(w.script, &out.rec));
  } else {
    auto batch = GetBatchOfTraders(kind == 1 ? "rebalancing" : "stop");
    t.reset(new WrappedTrader(batch[w.script % batch.size()]->NewTrader(), &out.rec));
  }
  out.result = ExecuteTrader(w.acc, h.begin(), h.end(), si, fast, *t, with_log ? &out.log : nullptr);
}

const OhlcTick* B(const OhlcHistory& h) { return h.data(); }
const OhlcTick* E(const OhlcHistory& h) { return h.data() + h.size(); }

// ------------------------------------------------------------------- E01
void CaseE01(Ctx& ctx, Rng& g) {
  auto w = MakeWorld(g, 120);
  const int kind = g.Pick({0, 0, 1, 2});
  const size_t n = w->hist.size();
  const size_t k = g.Int(0, n - 1);          // last tick shared by both worlds
  const int64_t cut = w->hist[k].timestamp_sec();
  OhlcHistory h2(w->hist.begin(), w->hist.begin() + k + 1);
  const int mode = g.Int(0, 3);
  if (mode != 0) {
    HistOptions o = w->ho;
    o.vol *= g.Pick({0.1, 1.0, 5.0});
    o.zero_volume = g.Pick({0.0, 0.3, 1.0});
    float prev = h2.back().close();
    if (mode == 2) prev *= 3;
    int64_t ts = cut + (mode == 3 ? g.Int(1, 5) * o.rate : o.rate);
    const int m = g.Int(1, 60);
    for (int i = 0; i < m; ++i) { h2.push_back(RandomTick(g, ts, prev, o)); ts += o.rate; }
  }
  SideHistory s2;
  for (auto& r : w->side) if (r.timestamp_sec() <= cut) s2.push_back(r);
  if (g.Chance(0.7) && w->side_input) {
    SideHistory extra = RandomSide(g, g.Int(0, 20), w->side.front().signal_size(), cut + 1, cut + 40 * w->ho.rate);
    s2.insert(s2.end(), extra.begin(), extra.end());
  } else {
    for (auto& r : w->side) if (r.timestamp_sec() > cut) s2.push_back(r);
  }
  std::unique_ptr<SideInput> si2;
  if (!s2.empty()) si2.reset(new SideInput(s2));
  Run a, b;
  Execute(*w, w->hist, w->side_input.get(), kind, g.Chance(0.5), true, a);
  Execute(*w, h2, si2.get(), kind, g.Chance(0.5), true, b);
  auto rows_until = [&](const RecordingLogger& l) { std::vector<Row> r; for (auto& x : l.rows) if (x.ts <= cut) r.push_back(x); return r; };
  auto upd_until = [&](const Recording& r) { std::vector<const Update*> o; for (auto& x : r.updates) if (x.ts <= cut) o.push_back(&x); return o; };
  auto ua = upd_until(a.rec), ub = upd_until(b.rec);
  bool same = ua.size() == ub.size();
  size_t i = 0;
  for (; same && i < ua.size(); ++i) same = SameUpdate(*ua[i], *ub[i]);
  if (!same)
    ctx.Fail("E01", "updates-depend-on-future", Fmt("changing ticks/side inputs after %" PRId64 " (tick %zu of %zu, trader kind %d) changed update %zu at or before it (%zu vs %zu updates)", cut, k, n, kind, i, ua.size(), ub.size()));
  auto ra = rows_until(a.log), rb = rows_until(b.log);
  same = ra.size() == rb.size();
  for (i = 0; same && i < ra.size(); ++i) same = SameRow(ra[i], rb[i]);
  if (!same)
    ctx.Fail("E01", "fills-depend-on-future", Fmt("changing data after %" PRId64 " (tick %zu of %zu, trader kind %d) changed exchange log row %zu at or before it: %zu vs %zu rows", cut, k, n, kind, i, ra.size(), rb.size()));
  const size_t ns = std::min(ua.size(), ub.size());
  same = a.log.states.size() >= ns && b.log.states.size() >= ns;
  for (i = 0; same && i < ns; ++i) same = a.log.states[i] == b.log.states[i];
  if (!same) ctx.Fail("E01", "states-depend-on-future", Fmt("changing data after %" PRId64 " changed trader state row %zu at or before it", cut, i));
  // Signals handed over never come from a later record; orders never run on their own tick.
  if (w->side_input)
    for (auto& u : a.rec.updates) {
      if (!u.signals.empty() && u.signals.back() < 0) ctx.Fail("E01", "future-side-input", Fmt("update at %" PRId64 " received signals of negative age %.9g", u.ts, u.signals.back()));
    }
  {
    // Each executed order must have been emitted by an update before its tick.
    size_t ui = 0;
    std::vector<std::string> known;
    for (auto& r : a.log.rows) {
      if (!r.has_order) {
        while (ui < a.rec.updates.size() && a.rec.updates[ui].ts < r.ts) { known.clear(); for (auto& o : a.rec.updates[ui].emitted) known.push_back(o.SerializeAsString()); ++ui; }
      } else {
        ctx.Ev("executed_orders_traced_to_earlier_update");
        if (std::find(known.begin(), known.end(), r.order) == known.end())
          ctx.Fail("E01", "same-tick-execution", Fmt("order executed at %" PRId64 " was not emitted by the latest update before that tick", r.ts));
      }
    }
  }
  // Every change of the balances must come from orders emitted before the tick.
  for (const auto& [run, hist] : {std::make_pair(&a, static_cast<const OhlcHistory*>(&w->hist)), std::make_pair(&b, static_cast<const OhlcHistory*>(&h2))}) {
    Shadow s = Replay(w->acc, B(*hist), E(*hist), run->rec, ctx);
    if (!s.ok) ctx.Fail("E01", "executions-not-explained", "fills are not explained by the orders emitted at earlier ticks: " + s.why);
    else if (!SameF(run->result.end_base_balance(), s.account.base_balance) || !SameF(run->result.end_quote_balance(), s.account.quote_balance) || run->result.total_executed_orders() != s.executed)
      ctx.Fail("E01", "executions-not-explained", Fmt("orders emitted at earlier ticks explain final balances %.9g/%.9g after %d orders, reported are %.9g/%.9g after %d (%zu ticks, trader kind %d)", s.account.base_balance, s.account.quote_balance,
                                                      s.executed, run->result.end_base_balance(), run->result.end_quote_balance(), run->result.total_executed_orders(), hist->size(), kind));
    ctx.Ev("executions_replayed");
  }
  // Nothing up to the cut depends on whether the history goes on.
  if (mode == 0 && !ua.empty() && w->hist[k].volume() != 0) {
    ctx.Ev("truncated_histories");
    if (!SameF(b.result.end_base_balance(), ua.back()->base) || !SameF(b.result.end_quote_balance(), ua.back()->quote))
      ctx.Fail("E01", "end-of-history-known", Fmt("a history that ends at tick %zu ends with balances %.9g/%.9g, one that goes on has %.9g/%.9g there", k, b.result.end_base_balance(), b.result.end_quote_balance(), ua.back()->base, ua.back()->quote));
  }
  // Evaluation windows: a period that ends before the cut does not depend on what follows it.
  if (g.Chance(0.3) && k + 1 < n) {
    EvaluationConfig ec;
    ec.set_start_timestamp_sec(w->hist.front().timestamp_sec());
    ec.set_end_timestamp_sec(cut + 1);
    ec.set_evaluation_period_months(0);
    ScriptedEmitter em(w->script);
    EvaluationResult x = EvaluateTrader(w->acc, ec, w->hist, w->side_input.get(), em, nullptr);
    EvaluationResult y = EvaluateTrader(w->acc, ec, h2, si2.get(), em, nullptr);
    if (x.SerializeAsString() != y.SerializeAsString()) ctx.Fail("E01", "window-depends-on-future", Fmt("evaluation of the window ending at %" PRId64 " depends on later data", cut + 1));
    ctx.Ev("window_evaluations_compared");
  }
  ctx.Ev("updates_compared", ua.size());
  ctx.Ev("rows_compared", ra.size());
  ctx.Ev(kind == 0 ? "scripted_traders" : kind == 1 ? "rebalancing_traders" : "stop_traders");
  if (ua.size() > 1 && a.rec.updates.size() + b.rec.updates.size() > 2 * ua.size()) {
    ctx.Distinct(Comb(WorldHash(*w, a.result), k));
    if (ctx.WantSample()) ctx.Sample(Fmt("ticks=%zu cut at tick %zu divergence mode %d trader kind %d: %zu updates and %zu rows identical, then %zu/%zu further updates", n, k, mode, kind, ua.size(), ra.size(), a.rec.updates.size() - ua.size(), b.rec.updates.size() - ub.size()));
  }
}

// ------------------------------------------------------------------- E02
void CaseE02(Ctx& ctx, Rng& g) {
  auto w = MakeWorld(g, 200);
  const int kind = g.Pick({0, 0, 0, 1, 2});
  Run r;
  const bool log = g.Chance(0.3);
  Execute(*w, w->hist, w->side_input.get(), kind, g.Chance(0.5), log, r);
  Shadow s = Replay(w->acc, B(w->hist), E(w->hist), r.rec, ctx);
  const std::string where = Fmt(" [trader kind %d, %zu ticks, account {%s}]", kind, w->hist.size(), w->acc.ShortDebugString().c_str());
  if (!s.ok) ctx.Fail("E02", s.key, s.why + where);
  if (!r.rec.updates.empty()) {
    const Update& u0 = r.rec.updates[0];
    if (!SameF(u0.base, w->acc.start_base_balance()) || !SameF(u0.quote, w->acc.start_quote_balance()))
      ctx.Fail("E02", "start-balances", Fmt("first update got balances %.9g/%.9g, configured %.9g/%.9g", u0.base, u0.quote, w->acc.start_base_balance(), w->acc.start_quote_balance()) + where);
  }
  if (s.ok) {
    if (!SameF(r.result.end_base_balance(), s.account.base_balance) || !SameF(r.result.end_quote_balance(), s.account.quote_balance) ||
        r.result.total_executed_orders() != s.executed || !SameF(r.result.total_fee(), s.account.total_fee))
      ctx.Fail("E02", "final-state", Fmt("final state %.9g/%.9g, %d orders, fee %.9g; replay gives %.9g/%.9g, %d orders, fee %.9g", r.result.end_base_balance(), r.result.end_quote_balance(),
                                         r.result.total_executed_orders(), r.result.total_fee(), s.account.base_balance, s.account.quote_balance, s.executed, s.account.total_fee) + where);
    if (log) {
      bool same = s.rows.size() == r.log.rows.size();
      for (size_t i = 0; same && i < s.rows.size(); ++i) same = SameRow(s.rows[i], r.log.rows[i]);
      if (!same) ctx.Fail("E02", "executed-sequence", Fmt("executed orders (%zu rows) differ from the replay (%zu rows)", r.log.rows.size(), s.rows.size()) + where);
    }
  }
  if (s.executed > 0) {
    ctx.Distinct(WorldHash(*w, r.result));
    if (ctx.WantSample()) ctx.Sample(Fmt("%zu ticks, %zu updates, %d executed orders, final %.6g/%.6g", w->hist.size(), r.rec.updates.size(), s.executed, s.account.base_balance, s.account.quote_balance));
  }
}

// ------------------------------------------------------------------- E03
struct Vol { double var, ms; int n; };
Vol DailyVolatility(const std::vector<std::pair<int64_t, double>>& v0_days) {
  std::vector<double> r;
  for (size_t i = 1; i < v0_days.size(); ++i) r.push_back(std::log(v0_days[i].second / v0_days[i - 1].second));
  Vol o{0, 0, static_cast<int>(r.size())};
  if (r.empty()) return o;
  double m = 0;
  for (double x : r) { m += x; o.ms += x * x; }
  m /= r.size(); o.ms /= r.size();
  for (double x : r) o.var += (x - m) * (x - m);
  o.var /= r.size();
  return o;
}

// Portfolio values: initial (open of the first tick), then one per day. Days
// without updates: valued at the previous close with the balances before
// (late = false) or after (late = true) the gap.
std::vector<std::pair<int64_t, double>> DayValues(const OhlcHistory& h, const std::vector<std::pair<double, double>>& bal, bool late) {
  std::vector<std::pair<int64_t, double>> v;
  size_t u = 0;
  double pb = 0, pq = 0, pc = 0;
  for (auto& t : h) {
    if (t.volume() == 0) continue;
    const double b = bal[u].first, q = bal[u].second;
    ++u;
    const int64_t day = t.timestamp_sec() / 86400;
    if (v.empty()) {
      v.push_back({day - 1, b * t.open() + q});
      v.push_back({day, 0});
    }
    while (v.back().first < day - 1) v.push_back({v.back().first + 1, late ? b * pc + q : pb * pc + pq});
    if (v.back().first < day) v.push_back({day, 0});
    v.back().second = b * t.close() + q;
    pb = b; pq = q; pc = t.close();
  }
  return v;
}

bool VolOk(double got, const Vol& v, double range) {
  const double var = got * got / 365;
  const double tol = 1e-6 * (1 + v.n / 4.0) * v.ms + 2e-6 * range * std::sqrt(v.ms) + 1e-12;
  return std::isfinite(got) && got >= 0 && std::fabs(var - v.var) <= tol;
}

// A long execution with more executed orders than fit into 16 bits.
void BusyExecution(Ctx& ctx, Rng& g) {
  struct Busy : Trader {
    explicit Busy(int n) : n(n) {}
    void Update(const OhlcTick& t, const std::vector<float>&, float, float, std::vector<Order>& orders) override {
      for (int i = 0; i < n; ++i) {
        Order o;
        o.set_type(Order::MARKET);
        o.set_side(i % 2 ? Order::SELL : Order::BUY);
        o.set_base_amount(0.001f * (1 + i % 3));
        orders.push_back(o);
      }
      ++updates;
    }
    std::string GetInternalState() const override { return ""; }
    int n, updates = 0;
  };
  HistOptions h;
  h.n = g.Int(1500, 2500);
  h.zero_volume = 0;
  const OhlcHistory hist = RandomHistory(g, h);
  AccountConfig acc;
  acc.set_start_base_balance(1000);
  acc.set_start_quote_balance(1e6);
  acc.set_market_liquidity(0.5);
  Busy busy(g.Int(45, 60));
  RecordingLogger log;
  const ExecutionResult x = ExecuteTrader(acc, hist.begin(), hist.end(), nullptr, g.Chance(0.5), busy, &log);
  int rows = 0;
  for (auto& row : log.rows) rows += row.has_order;
  if (busy.updates != h.n || rows <= 65536 || x.total_executed_orders() != rows || rows != (h.n - 1) * busy.n)
    ctx.Fail("E03", "busy-order-count", Fmt("%d orders on each of %d updates (%d ticks): %d executed orders reported, %d logged", busy.n, busy.updates, h.n, x.total_executed_orders(), rows));
  ctx.Ev("orders_of_busy_executions", rows);
}

void CaseE03(Ctx& ctx, Rng& g) {
  if (ctx.evaluations == 0 && ctx.label == "E03") { Rng own(ctx.seed); BusyExecution(ctx, own); }
  auto w = MakeWorld(g, 200);
  if (g.Chance(0.6)) {
    w->ho.rate = g.Pick<int64_t>({3600, 14400, 86400});
    w->ho.start -= w->ho.start % w->ho.rate;
    if (w->ho.start <= 0) w->ho.start = w->ho.rate;
    w->ho.n = g.Int(1, 400);
    if (g.Chance(0.004)) { w->ho.rate = g.Pick<int64_t>({14400, 86400}); w->ho.n = g.Int(400, g.Pick({3000, 15000})); }
    w->hist = RandomHistory(g, w->ho);
  }
  const int kind = g.Pick({0, 0, 1, 2});
  Run r, f;
  const bool log1 = g.Chance(0.5), log2 = g.Chance(0.5);
  Execute(*w, w->hist, w->side_input.get(), kind, false, log1, r);
  Execute(*w, w->hist, w->side_input.get(), kind, true, log2, f);
  const ExecutionResult& x = r.result;
  const std::string where = Fmt(" [trader kind %d, %zu ticks, result {%s}]", kind, w->hist.size(), x.ShortDebugString().c_str());
  Shadow s = Replay(w->acc, B(w->hist), E(w->hist), r.rec, ctx);
  if (!SameF(x.start_base_balance(), w->acc.start_base_balance()) || !SameF(x.start_quote_balance(), w->acc.start_quote_balance()))
    ctx.Fail("E03", "start-balances", "starting balances are not the configured ones" + where);
  if (!SameF(x.start_price(), w->hist.front().close()) || !SameF(x.end_price(), w->hist.back().close()))
    ctx.Fail("E03", "prices", Fmt("start/end price are not the closes of the first/last tick (%.9g, %.9g)", w->hist.front().close(), w->hist.back().close()) + where);
  if (!Near(x.start_value(), double(x.start_base_balance()) * x.start_price() + x.start_quote_balance(), 1e-6) ||
      !Near(x.end_value(), double(x.end_base_balance()) * x.end_price() + x.end_quote_balance(), 1e-6))
    ctx.Fail("E03", "values", "start/end value does not follow from the reported balances and prices" + where);
  if (s.ok) {
    if (!SameF(x.end_base_balance(), s.account.base_balance) || !SameF(x.end_quote_balance(), s.account.quote_balance)) ctx.Fail("E03", "end-balances", Fmt("end balances are not the actual ones %.9g/%.9g", s.account.base_balance, s.account.quote_balance) + where);
    if (x.total_executed_orders() != s.executed) ctx.Fail("E03", "order-count", Fmt("%d orders were actually executed", s.executed) + where);
    if (!SameF(x.total_fee(), s.account.total_fee)) ctx.Fail("E03", "total-fee", Fmt("fee actually charged: %.9g", s.account.total_fee) + where);
  }
  if (log1) {
    int rows = 0;
    for (auto& row : r.log.rows) rows += row.has_order;
    if (rows != x.total_executed_orders()) ctx.Fail("E03", "order-count-log", Fmt("log shows %d executed orders", rows) + where);
  }
  ExecutionResult stripped = x;
  stripped.clear_base_volatility();
  stripped.clear_trader_volatility();
  if (f.result.has_base_volatility() || f.result.has_trader_volatility() || stripped.SerializeAsString() != f.result.SerializeAsString())
    ctx.Fail("E03", "fast-eval", "fast evaluation differs in more than the omitted volatilities: {" + f.result.ShortDebugString() + "}" + where);
  if (!x.has_base_volatility() || !x.has_trader_volatility()) ctx.Fail("E03", "volatility-missing", "volatilities missing" + where);
  // Volatilities.
  if (!r.rec.updates.empty() && s.ok) {
    std::vector<std::pair<double, double>> one, bal;
    for (auto& u : r.rec.updates) { one.push_back({1, 0}); bal.push_back({u.base, u.quote}); }
    bool valued = true;
    for (auto& b : bal) valued &= b.first > 0 || b.second > 0;
    auto range = [](const std::vector<std::pair<int64_t, double>>& v) { double m = 0; for (auto& p : v) m = std::max(m, p.second); return m > 0 ? 1.0 : 0.0; };
    auto base = DayValues(w->hist, one, false);
    Vol vb = DailyVolatility(base);
    if (!VolOk(x.base_volatility(), vb, range(base))) ctx.Fail("E03", "base-volatility", Fmt("baseline volatility %.9g, daily log returns (%d) give %.9g", x.base_volatility(), vb.n, std::sqrt(vb.var * 365)) + where);
    if (valued) {
      auto t1 = DayValues(w->hist, bal, false), t2 = DayValues(w->hist, bal, true);
      Vol v1 = DailyVolatility(t1), v2 = DailyVolatility(t2);
      if (!VolOk(x.trader_volatility(), v1, 1) && !VolOk(x.trader_volatility(), v2, 1))
        ctx.Fail("E03", "trader-volatility", Fmt("trader volatility %.9g, daily log returns (%d) give %.9g", x.trader_volatility(), v1.n, std::sqrt(v1.var * 365)) + where);
      ctx.Max("max_days", vb.n);
      if (vb.n > 2) ctx.Ev("volatilities_recomputed");
    }
  }
  ctx.Ev("summaries");
  if (s.executed > 0) {
    ctx.Distinct(WorldHash(*w, x));
    if (ctx.WantSample()) ctx.Sample(x.ShortDebugString());
  }
}

// ------------------------------------------------------------------- E04
// Civil calendar (proleptic Gregorian), independent of the code under test.
int64_t DaysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400);
  const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
void CivilFromDays(int64_t z, int64_t& y, int& m, int& d) {
  z += 719468;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = static_cast<unsigned>(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = static_cast<int64_t>(yoe) + era * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
}
int64_t AddMonths(int64_t ts, int months) {
  int64_t day = ts >= 0 ? ts / 86400 : -((-ts + 86399) / 86400);
  const int64_t sec = ts - day * 86400;
  int64_t y; int m, d;
  CivilFromDays(day, y, m, d);
  int64_t mm = y * 12 + (m - 1) + months;
  return DaysFromCivil(mm / 12, static_cast<int>(mm % 12) + 1, d) * 86400 + sec;
}

void CaseE04(Ctx& ctx, Rng& g) {
  HistOptions h;
  h.rate = g.Pick<int64_t>({3600 * 6, 86400, 86400 * 3, 3600});
  // Evaluations that begin before 1970, over ticks from 1970 on.
  const bool early = g.Chance(0.04);
  const int day = early || g.Chance(0.85) ? g.Int(1, 28) : g.Int(29, 31);
  const int64_t origin = DaysFromCivil(early ? g.Int(1967, 1970) : g.Int(2009, 2106), g.Int(1, 12), 1) * 86400;
  h.start = origin + g.Int(-20, 40) * 86400 + (g.Chance(0.5) ? 0 : g.Int(0, 23) * 3600);
  if (early) h.start = g.Int(1, 200) * 86400;
  h.start -= h.start % h.rate;
  h.n = g.Chance(0.08) ? 0 : g.Int(1, 500);
  if (h.rate == 3600 && h.n > 0) h.n = g.Int(1, 2000);
  h.vol = 0.03;
  h.zero_volume = 0.1;
  h.missing = g.Pick({0.0, 0.0, 0.02, 0.05});
  const bool decades = g.Chance(0.01);
  if (decades) {
    h.rate = 86400 * g.Pick<int64_t>({1, 3, 7, 30});
    h.start -= h.start % h.rate;
    h.n = g.Int(1, 86400LL * 365 * 60 / h.rate / g.Pick({1, 4}));
  }
  OhlcHistory hist = RandomHistory(g, h);
  // Long holes, so that whole windows are empty.
  if (g.Chance(0.3) && hist.size() > 4) {
    const size_t a = g.Int(1, hist.size() - 2), b = g.Int(a, std::min<size_t>(hist.size() - 1, a + 200));
    hist.erase(hist.begin() + a, hist.begin() + b);
  }
  AccountConfig acc = RandomAccount(g, h.price);
  KeepSolvent(acc, hist.size(), h.price);
  EvaluationConfig ec;
  int64_t y; int m, d;
  CivilFromDays(origin / 86400, y, m, d);
  int64_t start = DaysFromCivil(y, m, day) * 86400;
  if (g.Chance(0.4)) start += g.Int(0, 86399);
  if (g.Chance(0.2) && !hist.empty()) start = hist[g.Int(0, hist.size() - 1)].timestamp_sec();
  const int period = g.Chance(0.25) ? 0 : g.Pick({1, 1, 2, 3, 6, 12, decades ? 24 : 1, decades ? 36 : 4, decades ? 60 : 5, decades ? 120 : 18, decades ? 300 : 11});
  int64_t end;
  switch (g.Int(0, decades ? 7 : 5)) {
    case 6:
    case 7: end = AddMonths(start, g.Int(0, 12 * 80)) + g.Int(-1, 1); break;
    case 0: end = AddMonths(start, g.Int(0, 30)); break;             // exactly on a window boundary
    case 1: end = AddMonths(start, g.Int(0, 30)) + g.Pick<int64_t>({-1, 1}); break;
    case 2: end = hist.empty() ? start + 86400 : hist.back().timestamp_sec() + g.Pick<int64_t>({0, 1, h.rate}); break;
    case 3: end = start + g.Int(-5, 5) * 86400; break;
    case 4: end = start; break;
    default: end = start + g.Int(1, 900) * 86400; break;
  }
  if (end < 1) end = 1;
  if (early) end = std::max<int64_t>(end, g.Int(1, 500) * 86400);
  if (start <= 0) ctx.Ev("evaluations_from_before_1970");
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(end);
  ec.set_evaluation_period_months(period);
  ec.set_fast_eval(g.Chance(0.5));
  SideHistory side;
  std::unique_ptr<SideInput> si;
  if (g.Chance(0.5)) {
    side = RandomSide(g, 30, 2, start - 20 * 86400, start + 400 * 86400);
    if (!side.empty()) si.reset(new SideInput(side));
  }
  int64_t sy; int sm, sd;
  CivilFromDays(start / 86400, sy, sm, sd);
  const uint64_t script = g.U64() >> 1;
  ScriptedEmitter em(script);
  RecordingLogger log;
  const bool use_log = g.Chance(0.4);
  EvaluationResult res = EvaluateTrader(acc, ec, hist, si.get(), em, use_log ? &log : nullptr);
  ctx.Ev("evaluations");
  ctx.Ev("periods", res.period_size());
  const std::string where = Fmt(" [start %" PRId64 " end %" PRId64 " period %d months, %zu ticks %" PRId64 "..%" PRId64 "]", start, end, period, hist.size(),
                                hist.empty() ? 0 : hist.front().timestamp_sec(), hist.empty() ? 0 : hist.back().timestamp_sec());
  // Expected windows.
  struct W { int64_t a, b; size_t i, j; };
  std::vector<W> ws;
  auto range = [&](int64_t a, int64_t b) {
    W x{a, b, 0, 0};
    while (x.i < hist.size() && hist[x.i].timestamp_sec() < a) ++x.i;
    x.j = x.i;
    while (x.j < hist.size() && hist[x.j].timestamp_sec() < b) ++x.j;
    return x;
  };
  int empty_windows = 0;
  if (sd <= 28) {
    if (period == 0) {
      W x = range(start, end);
      if (x.i < x.j) ws.push_back(x);
    } else {
      for (int k = 0;; ++k) {
        const int64_t a = AddMonths(start, k), b = AddMonths(a, period);
        if (b > end) break;
        W x = range(a, b);
        if (x.i < x.j) ws.push_back(x); else ++empty_windows;
      }
    }
    ctx.Ev("empty_windows", empty_windows);
    bool same = static_cast<int>(ws.size()) == res.period_size();
    for (size_t k = 0; same && k < ws.size(); ++k) same = res.period(k).start_timestamp_sec() == ws[k].a && res.period(k).end_timestamp_sec() == ws[k].b;
    if (!same) {
      std::string got, want;
      for (auto& p : res.period()) got += Fmt("[%" PRId64 ",%" PRId64 ") ", p.start_timestamp_sec(), p.end_timestamp_sec());
      for (auto& x : ws) want += Fmt("[%" PRId64 ",%" PRId64 ") ", x.a, x.b);
      ctx.Fail("E04", "windows", "evaluated windows " + got.substr(0, 800) + " expected " + want.substr(0, 800) + where);
      return;
    }
  } else {
    for (auto& p : res.period()) ws.push_back(range(p.start_timestamp_sec(), p.end_timestamp_sec()));
    ctx.Ev("late_day_starts");
    // Where the start day does not exist in a month, its last day or the
    // overflow into the next month is accepted; all other windows are exact.
    auto cand = [](int64_t t, int months) {
      int64_t cy; int cm, cd;
      const int64_t day0 = t / 86400;
      CivilFromDays(day0, cy, cm, cd);
      const int64_t mm = cy * 12 + (cm - 1) + months;
      const int64_t ny = mm / 12; const int nm = static_cast<int>(mm % 12) + 1;
      const int64_t len = (nm == 12 ? DaysFromCivil(ny + 1, 1, 1) : DaysFromCivil(ny, nm + 1, 1)) - DaysFromCivil(ny, nm, 1);
      std::set<int64_t> r{DaysFromCivil(ny, nm, std::min<int64_t>(cd, len)) * 86400 + t % 86400};
      if (cd > len) r.insert(DaysFromCivil(ny, nm, cd) * 86400 + t % 86400);
      return r;
    };
    size_t seen = 0;
    bool ok = true;
    if (period == 0) {
      W x = range(start, end);
      ok = ws.size() == (x.i < x.j) && (ws.empty() || (ws[0].a == start && ws[0].b == end));
      seen = ws.size();
    }
    for (int k = 0; period > 0 && ok; ++k) {
      const auto A = cand(start, k);
      bool over = true, may_skip = false, hit = false;
      for (int64_t a : A) {
        auto bs = cand(a, period);
        for (int64_t b : cand(start, k + period)) bs.insert(b);
        for (int64_t b : bs) {
          if (b > end) { may_skip = true; continue; }
          over = false;
          const W x = range(a, b);
          if (x.i >= x.j) { may_skip = true; continue; }
          hit |= seen < ws.size() && ws[seen].a == a && ws[seen].b == b;
        }
      }
      if (over) break;
      if (hit) { ++seen; ctx.Ev("late_day_windows"); } else if (!may_skip) ok = false;
    }
    if (!ok || seen != ws.size()) {
      std::string got;
      for (auto& p : res.period()) got += Fmt("[%" PRId64 ",%" PRId64 ") ", p.start_timestamp_sec(), p.end_timestamp_sec());
      ctx.Fail("E04", "windows", Fmt("evaluated windows %s are not those starting 0, 1, 2, ... calendar months after the start (window %zu)", got.substr(0, 800).c_str(), seen) + where);
      return;
    }
  }
  if (em.recordings.size() != ws.size()) ctx.Fail("E04", "fresh-trader", Fmt("%zu traders created for %zu windows", em.recordings.size(), ws.size()) + where);
  size_t log_row = 0;
  for (size_t k = 0; k < ws.size() && k < em.recordings.size(); ++k) {
    if (ws[k].i >= ws[k].j) { ctx.Fail("E04", "empty-window", Fmt("window %zu without ticks was evaluated", k) + where); continue; }
    const Recording& rec = *em.recordings[k];
    size_t u = 0;
    bool ok = true;
    for (size_t i = ws[k].i; ok && i < ws[k].j; ++i) {
      if (hist[i].volume() == 0) continue;
      ok = u < rec.updates.size() && rec.updates[u].tick == hist[i].SerializeAsString();
      ++u;
    }
    ok = ok && u == rec.updates.size();
    if (!ok) ctx.Fail("E04", "window-ticks", Fmt("window %zu was not evaluated on exactly the ticks inside it (%zu updates)", k, rec.updates.size()) + where);
    if (!rec.updates.empty() && (!SameF(rec.updates[0].base, acc.start_base_balance()) || !SameF(rec.updates[0].quote, acc.start_quote_balance())))
      ctx.Fail("E04", "window-balances", Fmt("window %zu did not start from the configured balances", k) + where);
    auto tr = ScriptedEmitter(script, false).NewTrader();
    ExecutionResult er = ExecuteTrader(acc, hist.begin() + ws[k].i, hist.begin() + ws[k].j, si.get(), ec.fast_eval(), *tr, nullptr);
    if (er.SerializeAsString() != res.period(k).result().SerializeAsString())
      ctx.Fail("E04", "window-alone", Fmt("window %zu yields {%s}, evaluated alone {%s}", k, res.period(k).result().ShortDebugString().c_str(), er.ShortDebugString().c_str()) + where);
    ctx.Ev("windows_compared_with_lone_evaluation");
    if (use_log) {
      for (size_t i = ws[k].i; i < ws[k].j; ++i) {
        while (log_row < log.rows.size() && log.rows[log_row].has_order) ++log_row;
        if (log_row >= log.rows.size() || log.rows[log_row].ts != hist[i].timestamp_sec()) { ctx.Fail("E04", "window-log", "logged ticks are not those of the windows" + where); break; }
        ++log_row;
      }
    }
  }
  if (!ws.empty() || empty_windows || hist.empty()) {
    uint64_t hh = Comb(Comb(start, end), Comb(period, hist.size()));
    ctx.Distinct(hh);
    if (ws.size() > 2 && ctx.WantSample()) ctx.Sample(Fmt("%zu windows, %d empty", ws.size(), empty_windows) + where);
  }
}

// ------------------------------------------------------------------- E05
// Sells one unit for 1024 (the fixed fee) in some of the periods.
struct RuinTrader : public Trader {
  const OhlcHistory* hist; uint64_t salt;
  RuinTrader(const OhlcHistory* h, uint64_t s) : hist(h), salt(s) {}
  void Update(const OhlcTick& t, const std::vector<float>&, float base, float, std::vector<Order>& orders) override {
    auto next = std::upper_bound(hist->begin(), hist->end(), t.timestamp_sec(), [](int64_t x, const OhlcTick& y) { return x < y.timestamp_sec(); });
    if (base < 1 || next == hist->end() || next->open() != 1024 || (t.timestamp_sec() / 86400 / 28 * 2654435761u + salt) % 64 > 2) return;
    orders.emplace_back();
    orders.back().set_type(Order::MARKET); orders.back().set_side(Order::SELL); orders.back().set_base_amount(1);
  }
  std::string GetInternalState() const override { return ""; }
};
struct RuinEmitter : public TraderEmitter {
  const OhlcHistory* hist; uint64_t salt;
  RuinEmitter(const OhlcHistory* h, uint64_t s) : hist(h), salt(s) {}
  std::string GetName() const override { return "ruin"; }
  std::unique_ptr<Trader> NewTrader() const override { return std::unique_ptr<Trader>(new RuinTrader(hist, salt)); }
};

void CaseE05(Ctx& ctx, Rng& g) {
  HistOptions h;
  h.rate = g.Pick<int64_t>({86400, 3600 * 6});
  h.start = DaysFromCivil(g.Int(2010, 2030), g.Int(1, 12), 1) * 86400;
  h.n = g.Chance(0.05) ? 0 : g.Int(1, g.Chance(0.2) ? 4000 : 900);
  h.vol = g.Pick({0.005, 0.03});
  h.missing = 0.01;
  OhlcHistory hist;
  const bool century = g.Chance(0.01);
  if (century) {  // Decades of months, each moving the price by up to a factor of 1000.
    const double lo = g.Dbl(-7, 6.5), hi = g.Dbl(lo, 7);
    h.rate = 86400 * 10;
    h.n = 3 * g.Int(100, 2500);
    for (int i = 0; i < h.n; i += 2) {
      const float p = h.price * std::exp(g.Dbl(-1, 1)), q = p * std::exp(g.Dbl(lo, hi));
      for (int k = 0; k < 2; ++k) {
        OhlcTick t;
        t.set_timestamp_sec(h.start + (i + k) * h.rate);
        t.set_open(k ? q : p); t.set_high(k ? q : p); t.set_low(k ? q : p); t.set_close(k ? q : p); t.set_volume(1);
        hist.push_back(t);
      }
    }
  } else {
    hist = RandomHistory(g, h);
  }
  AccountConfig acc = RandomAccount(g, h.price);
  KeepSolvent(acc, hist.size(), h.price);
  const bool ruin = !century && g.Chance(0.02);
  if (ruin) {  // Periods that end with nothing at all.
    acc.Clear();
    acc.set_start_base_balance(1); acc.set_market_liquidity(1);
    acc.mutable_market_order_fee_config()->set_fixed_fee(1024);
    for (auto& t : hist) { const float p = g.Pick({512.0f, 1024.0f, 1024.0f, 2048.0f}); t.set_open(p); t.set_high(p); t.set_low(p); t.set_close(p); t.set_volume(1); }
  }
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(h.start);
  ec.set_end_timestamp_sec(h.start + g.Int(g.Chance(0.1) ? 0 : h.n / 2, h.n + 40) * h.rate + 1);
  // (Longer periods would let balances outgrow a float in the wild worlds.)
  ec.set_evaluation_period_months(century ? 1 : g.Pick({0, 1, 1, 2, 6}));
  if (g.Chance(0.5)) ec.set_fast_eval(g.Chance(0.5));
  const int kind = g.Int(0, 2);
  std::unique_ptr<TraderEmitter> em;
  if (ruin) {
    ec.set_fast_eval(true);
    em.reset(new RuinEmitter(&hist, g.Int(0, 63)));
  } else if (kind == 0) {
    em.reset(new ScriptedEmitter(g.U64() >> 1, false));
  } else {
    auto batch = GetBatchOfTraders(kind == 1 ? "rebalancing" : "stop");
    em = std::move(batch[g.Int(0, batch.size() - 1)]);
  }
  EvaluationResult r = EvaluateTrader(acc, ec, hist, nullptr, *em, nullptr);
  const std::string where = Fmt(" [%d periods, %s, result {score: %.9g avg_gain: %.9g avg_base_gain: %.9g avg_orders: %.9g avg_fee: %.9g}]", r.period_size(), em->GetName().c_str(),
                                r.score(), r.avg_gain(), r.avg_base_gain(), r.avg_total_executed_orders(), r.avg_total_fee());
  if (r.account_config().SerializeAsString() != acc.SerializeAsString()) ctx.Fail("E05", "account-config", "result carries another account configuration" + where);
  if (r.eval_config().SerializeAsString() != ec.SerializeAsString()) ctx.Fail("E05", "eval-config", "result carries another evaluation configuration" + where);
  if (r.name() != em->GetName()) ctx.Fail("E05", "name", "result carries name " + r.name() + where);
  double lg = 0, ag = 0, ab = 0, ao = 0, af = 0;
  for (auto& p : r.period()) {
    const auto& x = p.result();
    if (!Near(p.final_gain(), double(x.end_value()) / x.start_value(), 1e-6)) ctx.Fail("E05", "gain", Fmt("gain %.9g, values %.9g -> %.9g", p.final_gain(), x.start_value(), x.end_value()) + where);
    if (!Near(p.base_final_gain(), double(x.end_price()) / x.start_price(), 1e-6)) ctx.Fail("E05", "base-gain", Fmt("baseline gain %.9g, prices %.9g -> %.9g", p.base_final_gain(), x.start_price(), x.end_price()) + where);
    lg += p.final_gain() > 0 ? std::log(double(p.final_gain()) / p.base_final_gain()) : -HUGE_VAL;
    ag += p.final_gain(); ab += p.base_final_gain(); ao += x.total_executed_orders(); af += x.total_fee();
  }
  const int n = r.period_size();
  const double tol = 2e-6 * (1 + n / 10.0);
  auto chk = [&](const char* key, double got, double want) {
    if (!Near(got, want, tol, 1e-30)) ctx.Fail("E05", key, Fmt("%s %.9g, the periods give %.9g", key, got, want) + where);
  };
  if (century && n > 100) ctx.Ev("evaluations_over_decades");
  if (std::isinf(lg)) ctx.Ev("evaluations_with_total_loss");
  ctx.Max("max_periods", n);
  chk("score", r.score(), n ? std::exp(lg / n) : 0);
  chk("avg-gain", r.avg_gain(), n ? ag / n : 0);
  chk("avg-base-gain", r.avg_base_gain(), n ? ab / n : 0);
  chk("avg-orders", r.avg_total_executed_orders(), n ? ao / n : 0);
  chk("avg-fee", r.avg_total_fee(), n ? af / n : 0);
  ctx.Ev("evaluations");
  ctx.Ev("periods", n);
  if (n == 0) ctx.Ev("evaluations_without_periods");
  ctx.Distinct(HashStr(r.SerializeAsString()));
  if (n > 1 && ctx.WantSample()) ctx.Sample(where);
}

// ------------------------------------------------------------------- E07
void CaseE07(Ctx& ctx, Rng& g) {
  if (g.Chance(0.5)) {
    // Direct look-ups.
    const int64_t lo = g.Pick<int64_t>({1, 1483228800, 4294967000LL, 9000000000LL});
    const int span = g.Pick({5, 50, 5000, 1000000});
    SideHistory side = RandomSide(g, g.Chance(0.002) ? g.Pick({5000, 40000}) : g.Pick({1, 2, 3, 4, 10, 100, 600}), g.Chance(0.05) ? g.Int(6, g.Pick({12, 40, 140, 300})) : g.Int(1, 5), lo, lo + span);
    SideInput si(side);
    if (si.GetNumberOfRecords() != static_cast<int>(side.size()) || si.GetNumberOfSignals() != side[0].signal_size())
      ctx.Fail("E07", "size", Fmt("%d records of %d signals, expected %zu of %d", si.GetNumberOfRecords(), si.GetNumberOfSignals(), side.size(), side[0].signal_size()));
    for (size_t i = 0; i < side.size(); ++i) {
      std::vector<float> pre{7.5f}, want{7.5f};
      si.GetSideInputSignals(i, pre);
      bool ok = si.GetSideInputTimestamp(i) == side[i].timestamp_sec();
      for (int k = 0; k < side[i].signal_size(); ++k) { want.push_back(side[i].signal(k)); ok = ok && SameF(si.GetSideInputSignal(i, k), side[i].signal(k)); }
      if (!ok || !SameSignals(pre, want)) ctx.Fail("E07", "record", Fmt("record %zu {%s} read back as %s", i, side[i].ShortDebugString().c_str(), Vec(pre).c_str()));
    }
    int prev = -1;
    int64_t t = std::max<int64_t>(1, lo - g.Int(0, 5));
    const int steps = g.Int(1, 120);
    for (int i = 0; i < steps; ++i) {
      int want = -1;
      for (size_t k = 0; k < side.size() && side[k].timestamp_sec() <= t; ++k) want = k;
      const int plain = si.GetSideInputIndex(t);
      if (plain != want) ctx.Fail("E07", "lookup", Fmt("lookup of %" PRId64 " without hint gives %d, expected %d (%zu records)", t, plain, want, side.size()));
      std::set<int> hints{-1, prev, want, want - 1, want - 2, want - 3, 0, static_cast<int>(g.Int(-1, want))};
      for (int hint : hints) {
        if (hint < -1 || hint > want) continue;
        const int got = si.GetSideInputIndex(t, hint);
        ctx.Ev("hinted_lookups");
        if (got != want) ctx.Fail("E07", "hint", Fmt("lookup of %" PRId64 " with hint %d gives %d, expected %d (%zu records)", t, hint, got, want, side.size()));
      }
      prev = want;
      ctx.Distinct(Comb(Comb(want, side.size()), Comb(prev, span)));
      const int k = g.Int(0, 5);
      if (k == 0 && want + 1 < static_cast<int>(side.size())) t = side[want + 1].timestamp_sec() - g.Int(0, 1);
      else if (k == 1 && !side.empty()) t = std::max(t, side[g.Int(std::max(0, want), side.size() - 1)].timestamp_sec() + g.Int(-1, 1));
      else if (k == 2) {}
      else t += g.Int(0, span / 4 + 1);
    }
    ctx.Ev("lookup_sequences");
    return;
  }
  auto w = MakeWorld(g, 200);
  if (!w->side_input) return;
  if (g.Chance(0.15)) {  // The first records are far older than the ticks.
    const int64_t old = g.Pick<int64_t>({1 << 24, 1 << 27, 1LL << 31, 1LL << 32});
    if (w->hist.front().timestamp_sec() < old + 1000) for (auto& t : w->hist) t.set_timestamp_sec(t.timestamp_sec() + old / 86400 * 86400 + 86400);
    const size_t m = g.Int(1, w->side.size());
    w->side.resize(m);
    for (auto& s : w->side) s.set_timestamp_sec(std::max<int64_t>(s.timestamp_sec() - old, 0) + 1);
    SideHistory s2;
    for (auto& s : w->side) if (s2.empty() || s.timestamp_sec() > s2.back().timestamp_sec()) s2.push_back(s);
    w->side = s2;
    w->side_input.reset(new SideInput(w->side));
    ctx.Ev("executions_with_very_old_side_inputs");
  }
  Run r;
  Execute(*w, w->hist, w->side_input.get(), 0, true, false, r);
  for (auto& u : r.rec.updates) {
    std::vector<float> want = ExpectedSignals(w->side, u.ts);
    bool ok = u.signals.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i)
      ok = i + 1 < want.size() ? SameF(u.signals[i], want[i]) : Near(u.signals[i], want[i], 1.3e-7);
    if (!ok) ctx.Fail("E07", "signals", Fmt("update at %" PRId64 " received %s, expected %s", u.ts, Vec(u.signals).c_str(), Vec(want).c_str()));
    ctx.Ev(want.empty() ? "updates_before_first_record" : "updates_with_signals");
  }
  ctx.Distinct(WorldHash(*w, r.result));
  if (r.rec.updates.size() > 2 && ctx.WantSample()) ctx.Sample(Fmt("%zu ticks, %zu side records, last signals %s", w->hist.size(), w->side.size(), Vec(r.rec.updates.back().signals).c_str()));
}

// ------------------------------------------------------------------- L01
std::string CsvF(double x) { return Fmt("%.3f", x); }

void CaseL01(Ctx& ctx, Rng& g) {
  auto w = MakeWorld(g, 150);
  const int kind = g.Pick({0, 0, 1, 2});
  if (g.Chance(0.1)) {  // Very large numbers; the library's traders need values that fit in a float.
    float up = g.Pick({1e4f, 1e9f, 1e15f, 1e20f}), base = g.Pick({1.0f, 1e6f, 1e12f});
    const float vol = g.Pick({1.0f, 1e9f, 1e20f});
    for (auto& t : w->hist) { t.set_open(t.open() * up); t.set_high(t.high() * up); t.set_low(t.low() * up); t.set_close(t.close() * up); t.set_volume(t.volume() * vol); }
    w->acc.set_base_unit(0); w->acc.set_quote_unit(0);
    w->acc.set_start_base_balance(w->acc.start_base_balance() * base);
    w->acc.set_start_quote_balance(w->acc.start_quote_balance() * base * up);
    if (kind != 0) {  // The library's traders need portfolio values that are finite floats.
      double top = 0, low = INFINITY;
      for (auto& t : w->hist) { top = std::max<double>(top, t.high()); low = std::min<double>(low, t.low()); }
      const double value = (w->acc.start_base_balance() + w->acc.start_quote_balance() / low) * top;
      const double scale = value > 1e22 ? 1e22 / value : 1;
      w->acc.set_start_base_balance(w->acc.start_base_balance() * scale);
      w->acc.set_start_quote_balance(w->acc.start_quote_balance() * scale);
    }
    ctx.Ev("executions_with_very_large_numbers");
  } else if (g.Chance(0.1)) {  // Prices and balances of less than the precision of the log.
    const float down = g.Pick({1e-3f, 1e-5f, 1e-8f});
    for (auto& t : w->hist) { t.set_open(t.open() * down); t.set_high(t.high() * down); t.set_low(t.low() * down); t.set_close(t.close() * down); }
    w->acc.set_quote_unit(0);
    w->acc.set_start_quote_balance(w->acc.start_quote_balance() * down);
    ctx.Ev("executions_with_very_small_prices");
  }
  KeepSolvent(w->acc, w->hist.size(), w->hist.front().close());
  const bool fast = g.Chance(0.5);
  Run with, without;
  Execute(*w, w->hist, w->side_input.get(), kind, fast, true, with);
  Execute(*w, w->hist, w->side_input.get(), kind, fast, false, without);
  const std::string where = Fmt(" [trader kind %d, %zu ticks]", kind, w->hist.size());
  bool same = with.result.SerializeAsString() == without.result.SerializeAsString() && with.rec.updates.size() == without.rec.updates.size();
  for (size_t i = 0; same && i < with.rec.updates.size(); ++i) same = SameUpdate(with.rec.updates[i], without.rec.updates[i]);
  if (!same) ctx.Fail("L01", "side-effect", "logging changes the execution" + where);
  Shadow s = Replay(w->acc, B(w->hist), E(w->hist), with.rec, ctx);
  if (s.ok) {
    same = s.rows.size() == with.log.rows.size();
    size_t i = 0;
    for (; same && i < s.rows.size(); ++i) same = SameRow(s.rows[i], with.log.rows[i]);
    if (!same) ctx.Fail("L01", "exchange-rows", Fmt("exchange log row %zu differs from the execution (%zu rows, expected %zu)", i, with.log.rows.size(), s.rows.size()) + where);
  }
  // One state row per update, taken right after it.
  std::vector<std::string> want_states;
  if (kind == 0) {
    ScriptedTrader t(w->script, nullptr);
    for (auto& u : with.rec.updates) {
      OhlcTick tick;
      tick.ParseFromString(u.tick);
      std::vector<Order> o;
      t.Update(tick, u.signals, u.base, u.quote, o);
      want_states.push_back(t.GetInternalState());
    }
    if (want_states != with.log.states) ctx.Fail("L01", "trader-rows", Fmt("trader log has %zu rows, expected the state after each of %zu updates", with.log.states.size(), want_states.size()) + where);
  } else if (with.log.states.size() != with.rec.updates.size()) {
    ctx.Fail("L01", "trader-rows", Fmt("trader log has %zu rows for %zu updates", with.log.states.size(), with.rec.updates.size()) + where);
  }
  // CSV form.
  std::ostringstream ex, tr;
  const int which = g.Int(0, 3);  // bit 0: exchange stream, bit 1: trader stream
  {
    CsvLogger csv(which == 2 ? nullptr : &ex, which == 1 ? nullptr : &tr);
    Recording rec;
    std::unique_ptr<Trader> t;
    if (kind == 0) t.reset(new ScriptedTrader(w->script, &rec));
    else { auto batch = GetBatchOfTraders(kind == 1 ? "rebalancing" : "stop"); t = batch[w->script % batch.size()]->NewTrader(); }
    ExecutionResult res = ExecuteTrader(w->acc, w->hist.begin(), w->hist.end(), w->side_input.get(), fast, *t, &csv);
    if (res.SerializeAsString() != without.result.SerializeAsString()) ctx.Fail("L01", "csv-side-effect", "CSV logging changes the result" + where);
  }
  std::string want_ex, want_tr;
  for (auto& r : with.log.rows) {
    OhlcTick t;
    t.ParseFromString(r.tick);
    want_ex += Fmt("%" PRId64 ",", static_cast<int64_t>(t.timestamp_sec())) + CsvF(t.open()) + "," + CsvF(t.high()) + "," + CsvF(t.low()) + "," + CsvF(t.close()) + "," + CsvF(t.volume()) + "," +
               CsvF(r.base) + "," + CsvF(r.quote) + "," + CsvF(r.fee) + ",";
    if (r.has_order) {
      Order o;
      o.ParseFromString(r.order);
      want_ex += (o.type() == Order::MARKET ? "MARKET" : o.type() == Order::STOP ? "STOP" : "LIMIT") + std::string(o.side() == Order::BUY ? ",BUY," : ",SELL,") +
                 (o.has_base_amount() ? CsvF(o.base_amount()) : "") + "," + (o.has_quote_amount() ? CsvF(o.quote_amount()) : "") + "," + (o.has_price() && o.price() > 0 ? CsvF(o.price()) : "");
      ctx.Ev("csv_order_rows");
    } else {
      want_ex += ",,,,";
    }
    want_ex += "\n";
    ctx.Ev("csv_rows");
  }
  for (auto& st : with.log.states) want_tr += st + "\n";
  if (which == 2) want_ex.clear();
  if (which == 1) want_tr.clear();
  auto diff = [](const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t l = a.rfind('\n', i ? i - 1 : 0);
    l = l == std::string::npos ? 0 : l + 1;
    return "got '" + a.substr(l, 160) + "' expected '" + b.substr(std::min(l, b.size()), 160) + "'";
  };
  if (ex.str() != want_ex) ctx.Fail("L01", "csv-exchange", "CSV exchange log: " + diff(ex.str(), want_ex) + where);
  if (tr.str() != want_tr) ctx.Fail("L01", "csv-trader", "CSV trader log: " + diff(tr.str(), want_tr) + where);
  if (s.executed) {
    ctx.Distinct(WorldHash(*w, with.result));
    if (ctx.WantSample()) ctx.Sample(want_ex.substr(0, 400));
  }
}

void CaseAll(Ctx& ctx, Rng& g) {
  switch (g.Int(0, 6)) {
    case 0: return CaseE01(ctx, g);
    case 1: return CaseE02(ctx, g);
    case 2: return CaseE03(ctx, g);
    case 3: return CaseE04(ctx, g);
    case 4: return CaseE05(ctx, g);
    case 5: return CaseE07(ctx, g);
    default: return CaseL01(ctx, g);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"E01", CaseE01}, {"E02", CaseE02}, {"E03", CaseE03}, {"E04", CaseE04}, {"E05", CaseE05}, {"E07", CaseE07}, {"L01", CaseL01}, {"all", CaseAll}});
}

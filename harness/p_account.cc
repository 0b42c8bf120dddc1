// A01-A04: the exchange model (Account), judged order by order against an
// interval-arithmetic reference. In "dyadic" configurations (units, prices and
// fees are small multiples of powers of two) the reference is exact.
#include "base/account.h"
#include "interval.h"

using namespace trader;
using vf::Ctx;
using vf::Fmt;
using vf::I;
using vf::Rng;

namespace {
struct State { double base, quote, fee; };

enum Tri { kNo, kYes, kMaybe };
inline Tri Leq(I a, I b) { return a.hi <= b.lo ? kYes : a.lo > b.hi ? kNo : kMaybe; }
inline Tri And(Tri a, Tri b) { return a == kNo || b == kNo ? kNo : a == kYes && b == kYes ? kYes : kMaybe; }
inline Tri Not(Tri a) { return a == kYes ? kNo : a == kNo ? kYes : kMaybe; }

struct Ref {
  bool triggered = false;
  bool touch = false;
  I price{};
  I amount{};          // fill size if executed
  bool capped = false;
  Tri nonzero = kNo;   // amounts to at least one unit (and the fee does not eat it)
  Tri affordable = kNo;
  Tri executes = kNo;
  const char* why = "";
};

const FeeConfig& FeeOf(const AccountConfig& c, const Order& o) {
  return o.type() == Order::MARKET ? c.market_order_fee_config()
         : o.type() == Order::STOP ? c.stop_order_fee_config()
                                   : c.limit_order_fee_config();
}

I FeeRef(const FeeConfig& f, I quote, double qu, I* raw = nullptr) {
  I x = vf::Max(vf::Pt(f.minimum_fee()), vf::Add(vf::Pt(f.fixed_fee()), vf::Mul(quote, vf::Pt(f.relative_fee()))));
  if (raw) *raw = x;
  return vf::Quant(vf::kCeil, x, qu);
}

I Blend(double liquidity, double ref, double worst) {
  I a = vf::Mul(vf::Pt(liquidity), vf::Pt(ref));
  I b = vf::Mul(vf::Sub(vf::Pt(1), vf::Pt(liquidity)), vf::Pt(worst));
  if (ref == worst && !(a.Exact() && b.Exact())) return vf::Widen({ref * (1 - vf::kEps), ref * (1 + vf::kEps)});
  return vf::Add(a, b);
}

Ref Reference(const AccountConfig& c, const State& s, const Order& o, const OhlcTick& t) {
  Ref r;
  const double bu = c.base_unit(), qu = c.quote_unit(), L = c.market_liquidity();
  const bool buy = o.side() == Order::BUY;
  if (o.type() == Order::MARKET) {
    r.triggered = true;
    r.price = Blend(L, t.open(), buy ? t.high() : t.low());
  } else if (o.type() == Order::STOP) {
    r.triggered = buy ? t.high() >= o.price() : t.low() <= o.price();
    r.touch = (buy ? t.high() : t.low()) == o.price();
    r.price = buy ? Blend(L, std::max(o.price(), t.open()), t.high()) : Blend(L, std::min(o.price(), t.open()), t.low());
  } else {
    r.triggered = buy ? t.low() <= o.price() : t.high() >= o.price();
    r.touch = (buy ? t.low() : t.high()) == o.price();
    r.price = vf::Pt(o.price());
  }
  if (!r.triggered) { r.why = "not-triggered"; return r; }
  const bool has_cap = o.type() == Order::LIMIT && c.max_volume_ratio() > 0;
  I cap{1e300, 1e300};
  if (has_cap) cap = vf::Quant(vf::kFloor, vf::Mul(vf::Pt(c.max_volume_ratio()), vf::Pt(t.volume())), bu);
  const FeeConfig& f = FeeOf(c, o);
  I want;
  Tri ok = kYes;
  if (o.oneof_amount_case() == Order::kBaseAmount) {
    want = vf::Pt(o.base_amount());
    r.capped = cap.lo < want.hi;
    I m = vf::Min(want, cap);
    r.amount = vf::Quant(vf::kRound, m, bu);
    // An already rounded cap must not be rounded up again.
    if (has_cap && !r.amount.Exact()) r.amount.hi = std::min(r.amount.hi, std::max(cap.hi, r.amount.lo));
  } else {
    I q = vf::Quant(vf::kRound, vf::Pt(o.quote_amount()), qu);
    ok = And(ok, vf::In(0, q) && q.hi == 0 ? kNo : qu > 0 ? (q.hi < qu * (1 - 1e-6) ? kNo : q.lo > qu * 0.5 ? kYes : kMaybe) : kYes);
    I fee = FeeRef(f, q, qu);
    if (buy) {
      Tri cov = Leq(q, vf::Pt(s.quote));
      r.affordable = cov;
      ok = And(ok, Not(Leq(q, fee)));
      want = vf::Div(vf::Sub(q, fee), r.price);
    } else {
      want = vf::Div(vf::Add(q, fee), r.price);
    }
    r.capped = cap.lo < want.hi;
    r.amount = vf::Quant(vf::kFloor, vf::Min(want, cap), bu);
  }
  const double one = bu > 0 ? bu : 0;
  Tri nz = r.amount.hi <= 0 ? kNo : one > 0 ? (r.amount.hi < one * (1 - 1e-6) ? kNo : r.amount.lo >= one * (1 - 1e-6) ? kYes : kMaybe) : r.amount.lo > 0 ? kYes : kMaybe;
  if (one > 0 && nz == kYes && !vf::PowerOfTwo(one) && r.amount.lo < one * 1.0001) nz = kMaybe;
  ok = And(ok, nz);
  I value = vf::Mul(r.amount, r.price);
  if (buy) {
    I cost = vf::Quant(vf::kCeil, value, qu);
    I total = vf::Add(cost, FeeRef(f, cost, qu));
    Tri cov = Leq(total, vf::Pt(s.quote));
    if (o.oneof_amount_case() == Order::kBaseAmount) r.affordable = cov;
    else r.affordable = And(r.affordable, cov);
  } else {
    r.affordable = Leq(r.amount, vf::Pt(s.base));
    I got = vf::Quant(vf::kFloor, value, qu);
    I net = vf::Sub(got, FeeRef(f, got, qu));
    ok = And(ok, net.hi < qu || net.hi < 0 ? kNo : net.lo >= qu && net.lo >= 0 ? kYes : kMaybe);
    if (qu > 0 && !vf::PowerOfTwo(qu) && net.lo < 1.5 * qu && ok == kYes) ok = kMaybe;
  }
  r.nonzero = ok;
  r.executes = And(ok, r.affordable);
  r.why = ok == kNo ? "amounts-to-nothing" : r.affordable == kNo ? "unaffordable" : "";
  return r;
}

std::string Describe(const AccountConfig& c, const State& s, const Order& o, const OhlcTick& t, bool exec, const Account& a, const Ref& r) {
  return Fmt("config{%s} before{base=%.9g quote=%.9g fee=%.9g} order{%s} tick{%s} -> executed=%d after{base=%.9g quote=%.9g fee=%.9g}; reference: triggered=%d price=%s amount=%s executes=%s %s",
             c.ShortDebugString().c_str(), s.base, s.quote, s.fee, o.ShortDebugString().c_str(), t.ShortDebugString().c_str(), exec,
             a.base_balance, a.quote_balance, a.total_fee, r.triggered, vf::Str(r.price).c_str(), vf::Str(r.amount).c_str(),
             r.executes == kYes ? "yes" : r.executes == kNo ? "no" : "ambiguous", r.why);
}

bool MultipleOf(double x, double u) {
  if (!(u > 0)) return true;
  const double n = std::round(x / u);
  return std::fabs(x - n * u) <= 4e-7 * std::fabs(x) + (vf::PowerOfTwo(u) ? 0 : 1e-9);
}

struct Gen {
  Rng& g;
  bool dyadic;
  double bu, qu;
  double pgrid;
  double ref_price;
  explicit Gen(Rng& r) : g(r) {}
  float Price() {
    if (dyadic) return static_cast<float>(g.Int(1, 255) * pgrid);
    return static_cast<float>(ref_price * g.LogU(0.5, 2));
  }
  FeeConfig Fee() {
    FeeConfig f;
    if (g.Chance(0.15)) return f;
    if (dyadic) {
      if (g.Chance(0.8)) f.set_relative_fee(g.Int(0, 15) / 32.0f / (g.Chance(0.5) ? 8 : 1));
      if (g.Chance(0.5)) f.set_fixed_fee(g.Int(0, 40) / 8.0f);
      if (g.Chance(0.5)) f.set_minimum_fee(g.Int(0, 80) / 8.0f);
    } else {
      if (g.Chance(0.8)) f.set_relative_fee(g.Chance(0.5) ? 0.005f : g.Dbl(0, 0.05));
      if (g.Chance(0.5)) f.set_fixed_fee(g.Dbl(0, 2));
      if (g.Chance(0.5)) f.set_minimum_fee(g.Dbl(0, 5));
    }
    return f;
  }
};

void Case(Ctx& ctx, Rng& g) {
  Gen gen(g);
  gen.dyadic = g.Chance(0.6);
  AccountConfig c;
  if (gen.dyadic) {
    gen.bu = g.Chance(0.8) ? std::ldexp(1.0, -g.Int(0, 4)) : 0;
    gen.qu = g.Chance(0.8) ? std::ldexp(1.0, -g.Int(0, 3)) : 0;
    gen.pgrid = std::ldexp(1.0, -g.Int(0, 3));
    c.set_market_liquidity(g.Pick({0.0f, 0.25f, 0.5f, 0.75f, 1.0f}));
    c.set_max_volume_ratio(g.Pick({0.0f, 0.0f, 0.25f, 0.5f, 0.5f, 1.0f, 1.0f, 3.0f}));
  } else {
    gen.bu = g.Pick({0.0f, 0.00001f, 0.001f, 0.1f, 0.00000001f, 1.0f});
    gen.qu = g.Pick({0.0f, 0.01f, 0.01f, 1.0f, 0.001f});
    gen.ref_price = g.Chance(0.8) ? g.LogU(0.5, 20000) : g.LogU(1e-5, 1e7);
    c.set_market_liquidity(g.Chance(0.7) ? g.Pick({0.0, 0.3, 0.5, 0.9, 1.0}) : g.Dbl());
    c.set_max_volume_ratio(g.Chance(0.4) ? 0.0 : g.Chance(0.2) ? g.LogU(1, 1000) : g.Chance(0.2) ? g.LogU(1e-6, 1) : g.Dbl(0.001, 1));
  }
  c.set_base_unit(gen.bu);
  c.set_quote_unit(gen.qu);
  auto base_amount = [&](double scale) -> float {
    const double u = gen.bu > 0 ? gen.bu : gen.dyadic ? 1.0 / 16 : 1e-4;
    if (gen.dyadic) return g.Chance(0.7) ? g.Int(0, 127) * u : g.Int(0, 500) * (u / 4);
    return g.Chance(0.2) ? g.Int(0, 20) * u : g.LogU(1e-3, 10) * scale;
  };
  auto quote_amount = [&](double scale) -> float {
    const double u = gen.qu > 0 ? gen.qu : gen.dyadic ? 1.0 / 8 : 1e-2;
    if (gen.dyadic) return g.Chance(0.7) ? g.Int(0, 2047) * u : g.Int(0, 4000) * (u / 4);
    return g.Chance(0.2) ? g.Int(0, 500) * u : g.LogU(1e-3, 10) * scale;
  };
  auto snap = [](double x, double u) { return static_cast<float>(u > 0 ? u * std::floor(x / u + 0.5) : x); };
  const double bscale = gen.dyadic ? 8 : g.LogU(0.01, 100);
  const double qscale = gen.dyadic ? 64 : bscale * gen.ref_price;
  c.set_start_base_balance(g.Chance(0.1) ? 0 : snap(base_amount(bscale), gen.bu));
  c.set_start_quote_balance(g.Chance(0.1) ? 0 : snap(quote_amount(qscale) * (gen.dyadic ? 4 : 1), gen.qu));
  *c.mutable_market_order_fee_config() = gen.Fee();
  *c.mutable_stop_order_fee_config() = gen.Fee();
  *c.mutable_limit_order_fee_config() = gen.Fee();

  Account acc;
  acc.base_balance = 77; acc.quote_balance = 77; acc.total_fee = 77;   // must be overwritten
  acc.InitAccount(c);
  if (acc.base_balance != c.start_base_balance() || acc.quote_balance != c.start_quote_balance() || acc.total_fee != 0)
    ctx.Fail("A02", "init", "InitAccount does not start from the configured balances with zero fee: " + c.ShortDebugString());

  const int n = g.Int(8, g.Chance(0.02) ? 600 : 60);
  int64_t ts = 1483228800;
  for (int i = 0; i < n; ++i) {
    ts += 60;
    OhlcTick t;
    t.set_timestamp_sec(ts);
    float p[4] = {gen.Price(), gen.Price(), gen.Price(), gen.Price()};
    if (!gen.dyadic || g.Chance(0.5)) {  // narrow ticks
      if (gen.dyadic) for (int k = 1; k < 4; ++k) p[k] = std::max<float>(gen.pgrid, p[0] + g.Int(-3, 3) * gen.pgrid);
      else for (int k = 1; k < 4; ++k) p[k] = p[0] * g.Dbl(0.97, 1.03);
    }
    if (g.Chance(0.15)) p[1] = p[2] = p[3] = p[0];
    t.set_open(p[0]);
    t.set_close(p[1]);
    t.set_high(*std::max_element(p, p + 4));
    t.set_low(*std::min_element(p, p + 4));
    t.set_volume(g.Chance(0.1) ? 0 : gen.dyadic ? g.Int(0, 63) / 4.0 : g.Volume(1e-3, 100) * bscale);
    Order o;
    o.set_type(g.Pick({Order::MARKET, Order::STOP, Order::LIMIT}));
    o.set_side(g.Pick({Order::BUY, Order::SELL}));
    if (o.type() != Order::MARKET) {
      const int k = g.Int(0, 9);
      float pr = k == 0 ? t.high() : k == 1 ? t.low() : k == 2 ? t.open() : k == 3 ? t.close()
                 : k == 4 ? std::nextafter(g.Chance(0.5) ? t.high() : t.low(), g.Chance(0.5) ? 1e30f : 0.0f)
                 : k < 7 ? (gen.dyadic ? std::max<float>(gen.pgrid, t.open() + g.Int(-4, 4) * gen.pgrid) : static_cast<float>(t.open() * g.Dbl(0.97, 1.03)))
                         : gen.Price();
      o.set_price(pr);
    } else if (g.Chance(0.2)) {
      o.set_price(gen.Price());  // ignored for market orders
    }
    const bool buy = o.side() == Order::BUY;
    const double est = o.type() == Order::LIMIT ? o.price() : t.open();
    if (g.Chance(0.5)) {
      float a = 0;
      const int k = g.Int(0, 9);
      if (!buy && k < 4) a = k == 0 ? acc.base_balance : k == 1 ? (gen.bu > 0 ? acc.base_balance + gen.bu : g.Chance(0.5) ? std::nextafter(acc.base_balance, 1e30f) : acc.base_balance * g.Pick({1.000001f, 1.0001f})) : k == 2 ? acc.base_balance * 0.5f : acc.base_balance - gen.bu;
      else if (buy && k < 3) a = snap(acc.quote_balance / est * (k == 0 ? 1.0 : g.Dbl(0.3, 1.05)), gen.bu);
      else if (k == 4) a = gen.bu * g.Pick({0.25f, 0.5f, 0.75f, 1.0f, 1.5f});
      else if (k == 5) a = t.volume() * g.Pick({0.25f, 0.5f, 1.0f, 2.0f});
      else a = base_amount(bscale);
      if (!(a > 1e-9)) a = gen.bu > 0 ? gen.bu : 0.125f;
      o.set_base_amount(a);
    } else {
      float a = 0;
      const int k = g.Int(0, 9);
      if (buy && k < 4) a = k == 0 ? acc.quote_balance : k == 1 ? acc.quote_balance + gen.qu : k == 2 ? acc.quote_balance * 0.5f : std::nextafter(acc.quote_balance, 1e30f);
      else if (!buy && k < 3) a = snap(acc.base_balance * est * (k == 0 ? 1.0 : g.Dbl(0.3, 1.05)), gen.qu);
      else if (k == 4) a = gen.qu * g.Pick({0.25f, 0.5f, 0.75f, 1.0f, 1.5f, 4.0f});
      else if (k == 5) a = FeeOf(c, o).minimum_fee() + g.Pick({0.0f, 0.125f, 1.0f, 2.0f});
      else a = quote_amount(qscale);
      if (!(a > 1e-9)) a = gen.qu > 0 ? gen.qu : 0.125f;
      o.set_quote_amount(a);
    }
    // Refill now and then so that the history stays interesting.
    if (acc.base_balance <= gen.bu * 2 && acc.quote_balance <= gen.qu * 20 && g.Chance(0.3)) acc.InitAccount(c);
    if (gen.dyadic && (acc.quote_balance > 4096 || acc.base_balance > 512)) acc.InitAccount(c);

    const State s{acc.base_balance, acc.quote_balance, acc.total_fee};
    const Account before = acc;
    const Ref r = Reference(c, s, o, t);
    const bool exec = acc.ExecuteOrder(c, o, t);
    auto D = [&]() { return Describe(c, s, o, t, exec, acc, r); };
    const std::string kind = Fmt("%s-%s-%s", Order::Type_Name(o.type()).c_str(), Order::Side_Name(o.side()).c_str(), o.has_base_amount() ? "base" : "quote");
    ctx.Ev("orders");
    ctx.Ev(exec ? "executed" : "not_executed");
    if (r.touch) ctx.Ev("touching_orders");
    if (exec && r.capped) ctx.Ev("volume_capped_fills");
    if (r.executes == kMaybe) ctx.Ev("float_ambiguous_outcomes");
    if (!exec && *r.why) ctx.Ev((std::string("rejected_") + r.why).c_str());
    if (exec && r.amount.Exact() && r.price.Exact()) ctx.Ev("executed_with_exact_reference");

    // ---- A01
    if (!exec) {
      if (memcmp(&before, &acc, sizeof acc) != 0) ctx.Fail("A01", "changed-" + kind, "order not executed but account changed: " + D());
    }
    if (acc.base_balance < 0 || acc.quote_balance < 0 || std::isnan(acc.base_balance) || std::isnan(acc.quote_balance) || std::isnan(acc.total_fee))
      ctx.Fail("A01", "negative-" + kind, "negative balance: " + D());
    if (acc.total_fee < before.total_fee) ctx.Fail("A01", "fee-decreased-" + kind, "accumulated fee decreased: " + D());
    // ---- A02 and implied values
    const double db = static_cast<double>(acc.base_balance) - s.base;
    const double dq = static_cast<double>(acc.quote_balance) - s.quote;
    const double df = static_cast<double>(acc.total_fee) - s.fee;
    if (exec) {
      const double amt = buy ? db : -db;
      const double e1 = buy ? s.base + r.amount.lo : s.base - r.amount.lo;
      const bool exact = r.amount.Exact() && r.price.Exact() && gen.dyadic && static_cast<double>(static_cast<float>(e1)) == e1 && std::fabs(e1 - s.base) == r.amount.lo;
      I obs = exact ? vf::Pt(amt) : I{amt - vf::kEps * (s.base + acc.base_balance), amt + vf::kEps * (s.base + acc.base_balance)};
      if (!exact && gen.bu > 0) {
        // The traded amount is a whole number of units; recover it when the resolution allows.
        I n{std::ceil(obs.lo / gen.bu - 1e-3), std::floor(obs.hi / gen.bu + 1e-3)};
        if (n.lo <= n.hi) obs = {gen.bu * n.lo * (1 - 1e-7), gen.bu * n.hi * (1 + 1e-7)};
      }
      if (obs.lo < 0) obs.lo = 0;
      if (amt < (exact ? 0 : -vf::kEps * (s.base + acc.base_balance)) || (buy ? dq > vf::kEps * (s.quote + acc.quote_balance) : dq < -vf::kEps * (s.quote + acc.quote_balance)))
        ctx.Fail("A02", "direction-" + kind, "base and quote do not move in opposite directions: " + D());
      I gross = vf::Quant(buy ? vf::kCeil : vf::kFloor, vf::Mul(obs, r.price), gen.qu);
      I fee = FeeRef(FeeOf(c, o), gross, gen.qu);
      I total = buy ? vf::Add(gross, fee) : vf::Sub(gross, fee);
      I q1 = vf::Quant(vf::kRound, buy ? vf::Sub(vf::Pt(s.quote), total) : vf::Add(vf::Pt(s.quote), total), gen.qu);
      I f1 = vf::Quant(vf::kRound, vf::Add(vf::Pt(s.fee), fee), gen.qu);
      if (!vf::In(acc.quote_balance, q1))
        ctx.Fail("A02", "quote-ledger-" + kind, Fmt("quote balance %.9g, expected %s (traded value %s, fee %s): ", acc.quote_balance, vf::Str(q1).c_str(), vf::Str(gross).c_str(), vf::Str(fee).c_str()) + D());
      if (!vf::In(acc.total_fee, f1))
        ctx.Fail("A02", "fee-ledger-" + kind, Fmt("total fee %.9g, expected %s: ", acc.total_fee, vf::Str(f1).c_str()) + D());
      if (!MultipleOf(acc.base_balance, gen.bu) || !MultipleOf(acc.quote_balance, gen.qu) || !MultipleOf(acc.total_fee, gen.qu))
        ctx.Fail("A02", "unit-multiple-" + kind, "balance or fee is not a whole multiple of its unit: " + D());
      // Overdraw: what was paid must have been there.
      if (buy ? total.lo > s.quote : obs.lo > s.base) ctx.Fail("A01", "overdraw-" + kind, "executed although not covered: " + D());
      // ---- A03: price implied by the quote movement net of the fee actually booked.
      const bool all_exact = exact && q1.Exact() && f1.Exact() && fee.Exact() && vf::In(df, fee);
      I net = all_exact ? vf::Pt(dq) : I{dq - vf::kEps * (s.quote + acc.quote_balance) - (gen.qu > 0 && !gen.dyadic ? gen.qu * 0.01 : 0), dq + vf::kEps * (s.quote + acc.quote_balance) + (gen.qu > 0 && !gen.dyadic ? gen.qu * 0.01 : 0)};
      I booked = all_exact ? vf::Pt(df) : I{df - vf::kEps * (s.fee + acc.total_fee) - (gen.qu > 0 ? gen.qu * 0.01 : 0), df + vf::kEps * (s.fee + acc.total_fee) + (gen.qu > 0 ? gen.qu * 0.01 : 0)};
      I value = buy ? vf::Sub(vf::Neg(net), booked) : vf::Add(net, booked);
      if (value.hi < gross.lo || value.lo > gross.hi)
        ctx.Fail("A03", "price-" + kind, Fmt("fill of %s exchanged for %s, at the reference price %s it is worth %s: ", vf::Str(obs).c_str(), vf::Str(value).c_str(), vf::Str(r.price).c_str(), vf::Str(gross).c_str()) + D());
      if (!r.triggered) ctx.Fail("A03", "not-triggered-" + kind, "executed although the tick does not reach the price: " + D());
      // ---- A04
      if (r.triggered) {
        if (r.nonzero == kNo) ctx.Fail("A04", "nothing-" + kind, "order that amounts to nothing reported as executed: " + D());
        I b1 = vf::Quant(vf::kRound, buy ? vf::Add(vf::Pt(s.base), r.amount) : vf::Sub(vf::Pt(s.base), r.amount), gen.bu);
        if (r.nonzero != kNo && !vf::In(acc.base_balance, b1))
          ctx.Fail("A04", "size-" + kind, Fmt("base balance %.9g, expected %s: ", acc.base_balance, vf::Str(b1).c_str()) + D());
        if (o.has_quote_amount()) {
          const double lim = vf::Quant(vf::kRound, vf::Pt(o.quote_amount()), gen.qu).hi;
          const double slack = all_exact ? 0 : vf::kEps * (s.quote + acc.quote_balance + acc.total_fee) * 2 + 1.01 * gen.qu;
          if (std::fabs(dq) > lim + slack) ctx.Fail("A04", "quote-limit-" + kind, Fmt("moved %.9g quote, limit %.9g: ", dq, lim) + D());
        }
      }
    } else if (r.executes == kYes) {
      ctx.Fail("A04", "must-execute-" + kind, "triggered and covered order was not executed: " + D());
      if (r.touch) ctx.Fail("A03", "touch-" + kind, "order whose price is exactly reached was not executed: " + D());
      else ctx.Fail("A03", "must-trigger-" + kind, "order whose price is reached was not executed: " + D());
    }
    if (exec && r.executes == kNo && r.triggered && r.affordable == kNo && r.nonzero != kNo)
      ctx.Fail("A01", "unaffordable-" + kind, "executed although not covered by the balance: " + D());

    if (exec || r.touch || (r.triggered && *r.why)) {
      I raw;
      const FeeConfig& f = FeeOf(c, o);
      FeeRef(f, vf::Pt(std::fabs(dq)), 0, &raw);
      const int fee_regime = raw.hi == 0 ? 0 : raw.lo <= f.minimum_fee() ? 1 : f.fixed_fee() > 0 ? 2 : 3;
      uint64_t h = vf::HashStr(kind);
      for (int v : {int(exec), int(r.touch), int(r.capped), fee_regime, int(gen.bu > 0), int(gen.qu > 0), int(gen.dyadic), int(t.volume() == 0),
                    int(t.high() == t.low()), int(c.market_liquidity() * 4), int(r.why[0]), o.type() == Order::MARKET ? 0 : (o.price() > t.open()) - (o.price() < t.open()) + 2,
                    int(acc.base_balance == 0), int(acc.quote_balance == 0)})
        h = vf::Comb(h, v);
      ctx.Distinct(h);
      if (exec && ctx.WantSample()) ctx.Sample(D());
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"A01", Case}, {"A02", Case}, {"A03", Case}, {"A04", Case}});
}

// E06: parallel batches against lone evaluations; run plain and under TSan.
#include <thread>

#include "eval/eval.h"
#include "traders/rebalancing_trader.h"
#include "traders/trader_factory.h"
#include "world.h"

using namespace trader;
using namespace vf;

namespace {
// Delays a trader's construction or updates to perturb the schedule.
class SlowEmitter : public TraderEmitter {
 public:
  SlowEmitter(std::unique_ptr<TraderEmitter> in, int us) : in_(std::move(in)), us_(us) {}
  std::string GetName() const override { return in_->GetName(); }
  std::unique_ptr<Trader> NewTrader() const override {
    if (us_ > 0) usleep(us_); else std::this_thread::yield();
    return in_->NewTrader();
  }

 private:
  std::unique_ptr<TraderEmitter> in_;
  int us_;
};

// Another name for a trader: names need not tell traders apart.
class NamedEmitter : public TraderEmitter {
 public:
  NamedEmitter(std::unique_ptr<TraderEmitter> in, std::string name) : in_(std::move(in)), name_(std::move(name)) {}
  std::string GetName() const override { return name_; }
  std::unique_ptr<Trader> NewTrader() const override { return in_->NewTrader(); }

 private:
  std::unique_ptr<TraderEmitter> in_;
  std::string name_;
};

std::unique_ptr<TraderEmitter> Custom(Rng& g) {
  if (g.Chance(0.5)) {
    RebalancingTraderConfig c;
    c.set_alpha(g.Pick({0.3f, 0.5f, 0.7f}) + g.Pick({0.0f, 0.0004f, -0.0003f}));
    c.set_epsilon(g.Pick({0.05f, 0.0504f, 0.0496f, 0.2f}));
    return std::unique_ptr<TraderEmitter>(new RebalancingTraderEmitter(c));
  }
  auto b = GetBatchOfTraders("stop");
  return std::move(b[g.Int(0, b.size() - 1)]);
}

void Case(Ctx& ctx, Rng& g) {
  HistOptions h;
  h.rate = g.Pick<int64_t>({3600, 14400, 86400});
  h.start = 1483228800;
  h.n = g.Int(1, ctx.thorough ? 1500 : 500);
  const bool many = g.Chance(0.02);  // Hundreds of traders over a short history.
  if (many) h.n = g.Int(1, 20);
  h.zero_volume = 0.05;
  OhlcHistory hist = RandomHistory(g, h);
  AccountConfig acc = RandomAccount(g, h.price);
  KeepSolvent(acc, hist.size(), h.price);
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(h.start);
  ec.set_end_timestamp_sec(h.start + h.n * h.rate);
  ec.set_evaluation_period_months(g.Pick({0, 1, 2}));
  ec.set_fast_eval(g.Chance(0.5));
  SideHistory side;
  std::unique_ptr<SideInput> si;
  if (g.Chance(0.7)) {
    side = RandomSide(g, g.Int(1, 100), 2, h.start - 1000, h.start + h.n * h.rate);
    si.reset(new SideInput(side));
  }
  std::vector<std::unique_ptr<TraderEmitter>> ems;
  const int kind = g.Int(0, 3);
  if (kind == 0) {
    ems = GetBatchOfTraders(g.Chance(0.5) ? "rebalancing" : "stop");
    const size_t keep = many ? g.Int(25, 200) : g.Int(1, 24);
    while (ems.size() > keep) ems.erase(ems.begin() + g.Int(0, ems.size() - 1));
  } else {
    const int n = many ? g.Int(25, 300) : g.Chance(0.05) ? 0 : g.Int(1, 24);
    for (int i = 0; i < n; ++i) {
      std::unique_ptr<TraderEmitter> e;
      if (g.Chance(0.15)) {
        e = Custom(g);
      } else if (g.Chance(0.7)) {
        e.reset(new ScriptedEmitter(g.Chance(0.1) ? 4 : g.U64() >> 1, false));
      } else {
        auto b = GetBatchOfTraders(g.Chance(0.5) ? "rebalancing" : "stop");
        e = std::move(b[g.Int(0, b.size() - 1)]);
      }
      if (kind >= 2) e.reset(new SlowEmitter(std::move(e), g.Chance(0.3) ? g.Int(0, 3000) : 0));
      ems.push_back(std::move(e));
    }
  }
  if (g.Chance(0.25)) {
    const int names = g.Int(1, 3);
    for (auto& e : ems) { std::string n = Fmt("trader %d", static_cast<int>(g.Int(1, names))); e.reset(new NamedEmitter(std::move(e), n)); }
    ctx.Ev("batches_with_equal_names");
  }
  std::vector<std::string> want;
  for (auto& e : ems) want.push_back(EvaluateTrader(acc, ec, hist, si.get(), *e, nullptr).SerializeAsString());
  auto check = [&](const std::vector<EvaluationResult>& got, const char* how) {
    if (got.size() != want.size()) { ctx.Fail("E06", "count", Fmt("%s batch of %zu traders returned %zu results", how, want.size(), got.size())); return; }
    for (size_t i = 0; i < got.size(); ++i)
      if (got[i].SerializeAsString() != want[i]) {
        EvaluationResult w;
        w.ParseFromString(want[i]);
        const bool moved = got[i].name() != w.name();
        ctx.Fail("E06", moved ? "order" : "result", Fmt("%s batch of %zu traders: result %zu is {%s}, evaluating trader %s alone gives {%s}", how, want.size(), i, got[i].ShortDebugString().substr(0, 900).c_str(), w.name().c_str(), w.ShortDebugString().substr(0, 900).c_str()));
        return;
      }
  };
  check(EvaluateBatchOfTraders(acc, ec, hist, si.get(), ems), "first");
  check(EvaluateBatchOfTraders(acc, ec, hist, si.get(), ems), "repeated");
  ctx.Ev("batches", 2);
  ctx.Ev("traders_evaluated_in_parallel", 2 * ems.size());
  if (g.Chance(0.6)) {
    const int nt = many ? 2 : g.Int(2, 5);
    std::vector<std::vector<EvaluationResult>> out(nt);
    std::vector<std::thread> th;
    for (int i = 0; i < nt; ++i) th.emplace_back([&, i]() { out[i] = EvaluateBatchOfTraders(acc, ec, hist, si.get(), ems); });
    for (auto& t : th) t.join();
    for (auto& o : out) check(o, "concurrent");
    ctx.Ev("concurrent_batches", nt);
    ctx.Ev("traders_evaluated_in_parallel", nt * ems.size());
  }
  uint64_t hh = kind;
  for (auto& s : want) hh = Comb(hh, HashStr(s));
  if (ems.size() > 1) {
    ctx.Distinct(hh);
    if (ctx.WantSample()) ctx.Sample(Fmt("%zu traders over %zu ticks, period %d months, %zu side records", ems.size(), hist.size(), ec.evaluation_period_months(), side.size()));
  }
  ctx.Max("max_batch_size", ems.size());
}
}  // namespace

int main(int argc, char** argv) { return vf::Main(argc, argv, {{"E06", Case}}); }

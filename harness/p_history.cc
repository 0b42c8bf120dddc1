// H01-H04: resampling, outlier removal, gap / context reports, time windows.
#include "base/history.h"
#include "common.h"

using namespace trader;
using namespace vf;

namespace {
PriceRecord Rec(int64_t t, float p, float v) {
  PriceRecord r;
  r.set_timestamp_sec(t); r.set_price(p); r.set_volume(v);
  return r;
}

std::string Show(const PriceHistory& h, size_t a, size_t b) {
  std::string s;
  for (size_t i = a; i < std::min(b, h.size()); ++i) s += Fmt("%zu:(%" PRId64 ", %.9g, %.9g) ", i, static_cast<int64_t>(h[i].timestamp_sec()), h[i].price(), h[i].volume());
  return s;
}

int64_t RandomStart(Rng& g) { return g.Pick<int64_t>({1, 1000, 1483228800, 1483228799, 4294967295LL - 50, 9000000000LL}) + g.Int(0, 5000); }

// Random walk with spikes; time steps from 0 s up to hours.
// Decades to tens of thousands of years.
int64_t Leap(Rng& g) { return g.Pick<int64_t>({1LL << 24, 1LL << 31, 1LL << 32, 1LL << 36, 1LL << 40}) + g.Int(-1000, 1000); }

PriceHistory RandomPrices(Rng& g, int n, double bad, double spike, int64_t step, bool dyadic_volume, double leap = 0) {
  PriceHistory h;
  int64_t t = RandomStart(g);
  double p = g.LogU(0.01, 50000);
  double spiked = 1;
  int left = 0;
  for (int i = 0; i < n; ++i) {
    t += g.Chance(0.2) ? 0 : g.Chance(0.1) ? g.Int(0, 20 * step) : g.Int(0, step);
    if (leap > 0 && g.Chance(leap)) t += Leap(g);
    p *= std::exp(g.Dbl(-0.01, 0.01));
    if (left > 0) --left; else spiked = 1;
    if (left == 0 && g.Chance(spike)) { left = g.Int(1, 14); spiked = g.Chance(0.5) ? g.Dbl(1.01, 1.3) : g.LogU(0.2, 5); if (g.Chance(0.4)) spiked = 1 / spiked; }
    float price = p * spiked * (left > 0 && g.Chance(0.3) ? g.Dbl(0.9, 1.1) : 1);
    float vol = dyadic_volume ? g.Int(0, 64) / 8.0f : static_cast<float>(g.Volume(1e-4, 100));
    if (g.Chance(bad)) { const int k = g.Int(0, 3); if (k == 0) price = 0; else if (k == 1) price = -price; else if (k == 2) vol = -vol - 0.125f; else vol = 0; }
    h.push_back(Rec(t, price, vol));
  }
  return h;
}

// ------------------------------------------------------------------- H01
void CaseH01(Ctx& ctx, Rng& g) {
  const bool dy = g.Chance(0.6);
  const int rate = g.Chance(0.05) ? g.Pick({604800, 2592000, 86400 * 365, 2147483647}) : g.Pick({1, 7, 60, 300, 3600, 86400});
  const bool big = g.Chance(0.001);
  const int n = big ? g.Int(2000, 70000) : g.Chance(0.05) ? 0 : g.Chance(0.1) ? 1 : g.Int(2, 300);
  PriceHistory h = RandomPrices(g, n, 0, 0.02, big ? rate / 3 + 1 : g.Pick<int64_t>({1, 5, rate / 3 + 1, rate, 3 * static_cast<int64_t>(rate)}), dy);
  if (g.Chance(0.3))  // put records exactly on interval borders
    for (size_t i = 0; i < h.size(); ++i) {
      int64_t t = h[i].timestamp_sec();
      t -= t % rate;
      if (g.Chance(0.5) && (i == 0 || t >= h[i - 1].timestamp_sec())) h[i].set_timestamp_sec(t);
    }
  if (g.Chance(0.0005) && h.size() > 1) {  // Gaps of very many intervals.
    const size_t at = g.Int(1, h.size() - 1);
    const int64_t by = g.Int(1000, g.Pick({20000, 70000, 300000})) * static_cast<int64_t>(rate);
    for (size_t i = at; i < h.size(); ++i) h[i].set_timestamp_sec(h[i].timestamp_sec() + by);
    ctx.Ev("very_long_gaps");
  }
  const OhlcHistory r = Resample(h.begin(), h.end(), rate);
  auto bad = [&](const char* key, const std::string& m) { ctx.Fail("H01", key, m + Fmt(" [rate %d, %zu records: ", rate, h.size()) + Show(h, 0, 12) + "]"); };
  ctx.Ev("records", h.size());
  ctx.Ev("ticks", r.size());
  if (h.empty()) { if (!r.empty()) bad("empty", "ticks from an empty history"); return; }
  const int64_t first = h.front().timestamp_sec() / rate * rate, last = h.back().timestamp_sec() / rate * rate;
  if (static_cast<int64_t>(r.size()) != (last - first) / rate + 1) { bad("count", Fmt("%zu ticks, expected %" PRId64, r.size(), (last - first) / rate + 1)); return; }
  size_t k = 0;
  float prev = 0;
  double vol_in = 0, vol_out = 0;
  for (auto& x : h) vol_in += x.volume();
  int holes = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    const OhlcTick& t = r[i];
    const int64_t ts = first + static_cast<int64_t>(i) * rate;
    if (t.timestamp_sec() != ts) { bad("timestamp", Fmt("tick %zu has time %" PRId64 ", expected %" PRId64, i, static_cast<int64_t>(t.timestamp_sec()), ts)); return; }
    OhlcTick w;
    double v = 0;
    const size_t k0 = k;
    while (k < h.size() && h[k].timestamp_sec() < ts + rate) {
      const float p = h[k].price();
      if (k == k0) { w.set_open(p); w.set_high(p); w.set_low(p); }
      w.set_high(std::max(w.high(), p)); w.set_low(std::min(w.low(), p)); w.set_close(p);
      v += h[k].volume();
      ++k;
    }
    if (k == k0) { w.set_open(prev); w.set_high(prev); w.set_low(prev); w.set_close(prev); ++holes; }
    if (t.open() != w.open() || t.high() != w.high() || t.low() != w.low() || t.close() != w.close())
      bad(k == k0 ? "gap-tick" : "ohlc", Fmt("tick %zu {%s}, expected open %.9g high %.9g low %.9g close %.9g", i, t.ShortDebugString().c_str(), w.open(), w.high(), w.low(), w.close()));
    if (dy || k == k0 ? t.volume() != v : !Near(t.volume(), v, 1e-7 * (2 + k - k0)))
      bad(k == k0 ? "gap-volume" : "volume", Fmt("tick %zu {%s}, expected volume %.9g from %zu records", i, t.ShortDebugString().c_str(), v, k - k0));
    if (!(t.low() <= t.open() && t.low() <= t.close() && t.open() <= t.high() && t.close() <= t.high())) bad("order", Fmt("tick %zu {%s} is inconsistent", i, t.ShortDebugString().c_str()));
    if (!t.has_open() || !t.has_high() || !t.has_low() || !t.has_close() || !t.has_volume()) bad("fields", Fmt("tick %zu {%s} lacks fields", i, t.ShortDebugString().c_str()));
    vol_out += t.volume();
    prev = t.close();
  }
  if (!Near(vol_in, vol_out, dy ? 0 : 1e-5)) bad("conservation", Fmt("total volume %.9g became %.9g", vol_in, vol_out));
  ctx.Ev("gap_ticks", holes);
  if (h.size() > 1) {
    ctx.Distinct(Comb(Comb(rate, h.size()), Comb(r.size(), holes)));
    if (ctx.WantSample()) ctx.Sample(Fmt("rate %d: %zu records -> %zu ticks (%d gap ticks)", rate, h.size(), r.size(), holes));
  }
}

// ------------------------------------------------------------------- H02
void CaseH02(Ctx& ctx, Rng& g) {
  const int n = g.Chance(0.002) ? g.Int(2000, g.Pick({5000, 70000})) : g.Chance(0.05) ? g.Int(0, 2) : g.Int(3, 200);
  PriceHistory h = RandomPrices(g, n, g.Pick({0.0, 0.05, 0.3}), g.Pick({0.02, 0.1, 0.3}), g.Pick<int64_t>({1, 30, 60, 120, 600}), false, g.Chance(0.03) ? 0.05 : 0);
  const float dev = g.Pick({0.0f, 0.005f, 0.05f, 0.1f, 0.5f, 1.0f});
  // Boundary workload: prices placed around the band edge / persistence threshold.
  if (g.Chance(0.4) && h.size() > 15) {
    for (size_t rep = 0; rep < 4 + h.size() / 100; ++rep) {
      const size_t i = g.Int(1, h.size() - 12);
      const double ref = h[i - 1].price();
      if (ref <= 0) continue;
      const double mins = std::max<double>(1, (h[i].timestamp_sec() - h[i - 1].timestamp_sec()) / 60.0);
      const double f = (1 + dev) * std::sqrt(mins);
      const bool up = g.Chance(0.5);
      const double edge = up ? ref * f : ref / f;
      h[i].set_price(edge * (up ? 1.0001 : 0.9999) * g.Pick({1.0, 1.0, 0.999, 1.001, 1.05}));
      h[i].set_volume(1);
      const double mid = 0.8 * edge + 0.2 * ref;
      const int far = g.Int(1, 5);
      int placed = 0;
      for (size_t j = i + 1; j < std::min(h.size(), i + 12); ++j) {
        const bool f2 = placed < far && g.Chance(0.5);
        placed += f2;
        h[j].set_price(mid * (f2 == up ? 1.002 : 0.998));
        h[j].set_volume(g.Chance(0.1) ? -1 : 1);
      }
    }
  }
  std::vector<size_t> out;
  if (g.Chance(0.2)) out.push_back(777777);  // an optional output is appended to
  const size_t pre = out.size();
  const PriceHistory clean = RemoveOutliers(h.begin(), h.end(), dev, &out);
  const PriceHistory clean2 = RemoveOutliers(h.begin(), h.end(), dev, nullptr);
  auto bad = [&](const char* key, const std::string& m, size_t i) { ctx.Fail("H02", key, m + Fmt(" [deviation %.9g, %zu records, around: ", dev, h.size()) + Show(h, i > 3 ? i - 3 : 0, i + 13) + "]"); };
  std::vector<size_t> idx(out.begin() + pre, out.end());
  ctx.Ev("records", h.size());
  ctx.Ev("outliers", idx.size());
  bool same = clean.size() == clean2.size();
  for (size_t i = 0; same && i < clean.size(); ++i) same = clean[i].SerializeAsString() == clean2[i].SerializeAsString();
  if (!same) bad("positions-change-result", Fmt("asking for the positions changes the result (%zu vs %zu records)", clean.size(), clean2.size()), 0);
  std::vector<bool> removed(h.size(), false);
  for (size_t i = 0; i < idx.size(); ++i) {
    if (idx[i] >= h.size() || (i && idx[i] <= idx[i - 1])) { bad("positions", Fmt("reported positions are not ascending positions of the input (%zu)", idx[i]), 0); return; }
    removed[idx[i]] = true;
  }
  size_t c = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    if (removed[i]) continue;
    if (c >= clean.size() || clean[c].SerializeAsString() != h[i].SerializeAsString()) { bad("content", Fmt("cleaned history is not the input without the reported positions (record %zu)", i), i); return; }
    ++c;
  }
  if (c != clean.size()) { bad("content", Fmt("cleaned history has %zu records, %zu were not reported as removed", clean.size(), c), 0); return; }
  // Decision of every record, following the observed decisions.
  bool have = false;
  double ref = 0;
  int64_t ref_t = 0;
  int borderline = 0, persistent = 0, transient_ = 0;
  constexpr double e = 3e-6;
  auto valid = [](const PriceRecord& r) { return r.price() > 0 && r.volume() >= 0; };
  for (size_t i = 0; i < h.size(); ++i) {
    const PriceRecord& r = h[i];
    if (!valid(r)) { if (!removed[i]) bad("invalid-kept", Fmt("record %zu with invalid price or volume was kept", i), i); if (!removed[i]) return; continue; }
    if (!have) { if (removed[i]) { bad("first-removed", Fmt("first valid record %zu was removed", i), i); return; } }
    else {
      const double mins = std::max(1.0, (r.timestamp_sec() - ref_t) / 60.0);
      const double f = (1.0 + dev) * std::sqrt(mins), up = ref * f, down = ref / f, p = r.price();
      const int ju = p > up * (1 + e) ? 1 : p < up * (1 - e) ? 0 : -1;
      const int jd = p < down * (1 - e) ? 1 : p > down * (1 + e) ? 0 : -1;
      int lo = 0, hi = 0, seen = 0;
      auto count = [&](bool u) {
        lo = hi = seen = 0;
        const double mid = 0.8 * (u ? up : down) + 0.2 * ref;
        for (size_t j = i + 1; j < h.size() && seen < 10; ++j) {
          if (!valid(h[j])) continue;
          ++seen;
          const double q = h[j].price();
          const bool sure = u ? q > mid * (1 + e) : q < mid * (1 - e), maybe = u ? q > mid * (1 - e) : q < mid * (1 + e);
          lo += sure; hi += maybe;
        }
      };
      int verdict;  // 1 outlier, 0 keep, -1 either
      if (ju == 0 && jd == 0) verdict = 0;
      else if (ju == 1 || jd == 1) {
        count(ju == 1);
        verdict = hi < 3 ? 1 : lo >= 3 ? 0 : -1;
        if (verdict == 1) ++transient_; else if (verdict == 0) ++persistent;
      } else verdict = -1;
      if (verdict < 0) ++borderline;
      if (verdict >= 0 && removed[i] != (verdict == 1)) {
        bad(verdict ? "outlier-kept" : "genuine-removed", Fmt("record %zu (price %.9g, %.3f min after the last kept %.9g, band %.9g..%.9g, %d of the next %d beyond) was %s", i, p, mins, ref, down, up, lo, seen, removed[i] ? "removed" : "kept"), i);
        return;
      }
    }
    if (!removed[i]) { have = true; ref = r.price(); ref_t = r.timestamp_sec(); }
  }
  ctx.Ev("jumps_persistent", persistent);
  ctx.Ev("jumps_transient", transient_);
  ctx.Ev("borderline_decisions", borderline);
  if (persistent + transient_ > 0) {
    uint64_t hh = Comb(h.size(), HashStr(Fmt("%g", dev)));
    for (size_t i : idx) hh = Comb(hh, i);
    ctx.Distinct(hh);
    if (ctx.WantSample()) ctx.Sample(Fmt("%zu records, deviation %g: %zu removed (%d transient jumps, %d persistent)", h.size(), dev, idx.size(), transient_, persistent));
  }
}

// ------------------------------------------------------------------- H03
void CaseH03(Ctx& ctx, Rng& g) {
  if (g.Chance(0.5)) {
    const int n = g.Chance(0.0005) ? g.Int(1000, 50000) : g.Chance(0.05) ? 0 : g.Int(1, 60);
    PriceHistory h;
    int64_t t = RandomStart(g);
    const int mode = g.Int(0, 2);
    const bool far = g.Chance(0.1);
    for (int i = 0; i < n; ++i) { h.push_back(Rec(t, 1, 1)); t += mode == 0 ? g.Int(0, 4) : mode == 1 ? g.Int(0, 100000) : g.Int(1, 3) * 60; if (far && g.Chance(0.1)) t += Leap(g); }
    const int64_t s = g.Chance(0.5) || h.empty() ? 0 : std::max<int64_t>(1, h.front().timestamp_sec() - g.Int(0, 5) * g.Pick<int64_t>({1, 60, 20000, far ? 1LL << 32 : 7}));
    const int64_t e = g.Chance(0.5) || h.empty() ? 0 : h.back().timestamp_sec() + g.Int(0, 5) * g.Pick<int64_t>({1, 60, 20000, far ? 1LL << 32 : 7});
    if (far) ctx.Ev("gap_reports_over_centuries");
    const size_t top = g.Pick<size_t>({0, 1, 2, 3, 5, 10, 100, size_t{1} << 32, SIZE_MAX});
    const auto got = GetPriceHistoryGaps(h.begin(), h.end(), s, e, top);
    std::vector<HistoryGap> all;
    if (!h.empty()) {
      if (s > 0) all.push_back({s, h.front().timestamp_sec()});
      for (size_t i = 1; i < h.size(); ++i) all.push_back({h[i - 1].timestamp_sec(), h[i].timestamp_sec()});
      if (e > 0) all.push_back({h.back().timestamp_sec(), e});
    }
    std::stable_sort(all.begin(), all.end(), [](const HistoryGap& a, const HistoryGap& b) { return a.second - a.first != b.second - b.first ? a.second - a.first > b.second - b.first : a.first < b.first; });
    if (all.size() > top) all.resize(top);
    std::sort(all.begin(), all.end());
    ctx.Ev("gap_reports");
    ctx.Ev("gaps_reported", got.size());
    if (got != all) {
      std::string a, b;
      for (auto& x : got) a += Fmt("(%" PRId64 ",%" PRId64 ") ", x.first, x.second);
      for (auto& x : all) b += Fmt("(%" PRId64 ",%" PRId64 ") ", x.first, x.second);
      ctx.Fail("H03", "gaps", "top " + std::to_string(top) + " gaps of " + std::to_string(h.size()) + " records: got " + a.substr(0, 900) + " expected " + b.substr(0, 900) + "; history " + Show(h, 0, 12));
    }
    if (!all.empty()) {
      ctx.Distinct(Comb(Comb(h.size(), top), Comb(s > 0, Comb(e > 0, mode))));
      if (ctx.WantSample()) ctx.Sample(Fmt("top %zu of %zu records, start %" PRId64 " end %" PRId64 ": %zu gaps", top, h.size(), s, e, got.size()));
    }
    return;
  }
  const bool big = g.Chance(0.0005);
  const size_t size = big ? g.Int(2000, 20000) : g.Int(1, 80);
  std::set<size_t> o;
  for (int i = g.Int(0, big ? 300 : 12); i > 0; --i) o.insert(g.Chance(0.2) ? g.Pick<size_t>({0, size - 1}) : g.Int(0, size - 1));
  std::vector<size_t> idx(o.begin(), o.end());
  const size_t l = g.Pick<size_t>({0, 1, 3, 10, 100, 65536, size_t{1} << 33, SIZE_MAX}), r = g.Pick<size_t>({0, 1, 3, 10, 100, size, size_t{1} << 33, SIZE_MAX - size, SIZE_MAX}),
               last = g.Pick<size_t>({0, 1, 2, 5, 100, SIZE_MAX});
  const auto got = GetOutlierIndicesWithContext(idx, size, l, r, last);
  std::map<size_t, bool> want;
  const size_t from = last == 0 || idx.size() <= last ? 0 : idx.size() - last;
  for (size_t k = 0; k < size; ++k)
    for (size_t i = from; i < idx.size(); ++i)
      if (k < idx[i] ? idx[i] - k <= l : k - idx[i] <= r) want[k] = want[k] || k == idx[i];
  ctx.Ev("context_reports");
  if (got != want) {
    std::string a, b;
    for (auto& x : got) a += Fmt("%zu%s ", x.first, x.second ? "*" : "");
    for (auto& x : want) b += Fmt("%zu%s ", x.first, x.second ? "*" : "");
    std::string in;
    for (size_t x : idx) in += Fmt("%zu ", x);
    ctx.Fail("H03", "context", Fmt("outliers %sof %zu records, context %zu/%zu, last %zu: got ", in.c_str(), size, l, r, last) + a.substr(0, 900) + " expected " + b.substr(0, 900));
  }
  if (!want.empty()) ctx.Distinct(Comb(Comb(l, r), Comb(last, Comb(size, idx.size()))));
}

// ------------------------------------------------------------------- H04
template <typename T>
void Windows(Ctx& ctx, Rng& g, const char* what, const std::vector<T>& h) {
  for (int rep = 0; rep < 6; ++rep) {
    auto bound = [&]() -> int64_t {
      if (h.empty() || g.Chance(0.15)) return g.Pick<int64_t>({0, -1, 1, INT64_MIN, INT64_MAX, 1483228800, -1483228800});
      const int64_t t = h[g.Int(0, h.size() - 1)].timestamp_sec();
      return t + g.Pick<int64_t>({0, 0, 0, 1, -1, 100000, -100000});
    };
    const int64_t a = bound(), b = bound();
    std::vector<T> want;
    for (auto& x : h) if ((a <= 0 || x.timestamp_sec() >= a) && (b <= 0 || x.timestamp_sec() < b)) want.push_back(x);
    const auto view = HistorySubset(h, a, b);
    const std::string where = Fmt(" [%s of %zu records %" PRId64 "..%" PRId64 ", window %" PRId64 "..%" PRId64 ", expected %zu records]", what, h.size(), h.empty() ? 0 : static_cast<int64_t>(h.front().timestamp_sec()),
                                  h.empty() ? 0 : static_cast<int64_t>(h.back().timestamp_sec()), a, b, want.size());
    ctx.Ev("windows");
    const auto len = view.second - view.first;
    if (len != static_cast<std::ptrdiff_t>(want.size()) || view.first < h.begin() || view.second > h.end()) {
      ctx.Fail("H04", "view", Fmt("view holds %td records", len) + where);
      continue;
    }
    size_t i = 0;
    bool same = true;
    for (auto it = view.first; it != view.second; ++it, ++i) same = same && it->SerializeAsString() == want[i].SerializeAsString();
    if (!same) ctx.Fail("H04", "view-content", "view holds other records" + where);
    const std::vector<T> copy = HistorySubsetCopy(h, a, b);
    same = copy.size() == want.size();
    for (i = 0; same && i < copy.size(); ++i) same = copy[i].SerializeAsString() == want[i].SerializeAsString();
    if (!same) ctx.Fail("H04", "copy", Fmt("copy holds %zu records or other content", copy.size()) + where);
    if (!h.empty()) ctx.Distinct(Comb(Comb(h.size(), want.size()), Comb((a > 0) * 2 + (b > 0), HashStr(what))));
    if (a > 0 && b > 0 && a > b) ctx.Ev("inverted_windows");
    if (want.empty()) ctx.Ev("empty_selections");
    if (want.size() > 1 && ctx.WantSample()) ctx.Sample(where);
  }
}

void CaseH04(Ctx& ctx, Rng& g) {
  const int n = g.Chance(0.001) ? g.Int(2000, 20000) : g.Chance(0.1) ? g.Int(0, 1) : g.Int(2, 120);
  const int k = g.Int(0, 2);
  int64_t t = RandomStart(g);
  const int64_t step = g.Pick<int64_t>({1, 2, 300});
  const double leap = g.Chance(0.1) ? 0.1 : 0;
  auto far = [&]() { if (leap > 0 && g.Chance(leap)) t += Leap(g); };
  const double twice = g.Chance(0.3) ? 0.1 : 0;  // Equal records in a row.
  auto repeat = [&](auto& h) { while (twice > 0 && g.Chance(twice)) h.push_back(h.back()); };
  if (k == 0) {
    PriceHistory h;
    for (int i = 0; i < n; ++i) { h.push_back(Rec(t, g.Dbl(1, 2), g.Dbl(0, 1))); repeat(h); t += g.Int(0, 2) * step; far(); }
    Windows(ctx, g, "prices", h);
  } else if (k == 1) {
    OhlcHistory h;
    for (int i = 0; i < n; ++i) { OhlcTick x; x.set_timestamp_sec(t); x.set_close(g.Dbl(1, 2)); h.push_back(x); repeat(h); t += g.Int(1, 2) * step; far(); }
    Windows(ctx, g, "ticks", h);
  } else {
    SideHistory h;
    for (int i = 0; i < n; ++i) { SideInputRecord x; x.set_timestamp_sec(t); x.add_signal(g.Dbl(1, 2)); h.push_back(x); repeat(h); t += g.Int(1, 5) * step; far(); }
    Windows(ctx, g, "side inputs", h);
  }
}

void CaseAll(Ctx& ctx, Rng& g) {
  switch (g.Int(0, 3)) {
    case 0: return CaseH01(ctx, g);
    case 1: return CaseH02(ctx, g);
    case 2: return CaseH03(ctx, g);
    default: return CaseH04(ctx, g);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"H01", CaseH01}, {"H02", CaseH02}, {"H03", CaseH03}, {"H04", CaseH04}, {"all", CaseAll}});
}

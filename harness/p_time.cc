// Monitor for date-time parsing, printing and month arithmetic (U03), judged
// by an independent proleptic Gregorian calendar.
#include "absl/time/time.h"
#include "common.h"
#include "util/time.h"

using namespace vf;      // NOLINT
using namespace trader;  // NOLINT

namespace {

int64_t Days(int64_t y, int m, int d) {  // Days since 1970-01-01.
  int64_t n = 0;
  // Counted in whole 400-year cycles, then year by year.
  const int64_t cyc = (y - 1970) / 400 - ((y - 1970) % 400 < 0);
  n += cyc * 146097;
  const int64_t base = 1970 + cyc * 400;
  auto leap = [](int64_t q) { return (q % 4 == 0 && q % 100 != 0) || q % 400 == 0; };
  for (int64_t q = base; q < y; ++q) n += leap(q) ? 366 : 365;
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  for (int k = 1; k < m; ++k) n += len[k - 1] + (k == 2 && leap(y));
  return n + d - 1;
}
int MonthLen(int64_t y, int m) { return static_cast<int>(m == 12 ? 31 : Days(y, m + 1, 1) - Days(y, m, 1)); }

struct Civil { int64_t y; int m, d, H, M, S; };
int64_t Unix(const Civil& c) { return Days(c.y, c.m, c.d) * 86400 + c.H * 3600 + c.M * 60 + c.S; }

Civil RandomCivil(Rng& g) {
  Civil c;
  c.y = g.Chance(0.5) ? g.Int(2009, 2030) : g.Chance(0.3) ? g.Pick<int64_t>({1, 4, 100, 400, 1600, 1900, 1969, 1970, 1999, 2000, 2038, 2100, 9998, 9999}) : g.Int(1, 9999);
  c.m = g.Chance(0.3) ? g.Pick({1, 2, 12}) : g.Int(1, 12);
  const int len = MonthLen(c.y, c.m);
  c.d = g.Chance(0.3) ? g.Pick({1, 28, len}) : g.Int(1, len);
  if (g.Chance(0.2)) { c.H = c.M = c.S = 0; }
  else if (g.Chance(0.2)) { c.H = 23; c.M = c.S = 59; }
  else { c.H = g.Int(0, 23); c.M = g.Int(0, 59); c.S = g.Int(0, 59); }
  return c;
}

std::string Text(const Civil& c) {
  return Fmt("%04d-%02d-%02d %02d:%02d:%02d", static_cast<int>(c.y), c.m, c.d, c.H, c.M, c.S);
}

void CaseU03(Ctx& c, Rng& g) {
  const Civil v = RandomCivil(g);
  const int64_t t = Unix(v);
  // Parsing of every documented form.
  const std::string date = Fmt("%04d-%02d-%02d", static_cast<int>(v.y), v.m, v.d), tod = Fmt("%02d:%02d:%02d", v.H, v.M, v.S);
  const int off = g.Chance(0.2) ? 0 : g.Chance(0.3) ? g.Pick({60, -60, 330, -570, 765, 840, -720, 1439, -1439}) : g.Int(-1439, 1439);
  const std::string zone = Fmt("%c%02d:%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60);
  const int64_t midnight = Days(v.y, v.m, v.d) * 86400;
  struct Form { std::string text; int64_t want; };
  const std::vector<Form> forms = {{date, midnight}, {date + " " + zone, midnight - off * 60}, {date + " " + tod, t},
                                   {date + " " + tod + " " + zone, t - off * 60}, {date + "T" + tod + zone, t - off * 60}};
  for (auto& f : forms) {
    auto r = ParseTime(f.text);
    if (!r.ok()) { c.Fail("U03", "rejected", "\"" + f.text + "\" is rejected: " + r.status().ToString()); return; }
    if (*r != absl::FromUnixSeconds(f.want)) { c.Fail("U03", "parsed", Fmt("\"%s\" is parsed as %" PRId64 ", expected %" PRId64, f.text.c_str(), absl::ToUnixSeconds(*r), f.want)); return; }
    c.Ev("parsed_forms");
  }
  c.Distinct(Comb(t, off));
  // Printing and parsing back.
  const std::string p = FormatTimeUTC(absl::FromUnixSeconds(t));
  int py, pm, pd, pH, pM, pS, used = 0;
  if (sscanf(p.c_str(), "%d-%2d-%2d %2d:%2d:%2d%n", &py, &pm, &pd, &pH, &pM, &pS, &used) != 6 || used != static_cast<int>(p.size()) || py != v.y || pm != v.m || pd != v.d || pH != v.H || pM != v.M || pS != v.S ||
      (v.y >= 1000 && p != Text(v))) {
    c.Fail("U03", "printed", Fmt("%" PRId64 " is printed as \"%s\", expected \"%s\"", t, p.c_str(), Text(v).c_str()));
    return;
  }
  auto back = ParseTime(p);
  if (!back.ok() || *back != absl::FromUnixSeconds(t)) { c.Fail("U03", "print-parse", "printed text \"" + p + "\" is not parsed back to the same instant"); return; }
  // Within the second that follows, the same text is printed.
  const int64_t sub = g.Chance(0.3) ? g.Pick<int64_t>({1, 499999999, 500000000, 999999999}) : g.Int(1, 999999999);
  const std::string ps = FormatTimeUTC(absl::FromUnixSeconds(t) + absl::Nanoseconds(sub));
  if (ps != p) { c.Fail("U03", "printed-fraction", Fmt("%" PRId64 " and %" PRId64 " ns is printed as \"%s\", expected \"%s\"", t, sub, ps.c_str(), p.c_str())); return; }
  c.Ev("printed_instants");
  // Malformed texts.
  std::string bad;
  switch (g.Int(0, 17)) {
    case 0: bad = Fmt("%04d-%02d-%02d", static_cast<int>(v.y), g.Pick({0, 13, 99}), v.d); break;
    case 1: bad = Fmt("%04d-%02d-%02d", static_cast<int>(v.y), v.m, g.Pick({0, 32, 99})); break;
    case 2: bad = Fmt("%04d-%02d-%02d", static_cast<int>(v.y), g.Pick({4, 6, 9, 11}), 31); break;
    case 3: bad = Fmt("%04d-02-%02d", static_cast<int>(v.y), MonthLen(v.y, 2) + 1); break;
    case 4: bad = date + Fmt(" %02d:%02d:%02d", g.Pick({24, 25, 99}), v.M, v.S); break;
    case 5: bad = date + Fmt(" %02d:%02d:%02d", v.H, g.Pick({60, 61, 99}), v.S); break;
    case 6: bad = date + Fmt(" %02d:%02d:%02d", v.H, v.M, g.Pick({61, 75, 99})); break;
    case 7: bad = g.Pick<std::string>({"", " ", "now", "Hello World!", "-", "0", "1483228800", "2017", "2017-01", "today"}); break;
    case 8: bad = date + g.Pick<std::string>({"x", " x", " 1", "-", " UTC", " +", "--01"}); break;
    case 9: bad = date + Fmt(" %02d:%02d", v.H, v.M); break;
    case 10: bad = tod; break;
    case 11: bad = Fmt("%04d/%02d/%02d", static_cast<int>(v.y), v.m, v.d); break;
    case 12: bad = date + " " + tod + g.Pick<std::string>({"x", " PM", " UTC", ".5x", " +25:00", " +01:60", ",0"}); break;
    case 13: bad = date + " " + tod + " " + zone + zone; break;
    case 14: bad = date + "T" + tod; break;
    case 15: bad = "x" + date; break;
    case 16: bad = date + " " + date; break;
    default: { bad = forms[g.Int(0, 4)].text; size_t k = g.Int(0, bad.size() - 1); bad[k] = g.Pick({'x', '?', '_', '*', '@'}); }
  }
  auto r = ParseTime(bad);
  if (r.ok()) { c.Fail("U03", "accepted", "\"" + bad + "\" is accepted as " + FormatTimeUTC(*r)); return; }
  if (!bad.empty() && bad != " " && r.status().message().find(bad) == absl::string_view::npos) { c.Fail("U03", "error-text", "the error for \"" + bad + "\" does not name it: " + r.status().ToString()); return; }
  c.Ev("malformed_texts");
  // Months.
  auto expect = [&](const Civil& a, int months, bool* exists) {
    Civil b = a;
    int64_t k = a.y * 12 + (a.m - 1) + months;
    b.y = k / 12 - (k % 12 < 0);
    b.m = static_cast<int>(k - b.y * 12) + 1;
    *exists = a.d <= MonthLen(b.y, b.m);
    return b;
  };
  const int n1 = g.Chance(0.5) ? g.Int(-36, 36) : g.Chance(0.7) ? g.Int(-6000, 6000) : g.Int(-120000, 120000), n2 = g.Int(-100, 100);
  bool ex = false;
  const Civil w = expect(v, n1, &ex);
  if (ex) {
    const int64_t want = Unix(w);
    const int64_t got = AddMonthsToTimestampSec(t, n1);
    const absl::Time gt = AddMonthsToTime(absl::FromUnixSeconds(t), n1);
    if (got != want || gt != absl::FromUnixSeconds(want)) {
      c.Fail("U03", "months", Fmt("%s plus %d months is %" PRId64 " (%" PRId64 " as a time), expected %" PRId64, Text(v).c_str(), n1, got, absl::ToUnixSeconds(gt), want));
      return;
    }
    c.Ev("month_shifts");
  }
  Civil s = v;
  s.d = g.Int(1, 28);
  const int64_t ts = Unix(s);
  if (AddMonthsToTimestampSec(AddMonthsToTimestampSec(ts, n1), n2) != AddMonthsToTimestampSec(ts, n1 + n2)) {
    c.Fail("U03", "months-additive", Fmt("%s: adding %d then %d months differs from adding %d", Text(s).c_str(), n1, n2, n1 + n2));
    return;
  }
  if (c.WantSample()) c.Sample(Fmt("\"%s\" = %" PRId64 ", plus %d months = %s; \"%s\" rejected", forms[4].text.c_str(), forms[4].want, n1, FormatTimeUTC(absl::FromUnixSeconds(AddMonthsToTimestampSec(t, n1))).c_str(), bad.c_str()));
}

}  // namespace

int main(int argc, char** argv) { return vf::Main(argc, argv, {{"U03", CaseU03}, {"all", CaseU03}}); }

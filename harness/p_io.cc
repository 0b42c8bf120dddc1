// Monitors for record files: lossless round trip (U01), damage and write
// faults (U02). File bytes are judged by an independent zlib decoder.
#include <google/protobuf/message.h>
#include <google/protobuf/unknown_field_set.h>
#include <signal.h>
#include <sys/resource.h>
#include <zlib.h>

#include <list>
#include <sstream>
#include <streambuf>

#include "base/base.h"
#include "eval/eval.h"
#include "common.h"
#include "util/proto.h"

using namespace vf;      // NOLINT
using namespace trader;  // NOLINT

namespace {

// ------------------------------------------------------- independent codec

enum class End { kEnded, kError, kUnterminated };

// Inflates gzip/zlib members back to back.
End Inflate(const std::string& in, std::string& out, bool* gzip = nullptr) {
  out.clear();
  size_t pos = 0;
  End end = End::kUnterminated;
  if (gzip) *gzip = in.size() >= 2 && static_cast<unsigned char>(in[0]) == 0x1f && static_cast<unsigned char>(in[1]) == 0x8b;
  while (pos < in.size()) {
    z_stream z;
    memset(&z, 0, sizeof z);
    if (inflateInit2(&z, 15 + 32) != Z_OK) abort();
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data() + pos));
    z.avail_in = in.size() - pos;
    int rc;
    char buf[65536];
    do {
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof buf;
      rc = inflate(&z, Z_NO_FLUSH);
      out.append(buf, sizeof buf - z.avail_out);
    } while (rc == Z_OK || (rc == Z_BUF_ERROR && z.avail_out == 0));
    pos = in.size() - z.avail_in;
    inflateEnd(&z);
    if (rc == Z_STREAM_END) { end = End::kEnded; continue; }
    return rc == Z_BUF_ERROR ? End::kUnterminated : End::kError;
  }
  return end;
}

// Splits length-delimited records; false if the data ends within one.
bool Split(const std::string& in, std::vector<std::string>& out) {
  out.clear();
  size_t p = 0;
  while (p < in.size()) {
    uint64_t n = 0;
    int shift = 0;
    for (;;) {
      if (p >= in.size() || shift > 28) return false;
      const unsigned char b = in[p++];
      n |= static_cast<uint64_t>(b & 127) << shift;
      shift += 7;
      if (!(b & 128)) break;
    }
    if (n > in.size() - p) return false;
    out.push_back(in.substr(p, n));
    p += n;
  }
  return true;
}

std::string Deflate(Rng& g, const std::string& in, int level, bool flushes) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (deflateInit2(&z, level, Z_DEFLATED, 15 + 16, g.Int(1, 9), g.Pick({Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE})) != Z_OK) abort();
  std::string out;
  char buf[65536];
  size_t p = 0;
  for (;;) {
    const size_t n = flushes ? std::min<size_t>(in.size() - p, g.Int(1, 5000)) : in.size() - p;
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data() + p));
    z.avail_in = n;
    p += n;
    const int fl = p == in.size() ? Z_FINISH : Z_FULL_FLUSH;
    int rc;
    do {
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof buf;
      rc = deflate(&z, fl);
      out.append(buf, sizeof buf - z.avail_out);
    } while (z.avail_out == 0);
    if (rc == Z_STREAM_END) break;
  }
  deflateEnd(&z);
  return out;
}

std::string Slurp(const std::string& f) {
  std::string r;
  FILE* h = fopen(f.c_str(), "rb");
  if (!h) return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n);
  fclose(h);
  return r;
}
void Spill(const std::string& f, const std::string& s) {
  FILE* h = fopen(f.c_str(), "wb");
  if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) { fprintf(stderr, "scratch write failed\n"); exit(2); }
  fclose(h);
}

// ------------------------------------------------------------ random records

double RandomFloat(Rng& g) {
  switch (g.Int(0, 7)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return g.Pick({1e-44, 3.4e38, -3.4e38, 1e-38});
    case 3: return g.Pick({double(INFINITY), double(-INFINITY), double(NAN)});
    default: return g.Chance(0.5) ? g.Int(-1000, 1000) : g.LogU(1e-6, 1e6);
  }
}

// Fills any message through reflection: every field unset, default or random.
void Fill(Rng& g, google::protobuf::Message* m, int depth, int max_repeat) {
  const auto* d = m->GetDescriptor();
  const auto* r = m->GetReflection();
  using F = google::protobuf::FieldDescriptor;
  for (int i = 0; i < d->field_count(); ++i) {
    const F* f = d->field(i);
    if (f->is_repeated()) {
      for (int k = g.Chance(0.3) ? 0 : g.Int(0, f->cpp_type() == F::CPPTYPE_MESSAGE ? std::min(max_repeat, 12) : max_repeat); k > 0; --k) {
        switch (f->cpp_type()) {
          case F::CPPTYPE_FLOAT: r->AddFloat(m, f, RandomFloat(g)); break;
          case F::CPPTYPE_INT64: r->AddInt64(m, f, g.U64()); break;
          case F::CPPTYPE_MESSAGE: if (depth < 3) Fill(g, r->AddMessage(m, f), depth + 1, 3); break;
          default: break;
        }
      }
      continue;
    }
    if (g.Chance(0.15)) continue;  // Unset.
    switch (f->cpp_type()) {
      case F::CPPTYPE_FLOAT: r->SetFloat(m, f, RandomFloat(g)); break;
      case F::CPPTYPE_DOUBLE: r->SetDouble(m, f, RandomFloat(g)); break;
      case F::CPPTYPE_INT64: r->SetInt64(m, f, g.Chance(0.3) ? static_cast<int64_t>(g.U64()) : g.Chance(0.2) ? 0 : g.Int(1, 4000000000LL)); break;
      case F::CPPTYPE_INT32: r->SetInt32(m, f, g.Chance(0.2) ? 0 : static_cast<int32_t>(g.U64())); break;
      case F::CPPTYPE_BOOL: r->SetBool(m, f, g.Chance(0.5)); break;
      case F::CPPTYPE_STRING: { std::string s; for (int k = g.Int(0, 30); k > 0; --k) s += static_cast<char>(g.Int(32, 126)); r->SetString(m, f, s); break; }
      case F::CPPTYPE_ENUM: r->SetEnumValue(m, f, f->enum_type()->value(g.Int(0, f->enum_type()->value_count() - 1))->number()); break;
      case F::CPPTYPE_MESSAGE: if (depth < 3) Fill(g, r->MutableMessage(m, f), depth + 1, 3); break;
      default: break;
    }
  }
}

template <typename T>
std::vector<T> RandomRecords(Rng& g, int n, bool big) {
  std::vector<T> v;
  const double empty = g.Pick({0.0, 0.1, 1.0});
  const bool same = g.Chance(0.15);
  for (int i = 0; i < n; ++i) {
    if (same && i > 0) { v.push_back(v[0]); continue; }
    v.emplace_back();
    if (g.Chance(empty)) continue;
    Fill(g, &v.back(), 0, n <= 6 && big && g.Chance(0.5) ? 40000 : n < 1000 && g.Chance(0.1) ? 300 : 5);
  }
  return v;
}

template <typename M>
std::vector<std::string> Bytes(const std::vector<M>& v) {
  std::vector<std::string> r;
  for (auto& m : v) r.push_back(m.SerializeAsString());
  return r;
}
std::string Varint(uint64_t n) {
  std::string s;
  while (n >= 128) { s += static_cast<char>(n | 128); n >>= 7; }
  return s + static_cast<char>(n);
}
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += Varint(x.size()) + x;
  return s;
}
// Field presence and values, independent of the encoded order of fields.
template <typename T>
bool SameRecord(const T& a, const T& b) { return a.SerializeAsString() == b.SerializeAsString() && a.ByteSizeLong() == b.ByteSizeLong(); }

std::string FirstDiff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return Fmt("%zu records instead of %zu, first difference at record %zu", a.size(), b.size(), i);
}

// A stream buffer that hands out few bytes at a time and can fail.
class SlowBuf : public std::streambuf {
 public:
  SlowBuf(const std::string& s, Rng g, int max, int64_t fail_at) : s_(s), g_(g), max_(max), fail_(fail_at) {}

 protected:
  int_type underflow() override {
    if (fail_ >= 0 && pos_ >= fail_) throw std::runtime_error("read error");
    if (pos_ >= static_cast<int64_t>(s_.size())) return traits_type::eof();
    int64_t n = std::min<int64_t>(g_.Int(1, max_), s_.size() - pos_);
    if (fail_ >= 0) n = std::min<int64_t>(n, fail_ - pos_);
    char* p = const_cast<char*>(s_.data()) + pos_;
    setg(p, p, p + n);
    pos_ += n;
    return traits_type::to_int_type(*p);
  }

 private:
  std::string s_;
  Rng g_;
  int max_;
  int64_t fail_, pos_ = 0;
};

// A stream buffer that accepts only so many bytes.
class FullBuf : public std::streambuf {
 public:
  explicit FullBuf(int64_t room) : room_(room) {}
  std::string data;

 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    const std::streamsize k = std::min<std::streamsize>(n, room_);
    data.append(p, k);
    room_ -= k;
    return k;
  }
  int_type overflow(int_type c) override {
    if (room_ <= 0) return traits_type::eof();
    --room_;
    data += static_cast<char>(c);
    return c;
  }

 private:
  int64_t room_;
};

// ------------------------------------------------------------------- U01

template <typename T>
void RoundTrip(Ctx& c, Rng& g, const char* type) {
  const bool big = g.Chance(0.03);
  const int n = g.Chance(0.05) ? 0 : g.Chance(0.02) ? g.Int(3000, c.thorough ? 40000 : 9000) : big ? g.Int(1, 6) : g.Int(1, g.Pick({1, 5, 60, 300}));
  std::vector<T> in = RandomRecords<T>(g, n, big);
  const auto want = Bytes(in);
  const std::string file = c.tmpdir + "/u01.dpb";
  std::string raw[2];
  const std::string at = Fmt("%s x %d", type, n);
  for (int compress = 0; compress < 2; ++compress) {
    const std::string how = at + (compress ? ", compressed" : ", not compressed");
    unlink(file.c_str());
    // Sometimes over an older, often longer file.
    if (g.Chance(0.3)) { std::string old(g.Int(0, 1 << g.Int(0, 17)), 'x'); for (auto& ch : old) ch = static_cast<char>(g.Int(0, 255)); Spill(file, old); c.Ev("overwritten_files"); }
    absl::Status s;
    if (g.Chance(0.2)) {
      std::list<T> l(in.begin(), in.end());
      s = WriteDelimitedMessagesToFile(l.begin(), l.end(), file, compress);
    } else {
      s = WriteDelimitedMessagesToFile(in.begin(), in.end(), file, compress);
    }
    if (!s.ok()) { c.Fail("U01", "write", how + ": writing failed: " + std::string(s.message())); return; }
    const std::string bytes = Slurp(file);
    raw[compress] = bytes;
    std::string body;
    std::vector<std::string> recs;
    bool gz = false;
    const End e = Inflate(bytes, body, &gz);
    if (e != End::kEnded || !gz) { c.Fail("U01", "not-gzip", how + Fmt(": the %zu bytes written are not a complete gzip file", bytes.size())); return; }
    if (!Split(body, recs)) { c.Fail("U01", "framing", how + ": content is not a sequence of length-delimited records"); return; }
    // Records must carry the same fields and values (any field order).
    std::vector<std::string> norm;
    for (auto& r : recs) { T m; if (!m.ParseFromString(r) || !m.GetReflection()->GetUnknownFields(m).empty()) { c.Fail("U01", "record", how + ": undecodable record"); return; } norm.push_back(m.SerializeAsString()); }
    if (norm != want) { c.Fail("U01", "written-content", how + ": file contains " + FirstDiff(norm, want)); return; }
    std::vector<T> out;
    s = ReadDelimitedMessagesFromFile<T>(file, out);
    if (!s.ok() || Bytes(out) != want) { c.Fail("U01", "read-list", how + ": " + (s.ok() ? "read back " + FirstDiff(Bytes(out), want) : "reading failed: " + std::string(s.message()))); return; }
    // Streams.
    std::ostringstream os;
    s = WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, compress);
    if (!s.ok()) { c.Fail("U01", "write-stream", how + ": writing failed"); return; }
    out.clear();
    SlowBuf slow(os.str(), g, os.str().size() > 200000 ? 100000 : g.Pick({1, 7, 100000}), -1);
    std::istream is(&slow);
    s = ReadDelimitedMessagesFromIStream(is, out);
    if (!s.ok() || Bytes(out) != want) { c.Fail("U01", "read-stream", how + ": stream read back " + FirstDiff(Bytes(out), want)); return; }
    c.Ev("round_trips");
    c.Ev("records", 2 * n);
    // Callback that stops or fails at some record.
    const int stop = g.Int(0, n + 1);
    const bool fail = g.Chance(0.5);
    const std::string text = g.Chance(0.2) ? "" : Fmt("reader error %d", stop);
    std::vector<std::string> seen;
    s = ReadDelimitedMessagesFromFile<T>(file, std::function<ReaderStatus(const T&)>([&](const T& m) -> ReaderStatus {
      seen.push_back(m.SerializeAsString());
      if (static_cast<int>(seen.size()) > stop) {
        if (fail) return absl::OutOfRangeError(text);
        return ReaderSignal::kBreak;
      }
      return ReaderSignal::kContinue;
    }));
    const size_t expect = std::min(n, stop + 1);
    const bool stopped = stop < n;
    if (seen.size() != expect || !std::equal(seen.begin(), seen.end(), want.begin())) { c.Fail("U01", "callback-records", how + Fmt(": reader that %s at record %d saw ", fail ? "fails" : "stops", stop) + FirstDiff(seen, want)); return; }
    if (fail && stopped ? s.ok() || s.message().find(text) == absl::string_view::npos : !s.ok()) { c.Fail("U01", "callback-status", how + Fmt(": status of a reader that %s at record %d of %d: ", fail ? "fails" : "stops", stop, n) + s.ToString()); return; }
    c.Ev(fail && stopped ? "failed_readers" : stopped ? "stopped_readers" : "completed_readers");
  }
  if (n >= 100 && std::set<std::string>(want.begin(), want.end()).size() == 1 && raw[1].size() > raw[0].size()) {
    c.Fail("U01", "compression", at + Fmt(" equal records: compressed file has %zu bytes, uncompressed %zu", raw[1].size(), raw[0].size()));
    return;
  }
  // Files of another gzip writer.
  {
    Spill(file, Deflate(g, Join(want), g.Int(0, 9), g.Chance(0.5)));
    std::vector<T> out;
    const absl::Status s = ReadDelimitedMessagesFromFile<T>(file, out);
    if (!s.ok() || Bytes(out) != want) { c.Fail("U01", "foreign-file", at + ": file of another gzip writer read back as " + (s.ok() ? FirstDiff(Bytes(out), want) : std::string(s.message()))); return; }
    c.Ev("foreign_files");
  }
  c.Distinct(Comb(HashStr(type), HashStr(Join(want).substr(0, 4000)) + n));
  if (c.WantSample()) c.Sample(at + Fmt(": %zu bytes of records, files of %zu and %zu bytes; first record {%s}", Join(want).size(), raw[0].size(), raw[1].size(), n ? in[0].ShortDebugString().substr(0, 200).c_str() : ""));
  unlink(file.c_str());
}

// A file of more than 64 MB, whose records are compared one by one.
void LargeFile(Ctx& c, Rng& g) {
  const std::string file = c.tmpdir + "/u01l.dpb";
  std::vector<SideInputRecord> in(1);
  in[0].set_timestamp_sec(1);
  for (int k = 0; k < 250000; ++k) in[0].add_signal(k % 1000);
  const int n = g.Int(70, 80);
  for (int i = 1; i < n; ++i) { in.push_back(in[0]); in.back().set_timestamp_sec(1 + i); }
  const bool compress = g.Chance(0.5);
  absl::Status s = WriteDelimitedMessagesToFile(in.begin(), in.end(), file, compress);
  int64_t seen = 0;
  bool same = true;
  if (s.ok()) s = ReadDelimitedMessagesFromFile<SideInputRecord>(file, std::function<ReaderStatus(const SideInputRecord&)>([&](const SideInputRecord& m) -> ReaderStatus {
    same = same && m.timestamp_sec() == 1 + seen && m.signal_size() == 250000 && m.signal(999) == 999;
    ++seen;
    return ReaderSignal::kContinue;
  }));
  unlink(file.c_str());
  if (!s.ok() || !same || seen != n) c.Fail("U01", "large-file", Fmt("%d records of 1 MB, compress %d: %" PRId64 " records read back, %s: ", n, compress, seen, same ? "same" : "different") + s.ToString());
  c.Ev("files_over_64_mb");
}

// A file of more than 65536 records.
void LongFile(Ctx& c, Rng& g) {
  const std::string file = c.tmpdir + "/u01n.dpb";
  const int n = g.Int(66000, c.thorough ? 1200000 : 300000);
  PriceHistory in(n), out;
  for (int i = 0; i < n; ++i) { in[i].set_timestamp_sec(1000 + i); in[i].set_price(1 + g.Int(0, 999) / 8.0f); if (i % 3) in[i].set_volume(i % 1000); }
  const bool compress = g.Chance(0.5);
  absl::Status s = WriteDelimitedMessagesToFile(in.begin(), in.end(), file, compress);
  if (s.ok()) s = ReadDelimitedMessagesFromFile<PriceRecord>(file, out);
  unlink(file.c_str());
  int bad = 0;
  while (bad < n && bad < static_cast<int>(out.size()) && in[bad].SerializeAsString() == out[bad].SerializeAsString()) ++bad;
  if (!s.ok() || static_cast<int>(out.size()) != n || bad < n) c.Fail("U01", "long-file", Fmt("%d records, compress %d: %zu records read back, first difference at %d: ", n, compress, out.size(), bad) + s.ToString());
  c.Ev("files_over_65536_records");
}

void CaseU01(Ctx& c, Rng& g) {
  if (c.evaluations == 0 && c.label == "U01") { Rng own(c.seed); LargeFile(c, own); }
  if ((c.evaluations == 1 || g.Chance(2e-5)) && c.label == "U01") { Rng own(c.seed ^ 77); LongFile(c, own); LongFile(c, own); }
  switch (g.Int(0, 5)) {
    case 0: RoundTrip<PriceRecord>(c, g, "PriceRecord"); break;
    case 1: RoundTrip<OhlcTick>(c, g, "OhlcTick"); break;
    case 2: RoundTrip<SideInputRecord>(c, g, "SideInputRecord"); break;
    case 3: RoundTrip<AccountConfig>(c, g, "AccountConfig"); break;
    case 4: RoundTrip<Order>(c, g, "Order"); break;
    default: RoundTrip<EvaluationResult>(c, g, "EvaluationResult"); break;
  }
}

// ------------------------------------------------------------------- U02

template <typename T>
std::string Read(const std::string& bytes, bool via_file, const std::string& file, Rng& g, std::vector<std::string>& got) {
  std::vector<T> out;
  absl::Status s;
  if (via_file) {
    Spill(file, bytes);
    s = ReadDelimitedMessagesFromFile<T>(file, out);
  } else {
    SlowBuf slow(bytes, g, g.Pick({1, 50, 100000}), -1);
    std::istream is(&slow);
    s = ReadDelimitedMessagesFromIStream(is, out);
  }
  got = Bytes(out);
  return s.ok() ? "" : s.ToString();
}

template <typename T>
void Damage(Ctx& c, Rng& g, const char* type, bool exhaustive) {
  const bool big = g.Chance(0.05);
  const bool many = !exhaustive && g.Chance(0.004);
  const int n = exhaustive ? g.Int(1, 3) : many ? g.Int(2000, 40000) : g.Int(1, g.Pick({3, 20, 200}));
  if (many) c.Ev("damaged_files_of_thousands_of_records");
  std::vector<T> in;
  if (std::is_same<T, OhlcTick>::value || g.Chance(0.5)) { in = RandomRecords<T>(g, n, big && !exhaustive && !many); }
  else { in = RandomRecords<T>(g, n, false); }
  if (exhaustive) for (auto& m : in) if (m.ByteSizeLong() > 60) { m.Clear(); }
  const auto want = Bytes(in);
  const bool compress = g.Chance(0.5);
  std::ostringstream os;
  if (!WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, compress).ok()) return;
  const std::string good = os.str();
  const std::string file = c.tmpdir + "/u02.dpb";
  auto judge = [&](const std::string& bytes, const std::string& what) {
    std::vector<std::string> got;
    const std::string err = Read<T>(bytes, g.Chance(0.1), file, g, got);
    c.Ev("damaged_files");
    if (!err.empty()) {
      c.Ev("reported_errors");
      // Records delivered before the error are a prefix of what was decodable; nothing is promised about them.
      return true;
    }
    if (got == want) { c.Ev("harmless_damage"); return true; }
    if (bytes.empty() && got.empty()) { c.Ev("empty_inputs"); return true; }  // an empty file is a valid empty sequence
    std::string body;
    const End e = Inflate(bytes, body);
    const char* key = e == End::kUnterminated ? "unterminated-stream" : e == End::kError ? "corruption-unreported" : "accepted-different-stream";
    c.Fail("U02", key, Fmt("%s x %d, %s (%zu bytes), %s: status OK with ", type, n, compress ? "compressed" : "not compressed", good.size(), what.c_str()) + FirstDiff(got, want) + Fmt(" [zlib end %d]", int(e)));
    return false;
  };
  if (exhaustive) {
    for (size_t k = 0; k < good.size(); ++k) if (!judge(good.substr(0, k), Fmt("truncated to %zu bytes", k))) return;
    for (size_t k = 0; k < good.size() * 8; ++k) {
      std::string b = good;
      b[k / 8] ^= 1 << (k % 8);
      if (!judge(b, Fmt("bit %zu flipped", k))) return;
    }
    c.Ev("exhaustively_damaged_files");
    c.Distinct(Comb(HashStr(good), 1));
    return;
  }
  for (int i = 0; i < (many ? 5 : 40); ++i) {
    std::string b = good;
    std::string what;
    const size_t p = g.Int(0, b.size() - 1);
    switch (g.Int(0, 9)) {
      case 0: b.resize(p); what = Fmt("truncated to %zu bytes", p); break;
      case 1: b[p] ^= 1 << g.Int(0, 7); what = Fmt("a bit of byte %zu flipped", p); break;
      case 2: b[p] = static_cast<char>(g.U64()); what = Fmt("byte %zu overwritten", p); break;
      case 3: b.erase(p, g.Int(1, 20)); what = Fmt("bytes removed at %zu", p); break;
      case 4: { std::string x; for (int k = g.Int(1, 20); k > 0; --k) x += static_cast<char>(g.U64()); b.insert(p, x); what = Fmt("bytes inserted at %zu", p); break; }
      case 5: for (size_t k = p; k < b.size() && k < p + 64; ++k) b[k] = 0; what = Fmt("bytes from %zu zeroed", p); break;
      case 6: { const size_t q = g.Int(0, b.size() - 1); b = b.substr(0, p) + b.substr(q); what = Fmt("bytes spliced at %zu from %zu", p, q); break; }
      case 7: for (int k = g.Int(1, 30); k > 0; --k) b += static_cast<char>(g.U64()); what = "bytes appended"; break;
      case 8: for (int k = g.Int(2, 6); k > 0; --k) b[g.Int(0, b.size() - 1)] ^= 1 << g.Int(0, 7); what = "several bits flipped"; break;
      default: { const size_t q = g.Int(0, b.size() - 1); std::swap(b[p], b[q]); what = Fmt("bytes %zu and %zu exchanged", p, q); }
    }
    if (b == good) continue;
    if (!judge(b, what)) return;
  }
  c.Distinct(Comb(HashStr(good), 2));
}

// A valid stream whose records are not what was promised: truncated inside a
// record (framing damage), oversized length, undecodable record.
template <typename T>
void FramingDamage(Ctx& c, Rng& g, const char* type) {
  auto want = Bytes(RandomRecords<T>(g, g.Chance(0.02) ? g.Int(2000, 40000) : g.Int(1, 20), false));
  std::string body = Join(want);
  std::string what;
  switch (g.Int(0, 3)) {
    case 0: {
      size_t cut = 0, at = g.Int(0, want.size() - 1);
      for (size_t i = 0; i < at; ++i) cut += Varint(want[i].size()).size() + want[i].size();
      const size_t len = Varint(want[at].size()).size() + want[at].size();
      if (len < 2) return;
      body = body.substr(0, cut + g.Int(1, len - 1));
      what = Fmt("content cut inside record %zu", at);
      break;
    }
    case 1: body += Varint(g.Pick<uint64_t>({1000, 100000, 0x7fffffff})) + "abc"; what = "last record longer than the content"; break;
    case 2: body += std::string(g.Int(1, 12), '\xff'); what = "overlong record length"; break;
    default: body += Varint(3) + std::string("\x0a\xff\xff"); what = "undecodable last record"; break;  // LEN field beyond the record
  }
  std::vector<std::string> got;
  const std::string err = Read<T>(Deflate(g, body, g.Int(0, 9), g.Chance(0.5)), g.Chance(0.2), c.tmpdir + "/u02.dpb", g, got);
  c.Ev("framing_damage");
  if (err.empty()) c.Fail("U02", "framing-unreported", Fmt("%s x %zu, %s: status OK with %zu records", type, want.size(), what.c_str(), got.size()));
  c.Distinct(HashStr(body));
}

void Garbage(Ctx& c, Rng& g) {
  std::string b;
  const int kind = g.Int(0, 3);
  for (int k = g.Int(0, g.Pick({20, 3000, 200000})); k > 0; --k) b += static_cast<char>(kind == 0 ? g.U64() : kind == 1 ? g.Int(0, 3) : g.Int(32, 126));
  if (kind == 3) b = "1483228800,100,1\n" + b;
  const bool wrap = g.Chance(0.3);
  std::string in = wrap ? Deflate(g, b, g.Int(0, 9), g.Chance(0.3)) : (g.Chance(0.5) ? std::string("\x1f\x8b\x08\x00", 4) : "") + b;
  std::vector<std::string> got;
  const std::string err = Read<OhlcTick>(in, g.Chance(0.3), c.tmpdir + "/u02.dpb", g, got);
  std::vector<std::string> got2;
  const std::string err2 = Read<SideInputRecord>(in, false, "", g, got2);
  c.Ev("garbage_inputs");
  if (!wrap && !in.empty() && err.empty()) {
    std::string body;
    if (Inflate(in, body) != End::kEnded) c.Fail("U02", "garbage-accepted", Fmt("%zu bytes of garbage (kind %d) read as %zu records without an error", in.size(), kind, got.size()));
  }
  c.Distinct(HashStr(in));
}

template <typename T>
void WriteFaults(Ctx& c, Rng& g, const char* type) {
  const bool large = g.Chance(0.3);
  std::vector<T> in = RandomRecords<T>(g, large ? g.Int(500, 6000) : g.Int(1, 60), false);
  const auto want = Bytes(in);
  const bool compress = g.Chance(0.5);
  std::ostringstream os;
  if (!WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, compress).ok()) { c.Fail("U02", "write", "writing to memory failed"); return; }
  const int64_t size = os.str().size();
  const std::string file = c.tmpdir + "/u02w.dpb";
  const std::string at = Fmt("%s x %zu, %s, %" PRId64 " bytes", type, in.size(), compress ? "compressed" : "not compressed", size);
  // Stream with limited room.
  for (int i = 0; i < 4; ++i) {
    const int64_t room = g.Chance(0.2) ? size : g.Chance(0.2) ? size - 1 : g.Int(0, size);
    FullBuf fb(room);
    std::ostream o(&fb);
    const absl::Status s = WriteDelimitedMessagesToOStream(in.begin(), in.end(), o, compress);
    const bool reported = !s.ok() || !o.good();
    if (room < size && !reported) { c.Fail("U02", "stream-write-unreported", at + Fmt(", stream with room for %" PRId64 " bytes: no error", room)); return; }
    if (room >= size && reported) { c.Fail("U02", "stream-write-error", at + ": error although everything was written"); return; }
    c.Ev(room < size ? "failing_stream_writes" : "fitting_stream_writes");
  }
  // File size limit.
  signal(SIGXFSZ, SIG_IGN);
  rlimit old;
  getrlimit(RLIMIT_FSIZE, &old);
  for (int i = 0; i < 2; ++i) {
    const int64_t room = g.Chance(0.2) ? size : g.Chance(0.3) ? size - 1 : g.Int(0, size);
    rlimit lim = old;
    lim.rlim_cur = room;
    unlink(file.c_str());
    setrlimit(RLIMIT_FSIZE, &lim);
    const absl::Status s = WriteDelimitedMessagesToFile(in.begin(), in.end(), file, compress);
    setrlimit(RLIMIT_FSIZE, &old);
    if (room < size && s.ok()) { c.Fail("U02", "file-write-unreported", at + Fmt(", file size limit %" PRId64 ": status OK", room)); return; }
    if (room >= size && !s.ok()) { c.Fail("U02", "file-write-error", at + ": error although everything was written: " + std::string(s.message())); return; }
    c.Ev(room < size ? "failing_file_writes" : "fitting_file_writes");
  }
  unlink(file.c_str());
  if (access("/dev/full", W_OK) == 0) {
    if (WriteDelimitedMessagesToFile(in.begin(), in.end(), "/dev/full", compress).ok()) { c.Fail("U02", "device-full-unreported", at + ": writing to a full device reports no error"); return; }
    c.Ev("full_device_writes");
  }
  for (const std::string& bad : {c.tmpdir + "/missing-directory/x", c.tmpdir, std::string()}) {
    if (WriteDelimitedMessagesToFile(in.begin(), in.end(), bad, compress).ok()) { c.Fail("U02", "unwritable-path", "writing to \"" + bad + "\" reports no error"); return; }
    std::vector<T> out;
    const absl::Status s = ReadDelimitedMessagesFromFile<T>(bad, out);
    if (s.ok()) { c.Fail("U02", "unreadable-path", "reading \"" + bad + Fmt("\" reports no error (%zu records)", out.size())); return; }
    c.Ev("bad_paths", 2);
  }
  // Read errors in the middle of a stream.
  {
    const int64_t k = g.Int(0, size - 1);
    SlowBuf slow(os.str(), g, g.Pick({1, 100, 100000}), k);
    std::istream is(&slow);
    std::vector<T> out;
    const absl::Status s = ReadDelimitedMessagesFromIStream(is, out);
    if (s.ok() && Bytes(out) != want) { c.Fail("U02", "read-error-unreported", at + Fmt(", read error after %" PRId64 " bytes: status OK with ", k) + FirstDiff(Bytes(out), want)); return; }
    c.Ev("read_errors");
  }
  c.Distinct(Comb(HashStr(os.str().substr(0, 5000)), size));
}

// Streams that end exactly between two records but lack their end, in every
// run: every truncation of small files whose blocks are cut between records.
void Directed(Ctx& c) {
  std::vector<OhlcTick> in(3);
  for (int i = 0; i < 3; ++i) in[i].set_timestamp_sec(1483228800 + 300 * i);
  for (int compress = 0; compress < 2; ++compress) {
    std::ostringstream os;
    if (!WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, compress).ok()) return;
    const std::string good = os.str();
    for (size_t k = 1; k < good.size(); ++k) {
      std::istringstream is(good.substr(0, k));
      std::vector<OhlcTick> out;
      const absl::Status s = ReadDelimitedMessagesFromIStream(is, out);
      if (s.ok() && out.size() != in.size()) { c.Fail("U02", "unterminated-stream", Fmt("3 OHLC ticks, file truncated to %zu of %zu bytes: status OK with %zu records", k, good.size(), out.size())); return; }
      c.Ev("directed_truncations");
    }
  }
}

void CaseU02(Ctx& c, Rng& g) {
  if (c.evaluations == 0) Directed(c);
  const double x = g.Dbl();
  const int t = g.Int(0, 2);
#define DISPATCH(fn, ...) do { if (t == 0) fn<PriceRecord>(c, g, "PriceRecord", ##__VA_ARGS__); else if (t == 1) fn<OhlcTick>(c, g, "OhlcTick", ##__VA_ARGS__); else fn<SideInputRecord>(c, g, "SideInputRecord", ##__VA_ARGS__); } while (0)
  if (x < 0.15) DISPATCH(Damage, true);
  else if (x < 0.6) DISPATCH(Damage, false);
  else if (x < 0.7) DISPATCH(FramingDamage);
  else if (x < 0.85) DISPATCH(WriteFaults);
  else Garbage(c, g);
}

void CaseAll(Ctx& c, Rng& g) { if (g.Chance(0.4)) CaseU01(c, g); else CaseU02(c, g); }

}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, {{"U01", CaseU01}, {"U02", CaseU02}, {"all", CaseAll}});
}

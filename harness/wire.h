// An independent reader of protobuf wire bytes and of the collector's report,
// with no use of the protobuf library; and of JSON text.
#pragma once
#include <opentracing/value.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mc.h"
namespace wire {
struct Field { uint32_t num; int type; uint64_t v; std::string s; };
inline std::vector<Field> Read(const std::string& b, const char* what) {
  std::vector<Field> out;
  size_t i = 0;
  auto varint = [&]() -> uint64_t {
    uint64_t r = 0;
    for (int k = 0; k < 10; ++k) {
      MC_CHECK(i < b.size(), "%s: message ends inside a varint", what);
      uint8_t c = (uint8_t)b[i++];
      r |= (uint64_t)(c & 0x7f) << (7 * k);
      if (!(c & 0x80)) return r;
    }
    mc::fail("%s: varint too long", what);
  };
  while (i < b.size()) {
    uint64_t key = varint();
    Field f{(uint32_t)(key >> 3), (int)(key & 7), 0, {}};
    MC_CHECK(f.num != 0, "%s: field number 0", what);
    if (f.type == 0) f.v = varint();
    else if (f.type == 1) {
      MC_CHECK(i + 8 <= b.size(), "%s: message ends inside a fixed64", what);
      memcpy(&f.v, &b[i], 8); i += 8;
    } else if (f.type == 2) {
      uint64_t n = varint();
      MC_CHECK(n <= b.size() - i, "%s: length %llu of field %u exceeds the message", what, (unsigned long long)n, f.num);
      f.s = b.substr(i, n); i += n;
    } else mc::fail("%s: unexpected wire type %d of field %u", what, f.type, f.num);
    out.push_back(f);
  }
  return out;
}
inline void Want(const Field& f, int type, const char* what) {
  MC_CHECK(f.type == type, "%s: field %u has wire type %d, expected %d", what, f.num, f.type, type);
}
struct KV { std::string key; int kind = 0; std::string s; int64_t i = 0; double d = 0; bool b = false; };
inline KV ReadKV(const std::string& b) {
  KV r;
  for (auto& f : Read(b, "KeyValue")) switch (f.num) {
    case 1: Want(f, 2, "KeyValue"); r.key = f.s; break;
    case 2: Want(f, 2, "KeyValue"); r.kind = 2; r.s = f.s; break;
    case 3: Want(f, 0, "KeyValue"); r.kind = 3; r.i = (int64_t)f.v; break;
    case 4: Want(f, 1, "KeyValue"); r.kind = 4; memcpy(&r.d, &f.v, 8); break;
    case 5: Want(f, 0, "KeyValue"); r.kind = 5; MC_CHECK(f.v <= 1, "bool value %llu", (unsigned long long)f.v); r.b = f.v; break;
    case 6: Want(f, 2, "KeyValue"); r.kind = 6; r.s = f.s; break;
    default: mc::fail("KeyValue: unknown field %u", f.num);
  }
  return r;
}
struct Time { int64_t s = 0; int64_t n = 0; };
inline Time ReadTime(const std::string& b) {
  Time t;
  for (auto& f : Read(b, "Timestamp")) {
    Want(f, 0, "Timestamp");
    if (f.num == 1) t.s = (int64_t)f.v; else if (f.num == 2) t.n = (int64_t)f.v;
    else mc::fail("Timestamp: unknown field %u", f.num);
  }
  MC_CHECK(t.n >= 0 && t.n < 1000000000, "nanos %lld", (long long)t.n);
  return t;
}
struct Ctx { uint64_t trace = 0, span = 0; std::map<std::string, std::string> baggage; };
inline Ctx ReadCtx(const std::string& b) {
  Ctx c;
  for (auto& f : Read(b, "SpanContext")) switch (f.num) {
    case 1: Want(f, 0, "SpanContext"); c.trace = f.v; break;
    case 2: Want(f, 0, "SpanContext"); c.span = f.v; break;
    case 3: {
      Want(f, 2, "SpanContext");
      std::string k, v;
      for (auto& e : Read(f.s, "baggage")) {
        Want(e, 2, "baggage");
        if (e.num == 1) k = e.s; else if (e.num == 2) v = e.s; else mc::fail("baggage: unknown field %u", e.num);
      }
      MC_CHECK(!c.baggage.count(k), "baggage key %s reported twice", k.c_str());
      c.baggage[k] = v;
      break;
    }
    default: mc::fail("SpanContext: unknown field %u", f.num);
  }
  return c;
}
struct LogRec { Time t; std::vector<KV> fields; };
struct Ref { int kind = 0; Ctx c; };
struct Span { Ctx c; int contexts = 0; std::string name; std::vector<Ref> refs; int starts = 0; Time start; uint64_t micros = 0; std::vector<KV> tags; std::vector<LogRec> logs; };
inline Span ReadSpan(const std::string& b) {
  Span s;
  for (auto& f : Read(b, "Span")) {
    if (f.num == 5) { Want(f, 0, "Span"); s.micros = f.v; continue; }
    Want(f, 2, "Span");
    switch (f.num) {
      case 1: s.c = ReadCtx(f.s); ++s.contexts; break;
      case 2: s.name = f.s; break;
      case 3: {
        Ref r;
        for (auto& e : Read(f.s, "Reference")) {
          if (e.num == 1) { Want(e, 0, "Reference"); r.kind = (int)e.v; }
          else if (e.num == 2) { Want(e, 2, "Reference"); r.c = ReadCtx(e.s); }
          else mc::fail("Reference: unknown field %u", e.num);
        }
        s.refs.push_back(r);
        break;
      }
      case 4: s.start = ReadTime(f.s); ++s.starts; break;
      case 6: s.tags.push_back(ReadKV(f.s)); break;
      case 7: {
        LogRec l;
        for (auto& e : Read(f.s, "Log")) {
          Want(e, 2, "Log");
          if (e.num == 1) l.t = ReadTime(e.s);
          else if (e.num == 2) l.fields.push_back(ReadKV(e.s));
          else mc::fail("Log: unknown field %u", e.num);
        }
        s.logs.push_back(l);
        break;
      }
      default: mc::fail("Span: unknown field %u", f.num);
    }
  }
  MC_CHECK(s.contexts == 1, "span has %d contexts", s.contexts);
  MC_CHECK(s.starts == 1, "span has %d start times", s.starts);
  return s;
}
struct Report { uint64_t reporter_id = 0; std::vector<KV> reporter_tags; int reporters = 0, auths = 0; std::string token; std::vector<Span> spans; std::vector<std::pair<std::string, int64_t>> counts; };
inline Report ReadReport(const std::string& b) {
  Report r;
  for (auto& f : Read(b, "ReportRequest")) {
    Want(f, 2, "ReportRequest");
    switch (f.num) {
      case 1:
        ++r.reporters;
        for (auto& e : Read(f.s, "Reporter")) {
          if (e.num == 1) { Want(e, 0, "Reporter"); r.reporter_id = e.v; }
          else if (e.num == 4) { Want(e, 2, "Reporter"); r.reporter_tags.push_back(ReadKV(e.s)); }
          else mc::fail("Reporter: unknown field %u", e.num);
        }
        break;
      case 2:
        ++r.auths;
        for (auto& e : Read(f.s, "Auth")) {
          Want(e, 2, "Auth");
          MC_CHECK(e.num == 1, "Auth: unknown field %u", e.num);
          r.token = e.s;
        }
        break;
      case 3: r.spans.push_back(ReadSpan(f.s)); break;
      case 6:
        for (auto& e : Read(f.s, "InternalMetrics")) {
          Want(e, 2, "InternalMetrics");
          MC_CHECK(e.num == 4, "InternalMetrics: unexpected field %u", e.num);
          std::pair<std::string, int64_t> c{"", 0};
          for (auto& g : Read(e.s, "MetricsSample")) {
            if (g.num == 1) { Want(g, 2, "MetricsSample"); c.first = g.s; }
            else if (g.num == 2) { Want(g, 0, "MetricsSample"); c.second = (int64_t)g.v; }
            else mc::fail("MetricsSample: unexpected field %u", g.num);
          }
          r.counts.push_back(c);
        }
        break;
      default: mc::fail("ReportRequest: unknown field %u", f.num);
    }
  }
  return r;
}
// ---- JSON ----
struct Json {
  enum { Null, Bool, Num, Str, Arr, Obj } kind = Null;
  bool b = false; std::string num; std::string s; std::vector<Json> a; std::vector<std::pair<std::string, Json>> o;
};
class JsonReader {
 public:
  explicit JsonReader(const std::string& t) : t_(t) {}
  bool Parse(Json& j) { return Value(j, 0) && (Ws(), i_ == t_.size()); }

 private:
  const std::string& t_;
  size_t i_ = 0;
  void Ws() { while (i_ < t_.size() && (t_[i_] == ' ' || t_[i_] == '\t' || t_[i_] == '\n' || t_[i_] == '\r')) ++i_; }
  bool Lit(const char* w) { size_t n = strlen(w); if (t_.compare(i_, n, w)) return false; i_ += n; return true; }
  bool Str(std::string& out) {
    if (i_ >= t_.size() || t_[i_] != '"') return false;
    for (++i_; i_ < t_.size();) {
      unsigned char c = t_[i_++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { out.push_back((char)c); continue; }
      if (i_ >= t_.size()) return false;
      char e = t_[i_++];
      switch (e) {
        case '"': case '\\': case '/': out.push_back(e); break;
        case 'b': out.push_back('\b'); break;
        case 'f': out.push_back('\f'); break;
        case 'n': out.push_back('\n'); break;
        case 'r': out.push_back('\r'); break;
        case 't': out.push_back('\t'); break;
        case 'u': {
          unsigned v = 0;
          for (int k = 0; k < 4; ++k) {
            if (i_ >= t_.size() || !isxdigit((unsigned char)t_[i_])) return false;
            char h = t_[i_++];
            v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          if (v < 0x80) out.push_back((char)v);
          else if (v < 0x800) { out.push_back((char)(0xc0 | v >> 6)); out.push_back((char)(0x80 | (v & 63))); }
          else { out.push_back((char)(0xe0 | v >> 12)); out.push_back((char)(0x80 | ((v >> 6) & 63))); out.push_back((char)(0x80 | (v & 63))); }
          break;
        }
        default: return false;
      }
    }
    return false;
  }
  bool Digits() { size_t s = i_; while (i_ < t_.size() && isdigit((unsigned char)t_[i_])) ++i_; return i_ > s; }
  bool Value(Json& j, int depth) {
    if (depth > 60) return false;
    Ws();
    if (i_ >= t_.size()) return false;
    char c = t_[i_];
    if (c == 'n') { j.kind = Json::Null; return Lit("null"); }
    if (c == 't') { j.kind = Json::Bool; j.b = true; return Lit("true"); }
    if (c == 'f') { j.kind = Json::Bool; j.b = false; return Lit("false"); }
    if (c == '"') { j.kind = Json::Str; return Str(j.s); }
    if (c == '[') {
      j.kind = Json::Arr; ++i_; Ws();
      if (i_ < t_.size() && t_[i_] == ']') { ++i_; return true; }
      for (;;) {
        j.a.emplace_back();
        if (!Value(j.a.back(), depth + 1)) return false;
        Ws();
        if (i_ >= t_.size()) return false;
        if (t_[i_] == ']') { ++i_; return true; }
        if (t_[i_++] != ',') return false;
      }
    }
    if (c == '{') {
      j.kind = Json::Obj; ++i_; Ws();
      if (i_ < t_.size() && t_[i_] == '}') { ++i_; return true; }
      for (;;) {
        j.o.emplace_back();
        Ws();
        if (!Str(j.o.back().first)) return false;
        Ws();
        if (i_ >= t_.size() || t_[i_++] != ':') return false;
        if (!Value(j.o.back().second, depth + 1)) return false;
        Ws();
        if (i_ >= t_.size()) return false;
        if (t_[i_] == '}') { ++i_; return true; }
        if (t_[i_++] != ',') return false;
      }
    }
    size_t st = i_;
    if (t_[i_] == '-') ++i_;
    if (i_ < t_.size() && t_[i_] == '0') ++i_;
    else if (!Digits()) return false;
    if (i_ < t_.size() && t_[i_] == '.') { ++i_; if (!Digits()) return false; }
    if (i_ < t_.size() && (t_[i_] == 'e' || t_[i_] == 'E')) {
      ++i_;
      if (i_ < t_.size() && (t_[i_] == '+' || t_[i_] == '-')) ++i_;
      if (!Digits()) return false;
    }
    j.kind = Json::Num;
    j.num = t_.substr(st, i_ - st);
    return true;
  }
};
struct JsonMatch {
  const Json& j;
  bool operator()(bool x) { return j.kind == Json::Bool && j.b == x; }
  bool operator()(double x) {
    if (std::isnan(x)) return j.kind == Json::Str && j.s == "NaN";
    if (std::isinf(x)) return j.kind == Json::Str && j.s == (x < 0 ? "-Inf" : "+Inf");
    if (j.kind != Json::Num) return false;
    double y = strtod(j.num.c_str(), nullptr);
    return y == x || std::fabs(y - x) <= 1e-5 * std::fabs(x);  // six significant digits
  }
  bool operator()(int64_t x) { return j.kind == Json::Num && j.num == std::to_string(x); }
  bool operator()(uint64_t x) { return j.kind == Json::Num && j.num == std::to_string(x); }
  bool operator()(const std::string& x) { return j.kind == Json::Str && j.s == x; }
  bool operator()(std::nullptr_t) { return j.kind == Json::Null; }
  bool operator()(const char* x) { return j.kind == Json::Str && j.s == x; }
  bool operator()(const opentracing::Values& v) {
    if (j.kind != Json::Arr || j.a.size() != v.size()) return false;
    for (size_t k = 0; k < v.size(); ++k) { JsonMatch m{j.a[k]}; if (!apply_visitor(m, v[k])) return false; }
    return true;
  }
  bool operator()(const opentracing::Dictionary& d) {
    if (j.kind != Json::Obj || j.o.size() != d.size()) return false;
    std::map<std::string, const Json*> o;
    for (auto& e : j.o) if (!o.emplace(e.first, &e.second).second) return false;
    for (auto& e : d) {
      auto it = o.find(e.first);
      if (it == o.end()) return false;
      JsonMatch m{*it->second};
      if (!apply_visitor(m, e.second)) return false;
    }
    return true;
  }
};
// Whether the reported value is the documented rendering of `v`.
struct ValueMatch {
  const KV& k;
  const opentracing::Value& v;
  bool operator()(bool x) { return k.kind == 5 && k.b == x; }
  bool operator()(double x) { return k.kind == 4 && memcmp(&k.d, &x, 8) == 0; }
  bool operator()(int64_t x) { return k.kind == 3 && k.i == x; }
  bool operator()(uint64_t x) { return k.kind == 3 && k.i == (int64_t)x; }
  bool operator()(const std::string& x) { return k.kind == 2 && k.s == x; }
  bool operator()(std::nullptr_t) { return k.kind == 5 && !k.b; }
  bool operator()(const char* x) { return k.kind == 2 && k.s == x; }
  bool Js() { Json j; JsonReader r(k.s); if (k.kind != 6 || !r.Parse(j)) return false; JsonMatch m{j}; return apply_visitor(m, v); }
  bool operator()(const opentracing::Values&) { return Js(); }
  bool operator()(const opentracing::Dictionary&) { return Js(); }
};
inline std::string Show(const KV& k) {
  char b[64];
  switch (k.kind) {
    case 2: return "string \"" + k.s + "\"";
    case 3: return "int " + std::to_string(k.i);
    case 4: snprintf(b, sizeof b, "double %.17g", k.d); return b;
    case 5: return k.b ? "bool true" : "bool false";
    case 6: return "json " + k.s;
    default: return "no value";
  }
}
inline void CheckKV(const KV& k, const std::string& key, const opentracing::Value& v, const char* where) {
  MC_CHECK(k.key == key, "%s: key \"%s\", expected \"%s\"", where, k.key.c_str(), key.c_str());
  ValueMatch m{k, v};
  MC_CHECK(apply_visitor(m, v), "%s: value of kind %d set for \"%s\" is reported as %s", where, v.kind(), key.c_str(), Show(k).c_str());
}
}  // namespace wire

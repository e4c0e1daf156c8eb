// mc: variant=asan
// C18: the status line parser over all small inputs and every way of splitting them.
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "mc.h"
#include "recorder/stream_recorder/status_line_parser.h"
using namespace lightstep;
namespace {
struct Seen {
  bool threw = false, complete = false;
  int code = 0;
  std::string reason;
  bool operator==(const Seen& o) const {
    return threw == o.threw && complete == o.complete && (!complete || (code == o.code && reason == o.reason));
  }
  std::string str() const {
    return threw ? "error" : !complete ? "incomplete" : std::to_string(code) + "/" + reason;
  }
};
// The bytes up to an error or to the end; every piece is an exactly sized heap copy.
void Feed(StatusLineParser& p, const std::string& s, Seen& r, size_t consumed_before, size_t first_cr) {
  std::unique_ptr<char[]> copy{new char[s.size()]};
  memcpy(copy.get(), s.data(), s.size());
  try {
    p.Parse({copy.get(), s.size()});
  } catch (const std::runtime_error&) {
    r.threw = true;
  }
  size_t upto = consumed_before + s.size();
  if (r.threw) {
    MC_CHECK(first_cr < upto, "an error before the line is complete");
    MC_CHECK(!p.completed(), "completed although an error was raised");
    return;
  }
  MC_CHECK(p.completed() == (first_cr < upto), "completed is %d after %zu bytes, the line ends at %zd", p.completed(), upto, (ssize_t)first_cr);
  if (p.completed()) {
    r.complete = true;
    r.code = p.status_code();
    r.reason = std::string{p.reason().data(), p.reason().size()};
  }
}
Seen Whole(StatusLineParser& p, const std::string& s, const std::vector<size_t>& cuts) {
  Seen r;
  size_t cr = s.find('\r');
  size_t last = 0;
  for (size_t k = 0; k <= cuts.size() && !r.threw; ++k) {
    size_t to = k < cuts.size() ? cuts[k] : s.size();
    Feed(p, s.substr(last, to - last), r, last, cr);
    last = to;
  }
  return r;
}
// what the line itself says
void Judge(const std::string& s, const Seen& r) {
  size_t cr = s.find('\r');
  if (cr == std::string::npos) {
    MC_CHECK(!r.threw && !r.complete, "no line end, yet %s", r.str().c_str());
    return;
  }
  std::string line = s.substr(0, cr);
  size_t a = line.find(' '), b = a == std::string::npos ? a : line.find(' ', a + 1);
  if (b == std::string::npos) {
    MC_CHECK(r.threw, "line without both separators accepted as %s", r.str().c_str());
    return;
  }
  MC_CHECK(!r.threw, "line with both separators refused");
  std::string code = line.substr(a + 1, b - a - 1);
  MC_CHECK(r.reason == line.substr(b + 1), "reason is '%s'", r.reason.c_str());
  bool digits = !code.empty() && code.size() <= 9;
  for (char c : code) digits = digits && isdigit((unsigned char)c);
  if (digits) MC_CHECK(r.code == std::stoi(code), "code %s read as %d", code.c_str(), r.code);
}
void AllCuts(const std::string& s, int max_cuts) {
  StatusLineParser fresh;
  Seen want = Whole(fresh, s, {});
  Judge(s, want);
  StatusLineParser reused;
  auto compare = [&](const std::vector<size_t>& cuts) {
    StatusLineParser p;
    Seen got = Whole(p, s, cuts);
    MC_CHECK(got == want, "%s when split into %zu, %s when whole", got.str().c_str(), cuts.size() + 1, want.str().c_str());
    // a parser used before and reset
    reused.Reset();
    MC_CHECK(!reused.completed(), "completed after a reset");
    got = Whole(reused, s, cuts);
    MC_CHECK(got == want, "%s with a reset parser, %s with a new one", got.str().c_str(), want.str().c_str());
    if (want.complete) {
      p.Parse(" 999 x\r\n");
      MC_CHECK(p.status_code() == want.code && p.reason() == want.reason, "bytes after the line changed the result");
    }
    mc::evaluated();
  };
  size_t n = s.size();
  for (size_t i = 0; i <= n; ++i) {
    compare({i});
    if (max_cuts >= 2)
      for (size_t j = i; j <= n; ++j) {
        compare({i, j});
        if (max_cuts >= 3)
          for (size_t k = j; k <= n; ++k) compare({i, j, k});
      }
  }
  std::vector<size_t> every;
  for (size_t i = 1; i < n; ++i) every.push_back(i);
  compare(every);
  mc::state(mc::hash(s));
  mc::outcome(want.str());
}
}  // namespace
MC_SCENARIO(small_lines, 0, 0) {
  static const char alphabet[] = {' ', '\r', '2', 'H', '\n', '\0'};
  int max = mc::thorough() ? 8 : 6;
  std::string s;
  for (int i = 0; i < max; ++i) {
    int c = mc::choose(i < 3 ? 7 : mc::thorough() ? 7 : 5, "char");
    if (c == 0) break;
    s += alphabet[c - 1];
  }
  mc::log("%zu bytes", s.size());
  AllCuts(s, mc::thorough() ? 3 : 2);
}
MC_SCENARIO(real_lines, 0, 0) {
  static const char* versions[] = {"HTTP/1.1", "HTTP/1.0", "HTTP/2", "", "X"};
  static const char* codes[] = {"200", "100", "404", "500", "503", "000", "999", "007", "1", "20000", "999999999", "", "abc", "2x0", "-5"};
  static const char* reasons[] = {"OK", "", "Internal Server Error", "a  b", " ", "\t", "Service Unavailable, and a reason long enough to leave the small string buffer"};
  static const char* ends[] = {"\r\n", "\r", "\r\nHeader: x y\r\n\r\n", "\n\r\n", ""};
  std::string s = versions[mc::choose(5, "version")];
  int sep = mc::choose(4, "sep");
  std::string code = codes[mc::choose(15, "code")], reason = reasons[mc::choose(7, "reason")];
  if (sep == 0) s += " " + code + " " + reason;
  else if (sep == 1) s += " " + code;
  else if (sep == 2) s += "  " + code + " " + reason;
  else s += "\t" + code + "\t" + reason;
  s += ends[mc::choose(5, "end")];
  mc::log("%s", s.c_str());
  AllCuts(s, s.size() < 40 && mc::thorough() ? 3 : 2);
}
// several responses through one parser, with resets wherever they are asked for
MC_SCENARIO(histories, 0, 0) {
  StatusLineParser p;
  std::string fed;
  bool done = false;
  Seen want;
  int depth = mc::thorough() ? 7 : 5;
  for (int i = 0; i < depth; ++i) {
    static const char* pieces[] = {"HTTP/1.1 ", "200 OK", " 500 ", "\r\n", "x", "a b c\rmore", ""};
    int c = mc::choose(8, "op");
    if (c == 7) {
      p.Reset();
      fed.clear();
      done = false;
      MC_CHECK(!p.completed(), "completed after a reset");
      continue;
    }
    std::string piece = pieces[c];
    if (done) {
      p.Parse({piece.data(), piece.size()});
      MC_CHECK(p.completed() && p.status_code() == want.code && std::string(p.reason()) == want.reason, "bytes after the line changed the result");
      continue;
    }
    Seen r;
    std::string all = fed + piece;
    Feed(p, piece, r, fed.size(), all.find('\r'));
    Judge(all, r);
    if (r.threw) fed.clear();  // documented nowhere, but the parser has been reset: it must behave as new
    else fed = all;
    if (r.complete) { done = true; want = r; }
    mc::state(mc::mix(mc::hash(fed), p.completed()));
  }
}

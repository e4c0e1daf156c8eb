// mc: variant=asan
// C32: every message against every level, level changes and a failing sink.
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "common/logger.h"
#include "mc.h"
using namespace lightstep;
namespace {
const LogLevel kLevels[] = {LogLevel::debug, LogLevel::info, LogLevel::warn, LogLevel::error, LogLevel::off};
struct Message {
  LogLevel level;
  std::string text;
};
// Logs through one of the logger's entry points and returns the text it must have.
std::string Emit(Logger& l, int how, LogLevel level, const std::string& t) {
  switch (how) {
    case 0: l.Log(level, opentracing::string_view{t}); return t;
    case 1: l.log(level, t.c_str()); return t.c_str();
    case 2: l.Log(level, t, 42, " ", -1.5, 'c'); return t + "42 -1.5c";
    case 3: l.Log(level, "x=", 18446744073709551615ull, ", ", t, "."); return "x=18446744073709551615, " + t + ".";
    default:
      switch (level) {
        case LogLevel::debug: l.Debug(t, "!", 7); break;
        case LogLevel::info: l.Info(t, "!", 7); break;
        case LogLevel::warn: l.Warn(t, "!", 7); break;
        default: l.Error(t, "!", 7); break;
      }
      return t + "!7";
  }
}
std::string Text(int i) {
  switch (i) {
    case 0: return "message";
    case 1: return "";
    case 2: return std::string("nul\0inside", 10);
    case 3: return std::string(5000, 'y');
    default: return "%s %n \n line2";
  }
}
}  // namespace
MC_SCENARIO(histories, 0, 0) {
  std::vector<Message> got;
  int throws = 0;
  Logger l{[&](LogLevel level, opentracing::string_view m) {
    got.push_back({level, std::string(m.data(), m.size())});
    if (throws == 1) throw std::runtime_error{"sink"};
    if (throws == 2) throw 5;
    if (throws == 3) throw std::bad_alloc{};
  }};
  MC_CHECK(l.level() == LogLevel::error, "default level");
  LogLevel now = LogLevel::error;
  int depth = mc::thorough() ? 3 : 2;
  for (int i = 0; i < depth; ++i) {
    int c = mc::choose(6, "level");
    if (c < 5) {
      now = kLevels[c];
      l.set_level(now);
      MC_CHECK(l.level() == now, "level not taken over");
    }
    LogLevel level = kLevels[mc::choose(4, "message level")];
    int how = i < 2 ? mc::choose(5, "entry") : 0;
    throws = mc::choose(i < 2 ? 4 : 2, "sink");
    std::string t = Text(i == 0 ? mc::choose(5, "text") : 0);
    got.clear();
    std::string want = Emit(l, how, level, t);
    bool due = (int)level >= (int)now;
    MC_CHECK((int)got.size() == (due ? 1 : 0), "message of level %d passed %zu times at level %d", (int)level, got.size(), (int)now);
    if (due) MC_CHECK(got[0].level == level && got[0].text == want, "level or text changed: '%s'", got[0].text.c_str());
    mc::evaluated();
    mc::state(mc::mix(mc::mix((int)level, (int)now), mc::mix(how, throws)));
    mc::outcome(due ? "passed" : "dropped");
  }
}
// without a sink messages go to the standard error stream
MC_SCENARIO(default_sink, 0, 0) {
  std::ostringstream oss;
  struct Redirect {
    std::streambuf* old;
    explicit Redirect(std::streambuf* b) : old{std::cerr.rdbuf(b)} {}
    ~Redirect() { std::cerr.rdbuf(old); }
  };
  bool null_sink = mc::choose(2, "null sink");
  std::unique_ptr<Logger> l{null_sink ? new Logger{std::function<void(LogLevel, opentracing::string_view)>{}} : new Logger{}};
  LogLevel now = kLevels[mc::choose(5, "level")], level = kLevels[mc::choose(4, "message level")];
  l->set_level(now);
  std::string t = Text(mc::choose(5, "text"));
  int how = mc::choose(5, "entry");
  std::string want;
  {
    Redirect r{oss.rdbuf()};
    want = Emit(*l, how, level, t);
  }
  static const char* names[] = {"Debug", "Info", "Warn", "Error"};
  bool due = (int)level >= (int)now;
  if (!due) MC_CHECK(oss.str().empty(), "printed below the level: %s", oss.str().c_str());
  else {
    std::string s = oss.str();
    size_t at = s.find(want);
    MC_CHECK(at != std::string::npos, "text not printed completely");
    int k = 0;
    while (kLevels[k] != level) ++k;
    MC_CHECK(s.substr(0, at).find(names[k]) != std::string::npos || want.empty(), "level not printed: %s", s.c_str());
  }
  mc::state(mc::hash(oss.str()));
}

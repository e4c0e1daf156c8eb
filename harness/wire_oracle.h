// Reads one connection's byte stream by the rules of HTTP/1.1 and protobuf,
// independently of the code under test.
#pragma once
#include <strings.h>
#include <string>
#include <vector>
#include "mc.h"

struct WireResult {
  std::vector<std::string> headers;
  std::string host;
  std::vector<std::string> chunks;  // complete chunk payloads, in order
  std::string partial;              // payload bytes of an unfinished chunk (as far as sent)
  bool head_complete = false;       // request line, headers and blank line
  bool in_chunk = false;            // some bytes of a further chunk were sent
  bool terminated = false;          // zero chunk fully sent
};

// Fails the execution when `s` is not a prefix of a valid request.
inline WireResult ReadWire(const std::string& s, const char* who) {
  WireResult r;
  size_t i = 0;
  auto line = [&](std::string& out) {  // false: not complete yet
    size_t e = s.find("\r\n", i);
    if (e == std::string::npos) {
      out = s.substr(i);
      return false;
    }
    out = s.substr(i, e - i);
    i = e + 2;
    return true;
  };
  std::string l;
  bool full = line(l);
  // a partial request line must be a prefix of "POST <path> HTTP/1.1"
  {
    const std::string post = "POST ";
    MC_CHECK(l.compare(0, std::min(l.size(), post.size()), post, 0, std::min(l.size(), post.size())) == 0, "%s: starts with \"%.20s\"", who, l.c_str());
    if (!full) return r;
    size_t a = l.find(' '), b = l.rfind(' ');
    MC_CHECK(a != b && l[a + 1] == '/' && l.substr(b + 1) == "HTTP/1.1" && l.find(' ', a + 1) == b, "%s: request line \"%s\"", who, l.c_str());
    MC_CHECK(l.substr(a + 1, b - a - 1) == "/api/v2/reports", "%s: path of \"%s\"", who, l.c_str());
  }
  bool chunked = false, close = false, type = false;
  while (true) {
    full = line(l);
    if (!full) return r;
    if (l.empty()) break;
    size_t c = l.find(':');
    MC_CHECK(c != std::string::npos && c > 0, "%s: header line \"%s\"", who, l.c_str());
    std::string name = l.substr(0, c), value = l.substr(c + 1);
    for (unsigned char ch : name) MC_CHECK(ch > 32 && ch < 127, "%s: header name \"%s\"", who, name.c_str());
    for (unsigned char ch : value) MC_CHECK(ch >= 32 && ch != 127, "%s: header value of \"%s\" has byte %d", who, name.c_str(), ch);
    while (!value.empty() && value[0] == ' ') value.erase(0, 1);
    while (!value.empty() && value.back() == ' ') value.pop_back();
    if (!strcasecmp(name.c_str(), "host")) { MC_CHECK(r.host.empty(), "%s: two Host headers", who); r.host = value; }
    if (!strcasecmp(name.c_str(), "transfer-encoding")) chunked = value == "chunked";
    if (!strcasecmp(name.c_str(), "connection")) close = value == "close";
    if (!strcasecmp(name.c_str(), "content-type")) type = value == "application/octet-stream";
    MC_CHECK(strcasecmp(name.c_str(), "content-length"), "%s: both chunked and Content-Length", who);
    r.headers.push_back(l);
  }
  MC_CHECK(chunked && close && type && !r.host.empty(), "%s: a required header is missing or wrong", who);
  r.head_complete = true;
  while (i < s.size()) {
    MC_CHECK(!r.terminated, "%s: %zu bytes after the terminating chunk", who, s.size() - i);
    r.in_chunk = true;
    size_t save = i;
    full = line(l);
    std::string size_part = l;
    if (!full && !size_part.empty() && size_part.back() == '\r') size_part.pop_back();
    uint64_t n = 0;
    for (unsigned char ch : size_part) {
      MC_CHECK(isxdigit(ch), "%s: byte %d in a chunk size at offset %zu", who, ch, save);
      n = n * 16 + (ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
    }
    MC_CHECK(size_part.size() <= 16, "%s: chunk size \"%s\"", who, size_part.c_str());
    if (!full) return r;
    MC_CHECK(!size_part.empty(), "%s: empty chunk size at offset %zu", who, save);
    if (n == 0) {
      std::string rest = s.substr(i, 2);
      MC_CHECK(std::string("\r\n").compare(0, rest.size(), rest) == 0, "%s: bad end of the terminating chunk", who);
      i += rest.size();
      if (rest.size() == 2) { r.terminated = true; r.in_chunk = false; }
      continue;
    }
    if (s.size() - i < n) {
      r.partial = s.substr(i);
      return r;
    }
    std::string payload = s.substr(i, n);
    i += n;
    std::string rest = s.substr(i, 2);
    MC_CHECK(std::string("\r\n").compare(0, rest.size(), rest) == 0, "%s: a chunk of %llu bytes is not followed by CRLF", who, (unsigned long long)n);
    i += rest.size();
    if (rest.size() < 2) {
      r.partial = payload;
      return r;
    }
    r.chunks.push_back(payload);
    r.in_chunk = false;
  }
  return r;
}

#pragma once
#include <string>
#include <vector>
struct P { std::string k, v; };
static bool nl(char c) { return c == '\n' || c == '\r'; }
static bool bl(char c) { return c == ' ' || c == '\t'; }
// the pairs the documented grammar gives; err set when a key has no value
static std::vector<P> oracle(std::string t, bool& err) {
  std::vector<P> out; err = false;
  size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z);
  size_t i = 0, n = t.size();
  while (true) {
    while (i < n && (nl(t[i]) || bl(t[i]))) i++;
    if (i == n) return out;
    if (t[i] == '#') { while (i < n && !nl(t[i])) i++; continue; }
    size_t k0 = i; while (i < n && !nl(t[i]) && !bl(t[i])) i++;
    std::string k = t.substr(k0, i - k0);
    while (i < n && bl(t[i])) i++;
    if (i == n || nl(t[i])) { err = true; return out; }
    size_t v0 = i; while (i < n && !nl(t[i]) && !bl(t[i])) i++;
    out.push_back({k, t.substr(v0, i - v0)});
    while (i < n && !nl(t[i])) i++;
  }
}

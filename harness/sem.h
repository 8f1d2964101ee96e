// when do two texts denote the same value (exact decimal comparison, no floating point involved)
#pragma once
#include <string>
#include <cstring>
#include <cstdlib>
#include <strings.h>
struct Num { bool neg = false; std::string d; long e = 0; bool operator==(const Num &o) const { return neg == o.neg && d == o.d && e == o.e; } }; // 0.<d> * 10^e
inline bool parse_num(const std::string &s, Num &n) {
    size_t i = 0; n = Num(); if (i < s.size() && (s[i] == '-' || s[i] == '+')) n.neg = s[i++] == '-';
    size_t a = i; std::string ip, fp; while (i < s.size() && isdigit((unsigned char)s[i])) ip += s[i++];
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) fp += s[i++]; }
    if (ip.empty() && fp.empty()) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t j = ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i == k || i - k > 6) return false; n.e = atol(s.c_str() + j); }
    if (i != s.size() || a == i) return false;
    n.e += ip.size(); n.d = ip + fp; size_t z = n.d.find_first_not_of('0'); if (z == std::string::npos) { n.d.clear(); n.e = 0; n.neg = false; return true; }
    n.d.erase(0, z); n.e -= z; while (n.d.back() == '0') n.d.pop_back(); return true;
}
inline bool same_number(const std::string &a, const std::string &b) { Num x, y; return parse_num(a, x) && parse_num(b, y) && x == y; }
inline bool hexish(const std::string &s) { return !s.empty() && strspn(s.c_str(), "0123456789abcdefABCDEF-") == s.size(); }
// free of any type: equal, the same number, the same hexadecimal data, the same moment
inline bool same_meaning(const std::string &a, const std::string &b) {
    if (a == b || same_number(a, b)) return true;
    std::string y; for (char c : b) if (c != '\n') y += c;
    if (hexish(a) && hexish(y) && strcasecmp(a.c_str(), y.c_str()) == 0) return true;
    return a.size() == 24 && a[10] == 'T' && a[23] == 'Z' && b.size() == 23 && a.substr(0, 10) == b.substr(0, 10) && a.substr(11, 12) == b.substr(11);
}

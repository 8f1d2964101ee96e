// Strict reference of text -> value for numbers, hashes, dates and times (no code shared with the repository).
// A text MUST be stored as the given value, MAY be (lenient forms: stored as exactly this value or refused), or is refused (NO).
#pragma once
#include "scalar_ref.h"
#include <charconv>
#include <cmath>
#include <cctype>
namespace tref {
typedef std::string S;
enum V { NO, MAY, MUST, FREE };
struct R { V v; __int128 i; double d; S b; };
inline R no() { return {NO, 0, 0, ""}; }
inline bool dig(char c) { return c >= '0' && c <= '9'; }
inline bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
inline S strip(const S &s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) a++; while (b > a && ws(s[b - 1])) b--; return s.substr(a, b - a); }
// number: sign, digits, fraction, exponent
struct Num { bool ok = false, plus = false, neg = false, loose = false, exp = false; S i, f; long e = 0; };
inline Num num(const S &s) {
    Num n; size_t p = 0; if (p < s.size() && (s[p] == '-' || s[p] == '+')) { n.neg = s[p] == '-'; n.plus = s[p] == '+'; p++; }
    while (p < s.size() && dig(s[p])) n.i += s[p++];
    if (p < s.size() && s[p] == '.') { p++; while (p < s.size() && dig(s[p])) n.f += s[p++]; if (n.f.empty()) n.loose = true; }
    if (n.i.empty() && n.f.empty()) return n;
    if (n.i.empty()) n.loose = true;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; n.exp = true; bool m = false; if (p < s.size() && (s[p] == '-' || s[p] == '+')) m = s[p++] == '-'; if (p >= s.size() || !dig(s[p])) return n; while (p < s.size() && dig(s[p])) { if (n.e < 100000) n.e = n.e * 10 + (s[p] - '0'); p++; } if (m) n.e = -n.e; }
    n.ok = p == s.size(); return n;
}
// exact value of a number times 10^decimals; false when it is no integer or has more than 36 digits
inline bool scaled(const Num &n, int decimals, __int128 &v, bool &big) {
    S d = n.i + n.f; long e = n.e + decimals - (long)n.f.size(); big = false; size_t z = 0; while (z < d.size() && d[z] == '0') z++; d = d.substr(z);
    while (e < 0 && !d.empty()) { if (d.back() != '0') return false; d.pop_back(); e++; }
    if (d.empty()) { v = 0; return true; }
    if (e > 40 || d.size() + e > 36) { big = true; return true; }
    v = 0; for (char c : d) v = v * 10 + (c - '0'); for (long k = 0; k < e; k++) v *= 10; if (n.neg) v = -v; return true;
}
inline R integer(const S &t, __int128 lo, __int128 hi, int decimals, bool hex = false) {
    S s = strip(t); bool loose = s != t;
    if (hex && s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { __int128 v = 0; for (size_t k = 2; k < s.size(); k++) { if (!isxdigit((unsigned char)s[k]) || v > hi) return no(); v = v * 16 + (dig(s[k]) ? s[k] - '0' : (s[k] | 32) - 'a' + 10); } return v > hi ? no() : R{MAY, v, 0, ""}; }
    Num n = num(s); __int128 v; bool big; if (!n.ok || !scaled(n, decimals, v, big) || big || v < lo || v > hi) return no();
    bool must = !loose && !n.plus && !n.exp && !n.loose && (int)n.f.size() <= decimals && !(lo == 0 && n.neg);
    return {must ? MUST : MAY, v, 0, ""};
}
inline R real(const S &t, bool single) {
    S s = strip(t); bool loose = s != t; Num n = num(s);
    if (!n.ok) { S l; for (char c : s) l += (char)(c | 32); size_t k = !l.empty() && (s[0] == '-' || s[0] == '+'); if (l.compare(k, 3, "inf") == 0 || l.compare(k, 3, "nan") == 0 || l.compare(k, 2, "0x") == 0) return {FREE, 0, 0, ""}; return no(); }
    S x = s.substr(n.plus); double d = 0; auto r = std::from_chars(x.data(), x.data() + x.size(), d);
    if (r.ec == std::errc::result_out_of_range) { S a = n.i + n.f; size_t z = a.find_first_not_of('0'); if ((long)n.i.size() - (long)z + n.e > 0) return no(); return {FREE, 0, 0, ""}; } // too big; too small is rounded
    if (single && std::isinf((float)d)) return no();
    return {!loose && !n.plus && !n.loose ? MUST : MAY, 0, d, ""};
}
inline R hexes(const S &t, int size) { // size < 0: any
    S s = strip(t), h; bool loose = s != t; for (size_t k = 0; k < s.size(); k++) { if (isxdigit((unsigned char)s[k])) h += s[k]; else if (s[k] == '-' || s[k] == ' ') { if (!(size == 16 && s.size() == 36 && s[k] == '-' && (k == 8 || k == 13 || k == 18 || k == 23))) loose = true; } else return no(); }
    if (size >= 0 ? h.size() != 2 * (size_t)size : h.size() % 2) return no();
    S b; for (size_t k = 0; k < h.size(); k += 2) b += (char)std::stoi(h.substr(k, 2), nullptr, 16);
    return {loose || h.empty() ? MAY : MUST, 0, 0, b};
}
struct T { bool ok = false, loose = false, free = false, time = false, frac = false, longer = false, zone = false, z = false, t = false; int64_t day = 0, ms = 0; int64_t year = 0; };
inline T moment(const S &x) { // date [time [fraction] [zone]]
    T r; S s = strip(x); r.loose = s != x; size_t p = 0; bool bad = false;
    auto number = [&](int digits) -> int64_t { while (p < s.size() && ws(s[p])) { p++; r.loose = true; } bool minus = p < s.size() && s[p] == '-'; if (minus) { p++; r.loose = true; } size_t a = p; int64_t v = 0; while (p < s.size() && dig(s[p])) { if (v < 1000000000000ll) v = v * 10 + (s[p] - '0'); p++; } if (p == a || (minus && v)) bad = true; if ((int)(p - a) != digits) r.loose = true; return v; };
    auto is = [&](char c) { if (p < s.size() && s[p] == c) { p++; return true; } return false; };
    bool neg = is('-'); if (neg) r.loose = true; int64_t y = number(4); if (neg) y = -y; if (bad || !is('-')) return r; int64_t m = number(2); if (bad || !is('-')) return r; int64_t d = number(2); if (bad) return r;
    if (m < 1 || m > 12 || d < 1 || y > 2000000000 || y < -2000000000) return r; if (d > ref::mdays(y, (int)m)) return r;
    r.year = y; r.day = ref::days_from_civil(y, (int)m, (int)d); int64_t sec = 0, off = 0; int ms = 0;
    if (p < s.size()) {
        if (is('T')) r.t = true; else if (!is(' ')) return r;
        r.time = true; int64_t h = number(2), mi = 0, se = 0; if (bad || h > 23) return r;
        if (p == s.size()) r.loose = true; // hours only
        else { if (!is(':')) return r; mi = number(2); if (bad || mi > 59) return r; if (!is(':')) return r; se = number(2); if (bad || se > 60) return r; if (se == 60) r.free = true; }
        sec = h * 3600 + mi * 60 + se;
        if (is('.')) { r.frac = true; size_t a = p; while (p < s.size() && dig(s[p])) p++; if (p == a) return r; S f = s.substr(a, p - a); if (f.size() < 3) { r.loose = true; } if (f.size() > 3) r.longer = true; f.resize(3, '0'); ms = std::stoi(f); }
        if (is('Z')) r.z = true;
        else if (p < s.size() && (s[p] == '+' || s[p] == '-')) { bool minus = s[p++] == '-'; r.zone = true; size_t a = p; while (p < s.size() && dig(s[p])) p++; S hh = s.substr(a, p - a), mm; if (is(':')) { a = p; while (p < s.size() && dig(s[p])) p++; mm = s.substr(a, p - a); if (mm.empty()) return r; } else { if (hh.size() == 4) { mm = hh.substr(2); hh.resize(2); } else mm = "0"; r.loose = true; }
            if (hh.size() != 2 || mm.size() != 2) r.loose = true; if (hh.empty() || hh.size() > 9 || mm.size() > 9) return r; int zh = std::stoi(hh), zm = std::stoi(mm); if (zh > 23 || zm > 59) return r; if (zh > 14) r.loose = true; off = (zh * 3600 + zm * 60) * (minus ? -1 : 1); }
    }
    if (p != s.size()) return r;
    r.ok = true; r.ms = (r.day * 86400 + sec - off) * 1000 + ms; return r;
}
inline R date(const S &x) { T t = moment(x); if (!t.ok) return no(); if (t.free) return {FREE, 0, 0, ""}; if (t.time) return t.ms == t.day * 86400000 ? R{MAY, t.day, 0, ""} : no(); return {t.loose || t.year < -365749 || t.year > 369689 ? MAY : MUST, t.day, 0, ""}; }
inline bool in32(const T &t) { return t.day >= 0 && t.year >= 1970 && t.day < 49710; }
inline R time32(const S &x) { T t = moment(x); if (!t.ok) return no(); if (t.free) return {FREE, 0, 0, ""}; if (t.ms % 1000 || t.ms < 0 || t.ms / 1000 > 0xffffffffll) return no(); bool must = t.time && !t.loose && !t.t && !t.frac && !t.zone && !t.z && in32(t); return {must ? MUST : MAY, t.ms / 1000, 0, ""}; }
inline R time64(const S &x) { T t = moment(x); if (!t.ok) return no(); if (t.free) return {FREE, 0, 0, ""}; bool must = t.time && !t.loose && t.frac && t.year >= 0 && (t.t ? t.z || t.zone : !t.longer && !t.z && !t.zone); return {must ? MUST : MAY, t.ms, 0, ""}; }
}

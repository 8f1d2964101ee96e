// Independent reference functions for scalar values (no code shared with the repository).
#pragma once
#include <cstdint>
#include <string>
#include <cstdio>
#include <cstring>
#include <vector>
namespace ref {
inline int64_t days_from_civil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    const int64_t era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = (unsigned)(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int64_t y, int m) { static const int D[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return m == 2 && leap(y) ? 29 : D[m - 1]; }
inline void civil(int64_t z, int64_t &y, int &m, int &d) {
    z += 719468; const int64_t era = (z >= 0 ? z : z - 146096) / 146097; const unsigned doe = (unsigned)(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int64_t)yoe + era * 400;
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); const unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
}
inline std::string date(int64_t day) { int64_t y; int m, d; civil(day, y, m, d); char b[40]; snprintf(b, 40, "%04d-%02d-%02d", (int)y, m, d); return b; }
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
inline std::string clock(int64_t s) { char b[20]; snprintf(b, 20, "%02d:%02d:%02d", (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60)); return b; }
inline std::string time(int64_t t) { int64_t d = fdiv(t, 86400); return date(d) + " " + clock(t - d * 86400); }
inline std::string time_ms(int64_t ms) { int64_t s = fdiv(ms, 1000); char b[8]; snprintf(b, 8, ".%03d", (int)(ms - s * 1000)); return time(s) + b; }
}

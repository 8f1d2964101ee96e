// C12: calendar codecs, exhaustive over days / seconds, plus every malformed field combination.
#include "mc.h"
#include "scalar_ref.h"
#include "textref.h"
#include <functional>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
using namespace pklib_xml;
using mc::fail;

static bool from(const std::string &s, XML_Binary_Type t, void *out, size_t n) {
    alignas(16) char buf[128]; memset(buf, 0xA5, sizeof buf); char *wp = buf;
    if (!XBT_FromString(s.c_str(), t, &wp, buf + sizeof buf)) return false;
    if (wp - buf != (long)n) { fail("XBT_FromString(%s) produced %ld bytes, expected %zu", s.c_str(), (long)(wp - buf), n); return false; }
    memcpy(out, buf, n); return true;
}
static std::string tostr(XML_Binary_Type t, const void *v, size_t n) {
    alignas(16) char buf[64]; memcpy(buf, v, n);
    const char *r = XBT_ToString(t, buf); return r ? r : "(null)";
}
static std::string chunk(XML_Binary_Type t, const void *v, size_t n) {
    alignas(16) char buf[64]; memcpy(buf, v, n); char dst[300]; memset(dst, '#', sizeof dst); int off = 0; std::string r;
    for (int k = 0; k < 4; k++) { int l = XBT_ToStringChunk(t, buf, off, dst, sizeof dst); if (l <= 0) break; r.append(dst, l); }
    return r;
}

static const int Y0 = -365749, Y1 = 369689; // documented range of the date scanner
static uint64_t nyears() { return mc::thorough ? Y1 - Y0 + 1 : 24000 + 4000; }
static int64_t year_of(uint64_t i) { // quick: 12000 BC .. 12000 AD and the 2000 years at both ends of the documented range
    if (mc::thorough) return Y0 + (int64_t)i;
    if (i < 24000) return (int64_t)i - 12000;
    if (i < 26000) return Y0 + (int64_t)(i - 24000);
    return Y1 - (int64_t)(i - 26000);
}
static void date_year(uint64_t i) {
    int64_t y = year_of(i);
    bool deep = y >= 1 && y <= 9999;
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= ref::mdays(y, m); d++) {
        int32_t day = (int32_t)ref::days_from_civil(y, m, d);
        char exp[40], got[64]; snprintf(exp, 40, "%04d-%02d-%02d", (int)y, m, d);
        const char *g = UnixDate2Str(day, got);
        if (!g || strcmp(g, exp)) return fail("day %d is %s, formatted as %s", day, exp, g ? g : "(null)");
        const char *p = exp; int32_t back = 0x5a5a5a5a;
        if (!ScanUnixDate(p, back)) return fail("valid date %s rejected", exp);
        if (back != day) return fail("date %s parsed as day %d, expected %d", exp, back, day);
        if (*p) return fail("date %s not consumed", exp);
        if (deep && (mc::thorough || d == 1 || d >= 28)) {
            int32_t b2 = 0;
            if (!from(exp, XBT_UNIX_DATE, &b2, 4)) return fail("XBT_FromString rejects %s", exp);
            if (b2 != day) return fail("XBT_FromString(%s) = %d, expected %d", exp, b2, day);
            std::string s = tostr(XBT_UNIX_DATE, &day, 4);
            if (s != exp) return fail("XBT_ToString(day %d) = %s, expected %s", day, s.c_str(), exp);
            XML_Binary_Type t = XBT_Detect(exp);
            if (t != XBT_UNIX_DATE && t != XBT_STRING) return fail("%s detected as type %d", exp, t);
            if (y >= 1000 && t != XBT_UNIX_DATE) return fail("%s not detected as a date", exp);
        }
        mc::nontrivial();
    }
}
static const int INVY[] = {1, 4, 100, 400, 1600, 1899, 1900, 1904, 1967, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2100, 2105, 2400, 9999};
static const int NINVY = sizeof INVY / sizeof *INVY;
static void date_invalid(uint64_t i) { // case = (year, month 0..13), all days 0..99
    int y = INVY[i / 14], m = i % 14;
    for (int d = 0; d < 100; d++) {
        char t[40]; snprintf(t, 40, "%04d-%02d-%02d", y, m, d);
        bool valid = m >= 1 && m <= 12 && d >= 1 && d <= ref::mdays(y, m);
        const char *p = t; int32_t v = 0; bool ok = ScanUnixDate(p, v);
        if (ok != valid) return fail("date %s %s", t, ok ? "accepted although it does not exist" : "rejected");
        int32_t b; alignas(8) char buf[64]; char *wp = buf;
        bool ok2 = XBT_FromString(t, XBT_UNIX_DATE, &wp, buf + 64); (void)b;
        if (ok2 != valid) return fail("XBT_FromString(UNIX_DATE, %s) = %d", t, ok2);
        if (!valid && XBT_Detect(t) == XBT_UNIX_DATE) return fail("%s detected as a date", t);
        if (y >= 1970 && y <= 2105) {
            char t2[60]; snprintf(t2, 60, "%s 12:34:56", t); const char *q = t2; uint32_t u;
            if (ScanUnixTime(q, u) != valid) return fail("time %s: acceptance should be %d", t2, valid);
            alignas(8) char b3[64]; wp = b3;
            if (XBT_FromString(t2, XBT_UNIX_TIME, &wp, b3 + 64) != valid) return fail("XBT_FromString(UNIX_TIME, %s) should be %d", t2, valid);
            snprintf(t2, 60, "%s 12:34:56.789", t); q = t2; int64_t w;
            if (ScanUnixTime64msec(q, w) != valid) return fail("time %s: acceptance should be %d", t2, valid);
        }
        mc::nontrivial();
    }
}
static std::vector<int> secset() {
    if (mc::thorough) { std::vector<int> r; for (int i = 0; i < 86400; i++) r.push_back(i); return r; }
    static const int S[] = {0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3601, 35999, 36000, 43199, 43200, 46800, 86340, 86398, 86399};
    std::vector<int> r(S, S + sizeof S / sizeof *S); return r;
}
static void time_day(uint64_t day) { // all 32 bit days
    static std::vector<int> ss = secset();
    bool full = !mc::thorough && (day % 4000 == 0 || day == 49710);
    std::string ds = ref::date(day);
    int n = full ? 86400 : (int)ss.size();
    for (int k = 0; k < n; k++) {
        int sec = full ? k : ss[k];
        int64_t t = (int64_t)day * 86400 + sec;
        std::string exp = ds + " " + ref::clock(sec);
        const char *p = exp.c_str(); uint32_t v = 0;
        bool ok = ScanUnixTime(p, v);
        if (t > 0xffffffffll) {
            if (ok) return fail("%s is past the 32 bit range, accepted as %u", exp.c_str(), v);
            continue;
        }
        if (!ok) return fail("valid time %s rejected", exp.c_str());
        if (v != (uint32_t)t) return fail("time %s parsed as %u, expected %lld", exp.c_str(), v, (long long)t);
        if (*p) return fail("time %s not consumed", exp.c_str());
        if (mc::thorough && k % 977) continue;
        uint32_t u = (uint32_t)t, b = 0;
        std::string g = tostr(XBT_UNIX_TIME, &u, 4);
        if (g != exp) return fail("time value %u printed as %s, expected %s", u, g.c_str(), exp.c_str());
        g = chunk(XBT_UNIX_TIME, &u, 4);
        if (g != exp) return fail("time value %u chunked as %s, expected %s", u, g.c_str(), exp.c_str());
        if (!from(exp, XBT_UNIX_TIME, &b, 4) || b != u) return fail("XBT_FromString(%s) = %u, expected %u", exp.c_str(), b, u);
        if (XBT_Detect(exp.c_str()) != XBT_UNIX_TIME) return fail("%s not detected as a time", exp.c_str());
        mc::nontrivial();
    }
}
static const int MS[] = {0, 1, 9, 10, 99, 100, 500, 987, 999};
static int64_t msday(uint64_t i) { if (i < 75276) return -25567 + (int64_t)i; i -= 75276; return ref::days_from_civil((int64_t)(i / 6), i % 6 == 0 ? 1 : i % 6 < 3 ? 2 : i % 6 == 3 ? 3 : 12, i % 6 == 0 ? 1 : i % 6 == 1 ? 28 : i % 6 == 2 ? (ref::leap(i / 6) ? 29 : 28) : i % 6 == 3 ? 1 : i % 6 == 4 ? 30 : 31); }
static void ms_day(uint64_t i) { // 64 bit msec: every day 1900-01-01..2106-02-07, six days of every year 0..9999
    int64_t day = msday(i);
    static const int S[] = {0, 1, 59, 60, 3599, 3600, 35999, 36000, 43200, 86399};
    for (int s : S) for (int ms : MS) {
        int64_t v = (day * 86400 + s) * 1000 + ms;
        std::string exp = ref::time_ms(v);
        char got[80]; UnixTime642Str(v, got);
        if (exp != got) return fail("UnixTime642Str(%lld) = %s, expected %s", (long long)v, got, exp.c_str());
        std::string g = tostr(XBT_UNIX_TIME64_MSEC, &v, 8);
        if (g != exp) return fail("msec value %lld printed as %s, expected %s", (long long)v, g.c_str(), exp.c_str());
        {
            const char *p = exp.c_str(); int64_t b = 1;
            if (!ScanUnixTime64msec(p, b)) return fail("valid time %s rejected", exp.c_str());
            if (b != v) return fail("time %s parsed as %lld, expected %lld", exp.c_str(), (long long)b, (long long)v);
            b = 0;
            if (!from(exp, XBT_UNIX_TIME64_MSEC, &b, 8) || b != v) return fail("XBT_FromString(%s) = %lld, expected %lld", exp.c_str(), (long long)b, (long long)v);
            if (XBT_Detect(exp.c_str()) != XBT_UNIX_TIME64_MSEC) return fail("%s not detected as a msec time", exp.c_str());
            std::string iso = exp; iso[10] = 'T'; iso += 'Z'; p = iso.c_str(); b = 1;
            if (!ScanUnixTime64msec(p, b) || b != v) return fail("ISO time %s parsed as %lld, expected %lld", iso.c_str(), (long long)b, (long long)v);
            if (XBT_Detect(iso.c_str()) != XBT_UNIX_TIME64_MSEC) return fail("%s not detected as a msec time", iso.c_str());
        }
        mc::nontrivial();
    }
}
static const int64_t ZT[] = {0, 1, 3600, 86399, 86400, 951782400, 951868799, 1774021915, 2147483647ll, 2147483648ll, 4294967295ll};
static void zone(uint64_t i) { // case = base instant; all offsets -14:00..+14:00 in quarter hours and fractional digits
    int64_t t = ZT[i];
    for (int off = -56; off <= 56; off++) for (int digits = 3; digits <= 9; digits++) {
        char z[16]; int o = off < 0 ? -off : off; snprintf(z, 16, "%c%02d:%02d", off < 0 ? '-' : '+', o / 4, o % 4 * 15);
        char frac[16]; snprintf(frac, 16, ".%s", "773123456"); frac[1 + digits] = 0;
        std::string s = ref::time(t); s[10] = 'T'; s += frac; s += z;
        const char *p = s.c_str(); int64_t v = 0;
        if (!ScanUnixTime64msec(p, v)) return fail("valid time %s rejected", s.c_str());
        int64_t exp = (t - (int64_t)off * 900) * 1000 + 773;
        if (v != exp) return fail("time %s parsed as %lld, expected %lld", s.c_str(), (long long)v, (long long)exp);
        mc::nontrivial();
    }
}
static void clock_invalid(uint64_t i) { // hour 0..99; every minute/second class
    int h = i;
    for (int mi = 0; mi < 100; mi++) for (int s = 0; s < 100; s++) {
        if (s == 60) continue; // leap second notation: left unspecified
        char t[60]; snprintf(t, 60, "2021-06-15 %02d:%02d:%02d", h, mi, s);
        bool valid = h < 24 && mi < 60 && s < 60;
        const char *p = t; uint32_t v;
        if (ScanUnixTime(p, v) != valid) return fail("time %s %s", t, valid ? "rejected" : "accepted although it does not exist");
        if (!valid && XBT_Detect(t) == XBT_UNIX_TIME) return fail("%s detected as a time", t);
        strcat(t, ".250"); p = t; int64_t w;
        if (ScanUnixTime64msec(p, w) != valid) return fail("time %s %s", t, valid ? "rejected" : "accepted although it does not exist");
        if (!valid && XBT_Detect(t) == XBT_UNIX_TIME64_MSEC) return fail("%s detected as a time", t);
        mc::nontrivial();
    }
}
// every truncation and every single character substitution of well formed texts: rejected, or the text denoted a valid prefix
static const char *MUT[] = {"2024-02-29", "2024-02-29 23:59:58", "2024-02-29 23:59:58.987", "2024-02-29T23:59:58.987Z", "2024-02-29T23:59:58.987+01:30"};
static void mutate(uint64_t i) {
    std::string b = MUT[i / 40]; size_t pos = i % 40;
    if (pos >= b.size()) return;
    static const char C[] = "09-+: .TZax";
    for (int k = -1; k < (int)sizeof C; k++) {
        std::string s = b;
        if (k < 0) s.resize(pos); else if (C[k]) s[pos] = C[k]; else s.erase(pos, 1);
        char *h = new char[s.size() + 1]; memcpy(h, s.c_str(), s.size() + 1); // exact heap copy: over-reads are caught
        const char *p = h; int32_t d; uint32_t t; int64_t w;
        ScanUnixDate(p, d); p = h; ScanUnixTime(p, t); p = h; ScanUnixTime64msec(p, w);
        XML_Binary_Type ty = XBT_Detect(h);
        if (ty == XBT_UNIX_DATE || ty == XBT_UNIX_TIME || ty == XBT_UNIX_TIME64_MSEC) {
            alignas(8) char buf[64]; char *wp = buf;
            if (!XBT_FromString(h, ty, &wp, buf + 64)) fail("%s detected as type %d but not convertible", h, ty);
            else {
                std::string r = XBT_ToString(ty, buf), n = s;
                if (ty == XBT_UNIX_TIME64_MSEC && n.size() == 24) { n[10] = ' '; n.resize(23); }
                if (r != n) fail("%s detected as type %d prints as %s", h, ty, r.c_str());
            }
        }
        delete[] h;
        mc::nontrivial();
    }
}
// years of all sizes: around the ends of what the types can hold, and where days or seconds counted in 32 bits come round again
static const std::vector<int64_t> &years() { static std::vector<int64_t> v; if (!v.empty()) return v; auto add = [&](int64_t a, int64_t b) { for (int64_t y = a; y <= b; y++) v.push_back(y); };
    add(-370000, -360000); add(-5000, 12000); add(360000, 375000); for (int64_t k = 1; k < 190; k++) { int64_t c = 1970 + (int64_t)(k * 4294967296.0 / 365.2425); add(c - 20, c + 160); c = 1970 + (int64_t)(k * 2147483648.0 / 365.2425); add(c - 20, c + 160); }
    for (int64_t k = 1; k < 40; k++) { int64_t c = 1970 + (int64_t)(k * 4294967296.0 / 31556952.0); add(c - 3, c + 140); } for (int64_t p : {2147483647ll, 2147483648ll, 4294967296ll, 4294967296ll + 2000, 4294967296ll - 2000, 8589934592ll + 2000, 10000000000ll, 1000000000000ll, 18446744073709ll}) { add(p - 130, p + 130); add(-p - 5, -p + 5); } return v; }
static const uint64_t YB = 200;
static void moment_case(const std::string &t);
static void year_case(uint64_t i) { for (uint64_t k = i * YB; k < (i + 1) * YB && k < years().size() && !mc::failed(); k++) for (const char *d : {"-01-01", "-02-07", "-02-08", "-02-28", "-02-29", "-03-01", "-12-31"}) { char t[80]; int64_t y = years()[k]; snprintf(t, 80, "%s%04lld%s", y < 0 ? "-" : "", (long long)(y < 0 ? -y : y), d); for (const char *h : {"", " 00:00:00", " 06:28:15", " 06:28:16", "T23:59:59.999Z"}) if (!mc::failed()) moment_case(std::string(t) + h); } }
// every edited text is stored as the moment it denotes or refused
static const char *SH[] = {"2024-02-29", "1999-12-31", "2024-02-29 23:59:58", "2024-02-29T23:59:58", "2024-02-29 23:59:58.987", "2024-02-29T23:59:58.987Z", "2024-02-29T23:59:58.987+01:30", "2024-02-29T00:00:00.000000-09:45", "2024-02-29T23:59:58+14:00", "2106-02-07 06:28:15", "2106-02-07T06:28:15.999-00:01", "1970-01-01T00:00:00.000+00:01", "1969-12-31 23:59:59.999", "0000-03-01T00:00:00.000Z", "-0004-02-29", "2024-2-3 4:5:6"}; static const int NSH = sizeof SH / sizeof *SH;
static void moment_case(const std::string &t) {
    static const XML_Binary_Type TY[] = {XBT_UNIX_DATE, XBT_UNIX_TIME, XBT_UNIX_TIME64_MSEC};
    for (int k = 0; k < 3; k++) { auto r = k == 0 ? tref::date(t) : k == 1 ? tref::time32(t) : tref::time64(t); int64_t v = 0; bool ok = from(t, TY[k], &v, k == 2 ? 8 : 4); int64_t g = k == 0 ? (int32_t)v : k == 1 ? (int64_t)(uint32_t)v : v; mc::outcome(k * 8 + r.v * 2 + ok);
        if (r.v == tref::MUST && !ok) return fail("%s: valid text %s refused", XML_BINARY_TYPE_NAMES[TY[k]], mc::quote(t).c_str());
        if (r.v == tref::NO && ok) return fail("%s: %s stored as %lld, but it does not denote such a value", XML_BINARY_TYPE_NAMES[TY[k]], mc::quote(t).c_str(), (long long)g);
        if (ok && r.v != tref::FREE && g != (int64_t)r.i) return fail("%s: %s stored as %lld, expected %lld", XML_BINARY_TYPE_NAMES[TY[k]], mc::quote(t).c_str(), (long long)g, (long long)r.i); }
    mc::nontrivial();
}
static void moments(uint64_t i) { // all single and double edits
    std::string b = SH[i / 40]; size_t p = i % 40; if (p > b.size()) return; static const char C[] = "02389-+: .TZa";
    auto each = [&](const std::string &s, size_t q, std::function<void(const std::string &)> f) { if (q > s.size()) return; f(s.substr(0, q)); for (const char *c = C; *c; c++) { std::string x = s; x.insert(q, 1, *c); f(x); if (q < s.size()) { x = s; x[q] = *c; f(x); } } if (q < s.size()) { std::string x = s; x.erase(q, 1); f(x); } };
    each(b, p, [&](const std::string &x) { moment_case(x); for (size_t q = 0; q <= x.size() && !mc::failed(); q++) each(x, q, [&](const std::string &y) { if (mc::failed()) return; moment_case(y); if (mc::thorough) for (size_t r = q; r <= y.size() && r <= q + 2 && !mc::failed(); r++) each(y, r, [&](const std::string &z) { if (!mc::failed()) moment_case(z); }); }); });
}
// the clock: every millisecond of a second, seconds of all widths, a clock that fails
static bool clock_on = false, clock_fails = false; static timespec clock_ts;
extern "C" { int __real_clock_gettime(clockid_t, timespec *); int __wrap_clock_gettime(clockid_t c, timespec *t) { if (!clock_on) return __real_clock_gettime(c, t); if (clock_fails || c != CLOCK_REALTIME) { if (!clock_fails) fail("another clock is read"); return -1; } *t = clock_ts; return 0; } }
static void now_case(uint64_t i) {
    for (int64_t sec : {(int64_t)0, (int64_t)1, (int64_t)0x7fffffff, (int64_t)0x80000000ll, (int64_t)0xffffffffll, (int64_t)0x100000000ll, (int64_t)1700000000, (int64_t)4294967ll, (int64_t)4294968ll, (int64_t)253402300799ll})
        for (long extra : {0L, 1L, 499999L, 500000L, 999999L}) { clock_ts.tv_sec = sec; clock_ts.tv_nsec = (long)i * 1000000 + extra; clock_on = true; int64_t g = GetCurrentTime64(); clock_on = false; int64_t w = sec * 1000 + (int64_t)i; if (g != w) return fail("GetCurrentTime64 at %lld s %ld ns is %lld, expected %lld", (long long)sec, clock_ts.tv_nsec, (long long)g, (long long)w); mc::nontrivial(); }
    time_t a = time(nullptr); clock_on = clock_fails = true; int64_t g = GetCurrentTime64(); clock_on = clock_fails = false; time_t b = time(nullptr); if (g < (int64_t)a * 1000 || g > (int64_t)b * 1000 + 1000) return fail("GetCurrentTime64 without the clock is %lld", (long long)g);
}
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s;
    s.push_back({"C12.date-roundtrip", nyears(), date_year, [](uint64_t i) { return "all days of year " + std::to_string(year_of(i)); }});
    s.push_back({"C12.date-fields", (uint64_t)NINVY * 14, date_invalid, [](uint64_t i) { return "year " + std::to_string(INVY[i / 14]) + " month " + std::to_string(i % 14) + " days 0..99"; }});
    s.push_back({"C12.time32", 49711, time_day, [](uint64_t i) { return "seconds of " + ref::date(i); }});
    s.push_back({"C12.years", (years().size() + YB - 1) / YB, year_case, [](uint64_t i) { return "years from " + std::to_string(years()[i * YB]); }});
    s.push_back({"C12.time64", 75276 + 60000, ms_day, [](uint64_t i) { return "milliseconds of " + ref::date(msday(i)); }});
    s.push_back({"C12.time-zones", sizeof ZT / sizeof *ZT, zone, [](uint64_t i) { return "offsets applied to " + ref::time(ZT[i]); }});
    s.push_back({"C12.clock-fields", 100, clock_invalid, [](uint64_t i) { return "hour " + std::to_string(i) + ", all minutes and seconds 0..99"; }});
    s.push_back({"C12.text-mutations", 5 * 40, mutate, [](uint64_t i) { return std::string("edits of ") + MUT[i / 40] + " at " + std::to_string(i % 40); }});
    s.push_back({"C12.text-exact", (uint64_t)NSH * 40, moments, [](uint64_t i) { return std::string("edits of ") + SH[i / 40] + " at " + std::to_string(i % 40); }});
    s.push_back({"C12.now", 1000, now_case, [](uint64_t i) { return "clock at millisecond " + std::to_string(i); }});
    return mc::main_(c, v, s);
}

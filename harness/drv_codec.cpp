// C10 scalar codecs, C11 type detection and joining, C19 byte-string codecs (base64, hex, chunked output).
#include "mc.h"
#include "sem.h"
#include "scalar_ref.h"
#include "textref.h"
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
#include <binary_xml/bin_xml.h>
#include <functional>
#include <sstream>
#include <set>
#include <cmath>
using namespace pklib_xml;
using mc::fail;
typedef std::string S;
#define TN(t) XML_BINARY_TYPE_NAMES[t]

// ---------------------------------------------------------------- helpers
static const size_t CAP = 1024;
// text -> binary in an exactly tracked buffer; returns the bytes
static bool from(const S &s, XML_Binary_Type t, S &out) {
    alignas(16) static char buf[CAP + 32]; memset(buf, 0xA5, sizeof buf); char *wp = buf;
    char *h = strdup(s.c_str());
    bool ok = XBT_FromString(h, t, &wp, buf + CAP); free(h);
    if (!ok) return false;
    out.assign(buf, wp - buf); return true;
}
// binary -> text by all four output paths, which have to agree
static bool texts(XML_Binary_Type t, const S &bin, S &res, bool also_ptr = true) {
    void *m = nullptr; if (posix_memalign(&m, 16, bin.size() ? bin.size() : 1)) return false; // exact size: over-reads are caught
    memcpy(m, bin.data(), bin.size()); const char *p = (const char *)m;
    S c; int off = 0; char dst[300]; bool ok = true; int guard = 0;
    for (;;) {
        memset(dst, '#', sizeof dst);
        int l = XBT_ToStringChunk(t, p, off, dst, sizeof dst);
        if (l < 0 || l >= (int)sizeof dst) { fail("%s chunk length %d", TN(t), l); ok = false; break; }
        if (l == 0) break;
        c.append(dst, l);
        if (++guard > 100000) { fail("%s chunked output does not end", TN(t)); ok = false; break; }
    }
    std::ostringstream o1, o2; XBT_ToStringStream(t, p, o1);
    if (ok && o1.str() != c && t != XBT_BLOB) { fail("%s stream output %s differs from chunked output %s", TN(t), mc::quote(o1.str()).c_str(), mc::quote(c).c_str()); ok = false; }
    XBT_ToXMLStream(t, p, o2); S esc; for (char ch : o1.str()) { if (ch == '<') esc += "&lt;"; else if (ch == '>') esc += "&gt;"; else if (ch == '&') esc += "&amp;"; else if (ch == '"') esc += "&quot;"; else esc += ch; }
    S un; { S x = o2.str(); for (size_t i = 0; i < x.size(); ) { 
            if (x[i] == '<' || x[i] == '"') { if (ok) fail("%s XML output contains a raw %c: %s", TN(t), x[i], mc::quote(x).c_str()); ok = false; }
            if (x[i] == '&') { size_t e = x.find(';', i); if (e == S::npos) { un += x[i++]; continue; } S n = x.substr(i + 1, e - i - 1);
                if (n == "lt") un += '<'; else if (n == "gt") un += '>'; else if (n == "amp") un += '&'; else if (n == "quot") un += '"'; else if (n == "apos") un += '\'';
                else if (n.size() > 1 && n[0] == '#') un += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atoi(n.c_str() + 1)); else un += "?" + n; i = e + 1; }
            else un += x[i++]; } }
    if (ok && un != o1.str()) { fail("%s XML output %s does not denote %s", TN(t), mc::quote(o2.str()).c_str(), mc::quote(o1.str()).c_str()); ok = false; }
    if (also_ptr && ok) {
        const char *r = XBT_ToString(t, p);
        S rs = r ? S(r) : S();
        if (rs != o1.str()) { fail("%s XBT_ToString gives %s, stream gives %s", TN(t), r ? mc::quote(rs).c_str() : "(null)", mc::quote(o1.str()).c_str()); ok = false; }
    }
    free(m); res = o1.str(); return ok;
}
static void both(XML_Binary_Type t, const S &text, const S &bin) { // text and bin denote the same value
    if (mc::failed()) return;
    S b, s;
    if (!from(text, t, b)) return fail("%s: valid text %s rejected", TN(t), mc::quote(text).c_str());
    if (b != bin) return fail("%s: %s stored as %s, expected %s", TN(t), mc::quote(text).c_str(), mc::hex(b.data(), b.size()).c_str(), mc::hex(bin.data(), bin.size()).c_str());
    if (!texts(t, bin, s)) return;
    if (s != text) return fail("%s: value %s printed as %s, expected %s", TN(t), mc::hex(bin.data(), bin.size()).c_str(), mc::quote(s).c_str(), mc::quote(text).c_str());
    if (XBT_Size2(t, 0) != (int)bin.size() && t != XBT_SHA1 && t != XBT_STRING) return fail("%s: declared size %d, stored %zu", TN(t), XBT_Size2(t, 0), bin.size());
    mc::nontrivial(); mc::outcome(mc::fnv(bin.data(), bin.size(), t));
}
template <class T> static S B(T v) { return S((const char *)&v, sizeof v); }

// ---------------------------------------------------------------- C10
static S dectext(int64_t v, int dec) { // exact decimal text
    bool neg = v < 0; uint64_t a = neg ? 0 - (uint64_t)v : v; S d = std::to_string(a);
    if (dec) { while ((int)d.size() <= dec) d = "0" + d; d.insert(d.size() - dec, "."); }
    return (neg ? "-" : "") + d;
}
static const XML_Binary_Type I32[] = {XBT_INT32, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO};
static const int DECS[] = {0, 1, 2, 3, 6, 9};
static std::vector<int64_t> boundary64() {
    std::set<int64_t> r;
    for (int b = 0; b < 64; b++) for (int d = -3; d <= 3; d++) { r.insert((int64_t)((1ull << b) + d)); r.insert((int64_t)(0 - (1ull << b) + d)); }
    uint64_t p = 1; for (int e = 0; e < 20; e++, p *= 10) for (int m = 1; m < 10; m++) for (int d = -2; d <= 2; d++) { r.insert((int64_t)(p * m + d)); r.insert((int64_t)(0 - p * m + d)); }
    for (int64_t x : {INT64_MIN, INT64_MAX, (int64_t)-576460752303423488ll, (int64_t)1234567890123456789ll}) r.insert(x);
    return {r.begin(), r.end()};
}
static std::vector<int64_t> B64;
static void one32(int64_t v) {
    for (int k = 0; k < 6; k++) both(I32[k], dectext((int32_t)v, DECS[k]), B((int32_t)v));
    both(XBT_UINT32, std::to_string((uint32_t)v), B((uint32_t)v));
}
static void int32_block(uint64_t i) { for (int64_t k = 0; k < 256 && !mc::failed(); k++) one32((int64_t)i * 256 + k - 65536); }
static void int32_full(uint64_t i) { // thorough: all 2^32 through the direct path, one type
    for (uint64_t k = 0; k < (1 << 20); k++) {
        int32_t v = (int32_t)(i << 20 | k); alignas(16) char buf[64]; char t[32], *wp = buf; sprintf(t, "%d", v);
        if (!XBT_FromString(t, XBT_INT32, &wp, buf + 64) || *(int32_t *)buf != v) return fail("INT32 %s stored as %d", t, *(int32_t *)buf);
        char dst[300]; int off = 0; int l = XBT_ToStringChunk(XBT_INT32, buf, off, dst, 300);
        if (l != (int)strlen(t) || memcmp(dst, t, l)) return fail("INT32 %s printed differently", t);
        if ((k & 0xffff) == 0) mc::touch();
    }
    mc::nontrivial(1 << 20);
}
static void bound64(uint64_t i) {
    int64_t v = B64[i]; one32(v);
    both(XBT_INT64, std::to_string(v), B(v));
    both(XBT_UINT64, std::to_string((uint64_t)v), B((uint64_t)v));
    char40_t b; const char *s = Int64ToStr(v, b);
    if (!s || std::to_string(v) != s) return fail("Int64ToStr(%lld) = %s", (long long)v, s ? s : "(null)");
    // scanners: value and position
    S t = std::to_string(v) + "x"; const char *p = t.c_str(); int64_t r = 0;
    if (!ScanInt64(p, r) || r != v || *p != 'x') return fail("ScanInt64(%s) = %lld", t.c_str(), (long long)r);
    std::vector<char> w(t.begin(), t.end()); w.push_back(0); char *q = w.data(); r = 0;
    if (!ScanInt64W(q, r) || r != v || *q != 'x') return fail("ScanInt64W(%s) = %lld", t.c_str(), (long long)r);
    uint64_t u = (uint64_t)v, ur = 0; t = std::to_string(u) + " "; p = t.c_str();
    if (!ScanUInt64(p, ur) || ur != u || *p != ' ') return fail("ScanUInt64(%s) = %llu", t.c_str(), (unsigned long long)ur);
    char hx[40]; sprintf(hx, "0x%llx;", (unsigned long long)u); p = hx; ur = 0;
    if (!ScanUInt64(p, ur) || ur != u || *p != ';') return fail("ScanUInt64(%s) = %llx", hx, (unsigned long long)ur);
    char *hq = hx; ur = 0; if (!ScanUInt64W(hq, ur) || ur != u || *hq != ';') return fail("ScanUInt64W(%s) = %llx", hx, (unsigned long long)ur);
    sprintf(hx, "%llX;", (unsigned long long)u); p = hx; ur = 0;
    if (!ScanUInt64Hex(p, ur) || ur != u || *p != ';') return fail("ScanUInt64Hex(%s) = %llx", hx, (unsigned long long)ur);
    int32_t x = (int32_t)v; int xr = 0; t = std::to_string(x) + "-"; p = t.c_str();
    if (!ScanInt(p, xr) || xr != x || *p != '-') return fail("ScanInt(%s) = %d", t.c_str(), xr);
    if (GetInt(t.c_str()) != x) return fail("GetInt(%s) = %d", t.c_str(), GetInt(t.c_str()));
}
// every text is stored as the value it denotes or refused
static void text_case(const S &t) {
    static const struct { XML_Binary_Type t; int dec; } D[] = {{XBT_INT32, 0}, {XBT_INT32_DECI, 1}, {XBT_INT32_CENTI, 2}, {XBT_INT32_MILI, 3}, {XBT_INT32_MICRO, 6}, {XBT_INT32_NANO, 9}};
    auto judge = [&](XML_Binary_Type ty, const tref::R &r, const S &bytes, const S &other) { S out; bool ok = from(t, ty, out); mc::outcome((uint64_t)ty * 8 + r.v * 2 + ok);
        if (r.v == tref::MUST && !ok) fail("%s: valid text %s refused", TN(ty), mc::quote(t).c_str());
        else if (r.v == tref::NO && ok) fail("%s: %s stored as %s, but it is no such value", TN(ty), mc::quote(t).c_str(), mc::hex(out.data(), out.size()).c_str());
        else if (ok && r.v != tref::FREE && out != bytes && out != other) fail("%s: %s stored as %s, expected %s", TN(ty), mc::quote(t).c_str(), mc::hex(out.data(), out.size()).c_str(), mc::hex(bytes.data(), bytes.size()).c_str()); };
    auto whole = [&](XML_Binary_Type ty, __int128 lo, __int128 hi, int dec, int width, bool hex) { auto r = tref::integer(t, lo, hi, dec, hex); uint64_t v = (uint64_t)r.i; S b((char *)&v, width); judge(ty, r, b, b); };
    for (auto &d : D) whole(d.t, INT32_MIN, INT32_MAX, d.dec, 4, false);
    whole(XBT_UINT32, 0, UINT32_MAX, 0, 4, true); whole(XBT_UINT64, 0, UINT64_MAX, 0, 8, true); whole(XBT_INT64, INT64_MIN, INT64_MAX, 0, 8, false);
    { auto r = tref::real(t, true); float f = (float)r.d, g = 0; S x = tref::strip(t); x = x.substr(!x.empty() && x[0] == '+'); std::from_chars(x.data(), x.data() + x.size(), g); judge(XBT_FLOAT, r, B(f), B(g)); }
    { auto r = tref::real(t, false); judge(XBT_DOUBLE, r, B(r.d), B(r.d)); }
    { auto r = tref::hexes(t, 16); judge(XBT_GUID, r, r.b, r.b); r = tref::hexes(t, 20); judge(XBT_SHA1, r, r.b, r.b); r = tref::hexes(t, -1); S b = B((int32_t)r.b.size()) + r.b; judge(XBT_HEX, r, b, b); }
    mc::nontrivial();
}
static const char TA[] = "0179-+.eE xf"; static int TL() { return mc::thorough ? 6 : 5; }
static void text_short(uint64_t i) { S t; text_case(t); t += TA[i % 12]; t += TA[i / 12]; if (i < 12) text_case(t.substr(0, 1)); // all texts starting with these two characters
    std::function<void()> rec = [&] { text_case(t); if ((int)t.size() < TL() && !mc::failed()) for (int k = 0; k < 12; k++) { t += TA[k]; rec(); t.pop_back(); } }; rec(); }
static void text_bound(uint64_t i) { // numbers around the limits in all forms
    S m = std::to_string(B64[i]); if (m[0] == '-') m = m.substr(1); std::vector<S> ms = {m, std::to_string((uint64_t)B64[i]), m + "0", "1" + m, m.substr(0, m.size() - 1)};
    for (size_t k = 1; k < m.size(); k++) if (m.size() - k <= 10) ms.push_back(m.substr(0, k) + "." + m.substr(k));
    for (auto &x : ms) for (const char *pre : {"", "-", "0", "-00", "+", " ", "- ", "--", "0x"}) for (const char *suf : {"", " ", "x", "-", " 1", ".", ".0", ".5", "0", "e0", "e1", "e-1", "e", "e40", "e400", ",0"}) { text_case(S(pre) + x + suf); if (mc::failed()) return; }
}
static const char *HS[] = {"0123456789abcdef0123456789abcdef", "01234567-89ab-cdef-0123-456789abcdef", "0123456789ABCDEF0123456789abcdef01234567", "01 23 45 67 89 ab cd ef 01 23 45 67 89 ab cd ef"};
static void text_hex(uint64_t i) { // all single and (thorough) double edits of hexadecimal texts
    S b = HS[i / 64]; size_t p = i % 64; if (p > b.size()) return; static const char C[] = "0aFg- .";
    auto each = [&](const S &s, size_t q, std::function<void(const S &)> f) { if (q <= s.size()) { f(s.substr(0, q)); for (const char *c = C; *c; c++) { S x = s; x.insert(q, 1, *c); f(x); if (q < s.size()) { x = s; x[q] = *c; f(x); } } if (q < s.size()) { S x = s; x.erase(q, 1); f(x); } } };
    each(b, p, [&](const S &x) { text_case(x); for (size_t q = mc::thorough ? 0 : p; q <= x.size() && q <= p + (mc::thorough ? 64 : 2) && !mc::failed(); q++) each(x, q, [&](const S &y) { if (!mc::failed()) text_case(y); }); });
}
static void floats(uint64_t i) { // i selects sign/exponent range; mantissa grid of values printable with 6 decimals
    for (int m = 0; m < 64; m++) {
        float f = (float)((double)((int64_t)i - 512) + m / 64.0);
        char t[64]; snprintf(t, 64, "%f", f); both(XBT_FLOAT, t, B(f));
        double d = ((double)((int64_t)i - 512)) * 1000003.0 + m / 64.0; snprintf(t, 64, "%f", d); both(XBT_DOUBLE, t, B(d));
    }
    static const double X[] = {1e0, 1e3, 1e6, 1e9, 1e12, 1e15, 1e18, 1e21, 1e24, 1e27, 1e30, 1e33, 1e36, 1e38};
    if (i < 14) { char t[512]; float f = X[i]; snprintf(t, 512, "%f", f); both(XBT_FLOAT, t, B(f)); snprintf(t, 512, "%f", -f); both(XBT_FLOAT, t, B(-f)); 
                  for (double d : {X[i] * X[i], -X[i] * X[i]}) { S txt, out; if (!texts(XBT_DOUBLE, B(d), out)) return; if (strtod(out.c_str(), 0) != d) return fail("double %.17g printed as %s", d, out.c_str()); S back; if (!from(out, XBT_DOUBLE, back) || back != B(d)) return fail("double text %s read back differently", out.c_str()); } }
}
static const int OCT[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 199, 200, 249, 250, 254, 255};
static const int NO = 17;
static void ipv4(uint64_t i) {
    for (int c = 0; c < NO; c++) for (int d = 0; d < NO; d++) {
        int a = OCT[i / NO], b = OCT[i % NO]; char t[40]; sprintf(t, "%d.%d.%d.%d", a, b, OCT[c], OCT[d]);
        uint32_t v = (uint32_t)a << 24 | b << 16 | OCT[c] << 8 | OCT[d]; both(XBT_IPv4, t, B(v));
        if (!mc::failed() && XBT_Detect(t) != XBT_IPv4) return fail("%s not detected as IPv4", t);
    }
}
static void ipv4_bad(uint64_t i) { // octet position x value >= 256 or missing part
    static const char *BAD[] = {"256", "257", "300", "999", "1000", "65536", "4294967296", "-1", "", "a", "0x1"};
    for (const char *b : BAD) { S o[4] = {"1", "2", "3", "4"}; o[i] = b; S t = o[0] + "." + o[1] + "." + o[2] + "." + o[3], out;
        if (from(t, XBT_IPv4, out) && S(b) != "0x1") return fail("malformed address %s accepted", t.c_str());
        if (XBT_Detect(t.c_str()) == XBT_IPv4) return fail("%s detected as IPv4", t.c_str()); mc::nontrivial(); }
    for (int k = 0; k < 4; k++) { S t; for (int j = 0; j < k; j++) t += (j ? "." : "") + S("17"); S out; if (k < 4 && from(t, XBT_IPv4, out)) return fail("short address %s accepted", t.c_str()); }
}
static void fixedhex(uint64_t i) { // byte position x byte value, GUID and SHA1
    int pos = i / 256, val = i % 256; static const uint8_t base[20] = {0xfc,0xac,0x7d,0xbb,0x08,0xc7,0x47,0x8d,0xbf,0x97,0x7e,0x59,0x5c,0xa3,0x9a,0xab,0x10,0x32,0x54,0x76};
    for (int pat = 0; pat < 3; pat++) {
        uint8_t b[20]; for (int k = 0; k < 20; k++) b[k] = pat == 0 ? base[k] : pat == 1 ? 0 : 0xff; b[pos] = val;
        S sha = mc::hex(b, 20); both(XBT_SHA1, sha, S((char *)b, 20));
        if (!mc::failed()) { bool digits = true; for (char c : sha) if (c < '0' || c > '9') digits = false; XML_Binary_Type t = XBT_Detect(sha.c_str()); if (t != XBT_SHA1 && !digits) return fail("%s not detected as SHA1 (%s)", sha.c_str(), TN(t)); }
        if (pos < 16) { S h = mc::hex(b, 16); S g = h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); both(XBT_GUID, g, S((char *)b, 16));
            if (!mc::failed()) { XML_Binary_Type t = XBT_Detect(g.c_str()); if (t != XBT_GUID) return fail("%s not detected as GUID (%s)", g.c_str(), TN(t)); } }
        { hash192_t h; memset(h, 0x5a, sizeof h); memcpy(h, b, 20); std::ostringstream o; pklib_xml::operator<<(o, h); o << 17; if (o.str() != sha + "17") return fail("hash %s is written as %s", sha.c_str(), o.str().c_str()); }
        // too short: rejected
        S out; if (from(sha.substr(0, 38), XBT_SHA1, out) || from(mc::hex(b, 15), XBT_GUID, out)) return fail("short hash accepted");
    }
}
static void strings(uint64_t i) { // every length around the chunk sizes; every character
    if (i < 256) { if (i) for (int pos = 0; pos < 3; pos++) { S s = "abc"; s[pos] = (char)i; both(XBT_STRING, s, s + S(1, 0)); } return; }
    static const int L[] = {0, 1, 2, 254, 255, 256, 257, 298, 299, 300, 301, 597, 598, 599, 600};
    int n = (i - 256) < 15 ? L[i - 256] : 4093 + (int)(i - 256 - 15); // around 4096 too
    S s; for (int k = 0; k < n; k++) s += (char)('a' + (k * 7 + k / 26) % 26);
    if (n <= 600) both(XBT_STRING, s, s + S(1, 0));
    S t; texts(XBT_STRING, s + S(1, 0), t); if (t != s) return fail("string of %d characters printed with %zu", n, t.size());
    if (n) { // blob string: length prefix, terminated content
        int32_t sz = n + 1 + 7; S b = B(sz) + s + S(8, 0); texts(XBT_BLOB_STRING, b, t); if (t != s) return fail("blob string of %d characters printed with %zu", n, t.size()); }
    mc::nontrivial();
}
// long values of all sizes printed in all ways, one after another; the pointer returned for one is not used after the next
static const int LONGS[] = {0, 1, 100, 3000, 3067, 3068, 3069, 3071, 3072, 3073, 4000, 4090, 4095, 4096, 4097, 6140, 6144, 6150, 8000, 8190, 8192, 8194, 9000, 12284, 12288, 12292, 16384, 20000, 40000, 65535, 65536, 100000}; static const int NLONG = sizeof LONGS / sizeof *LONGS;
static void long_case(uint64_t i) {
    int na = LONGS[i % NLONG], nb = LONGS[i / NLONG]; XBT_Free();
    for (int n : {na, nb, na}) for (auto t : {XBT_BLOB, XBT_HEX, XBT_STRING, XBT_BLOB_STRING}) {
        S d; for (int k = 0; k < n; k++) d += t == XBT_BLOB || t == XBT_HEX ? (char)(k * 7 + k / 251) : (char)('a' + (k * 7 + k / 26) % 26); S bin = t == XBT_STRING ? d + S(1, 0) : t == XBT_BLOB_STRING ? B((int32_t)n + 1) + d + S(1, 0) : B((int32_t)n) + d, out, back; if (!texts(t, bin, out)) return;
        S want; if (t == XBT_HEX) { for (int k = 0; k < n; k += 16) { for (int j = k; j < n && j < k + 16; j++) { char x[3]; snprintf(x, 3, "%02x", (unsigned char)d[j]); want += x; } want += '\n'; } S a, b; for (char c : out) if (c != '\n' && c != ' ') a += (char)tolower(c); for (char c : want) if (c != '\n') b += c; if (a != b) return fail("HEX of %d bytes is printed with %zu digits", n, a.size()); }
        else if (t == XBT_STRING || t == XBT_BLOB_STRING) { if (out != d) return fail("%s of %d characters is printed with %zu", TN(t), n, out.size()); if (XBT_Size2(t, XBT_SizeFromString(out.c_str(), t)) < (int)(t == XBT_STRING ? n + 1 : n + 5)) return fail("%s of %d characters has declared size %d", TN(t), n, XBT_Size2(t, XBT_SizeFromString(out.c_str(), t))); }
        else { S c; for (char x : out) if (x != '\n') c += x; if (c.size() != (size_t)(n + 2) / 3 * 4) return fail("BLOB of %d bytes is printed with %zu characters", n, c.size()); }
    }
    mc::nontrivial();
}
// compare: consistent with the natural order of the values, for all pairs of boundary values
static void compare(uint64_t i) {
    int64_t a = B64[i]; for (int64_t b : B64) {
        auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
        #define CMP(T, type) { T x = (T)a, y = (T)b; int r = XBT_Compare(type, &x, sizeof x, type, &y, sizeof y); int e = x < y ? -1 : x > y; if (sg(r) != e) return fail("XBT_Compare(%s, %s, %s) = %d", TN(type), std::to_string(x).c_str(), std::to_string(y).c_str(), r); }
        CMP(int32_t, XBT_INT32) CMP(int32_t, XBT_INT32_DECI) CMP(int32_t, XBT_INT32_CENTI) CMP(int32_t, XBT_INT32_MILI) CMP(int32_t, XBT_INT32_MICRO) CMP(int32_t, XBT_INT32_NANO) CMP(int32_t, XBT_UNIX_DATE)
        CMP(uint32_t, XBT_UINT32) CMP(uint32_t, XBT_UNIX_TIME) CMP(int64_t, XBT_INT64) CMP(uint64_t, XBT_UINT64) CMP(int64_t, XBT_UNIX_TIME64_MSEC) CMP(float, XBT_FLOAT) CMP(double, XBT_DOUBLE)
        CMP(uint32_t, XBT_IPv4)
        auto ref = [](XML_Binary_Type t, S &d) { XML_Binary_Data_Ref r; r.type = t; r.data = r.content = &d[0]; r.size = r.content_size = (int)d.size(); if (XBT_IS_VARSIZE(t)) { r.content += 4; r.content_size -= 4; } return r; };
        auto bytes = [&](XML_Binary_Type t, S p, S q, int e) { int r = XBT_Compare(t, p.data(), (int)p.size(), t, q.data(), (int)q.size()); if (sg(r) != sg(e)) { fail("XBT_Compare(%s, %s, %s) = %d", TN(t), mc::hex(p.data(), p.size()).c_str(), mc::hex(q.data(), q.size()).c_str(), r); return; } if (XBT_Equal(ref(t, p), ref(t, q)) != (e == 0)) fail("XBT_Equal(%s, %s, %s) is %d", TN(t), mc::hex(p.data(), p.size()).c_str(), mc::hex(q.data(), q.size()).c_str(), e != 0); };
        auto big = [](int64_t v, int n) { S r; for (int k = 0; k < n; k++) r += (char)((uint64_t)v >> (56 - k % 8 * 8)); return r; };
        for (auto t : {XBT_GUID, XBT_SHA1, XBT_IPv6}) { int n = t == XBT_SHA1 ? 20 : 16; S p = big(a, n), q = big(b, n); bytes(t, p, q, memcmp(p.data(), q.data(), n)); }
        for (auto t : {XBT_BLOB, XBT_HEX}) { S p = big(a, 11), q = big(b, 11); bytes(t, B(11) + p, B(11) + q, memcmp(p.data(), q.data(), 11)); }
        S x = std::to_string(a), y = std::to_string(b); bytes(XBT_STRING, x + S(1, 0), y + S(1, 0), strcmp(x.c_str(), y.c_str()));
        for (int sx : {24, 32}) for (int sy : {24, 48}) { S p = x + S(1, 0), q = y + S(1, 0); p.resize(sx, 'p'); q.resize(sy, 'q'); bytes(XBT_BLOB_STRING, B(sx) + p, B(sy) + q, strcmp(x.c_str(), y.c_str())); }
        { S t = x + S(1, 0), v8 = B(b), v4 = B((int32_t)b); bool e = a == b; if (XBT_Equal(ref(XBT_STRING, t), ref(XBT_INT64, v8)) != e || XBT_Equal(ref(XBT_INT64, v8), ref(XBT_STRING, t)) != e) return fail("text %s and INT64 %lld are%s equal", x.c_str(), (long long)b, e ? " not" : ""); 
          e = a == (int32_t)b; if (XBT_Equal(ref(XBT_STRING, t), ref(XBT_INT32, v4)) != e || XBT_Equal(ref(XBT_INT32, v4), ref(XBT_STRING, t)) != e) return fail("text %s and INT32 %d are%s equal", x.c_str(), (int32_t)b, e ? " not" : ""); }
        if (mc::failed()) return;
        mc::nontrivial();
    }
}

// ---------------------------------------------------------------- C11
static bool same_value(const S &a, const S &b, XML_Binary_Type t) { // does text b denote the same value as text a
    if (a == b) return true;
    switch (t) {
        case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: case XBT_FLOAT: case XBT_DOUBLE:
            return same_number(a, b);
        case XBT_GUID: case XBT_SHA1: return strcasecmp(a.c_str(), b.c_str()) == 0;
        case XBT_HEX: { S x = b; while (!x.empty() && x.back() == '\n') x.pop_back(); S y; for (char c : x) if (c != '\n') y += c; return strcasecmp(a.c_str(), y.c_str()) == 0; }
        case XBT_UNIX_TIME64_MSEC: return a.size() == 24 && a[10] == 'T' && a[23] == 'Z' && a.substr(0, 10) == b.substr(0, 10) && a.substr(11, 12) == b.substr(11);
        default: return false;
    }
}
static void detect_one(const S &s) {
    char *h = strdup(s.c_str());
    XML_Binary_Type t = XBT_Detect(h);
    free(h);
    mc::outcome(t);
    if (t == XBT_STRING) return;
    if (t == XBT_NULL) { if (!s.empty()) fail("%s detected as NULL", mc::quote(s).c_str()); return; }
    S bin, out;
    if (!from(s, t, bin)) return fail("%s detected as %s, which cannot store it", mc::quote(s).c_str(), TN(t));
    if (!texts(t, bin, out, t != XBT_HEX)) return;
    if (!same_value(s, out, t)) return fail("%s detected as %s, which turns it into %s", mc::quote(s).c_str(), TN(t), mc::quote(out).c_str());
    int sz = XBT_SizeFromString(s.c_str(), t);
    int env = t == XBT_HEX ? 4 : 0;
    if (sz + env != (int)bin.size()) return fail("%s as %s: size announced %d, stored %zu", mc::quote(s).c_str(), TN(t), sz, bin.size());
    mc::nontrivial();
}
static const char AL[] = "0159-. :aeEfxTZ\n";
static uint64_t pw(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static int DL() { return mc::thorough ? 7 : 6; }
static void detect_str(uint64_t i) { // prefix of length L-2, all continuations of length 0..2 (so all lengths are covered)
    const uint64_t n = sizeof AL - 1; int L = DL() - 2; S p; for (int k = 0; k < L; k++) { p += AL[i % n]; i /= n; }
    // lengths below L arise from cutting
    for (int k = 1; k <= L; k++) { bool low = true; for (int j = k; j < L; j++) if (p[j] != AL[0]) low = false; if (low) detect_one(p.substr(0, k)); }
    for (uint64_t a = 0; a < n && !mc::failed(); a++) { S q = p + AL[a]; detect_one(q); for (uint64_t b = 0; b < n; b++) detect_one(q + AL[b]); }
}
// longer well known shapes: every single and (thorough) double substitution / deletion / insertion
static const char *SHAPES[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "18446744073709551615", "18446744073709551616", "99999999999999999999", "192.168.255.255", "12345.67", "-0.5", "21474836.47", "2.147483647", "2.147483648", "-2.147483648", "0.000001", "1.5E3", "1.5E-3", "3.4E38", "1E39", "123456789.5", "1234567.5", "16777217.5",
    "2024-02-29", "2024-02-29 23:59:58", "2024-02-29 23:59:58.987", "2024-02-29T23:59:58.987Z", "fcac7dbb-08c7-478d-bf97-7e595ca39aab", "9b6aa6cc7c5a71c13fc7ee1011ef309c333a904c", "FCAC7DBB-08C7-478D-BF97-7E595CA39AAB",
    "deadbeef", "DEADBEEF", "cafe", "a", "abc", "00", "1234567890123456789012345678901234567890", "Ada", "bad cafe", "true", "", "1 2", "10:20", "1-2", "0x1F", "1.2.3", "--5", "-", ".", "1.", ".5", "E5", "1e5", "127.0.0.1"};
static const int NS = sizeof SHAPES / sizeof *SHAPES;
static void detect_shape(uint64_t i) {
    S b = SHAPES[i / 48]; size_t pos = i % 48; if (pos > b.size()) return;
    if (pos == 0) detect_one(b);
    for (size_t a = 0; a < sizeof AL - 1 && !mc::failed(); a++) {
        S s = b; s.insert(pos, 1, AL[a]); detect_one(s);
        if (pos < b.size()) { s = b; s[pos] = AL[a]; detect_one(s); 
            if (mc::thorough) for (size_t q = pos + 1; q < b.size(); q++) for (size_t c = 0; c < sizeof AL - 1; c++) { S u = s; u[q] = AL[c]; detect_one(u); } }
    }
    if (pos < b.size()) { S s = b; s.erase(pos, 1); detect_one(s); }
}
static void join_types(uint64_t i) { // algebra over all triples
    XML_Binary_Type A = (XML_Binary_Type)(i % XBT_LAST), Bt = (XML_Binary_Type)(i / XBT_LAST);
    XML_Binary_Type j = XBT_JoinTypes(A, Bt), k = XBT_JoinTypes(Bt, A);
    if ((A == XBT_NULL && Bt == XBT_UNKNOWN) || (A == XBT_UNKNOWN && Bt == XBT_NULL)) return; // both mean "nothing known"
    if (j != k) return fail("join(%s,%s)=%s but join(%s,%s)=%s", TN(A), TN(Bt), TN(j), TN(Bt), TN(A), TN(k));
    if (A == Bt && j != A) return fail("join(%s,%s)=%s", TN(A), TN(A), TN(j));
    if (Bt == XBT_NULL && j != A) return fail("join(%s,NULL)=%s", TN(A), TN(j));
    if (XBT_JoinTypes(j, A) != j || XBT_JoinTypes(j, Bt) != j) return fail("join of %s and %s = %s is not an upper bound", TN(A), TN(Bt), TN(j));
    // joining with STRING must be able to hold any text
    if ((A == XBT_STRING || Bt == XBT_STRING) && j != XBT_STRING && j != XBT_BLOB_STRING) return fail("join(%s,%s)=%s loses text", TN(A), TN(Bt), TN(j));
    mc::nontrivial();
}
// a column holding texts a, b, c in this order: whatever concrete type results, storing must keep the value or be refused
static const char *COL[] = {"", "0", "7", "-7", "2147483647", "-2147483648", "3000000000", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0.5", "-0.5", "12.25", "1.125", "-0.000001", "2.000000001", "0.3", "-1.75", "0.004", "214748364.7", "1E5", "0.1E1", "12345678.5",
    "127.0.0.1", "2024-02-29", "2024-02-29 01:02:03", "2024-02-29 01:02:03.004", "fcac7dbb-08c7-478d-bf97-7e595ca39aab", "9b6aa6cc7c5a71c13fc7ee1011ef309c333a904c", "cafe", "hello", "Ada"};
static const int NC = sizeof COL / sizeof *COL;
static void join_values(uint64_t i) {
    const char *v[3] = {COL[i % NC], COL[i / NC % NC], COL[i / NC / NC]};
    XML_Binary_Type t = XBT_NULL; for (auto x : v) t = XBT_Detect2(x, t);
    if (t == XBT_VARIANT) return;
    mc::outcome(t);
    for (auto x : v) {
        if (!*x) continue;
        S bin, out; if (!from(x, t, bin)) { // refused: not stored at all - only when the common type is too narrow, never because it has less decimals or is of another kind
            XML_Binary_Type own = XBT_Detect(x); auto scale = [](XML_Binary_Type y) { return y == XBT_INT32 ? 1e0 : y == XBT_INT32_DECI ? 1e1 : y == XBT_INT32_CENTI ? 1e2 : y == XBT_INT32_MILI ? 1e3 : y == XBT_INT32_MICRO ? 1e6 : y == XBT_INT32_NANO ? 1e9 : 0; };
            bool lost = own == t || t == XBT_STRING || (scale(own) && scale(t) && fabs(strtod(x, 0)) * scale(t) < 2147483647.5) || (scale(own) == 1 && (t == XBT_INT64 || t == XBT_DOUBLE));
            if (lost) return fail("column {%s,%s,%s} is %s, %s is refused", v[0], v[1], v[2], TN(t), x); continue; }
        if (!texts(t, bin, out, t != XBT_HEX)) return;
        bool num = t == XBT_FLOAT || t == XBT_DOUBLE;
        double eps = t == XBT_FLOAT ? 1.0 / (1 << 23) : 1.0 / (1ll << 52); // a floating column holds numbers to its own precision
        if (!same_value(x, out, t) && !(num && same_value(out, out, t) && fabs(strtod(x, 0) - strtod(out.c_str(), 0)) <= eps * fabs(strtod(x, 0)))) return fail("column {%s,%s,%s} is %s, %s reads back as %s", v[0], v[1], v[2], TN(t), x, mc::quote(out).c_str());
        mc::nontrivial();
    }
}

// ---------------------------------------------------------------- C19
static S b64(const S &s) { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i+1] << 8 | (uint8_t)s[i+2]; r += T[v >> 18]; r += T[v >> 12 & 63]; r += T[v >> 6 & 63]; r += T[v & 63]; }
    if (s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; r += T[v >> 18]; r += T[v >> 12 & 63]; r += "=="; }
    if (s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i+1] << 8; r += T[v >> 18]; r += T[v >> 12 & 63]; r += T[v >> 6 & 63]; r += "="; }
    return r; }
static S pat(size_t n, int k) { S s; uint32_t x = 2463534242u + k * 7919; for (size_t i = 0; i < n; i++) { if (k == 0) s += (char)i; else if (k == 1) s += (char)0xff; else if (k == 2) s += (char)0; else { x ^= x << 13; x ^= x >> 17; x ^= x << 5; s += (char)(x >> 11); } } return s; }
static void enc_dec(const S &s) {
    S e = b64(s); std::vector<char> dst(e.size() + 1, '#'); unsigned char *src = (unsigned char *)malloc(s.size() ? s.size() : 1); memcpy(src, s.data(), s.size());
    char *r = base64_encode(src, s.size(), dst.data(), dst.size()); free(src);
    if (r != dst.data() || S(dst.data(), strnlen(dst.data(), dst.size())) != e) return fail("base64_encode(%s) = %s, expected %s", mc::hex(s.data(), s.size()).c_str(), mc::quote(S(dst.data(), dst.size())).c_str(), e.c_str());
    for (int pad = 0; pad < 2; pad++) {
        S in = e; if (pad) while (!in.empty() && in.back() == '=') in.pop_back();
        unsigned char *h = (unsigned char *)malloc(in.size() ? in.size() : 1); memcpy(h, in.data(), in.size());
        std::vector<char> d(s.size() + 3, '#'); int n = base64_decode(h, in.size(), d.data(), d.size()); free(h);
        if (n != (int)s.size() || memcmp(d.data(), s.data(), n)) return fail("base64_decode(%s) = %d bytes, expected %zu", in.c_str(), n, s.size());
    }
    mc::nontrivial();
}
static void b64_triples(uint64_t i) { for (int b = 0; b < 256 && !mc::failed(); b += (mc::thorough ? 1 : 5)) for (int c = 0; c < 256; c += (mc::thorough ? 1 : 3)) { S s; s += (char)i; s += (char)b; s += (char)c; enc_dec(s); if (mc::failed()) return; } S s(1, (char)i); enc_dec(s); for (int b = 0; b < 256; b++) enc_dec(s + (char)b); }
static void b64_len(uint64_t i) { for (int k = 0; k < 6; k++) enc_dec(pat(i, k)); }
static void b64_limits(uint64_t i) { // every destination size: never writes past it, output is a prefix
    int n = i; S s = pat(n, 3), e = b64(s);
    for (int cap = 0; cap <= (int)e.size() + 2; cap++) {
        char *d = (char *)malloc(cap ? cap : 1); if (cap) memset(d, 0, cap);
        base64_encode((const unsigned char *)s.data(), n, d, cap);
        S got(d, cap ? strnlen(d, cap) : 0); free(d);
        S strip = got; while (!strip.empty() && strip.back() == '=') strip.pop_back();
        S es = e; while (!es.empty() && es.back() == '=') es.pop_back();
        if (es.compare(0, strip.size(), strip)) return fail("base64_encode of %d bytes into %d: %s is not a prefix of %s", n, cap, got.c_str(), e.c_str());
        if (cap > (int)e.size() && got != e) return fail("base64_encode of %d bytes into sufficient %d bytes: %s", n, cap, got.c_str());
        mc::nontrivial();
    }
    for (int cap = 1; cap <= n + 3; cap++) {
        char *d = (char *)malloc(cap); int r = base64_decode((const unsigned char *)e.data(), e.size(), d, cap);
        if (r > cap || r < 0 || memcmp(d, s.data(), r) || (cap >= n && r != n)) { free(d); return fail("base64_decode of %d bytes into %d: returned %d", n, cap, r); }
        free(d); mc::nontrivial();
    }
}
static void b64_garbage(uint64_t i) { // all 2-character texts in a valid frame: never writes out of bounds, stops at the first bad character
    for (int c = 0; c < 256; c++) { S t = "QUJD"; t += (char)i; t += (char)c; t += "RA"; char d[6]; int n = base64_decode((const unsigned char *)t.data(), t.size(), d, sizeof d);
        auto ok = [](int x) { return isalnum(x) || x == '+' || x == '/'; }; int e = ok(i) && ok(c) ? 6 : 3;
        if ((i > 127 && false) || n != e || memcmp(d, "ABC", 3)) return fail("base64_decode(%s) = %d, expected %d", mc::quote(t).c_str(), n, e); mc::nontrivial(); }
}
static void chunks(uint64_t i) { // BLOB and HEX values of every length, printed through every chunk size class
    static const int W[] = {257, 258, 259, 260, 261, 300, 511, 1024, 4097}; int n = i;
    for (int k = 0; k < 4; k++) {
        S s = pat(n, k); int32_t len = n; S bin((char *)&len, 4); bin += s; void *m; if (posix_memalign(&m, 16, bin.size())) return; memcpy(m, bin.data(), bin.size());
        for (int w : W) {
            for (int hexa = 0; hexa < 2; hexa++) {
                char *dst = (char *)malloc(w); S out; int off = 0, guard = 0; bool bad = false;
                for (;;) { memset(dst, '#', w); int l = XBT_ToStringChunk(hexa ? XBT_HEX : XBT_BLOB, (char *)m, off, dst, w); if (l == 0) break; if (l < 0 || l >= w || dst[l] != 0) { bad = true; break; } out.append(dst, l); if (++guard > 5000) { bad = true; break; } }
                free(dst);
                if (bad) { free(m); return fail("%s of %d bytes chunked by %d: bad chunk", hexa ? "HEX" : "BLOB", n, w); }
                S exp = hexa ? mc::hex(s.data(), n) : b64(s);
                if (hexa) { S o; for (char c : out) if (c != '\n') o += c; out = o; }
                if (out != exp) { free(m); return fail("%s of %d bytes chunked by %d gives %zu characters, expected %zu: %s", hexa ? "HEX" : "BLOB", n, w, out.size(), exp.size(), mc::quote(out.substr(0, 100)).c_str()); }
            }
        }
        const char *r = XBT_ToString(XBT_BLOB, (char *)m); if ((r ? S(r) : S()) != b64(s)) { free(m); return fail("XBT_ToString(BLOB of %d bytes) wrong", n); }
        r = XBT_ToString(XBT_HEX, (char *)m); S o; if (r) for (const char *q = r; *q; q++) if (*q != '\n') o += *q; if (o != mc::hex(s.data(), n)) { free(m); return fail("XBT_ToString(HEX of %d bytes) wrong", n); }
        std::ostringstream os; XBT_ToXMLStream(XBT_BLOB, (char *)m, os); if (os.str() != b64(s)) { free(m); return fail("XBT_ToXMLStream(BLOB of %d bytes) wrong", n); }
        std::ostringstream os2; XBT_ToStringStream(XBT_BLOB, (char *)m, os2); if (os2.str() != b64(s)) { free(m); return fail("XBT_ToStringStream(BLOB of %d bytes) wrong", n); }
        S hx = mc::hex(s.data(), n), got; if (n && n <= 512) { // text -> HEX -> same bytes
            if (!from(hx, XBT_HEX, got) || got != bin) { free(m); return fail("HEX text of %d bytes stored differently", n); } }
        std::vector<char> h3(3 * n + 1); Hex3Str(s.data(), n, h3.data()); S e3; for (unsigned char c : s) { char b[4]; sprintf(b, "%02X ", c); e3 += b; } if (e3 != h3.data()) { free(m); return fail("Hex3Str of %d bytes", n); }
        std::vector<char> h2(2 * n + 1); Hex2Str(s.data(), n, h2.data()); if (hx != h2.data()) { free(m); return fail("Hex2Str of %d bytes", n); }
        free(m); mc::nontrivial();
    }
}
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    B64 = boundary64();
    std::vector<mc::Space> s;
    auto n = [](const char *x) { return [x](uint64_t i) { return S(x) + " #" + std::to_string(i); }; };
    s.push_back({"C10.int-range", 512, int32_block, [](uint64_t i) { return "32 bit types, raw values from " + std::to_string((int64_t)i * 256 - 65536); }});
    s.push_back({"C10.int-boundary", B64.size(), bound64, [](uint64_t i) { return "integer types, value " + std::to_string(B64[i]); }});
    if (mc::thorough) s.push_back({"C10.int32-full", 4096, int32_full, n("2^20 consecutive INT32 values, block")});
    s.push_back({"C10.float", 1024, floats, [](uint64_t i) { return "floats at " + std::to_string((int)i - 512); }});
    s.push_back({"C10.texts", 144, text_short, [](uint64_t i) { return S("all texts starting with ") + TA[i % 12] + TA[i / 12]; }});
    s.push_back({"C10.text-limits", B64.size(), text_bound, [](uint64_t i) { return "forms of " + std::to_string(B64[i]); }});
    s.push_back({"C10.text-hex", 4 * 64, text_hex, [](uint64_t i) { return S("edits of ") + HS[i / 64] + " at " + std::to_string(i % 64); }});
    s.push_back({"C10.ipv4", NO * NO, ipv4, [](uint64_t i) { return std::to_string(OCT[i / NO]) + "." + std::to_string(OCT[i % NO]) + ".*.*"; }});
    s.push_back({"C10.ipv4-malformed", 4, ipv4_bad, n("malformed octet at position")});
    s.push_back({"C10.guid-sha1", 20 * 256, fixedhex, [](uint64_t i) { return "byte " + std::to_string(i / 256) + " = " + std::to_string(i % 256); }});
    s.push_back({"C10.string", 256 + 15 + 8, strings, n("string case")});
    s.push_back({"C10.long", (uint64_t)NLONG * NLONG, long_case, [](uint64_t i) { return "values of " + std::to_string(LONGS[i % NLONG]) + " and " + std::to_string(LONGS[i / NLONG]) + " bytes"; }});
    s.push_back({"C10.compare", B64.size(), compare, [](uint64_t i) { return "comparisons with " + std::to_string(B64[i]); }});
    s.push_back({"C11.detect-strings", pw(sizeof AL - 1, DL() - 2), detect_str, n("all continuations of prefix")});
    s.push_back({"C11.detect-shapes", (uint64_t)NS * 48, detect_shape, [](uint64_t i) { return "edits of " + mc::quote(SHAPES[i / 48]) + " at " + std::to_string(i % 48); }});
    s.push_back({"C11.join-algebra", XBT_LAST * XBT_LAST, join_types, [](uint64_t i) { return S(TN(i % XBT_LAST)) + " + " + TN(i / XBT_LAST); }});
    s.push_back({"C11.join-values", (uint64_t)NC * NC * NC, join_values, [](uint64_t i) { return S("column {") + COL[i % NC] + "," + COL[i / NC % NC] + "," + COL[i / NC / NC] + "}"; }});
    s.push_back({"C19.base64-groups", 256, b64_triples, n("all groups starting with byte")});
    s.push_back({"C19.base64-lengths", (uint64_t)(mc::thorough ? 4200 : 700), b64_len, n("length")});
    s.push_back({"C19.base64-limits", 70, b64_limits, n("all destination sizes for source length")});
    s.push_back({"C19.base64-garbage", 256, b64_garbage, n("bad character pairs starting with")});
    s.push_back({"C19.chunked-output", (uint64_t)(mc::thorough ? 9500 : 1100), chunks, n("byte strings of length")});
    return mc::main_(c, v, s);
}

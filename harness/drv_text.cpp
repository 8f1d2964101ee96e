#include <sys/time.h>
// C20: scanning, matching and naming utilities against references written from their meaning.
#include "mc.h"
#include <binary_xml/utils.h>
#include <binary_xml/files.h>
#include <binary_xml/macros.h>
#include <binary_xml/missings.h>
#include <binary_xml/bin_xml_creator.h>
using namespace pklib_xml;
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <memory>
#include <set>
#include <vector>
typedef std::string S;
using mc::fail; using mc::quote;
typedef __int128 I128;
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static uint64_t upto(uint64_t b, int e) { uint64_t n = 0; for (int l = 0; l <= e; l++) n += ipow(b, l); return n; }
static S word(const char *alpha, uint64_t b, uint64_t i) { int l = 0; while (i >= ipow(b, l)) { i -= ipow(b, l); l++; } S s; for (int k = 0; k < l; k++, i /= b) s += alpha[i % b]; return s; }
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static int hx(char c) { return dg(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
struct Txt { char *p; size_t n; explicit Txt(const S &s) : p((char *)malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.c_str(), s.size() + 1); } ~Txt() { free(p); } };
static size_t lead(const S &s) { size_t i = 0; while (i < s.size() && sp(s[i])) i++; return i; }

// ---------------- references: end of the number (0: none) and its value
static size_t number(const S &s, bool sign, int hexa /*0 no, 1 with 0x, 2 plain*/, I128 lo, I128 hi, I128 &v) {
    size_t i = lead(s); bool neg = false; if (sign && i < s.size() && s[i] == '-') { neg = true; i++; } v = 0;
    bool h = hexa == 2; if (hexa == 1 && s.compare(i, 2, "0x") == 0) { h = true; i += 2; }
    size_t b = i; while (i < s.size() && (h ? hx(s[i]) >= 0 : dg(s[i]))) { v = v * (h ? 16 : 10) + hx(s[i]); if (v > (I128)1 << 100) v = (I128)1 << 100; i++; }
    if (i == b) return 0; if (neg) v = -v; return v < lo || v > hi ? 0 : i;
}
template <class T, class F> static bool scan(const char *name, const S &s, size_t end, I128 want, F f) { // F(p, value)
    Txt t(s); auto p = t.p; T v = 77; bool ok = f(p, v); mc::states(1);
    if (ok != (end > 0)) { fail("%s(%s) returns %d", name, quote(s).c_str(), ok); return false; }
    if (ok && ((size_t)(p - t.p) != end || (I128)v != want)) { fail("%s(%s) stops at %zd with %lld, expected %zu with %lld", name, quote(s).c_str(), p - t.p, (long long)v, end, (long long)want); return false; }
    if (!ok && p != t.p && (size_t)(p - t.p) != lead(s)) { fail("%s(%s) fails and moves to %zd", name, quote(s).c_str(), p - t.p); return false; }
    if (S(t.p, t.n) != s) { fail("%s(%s) changes the text", name, quote(s).c_str()); return false; }
    return true;
}
static bool numbers(const S &s) {
    I128 v; size_t e; const I128 M = (I128)1 << 63; auto c = [](auto f) { return [f](char *&p, auto &v) { const char *q = p; bool r = f(q, v); p += q - p; return r; }; };
    e = number(s, true, 0, INT32_MIN, INT32_MAX, v); if (!scan<int>("ScanInt", s, e, v, c([](const char *&p, int &x) { return ScanInt(p, x); })) || !scan<int>("ScanIntW", s, e, v, [](char *&p, int &x) { return ScanIntW(p, x); })) return false;
    e = number(s, true, 0, -M, M - 1, v); if (!scan<int64_t>("ScanInt64", s, e, v, c([](const char *&p, int64_t &x) { return ScanInt64(p, x); })) || !scan<int64_t>("ScanInt64W", s, e, v, [](char *&p, int64_t &x) { return ScanInt64W(p, x); })) return false;
    e = number(s, false, 1, 0, 2 * M - 1, v); if (!scan<uint64_t>("ScanUInt64", s, e, v, c([](const char *&p, uint64_t &x) { return ScanUInt64(p, x); })) || !scan<uint64_t>("ScanUInt64W", s, e, v, [](char *&p, uint64_t &x) { return ScanUInt64W(p, x); })) return false;
    e = number(s, false, 2, 0, 2 * M - 1, v); if (!scan<uint64_t>("ScanUInt64Hex", s, e, v, c([](const char *&p, uint64_t &x) { return ScanUInt64Hex(p, x); }))) return false;
    { size_t hp = lead(s); if (hp < s.size() && s[hp] == '-') hp++; bool h = s.compare(hp, 2, "0x") == 0; const I128 top = h ? UINT32_MAX : INT32_MAX; e = number(s, true, 1, -top, top, v); // hexadecimal numbers may use all 32 bits
      Txt t(s); int g = GetInt(t.p); if (g != (e ? (int)(uint32_t)v : INT_NULL_VALUE)) { fail("GetInt(%s) is %d", quote(s).c_str(), g); return false; } }
    // version: up to four numbers divided by dots, each limited to a byte
    uint32_t want = 0; S r = s; for (int i = 0; i < 4 && !r.empty(); i++) { e = number(r, true, 0, INT32_MIN, INT32_MAX, v); if (!e) break; want |= (uint32_t)std::max<I128>(0, std::min<I128>(255, v)) << (24 - 8 * i); r = r.substr(e); if (r.empty() || r[0] != '.') break; r = r.substr(1); }
    { Txt t(s); uint32_t g = GetVersion(t.p); if (g != want) { fail("GetVersion(%s) is %08x, expected %08x", quote(s).c_str(), g, want); return false; } } return true;
}
static const char A_NUM[] = " \n-019xaFg.:"; // 12
static void c_scan(uint64_t i) { if (!numbers(word(A_NUM, 12, i))) return; mc::nontrivial(); }
static void c_bounds(uint64_t i) { // numbers around the limits, with prefixes and suffixes
    static const int BITS[] = {0, 7, 8, 15, 16, 31, 32, 33, 60, 62, 63, 64, 65, 68, 90}; int d = (int)(i % 41) - 20; i /= 41; int b = BITS[i % 15]; i /= 15; bool neg = i % 2; i /= 2; static const char *PRE[] = {"", " ", "\t\n", "0", "000000000000000000000000", "-"}; S pre = PRE[i % 6]; i /= 6; static const char *SUF[] = {"", " ", "0", "9", ".", "x", "f", "-1"}; S suf = SUF[i % 8]; i /= 8; bool hexa = i % 2;
    I128 v = ((I128)1 << b) + d; if (v < 0) return; S t; if (hexa) { I128 x = v; do { t = S(1, "0123456789abcdef"[(int)(x & 15)]) + t; x >>= 4; } while (x); t = "0x" + t; } else { I128 x = v; do { t = S(1, '0' + (int)(x % 10)) + t; x /= 10; } while (x); }
    for (const S &s : {pre + (neg ? "-" : "") + t + suf, hexa ? pre + t.substr(2) + suf : pre + t + "0" + suf}) if (!numbers(s)) return; mc::nontrivial();
}
static void c_print(uint64_t i) { // Int64ToStr
    for (int d = -3; d <= 3; d++) for (int sgn = 0; sgn < 2; sgn++) { int64_t v = i < 64 ? (int64_t)(((uint64_t)1 << i) + d) : (int64_t)((uint64_t)ipow(10, i - 64) + d); if (sgn) v = (int64_t)(0 - (uint64_t)v); char40_t b; char e[40]; snprintf(e, 40, "%lld", (long long)v); const char *g = Int64ToStr(v, b); if (!g || strcmp(g, e)) return fail("Int64ToStr(%s) is %s", e, g ? g : "NULL"); mc::nontrivial(); }
}

// ---------------- cursor functions and words
static const char A_TXT[] = " \nab1_-."; // 8
static bool words(const S &s) {
    size_t l = lead(s); { Txt t(s); const char *p = t.p; SkipSpaces(p); char *q = t.p; SkipSpacesW(q); if ((size_t)(p - t.p) != l || q != p) { fail("SkipSpaces(%s) stops at %zd", quote(s).c_str(), p - t.p); return false; } }
    { Txt t(s); const char *p = t.p; char *w = t.p; bool a = SkipLine(p), b = SkipLineW(w); size_t n = s.find('\n'); bool has = n != S::npos; if (a != has || b != has || (size_t)(p - t.p) != (has ? n + 1 : s.size()) || w != p) { fail("SkipLine(%s) gives %d at %zd", quote(s).c_str(), a, p - t.p); return false; } }
    for (char c : S(" \na-.x")) { Txt t(s); const char *p = t.p; bool a = Go(p, c); size_t n = s.find(c); if (a != (n != S::npos) || (size_t)(p - t.p) != (a ? n + 1 : s.size())) { fail("Go(%s,'%c') gives %d at %zd", quote(s).c_str(), c, a, p - t.p); return false; } }
    for (char c : S(" a-.\n")) for (unsigned z = 1; z <= 6; z++) { // next word
        size_t e = l; while (e < s.size() && !(c == ' ' ? sp(s[e]) : s[e] == c)) e++; S w = s.substr(l, e - l).substr(0, z - 1); size_t to = e + (e < s.size());
        for (int wr = 0; wr < 2; wr++) { Txt t(s); char *b = (char *)malloc(z); memset(b, '#', z); const char *p = t.p; char *q = t.p; bool r = wr ? ScanStrW(q, c, b, z) : ScanStr(p, c, b, z); size_t at = (wr ? q : p) - t.p; bool term = memchr(b, 0, z); S g = term ? b : "?"; free(b); if (!term || g != w || r != !w.empty() || at != to) { fail("ScanStr%s(%s,'%c',%u) gives %d %s at %zu", wr ? "W" : "", quote(s).c_str(), c, z, r, quote(g).c_str(), at); return false; } }
    }
    for (const char *pre : {"", "a", "b", "ab", "1", "-", " ", "a ", "aa", ".b"}) { S q = pre; bool has = s.compare(l, q.size(), q) == 0; if (s.size() - l < q.size()) has = false; for (int wr = 0; wr < 2; wr++) { Txt t(s), u(q); const char *p = t.p; char *x = t.p; bool r = wr ? ScanW(x, u.p) : Scan(p, u.p); size_t at = (wr ? x : p) - t.p; if (r != has || (r ? at != l + q.size() : at != 0 && at != l)) { fail("Scan%s(%s,%s) gives %d at %zu", wr ? "W" : "", quote(s).c_str(), quote(q).c_str(), r, at); return false; } } }
    { size_t e = 0; if (!s.empty() && (al(s[0]) || s[0] == '_')) while (e < s.size() && (al(s[e]) || dg(s[e]) || s[e] == '_')) e++; Txt t(s); int g = GetIdentLen(t.p); if (g != (int)e) { fail("GetIdentLen(%s) is %d", quote(s).c_str(), g); return false; } }
    for (const char *end : {"", "a", "b", "ab", ".a", " ", "1_", "aab"}) { S q = end; bool has = s.size() >= q.size() && s.substr(s.size() - q.size()) == q; Txt t(s), u(q); bool r = EatEnd(t.p, u.p); if (r != has || S(t.p) != (has ? s.substr(0, s.size() - q.size()) : s)) { fail("EatEnd(%s,%s) gives %d %s", quote(s).c_str(), quote(q).c_str(), r, quote(t.p).c_str()); return false; } }
    for (const char *other : {"", "a", "b1", " "}) { Txt t(s), u(other); if (streq(t.p, u.p) != (s == other) || streq(u.p, t.p) != (s == other)) { fail("streq(%s,%s)", quote(s).c_str(), quote(other).c_str()); return false; } } { Txt t(s); if (streq(t.p, nullptr) != s.empty() || streq(nullptr, t.p) != s.empty() || !streq(nullptr, nullptr)) { fail("streq(%s,NULL)", quote(s).c_str()); return false; } }
    mc::states(60); return true;
}
static void c_words(uint64_t i) { if (!words(word(A_TXT, 8, i))) return; mc::nontrivial(); }
// ---------------- identifiers
static S ident(const S &s, const S &style) {
    bool under = style.find('_') != S::npos, up = style.find('U') != S::npos, all = style.find("U!") != S::npos, next = up; S r; size_t i = 0; if (!s.empty() && dg(s[0])) { r = S("_") + s[0]; i = 1; }
    while (i < s.size() && r.size() < 63) { char c = s[i]; if (al(c) || c == '_' || (dg(c) && !r.empty())) { bool u = next || all; if (u) next = false; r += u && c >= 'a' && c <= 'z' ? (char)(c - 32) : c; i++; if (all) next = next && false; }
        else if (sp(c) || c == '-') { if (under || c == '-') r += '_'; else if (up) next = true; while (i < s.size() && (sp(s[i]) || s[i] == '-')) i++; } else i++; }
    return r;
}
static const char *STY[] = {"", "_", "U", "U!", "_U", "_U!"};
static bool identifiers(const S &s) { for (const char *st : STY) { Txt t(s); S g = MakeIdent(t.p, st), w = ident(s, st); mc::states(1); if (g != w) { fail("MakeIdent(%s,\"%s\") is %s, expected %s", quote(s).c_str(), st, quote(g).c_str(), quote(w).c_str()); return false; } if (!g.empty() && GetIdentLen(g.c_str()) != (int)g.size()) { fail("MakeIdent(%s,\"%s\") is no identifier: %s", quote(s).c_str(), st, quote(g).c_str()); return false; } } return true; }
static const char A_ID[] = "aZ7_ -!\xc3"; // 8
static void c_ident(uint64_t i) { if (!identifiers(word(A_ID, 8, i))) return; mc::nontrivial(); }
static void c_longid(uint64_t i) { int n = i % 140; S s; for (int k = 0; k < n; k++) s += "abcdefghij "[(k * (1 + i / 140) + i / 140) % 11]; for (const char *pre : {"", "9", "-", " 5"}) if (!identifiers(pre + s)) return; mc::nontrivial(); }
// ---------------- masks
static const char A_MASK[] = "ab*?", A_VAL[] = "ab*";
static bool match(const S &m, const S &v) { std::vector<std::vector<char>> d(m.size() + 1, std::vector<char>(v.size() + 1)); for (int i = m.size(); i >= 0; i--) for (int j = v.size(); j >= 0; j--) d[i][j] = i == (int)m.size() ? j == (int)v.size() : m[i] == '*' ? d[i + 1][j] || (j < (int)v.size() && d[i][j + 1]) : j < (int)v.size() && (m[i] == '?' || m[i] == v[j]) && d[i + 1][j + 1]; return d[0][0]; }
static int ML() { return mc::thorough ? 7 : 6; }
static void c_mask(uint64_t i) { S m = word(A_MASK, 4, i); Txt t(m); for (uint64_t k = 0; k < upto(3, ML()); k++) { S v = word(A_VAL, 3, k); Txt u(v); bool g = AdvEqual(t.p, u.p), w = match(m, v); mc::states(1); if (g != w) return fail("AdvEqual(%s,%s) is %d", quote(m).c_str(), quote(v).c_str(), g); if (w) mc::nontrivial(); if (!AdvEqual(nullptr, u.p)) return fail("no mask does not match"); } }
// ---------------- StrWrite
static void c_write(uint64_t i) { // space, source length, taken length (or none), filled before
    int space = i % 9; i /= 9; int n = i % 9; i /= 9; int lim = (int)(i % 10) - 1; i /= 10; if (lim > n) return; S src; for (int k = 0; k < n; k++) src += 'a' + k; Txt t(src); char *d = (char *)malloc(space + 1); memset(d, '#', space + 1); char *w = d; const char *p = t.p; int want = lim < 0 ? n : lim;
    bool r = StrWrite(w, d + space, p, lim < 0 ? nullptr : t.p + lim); bool fits = want <= space; S got(d, space + 1), exp = fits ? src.substr(0, want) + S(space + 1 - want, '#') : S(space + 1, '#'); bool same = got == exp; size_t wa = w - d; free(d);
    if (r != fits) return fail("StrWrite of %d to %d gives %d", want, space, r); if (!same) return fail("StrWrite of %d to %d stores wrong bytes", want, space); if (wa != (size_t)(fits ? want : 0) || p != t.p + (fits ? want : 0)) return fail("StrWrite of %d to %d%s moves to %zu and %zd", want, space, lim < 0 ? " without limit" : "", wa, p - t.p); mc::nontrivial();
}
// ---------------- file names
static const char *COMP[] = {"a", "b.c", "d.e.f", ".h", "x.", "dir", "k.xml", ""};
static const char *EXT[] = {nullptr, ".xb", "", ".long.ext", "z"};
static const char *TGT[] = {nullptr, "t", "t/u.v", "/abs/t"};
static const char *PREF[] = {"", "/", "./", "././", "../"};
static uint64_t name_count() { return 5 * 4 * 5 * (8 + 64 + 512); }
static void c_names(uint64_t i) {
    const char *ext = EXT[i % 5]; i /= 5; const char *tgt = TGT[i % 4]; i /= 4; S name = PREF[i % 5]; i /= 5; int l = 1; while (i >= ipow(8, l)) { i -= ipow(8, l); l++; } for (int k = 0; k < l; k++, i /= 8) { if (k) name += '/'; name += COMP[i % 8]; }
    S w = name; while (w.compare(0, 2, "./") == 0) w = w.substr(2); if (tgt) { if (!w.empty() && w[0] == '/') w = w.substr(1); w = S(tgt) + "/" + w; }
    if (ext) { size_t slash = w.rfind('/'), dot = w.rfind('.'); if (dot != S::npos && (slash == S::npos || dot > slash)) w = w.substr(0, dot); w += ext; }
    struct Src : Bin_src_plugin { Src(const char *f) : Bin_src_plugin(f, nullptr) {} void *getRoot() override { return Bin_src_plugin::getRoot(); } const char *getNodeName(void *) override { return ""; } const char *getNodeValue(void *) override { return nullptr; } void ForAllChildren(OnElement_t, void *, void *) override {} void ForAllChildrenRecursively(OnElementRec_t, void *, void *, int) override {} void ForAllParams(OnParam_t, void *, void *) override {} };
    { S plain = name; while (plain.compare(0, 2, "./") == 0) plain = plain.substr(2); Src P(name.c_str()); if (plain != P.getFilename()) return fail("plugin of %s has file name %s", quote(name).c_str(), P.getFilename()); P.setFilename(name.c_str(), ext, tgt); if (w != P.getFilename()) return fail("setFilename(%s) gives %s", quote(name).c_str(), P.getFilename()); 
        P.setFilenameFmt("%s%d", name.c_str(), 7); if (plain + "7" != P.getFilename()) return fail("setFilenameFmt(%s) gives %s", quote(name).c_str(), P.getFilename()); XML_Binary_Type ty = XBT_NULL; int z = 5; if (P.getRoot() || P.getSymbolCount(SYMBOL_TABLE_NODES) != -1 || P.getSymbol(SYMBOL_TABLE_NODES, 0, ty) || ty != XBT_UNKNOWN || P.getNodeBinValue(nullptr, ty, z) || z != 0) return fail("a plugin without content has content"); }
    Txt t(name); char *g = AllocFilenameChangeExt(t.p, ext, tgt); if (!g) return fail("AllocFilenameChangeExt(%s) is NULL", quote(name).c_str()); S got = g; delete[] g; if (got != w) return fail("AllocFilenameChangeExt(%s,%s,%s) is %s, expected %s", quote(name).c_str(), ext ? ext : "-", tgt ? tgt : "-", quote(got).c_str(), quote(w).c_str()); mc::nontrivial();
}
// names around the longest possible path: exact while they fit, never longer than a path, nothing written elsewhere
static const int LN[] = {0, 1, 2, 100, 2000, 4000, 4085, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 9000};
static void c_longname(uint64_t i) {
    int n = LN[i % 19]; i /= 19; int d = (int)(i % 20) - 1; const char *ext = EXT[i / 20]; S name, tgt; for (int k = 0; k < n; k++) name += k % 50 == 49 && k + 1 < n ? '/' : (char)('a' + k % 26); if (d >= 0) for (int k = 0; k < LN[d]; k++) tgt += k % 40 == 39 && k + 1 < LN[d] ? '/' : (char)('A' + k % 26);
    S w = d >= 0 ? tgt + "/" + name : name; Txt t(name), u(tgt); char *g = AllocFilenameChangeExt(t.p, ext, d >= 0 ? u.p : nullptr); if (!g) return fail("AllocFilenameChangeExt is NULL"); S got = g; delete[] g;
    if (w.size() < PATH_MAX) { if (got != w + (ext ? ext : "")) return fail("a name of %zu characters becomes %zu characters", w.size(), got.size()); mc::nontrivial(); } else if (got.size() >= PATH_MAX + (ext ? strlen(ext) : 0)) return fail("a name of %zu characters becomes %zu characters", w.size(), got.size());
    mc::states(1);
}
// ---------------- directories
static S tree(const S &d) { S r; std::set<S> v; if (DIR *D = opendir(d.c_str())) { while (dirent *e = readdir(D)) { S n = e->d_name; if (n != "." && n != "..") v.insert(n); } closedir(D); } for (auto &n : v) { S p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) r += n + "(" + tree(p) + ")"; else r += n + " "; } return r; }
static void wipe(const S &d) { if (DIR *D = opendir(d.c_str())) { while (dirent *e = readdir(D)) { S n = e->d_name; if (n == "." || n == "..") continue; S p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(D); } }
static void c_dirs(uint64_t i) { // force_directory: path of components, what is there before
    int from = i % 3; i /= 3; int before = i % 7; i /= 7; bool slash = i % 2; i /= 2; int l = 1; while (i >= ipow(3, l)) { i -= ipow(3, l); l++; } std::vector<S> c; for (int k = 0; k < l; k++, i /= 3) c.push_back((from == 1 ? S() : S("x")) + (from == 1 ? "abc" : "yz.")[i % 3]); // from the working directory with the shortest names, absolute
    mkdir("D", 0700); wipe("D"); mkdir("D2", 0700); wipe("D2"); char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return fail("getcwd"); S path = from == 1 ? "" : from == 2 ? S(cwd) + "/D" : S("D"); for (auto &x : c) path += (path.empty() ? "" : "/") + x; if (slash) path += "/"; size_t dirs = c.size() - !slash; // the last one is a file name
    // before: 0-3 so many directories; 4 a file, 5 a link to a directory, 6 a link to nothing in place of the first
    size_t have = before >= 4 ? 0 : std::min<size_t>(before, c.size()); bool other = before >= 4 && dirs > 0; S p = "D", first = "D/" + c[0]; for (size_t k = 0; k < have; k++) { p += "/" + c[k]; mkdir(p.c_str(), 0700); }
    if (other && before == 4) mc::writefile(first, "file"); if (other && before == 5 && symlink("../D2", first.c_str())) return fail("symlink"); if (other && before == 6 && symlink("nowhere", first.c_str())) return fail("symlink");
    Txt t(path); if (from == 1 && chdir("D")) return fail("chdir"); bool r = force_directory(t.p, 0700); if (from == 1 && chdir(cwd)) return fail("chdir"); bool want = !other || before == 5; S exp, exp2; size_t made = std::max(have, other ? 0 : dirs); for (int k = (int)made - 1; k >= 0; k--) exp = c[k] + "(" + exp + ")"; if (other) exp = c[0] + " "; if (other && before == 5) for (int k = (int)dirs - 1; k >= 1; k--) exp2 = c[k] + "(" + exp2 + ")";
    S got = tree("D"), got2 = tree("D2"); wipe("D"); wipe("D2"); if (r != want) return fail("force_directory(%s) gives %d with %s there", path.c_str(), r, !other ? "directories" : before == 4 ? "a file" : before == 5 ? "a link to a directory" : "a link to nothing"); if (got != exp || got2 != exp2) return fail("force_directory(%s) leaves %s and %s, expected %s and %s", path.c_str(), got.c_str(), got2.c_str(), exp.c_str(), exp2.c_str()); mc::nontrivial();
}
struct Seen { std::vector<S> v; int stop; bool bad; };
static bool on_file(const char *dir, const char *name, void *u, uint8_t type) { Seen *s = (Seen *)u; if (strcmp(dir, "D") || (type == DT_DIR) != (name[strlen(name) - 1] == 'D')) s->bad = true; s->v.push_back(name); errno = 1 + (int)s->v.size(); return (int)s->v.size() != s->stop; }
static void c_scandir(uint64_t i) { // every subset of names, every point of stopping
    static const char *N[] = {"a", ".h", "..x", "...", "subD", ".hidD", "long_name_of_a_file_with.ext"}; int set = i % 128, stop = i / 128; std::set<S> w; mkdir("D", 0700); wipe("D"); for (int k = 0; k < 7; k++) if (set >> k & 1) { S p = S("D/") + N[k]; w.insert(N[k]); if (p.back() == 'D') mkdir(p.c_str(), 0700); else mc::writefile(p, "1"); }
    Seen s{{}, stop, false}; bool r = scan_dir("D", &s, on_file); wipe("D"); std::set<S> got(s.v.begin(), s.v.end()); if (!r || s.bad) return fail("scan_dir gives %d", r); if (got.size() != s.v.size()) return fail("scan_dir repeats a name"); size_t n = stop && stop <= (int)w.size() ? stop : w.size(); if (s.v.size() != n) return fail("scan_dir visits %zu of %zu names, stopped at %d", s.v.size(), w.size(), stop); for (auto &x : got) if (!w.count(x)) return fail("scan_dir visits %s", x.c_str()); mc::nontrivial();
}
// ---------------- whole files
static void c_files(uint64_t i) { // size of content
    size_t n = i; S c; for (size_t k = 0; k < n; k++) c += (char)(k * 37 + k / 256); mc::writefile("f", c);
    if (FileGetSize("f") != (off_t)n || file_getsize("f") != (off_t)n || !file_exists("f") || file_gettime("f") <= 0) return fail("size of a file of %zu bytes", n); static const time_t TM[] = {1, 86400, 1000000001, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 7000000000ll}; for (time_t t : TM) { timeval tv[2] = {{t + 5, 0}, {t, 999999}}; struct stat st; if (utimes("f", tv) || stat("f", &st)) return fail("utimes"); if (file_gettime("f") != st.st_mtime) return fail("time of a file modified at %lld is %lld", (long long)st.st_mtime, (long long)file_gettime("f")); } int fd = open("f", O_RDONLY); off_t z = FileGetSizeByFd(fd); close(fd); if (z != (off_t)n) return fail("FileGetSizeByFd of %zu bytes is %lld", n, (long long)z);
    int size = -5; char *d = ReadFile("f", true, &size); if (!d && n) return fail("ReadFile of %zu bytes", n); if (d) { bool ok = size == (int)n && !memcmp(d, c.data(), n) && d[n] == 0; delete[] d; if (!ok) return fail("ReadFile of %zu bytes gives %d bytes or other content", n, size); }
    for (size_t k : {(size_t)0, n / 2, n, n + 1, n + 100}) { char *b = (char *)malloc(k + 1); memset(b, '#', k + 1); int r = file_get_contents("f", b, k); size_t w = std::min(n, k); bool ok = r == (int)w && !memcmp(b, c.data(), w) && b[k] == '#' && S(b + w, k - w) == S(k - w, '\0'); free(b); if (!ok) return fail("file_get_contents of %zu from %zu bytes gives %d", k, n, r); }
    if (n) { fd = -1; char *m = ShareFileRO("f", &fd, n); if (!m || memcmp(m, c.data(), n)) return fail("ShareFileRO of %zu bytes", n); CloseSharedFile(m, n, fd, "f"); m = ShareFileRW("f", true, &fd, n); if (!m) return fail("ShareFileRW"); m[n - 1] ^= 1; CloseSharedFile(m, n, fd, "f"); c[n - 1] ^= 1; if (mc::readfile("f") != c) return fail("a change through ShareFileRW is lost"); }
    S t; for (size_t k = 0; k < n; k++) t += "ab%\n"[k % 4]; if (!WriteToFile("g", "%s%d", t.c_str(), 42) || mc::readfile("g") != t + "42") return fail("WriteToFile of %zu bytes", n);
    if (i == 0) { mkdir("dd", 0700); int fd2 = open("dd", O_RDONLY | O_DIRECTORY); off_t q = FileGetSizeByFd(fd2); close(fd2); int z2 = 7; char *r = ReadFile("dd", true, &z2); if (q != -1 || FileGetSize("dd") != -1 || r) return fail("a directory is taken as a file"); rmdir("dd"); }
    unlink("f"); unlink("g"); if (file_exists("f") || FileGetSize("f") != -1 || file_getsize("f") != -1 || file_gettime("f") != -1) return fail("a missing file"); size = 3; if (ReadFile("f", false, &size)) return fail("a missing file is read"); mc::nontrivial();
}
static std::function<S(uint64_t)> w(const char *what, const char *a, int b) { S s = what; return [=](uint64_t i) { return s + quote(word(a, b, i)); }; }
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }; auto n = [](const char *x) { S t = x; return [t](uint64_t i) { return t + " #" + std::to_string(i); }; };
    s.push_back({"C20.numbers", upto(12, mc::thorough ? 7 : 6), c_scan, w("text ", A_NUM, 12), quiet});
    s.push_back({"C20.bounds", 41 * 15 * 2 * 6 * 8 * 2, c_bounds, n("number"), quiet});
    s.push_back({"C20.print", 64 + 19, c_print, n("power"), quiet});
    s.push_back({"C20.words", upto(8, mc::thorough ? 7 : 6), c_words, w("text ", A_TXT, 8), quiet});
    s.push_back({"C20.ident", upto(8, mc::thorough ? 8 : 7), c_ident, w("text ", A_ID, 8), quiet});
    s.push_back({"C20.longident", 140 * 5, c_longid, n("text"), quiet});
    s.push_back({"C20.mask", upto(4, ML()), c_mask, w("mask ", A_MASK, 4), quiet});
    s.push_back({"C20.strwrite", 9 * 9 * 10, c_write, n("case"), quiet});
    s.push_back({"C20.names", name_count(), c_names, n("name"), quiet});
    s.push_back({"C20.longnames", 19 * 20 * 5, c_longname, n("name"), quiet});
    s.push_back({"C20.dirs", 3 * 7 * 2 * (3 + 9 + 27 + 81), c_dirs, n("directory"), quiet});
    s.push_back({"C20.scandir", 128 * 9, c_scandir, n("directory"), quiet});
    s.push_back({"C20.files", (uint64_t)(mc::thorough ? 100000 : 9000), c_files, n("file of size"), quiet});
    return mc::main_(c, v, s);
}

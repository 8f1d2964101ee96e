// C14 (JSON): every JSON text of bounded families is read by the JSON source plugin, converted to .xb, packed .xb and .xbw, opened
// directly by the reader and streamed; every result is compared with the tree an independent RFC 8259 parser gives. Texts which are
// not JSON must be refused or accepted without any crash, abort, hang or memory error.
#include "tree.h"
#include <sys/resource.h>
#include <binary_xml/bin_json_plugin.h>
#include <binary_xml/bin_xml_plugin.h>

// ---------------- reference: strict JSON parser
struct J { char k = 0; S v; std::vector<std::pair<S, J>> m; };  // k: '{' '[' 's' 'p'
static void utf8(unsigned c, S &o) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
struct Ref {
    const S &t; size_t p = 0; int max_deep = 0; explicit Ref(const S &x) : t(x) {}
    void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) p++; }
    int hex4(size_t q) { if (q + 4 > t.size()) return -1; int r = 0; for (int i = 0; i < 4; i++) { char c = t[q + i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; r = r * 16 + d; } return r; }
    bool str(S &o) {
        o.clear(); if (p >= t.size() || t[p] != '"') return false; p++;
        for (;;) { if (p >= t.size()) return false; unsigned char c = t[p]; if (c == '"') { p++; return true; } if (c < 0x20) return false; if (c != '\\') { o += (char)c; p++; continue; }
            if (++p >= t.size()) return false; c = t[p]; static const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t"; const char *f = strchr(from, c); if (c && f) { o += to[f - from]; p++; continue; } if (c != 'u') return false;
            int h = hex4(p + 1); if (h < 0) return false;
            if (h >= 0xD800 && h < 0xDC00 && p + 6 < t.size() && t[p + 5] == '\\' && t[p + 6] == 'u') { int l = hex4(p + 7); if (l >= 0xDC00 && l < 0xE000) { utf8(0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00), o); p += 11; continue; } }
            if (h == 0 || (h >= 0xD800 && h < 0xE000)) o += t.substr(p - 1, 6); else utf8(h, o);  // not representable in a text: stays escaped
            p += 5; }
    }
    bool num(S &o) { size_t b = p; auto dg = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }; if (p < t.size() && t[p] == '-') p++; if (!dg()) return false; if (t[p] == '0') p++; else while (dg()) p++; if (p < t.size() && t[p] == '.') { p++; if (!dg()) return false; while (dg()) p++; } if (p < t.size() && (t[p] | 32) == 'e') { p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dg()) return false; while (dg()) p++; } o = t.substr(b, p - b); return true; }
    bool value(J &j, int deep) {
        if (deep > max_deep) max_deep = deep; ws(); if (p >= t.size()) return false; char c = t[p];
        if (c == '"') { j.k = 's'; return str(j.v); }
        if (c == '{' || c == '[') { j.k = c; p++; ws(); char e = c == '{' ? '}' : ']'; if (p < t.size() && t[p] == e) { p++; return true; }
            for (;;) { j.m.emplace_back(); ws(); if (c == '{') { if (!str(j.m.back().first)) return false; ws(); if (p >= t.size() || t[p] != ':') return false; p++; } if (!value(j.m.back().second, deep + 1)) return false; ws(); if (p >= t.size()) return false; if (t[p] == e) { p++; return true; } if (t[p] != ',') return false; p++; } }
        j.k = 'p'; for (const char *w : {"true", "false", "null"}) if (t.compare(p, strlen(w), w) == 0) { j.v = w; p += strlen(w); return true; }
        return num(j.v);
    }
    bool all(J &j) { if (!value(j, 0)) return false; ws(); return p == t.size(); }
};
static const char *UNNAMED = "NULL";
static S item_name(const S &k) { size_t n = k.size(); if (n && k[n - 1] == 's') return k.substr(0, n - 1); if (n > 4 && k.substr(n - 4) == "List") return k.substr(0, n - 4); return k + "Item"; }
static void doc_of_json(const J &j, const S &name, const S &items, Doc &d) {
    d.name = name; if (j.k == 's' || j.k == 'p') { d.val = j.v; return; }
    for (auto &m : j.m) { d.ch.emplace_back(); if (j.k == '{') doc_of_json(m.second, m.first, item_name(m.first), d.ch.back()); else doc_of_json(m.second, items, "__ARRAY_ITEM_NAME__", d.ch.back()); }
}
// ---------------- comparison of the source plugin
struct Seen { Bin_src_plugin *P; std::vector<std::pair<S, S>> *o; };
static S nm(const char *s) { return s ? S(s) : S(UNNAMED); }
static bool same_src(Bin_src_plugin &P, void *e, const Doc &d) {
    const char *n = P.getNodeName(e), *v = P.getNodeValue(e);  // name stays valid together with value
    if (nm(n) != d.name) TBAD("source plugin: element is named %s, expected %s", shrt(nm(n)).c_str(), shrt(d.name).c_str());
    if (S(v ? v : "") != d.val) TBAD("source plugin: value of %s is %s, expected %s", shrt(d.name).c_str(), shrt(v ? v : "").c_str(), shrt(d.val).c_str());
    if (v && !d.ch.empty()) TBAD("source plugin: %s has value and children", shrt(d.name).c_str());
    std::vector<void *> k; P.ForAllChildren([](void *x, void *u) { ((std::vector<void *> *)u)->push_back(x); }, e, &k);
    if (k.size() != d.ch.size()) TBAD("source plugin: %s has %zu children, expected %zu", shrt(d.name).c_str(), k.size(), d.ch.size());
    int np = 0; P.ForAllParams([](const char *, const char *, void *, void *u) { ++*(int *)u; }, e, &np); if (np) TBAD("source plugin: %s has attributes", shrt(d.name).c_str());
    for (size_t i = 0; i < k.size(); i++) if (!same_src(P, k[i], d.ch[i])) return false;
    mc::states(1); return true;
}
static void flat(const Doc &d, int deep, std::vector<std::pair<S, int>> &o) { o.push_back({d.name, deep}); for (auto &c : d.ch) flat(c, deep + 1, o); }
struct BW : BW_plugin { using BW_plugin::BW_plugin; };
static bool same_bw(BW &W, BW_element *e, const Doc &d) {
    if (d.name != e->getName()) TBAD(".xbw: element is named %s, expected %s", shrt(e->getName()).c_str(), shrt(d.name).c_str());
    if (!(e->flags & BIN_WRITE_ELEMENT_FLAG) || e->first_attribute) TBAD(".xbw: %s is not an element without attributes", shrt(d.name).c_str());
    XML_Binary_Type t = (XML_Binary_Type)e->value_type; const char *g = t == XBT_NULL ? "" : XBT_ToString(t, (char *)(e + 1)); S got = g ? g : "";
    if (!same_text(got, d.val, t) || got.empty() != d.val.empty()) TBAD(".xbw: value %s of %s comes out as %s (type %s)", shrt(d.val).c_str(), shrt(d.name).c_str(), shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t]);
    size_t i = 0; { BW_FOREACH2(e, x) { if (i >= d.ch.size()) TBAD(".xbw: %s has more than %zu children", shrt(d.name).c_str(), i); if (!same_bw(W, x, d.ch[i++])) return false; } }
    if (i != d.ch.size()) TBAD(".xbw: %s has %zu children, expected %zu", shrt(d.name).c_str(), i, d.ch.size());
    mc::states(1); return true;
}
static bool utf8_ok(const S &s) { for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1; if (n < 0) return false; while (n--) if (++i >= s.size() || ((unsigned char)s[i] & 0xC0) != 0x80) return false; } return s.find("\xef\xbf\xbf") == S::npos && s.find("\xef\xbf\xbe") == S::npos; }
static bool xml_able(const Doc &d) { if (!utf8_ok(d.val)) return false; if (d.name.empty() || !(isalpha((unsigned char)d.name[0]) || d.name[0] == '_')) return false; for (char c : d.name) if (!isalnum((unsigned char)c) && c != '_') return false; for (unsigned char c : d.val) if (c < 32 && c != '\t' && c != '\n') return false; for (auto &c : d.ch) if (!xml_able(c)) return false; return true; }
static bool same_tree(XB_reader &R, const Doc &d) { Cols cols; columns(d, cols); Walk w; w.R = &R; w.cols = &cols; return same_item(w, R.getRoot(), d); }
struct Rd { char fn[4200]; XB_reader R; bool ok; Rd(const char *f) : R((strcpy(fn, f), fn)) { R.verbosity = 0; ok = R.Initialize(); } ~Rd() { R.Finalize(); } };
enum { XBW = 1, ALL = 1 };
static bool check_valid(const S &text, const Doc &d, int what) {
    bool xml = xml_able(d);
    { Bin_json_plugin P("d.json", nullptr);
      for (int again = 0; again < 2; again++) { if (!P.Initialize()) TBAD("source plugin refuses it"); if (!same_src(P, P.getRoot(), d)) return false; }
      struct C { Bin_src_plugin *P; std::vector<std::pair<S, int>> o; } c{&P, {}}; P.ForAllChildrenRecursively([](void *e, void *u, int deep) { C *c = (C *)u; c->o.push_back({nm(c->P->getNodeName(e)), deep}); }, P.getRoot(), &c, 0);
      std::vector<std::pair<S, int>> want; flat(d, 0, want); if (c.o != want) TBAD("ForAllChildrenRecursively visits other elements than the document has");
      std::ostringstream o; o << (Bin_src_plugin &)P; if (xml && !same_xml(o.str(), d, "XML written from JSON")) return false; }
    { Bin_xml_creator C("d.json", "d.xb"); if (!C.DoAll()) TBAD("conversion to .xb failed"); Rd r("d.xb"); if (!r.ok) TBAD("reader refuses the converted .xb"); if (!same_tree(r.R, d)) return false; std::ostringstream o; o << r.R; if (xml && !same_xml(o.str(), d, "XML written from .xb")) return false; }
    { Rd r("d.json"); if (!r.ok) TBAD("reader refuses the .json opened directly"); if (!same_tree(r.R, d)) return false; }
    if (what & XBW) {
        { Bin_xml_creator C("d.json", "d.xbw", XBTARGET_XBW); if (!C.DoAll()) TBAD("conversion to .xbw failed"); }
        { BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize()) TBAD("the .xbw file cannot be opened"); BW_element *r = (BW_element *)W.getRoot(); if (!r) TBAD("the .xbw file has no root"); if (!same_bw(W, r, d)) return false; std::ostringstream o; o << W; if (xml && !same_xml(o.str(), d, "XML written from .xbw")) return false; W.Finalize(); }
        { Bin_xml_packer C("d.xbw", "b.xb"); if (!C.DoAll()) TBAD("conversion of .xbw to .xb failed"); Rd r("b.xb"); if (!r.ok) TBAD("reader refuses .xb converted from .xbw"); if (!same_tree(r.R, d)) return false; }
    }
    mc::nontrivial(); return true;
}
static const int MAX_SURE = 1000;
static bool check_text(const S &text, bool *was_valid = nullptr) {
    if (!mc::writefile("d.json", text)) TBAD("cannot write d.json");
    J j; Ref ref(text); bool valid = ref.all(j); if (was_valid) *was_valid = valid;
    if (valid && ref.max_deep <= MAX_SURE) { Doc d; doc_of_json(j, UNNAMED, UNNAMED, d); return check_valid(text, d, ALL); }
    bool ok; { Bin_json_plugin P("d.json", nullptr); ok = P.Initialize();
      if (ok) { struct C { Bin_src_plugin *P; size_t n; } c{&P, 0}; P.ForAllChildrenRecursively([](void *e, void *u, int) { C *c = (C *)u; const char *n = c->P->getNodeName(e), *v = c->P->getNodeValue(e); c->n += n ? strlen(n) : 0; c->n += v ? strlen(v) : 0; }, P.getRoot(), &c, 0); std::ostringstream o; o << (Bin_src_plugin &)P; } }
    { Bin_xml_creator C("d.json", "d.xb"); bool a = C.DoAll(); if (a != ok) TBAD("source plugin %s it but conversion %s", ok ? "accepts" : "refuses", a ? "succeeds" : "fails"); if (a) { Rd r("d.xb"); if (!r.ok) TBAD("reader refuses the converted .xb"); std::ostringstream o; o << r.R; } }
    if (ok) { { Bin_xml_creator C("d.json", "d.xbw", XBTARGET_XBW); if (!C.DoAll()) TBAD("conversion to .xb succeeds but to .xbw fails"); } BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize() || !W.getRoot()) TBAD("the .xbw file cannot be opened"); W.Finalize(); }
    mc::transitions(1); return true;
}
static void run(const S &t) { if (!check_text(t)) fail("JSON: %s", shrt(t).c_str()); }
// ---------------- families
static const char *KEYS[] = {"a", "items", "userList", ""};
static const char *LEAF[] = {"\"x\"", "7", "{}", "[]", "\"\"", "null", "\"7\"", "-1.5e3"};
static int NLEAF() { return mc::thorough ? 8 : 7; } static int NKEY() { return 4; } static int NODES() { return mc::thorough ? 5 : 4; }
static S sp(int style, int deep) { return style == 0 ? S() : style == 1 ? S(" ") : "\r\n" + S(deep, '\t'); }
struct Shape { std::vector<Shape> ch; };
static void shapes(int n, std::vector<Shape> &out);
static void forests(int n, std::vector<std::vector<Shape>> &out) { if (n == 0) { out.push_back({}); return; } for (int k = 1; k <= n; k++) { std::vector<Shape> f; shapes(k, f); std::vector<std::vector<Shape>> r; forests(n - k, r); for (auto &a : f) for (auto &b : r) { std::vector<Shape> v{a}; v.insert(v.end(), b.begin(), b.end()); out.push_back(v); } } }
static void shapes(int n, std::vector<Shape> &out) { std::vector<std::vector<Shape>> f; forests(n - 1, f); for (auto &x : f) out.push_back({x}); }
// number of labellings of a shape; a child of an object also has a key
static uint64_t labellings(const Shape &s) { if (s.ch.empty()) return NLEAF(); uint64_t a = 1, b = 1; for (auto &c : s.ch) { uint64_t l = labellings(c); a *= l * NKEY(); b *= l; } return a + b; }
static void write(const Shape &s, uint64_t i, int style, int deep, S &o) {
    if (s.ch.empty()) { o += LEAF[i]; return; }
    uint64_t a = 1; for (auto &c : s.ch) a *= labellings(c) * NKEY(); bool obj = i < a; if (!obj) i -= a;
    o += obj ? "{" : "["; bool first = true;
    for (auto &c : s.ch) { if (!first) o += ","; first = false; o += sp(style, deep + 1); if (obj) { o += "\"" + S(KEYS[i % NKEY()]) + "\""; i /= NKEY(); o += (style == 1 ? " " : "") + S(":") + (style ? " " : ""); } uint64_t l = labellings(c); write(c, i % l, style, deep + 1, o); i /= l; }
    o += sp(style, deep) + (obj ? "}" : "]");
}
static const uint64_t BLOCK = 64;
static std::vector<Shape> &all_shapes() { static std::vector<Shape> v; if (v.empty()) for (int n = 1; n <= NODES(); n++) shapes(n, v); return v; }
static uint64_t doc_cases() { uint64_t c = 0; for (auto &s : all_shapes()) c += (labellings(s) + BLOCK - 1) / BLOCK; return c; }
static void for_docs(uint64_t i, const std::function<void(const S &)> &f) {
    for (auto &s : all_shapes()) { uint64_t l = labellings(s), n = (l + BLOCK - 1) / BLOCK; if (i >= n) { i -= n; continue; } for (uint64_t k = i * BLOCK; k < std::min(l, (i + 1) * BLOCK); k++) { S o; int style = (k + k / 7) % 3; if (style) o = sp(style, 0); write(s, k, style, 0, o); o += sp(style, 0); mc::subcase(k); f(o); if (mc::failed()) return; } return; }
}
static const char *ATOM[] = {"a", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\uDE00", "\\ud83d", "\\udc00", "\\u0000", "\xc3\xa9", " ", "{", "s", "1", "\\u007f", "\\u0080", "\\u07ff", "\\u0800", "\\ufffd", ","};
static const int NA = sizeof ATOM / sizeof *ATOM;
static int SLEN() { return mc::thorough ? 4 : 3; }
static uint64_t powsum(uint64_t n, int l) { uint64_t c = 0, p = 1; for (int i = 0; i <= l; i++, p *= n) c += p; return c; }
static S word(uint64_t i, const char *const *a, int n) { uint64_t p = 1; int l = 0; while (i >= p) { i -= p; p *= n; l++; } S o; while (l--) { o += a[i % n]; i /= n; } return o; }
static S string_doc(uint64_t i) { S s = word(i, ATOM, NA); return "{\"k\":\"" + s + "\",\"" + s + "\":[\"" + s + "\",1,{\"" + s + "\":\"" + s + "\"}]}"; }
static const char *LETTER[] = {"L", "i", "s", "t", "x"}; static int KLEN() { return mc::thorough ? 7 : 6; }   // C14.names: names of items are derived from the name of their array
static S name_doc(uint64_t i) { S s = word(i, LETTER, 5); return "{\"" + s + "\":[\"v\",{\"" + s + "\":[7]}]}"; }
static const char *BYTES[] = {"{", "}", "[", "]", "\"", ":", ",", "1", "a", " ", "\\", "-"};
static const int NB = sizeof BYTES / sizeof *BYTES;
static const char *TOKENS[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "12", "null", "\"s\" "};
static const int NT = sizeof TOKENS / sizeof *TOKENS;
static uint64_t byte_block(int n, int l) { return (powsum(n, l) + 255) / 256; }
static void for_words(uint64_t i, const char *const *a, int n, int l) { uint64_t tot = powsum(n, l); for (uint64_t k = i * 256; k < std::min(tot, (i + 1) * 256); k++) { mc::subcase(k); run(word(k, a, n)); if (mc::failed()) return; } }
static int BLEN() { return mc::thorough ? 6 : 5; } static int TLEN() { return mc::thorough ? 7 : 6; }
static const char *BASE[] = {
    "{\"users\":[{\"name\":\"Jan\",\"age\":7},{\"name\":\"\\u017d\\\"x\",\"age\":null}],\"ok\":true}",
    "[[1,2],[],{\"a\":{}},\"x\",-1.5e+3]",
    "{\"orderList\":[\"2020-02-29\",\"2020-02-29 12:34:56\"],\"\":{\"b\":[0]}}",
    " {\n\t\"data\" : [ true , false ] ,\n\t\"t\" : \"a\\nb\"\n}\n",
    "\"just text\"", "3.14", "{\"a\":1,\"a\":\"two\"}" };
static const int NBASE = sizeof BASE / sizeof *BASE;
static const char MUT[] = "{}[]\":,\\ 1aut\n\0\x80\xff";
static const int NM = sizeof MUT - 1;
// per base: truncations, removed bytes, replaced bytes, inserted bytes
static uint64_t mut_of(int b) { uint64_t n = strlen(BASE[b]); return n + n + n * NM + (n + 1) * NM; }
static uint64_t mut_cases() { uint64_t c = 0; for (int b = 0; b < NBASE; b++) c += mut_of(b); return c; }
static S mutant(uint64_t i) { int b = 0; while (i >= mut_of(b)) i -= mut_of(b++); S s = BASE[b]; uint64_t n = s.size(); if (i < n) return s.substr(0, i); i -= n; if (i < n) { s.erase(i, 1); return s; } i -= n; if (i < n * NM) { s[i / NM] = MUT[i % NM]; return s; } i -= n * NM; s.insert(s.begin() + i / NM, MUT[i % NM]); return s; }
static S pair_mutant(uint64_t i, int b) { S s = BASE[b]; int n = s.size(); int x = i % n, y = i / n % n; char c = MUT[i / n / n % 9], d = MUT[i / n / n / 9 % 9]; s[x] = c; s[y] = d; return s; }  // thorough: every two replaced bytes
static const int PAIRB[] = {1, 6}; static uint64_t pair_cases(int k) { uint64_t n = strlen(BASE[PAIRB[k]]); return mc::thorough ? n * n * 81 : 0; }
static const int SIZES[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 255, 256, 257, 300, 500, 511, 512, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1030, 2000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 50000};
static const int NS = sizeof SIZES / sizeof *SIZES; static const int NDIM = 12;
static S size_doc(uint64_t i) {
    int n = SIZES[i % NS]; S o; if (i / NS == 4 && n > 4097) n = 4098; if (n > 20000 && (i / NS < 3)) n = 20000; switch (i / NS) {
        case 0: o = S(n, '[') + "1" + S(n, ']'); break;
        case 1: for (int k = 0; k < n; k++) o += "{\"a\":"; o += "1" + S(n, '}'); break;
        case 2: for (int k = 0; k < n; k++) o += k % 2 ? "[" : "{\"list\":"; o += "\"x\""; for (int k = n; k--;) o += k % 2 ? "]" : "}"; break;
        case 3: o = "["; for (int k = 0; k < n; k++) o += k ? ",1" : "1"; o += "]"; break;
        case 4: o = "{"; for (int k = 0; k < n; k++) o += (k ? ",\"k" : "\"k") + std::to_string(k) + "\":" + std::to_string(k); o += "}"; break;
        case 5: o = "{\"t\":\"" + S(n, 'v') + "\"}"; break;
        case 6: o = "{\"" + S(n, 'k') + "\":[\"x\",7]}"; break;
        case 7: o = "{\"t\":\""; for (int k = 0; k < n; k++) o += "\\n"; o += "!\"}"; break;
        case 8: o = S(n, ' ') + "{\"a\":[1]}"; break;                       // end of text around end of page
        case 10: o = "["; for (int k = 0; k < n; k++) o += k ? ",[]" : "[]"; o += "]"; break; case 11: o = "{\"q\":["; for (int k = 0; k < n; k++) o += k ? ",{\"\":1}" : "{\"\":1}"; o += "]}"; break;
        case 9: o = "["; for (int k = 0; k < n; k++) o += k ? ",{}" : "{}"; o += "]"; break;
    }
    return o;
}
static S page_doc(uint64_t i) { int total = 4096 * (1 + i / 64 % 2) - 32 + i % 64; static const char *T[] = {"[1]", "\"x\"", "12", "{\"a\":\"b\"}", "[\"\\u00e9\"]", "true", "[", "\"abc", "{\"a\"", "\"\\u00"}; S t = T[i / 128]; return S(total - t.size(), ' ') + t; }

int main(int c, char **v) {
    struct rlimit L; if (getrlimit(RLIMIT_STACK, &L) == 0 && L.rlim_cur != RLIM_INFINITY && L.rlim_cur < 256 << 20 && (L.rlim_max == RLIM_INFINITY || L.rlim_max >= 256 << 20)) { L.rlim_cur = 256 << 20; if (setrlimit(RLIMIT_STACK, &L) == 0) execv("/proc/self/exe", v); }  // the comparison of deep trees is recursive
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
#define D(f) [](uint64_t i) { return S("JSON ") + shrt(f); }
    s.push_back({"C14.docs", doc_cases(), [](uint64_t i) { for_docs(i, run); }, [](uint64_t i) { return "block of documents " + std::to_string(i); }, quiet});
    s.push_back({"C14.strings", powsum(NA, SLEN()), [](uint64_t i) { run(string_doc(i)); }, D(string_doc(i)), quiet});
    s.push_back({"C14.names", powsum(5, KLEN()), [](uint64_t i) { run(name_doc(i)); }, D(name_doc(i)), quiet});
    s.push_back({"C14.bytes", byte_block(NB, BLEN()), [](uint64_t i) { for_words(i, BYTES, NB, BLEN()); }, [](uint64_t i) { return "texts from " + shrt(word(i * 256, BYTES, NB)); }, quiet});
    s.push_back({"C14.tokens", byte_block(NT, TLEN()), [](uint64_t i) { for_words(i, TOKENS, NT, TLEN()); }, [](uint64_t i) { return "texts from " + shrt(word(i * 256, TOKENS, NT)); }, quiet});
    s.push_back({"C14.mutants", mut_cases() + pair_cases(0) + pair_cases(1), [](uint64_t i) { uint64_t n = mut_cases(); run(i < n ? mutant(i) : i < n + pair_cases(0) ? pair_mutant(i - n, PAIRB[0]) : pair_mutant(i - n - pair_cases(0), PAIRB[1])); }, [](uint64_t i) { return "damaged text " + (i < mut_cases() ? shrt(mutant(i)) : std::to_string(i)); }, quiet});
    s.push_back({"C14.sizes", (uint64_t)NS * NDIM, [](uint64_t i) { run(size_doc(i)); }, D(size_doc(i)), quiet});
    s.push_back({"C14.pages", 10 * 128, [](uint64_t i) { run(page_doc(i)); }, [](uint64_t i) { return "text of " + std::to_string(page_doc(i).size()) + " bytes ending with " + page_doc(i).substr(page_doc(i).find_first_not_of(' ')); }, quiet});
    return mc::main_(c, v, s);
}

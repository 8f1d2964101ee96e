// C01 (XML -> XB), C02 (packing), C03 (XML -> XBW), C05 (BW tree -> XB): conversions of every document of bounded families,
// compared with the document through every reader interface.
#include <unordered_map>
#include "tree.h"
#include <binary_xml/bin_xml_plugin.h>
#include <binary_xml/missings.h>

static bool xml_file(const char *fn, const Doc &d) { return mc::writefile(fn, xml_of(d)); }
static bool conv(const char *src, const char *dst, bool pack) { if (pack) { Bin_xml_packer C(src, dst); return C.DoAll(); } Bin_xml_creator C(src, dst); return C.DoAll(); }
struct Rd { char fn[4200]; XB_reader R; bool ok; Rd(const char *f) : R((strcpy(fn, f), fn)) { R.verbosity = 0; ok = R.Initialize(); } ~Rd() { R.Finalize(); } };
// ---------------- checks of one document
static bool check_xb(const Doc &d, bool pack, bool stream = true) {
    if (!xml_file("d.xml", d)) TBAD("cannot write d.xml");
    if (stream) { Bin_xml_plugin P("d.xml", nullptr); if (!P.Initialize()) TBAD("source plugin refuses %s", shrt(xml_of(d)).c_str()); std::ostringstream o; o << (Bin_src_plugin &)P; if (!same_xml(o.str(), d, "XML written from XML source")) return false; }
    if (!conv("d.xml", "d.xb", pack)) TBAD("conversion of %s failed", shrt(xml_of(d)).c_str());
    Rd r("d.xb"); if (!r.ok) TBAD("the reader refuses the converted document %s", shrt(xml_of(d)).c_str());
    if (!same_xb(r.R, d)) return false;
    if (stream) { std::ostringstream o; o << r.R; if (!same_xml(o.str(), d, "XML written from .xb")) return false; }
    mc::nontrivial(); return true;
}
static void run_c01(const Doc &d) { if (!check_xb(d, false)) fail("document: %s", shrt(xml_of(d)).c_str()); }

// ---------------- families
static const char *VALUES[] = {"", "7", "0", "-1", "2147483647", "-2147483648", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "99999999999999999999",
    "1.5", "-0.25", "0.001", "3.1415926", "12345678.5", "1e10", "1.5E3", "16777217", "1.25E+2", "1.4142135623730951", "007", "+5", "0x1F", "abc", "a b", "x y  z", "<&>\"'", "&amp;", "]]>", "\xc5\xbe\xc3\xad", "2020-02-29", "2021-02-29", "2020-02-29 12:34:56", "2020-02-29T12:34:56", "2020-02-29 12:34:56.789",
    "127.0.0.1", "1.2.3", "2f32360c988cc76f10f3c0a08759d8813ff3d1c7", "0123456789abcdef0123456789abcdef01234567", "01234567-89ab-cdef-0123-456789abcdef", "true", "-", "a\nb", "a\tb", "7 ", "1,5", "QUJD", "NaN", "inf"};
static const int NV = sizeof VALUES / sizeof *VALUES;
static Doc leaf(const S &n, const S &v) { Doc d; d.name = n; d.val = v; return d; }
static Doc value_doc(uint64_t i) { // every pair of values, in six arrangements
    S a = VALUES[i % NV], b = VALUES[i / NV % NV]; int k = i / NV / NV; Doc d; d.name = "r";
    switch (k) {
        case 0: d.ch = {leaf("e", a), leaf("e", b)}; break;                                          // same tag
        case 1: d.ch = {leaf("e", a), leaf("f", b)}; break;                                          // different tags
        case 2: d.at = {{"p", a}, {"q", b}}; break;
        case 3: d.ch = {leaf("e", ""), leaf("e", "")}; d.ch[0].at = {{"p", a}}; d.ch[1].at = {{"p", b}}; break; // same attribute
        case 4: d.val = a; d.ch = {leaf("e", b)}; d.at = {{"p", b}}; break;                           // value and child
        case 5: d.val = a; d.at = {{"p", b}, {"q", a}}; d.ch = {leaf("r", b)}; break;
    }
    if (k >= 4 && !d.val.empty() && d.val.find_first_not_of(" \t\n") == S::npos) d.val = "";
    return d;
}
static const uint64_t NVALUE = (uint64_t)NV * NV * 6;
// all ordered trees of n nodes x 8 labels per node
static void shapes(int n, std::vector<S> &out) { // parenthesis words of n nodes, one root
    static std::map<int, std::vector<S>> memo; auto &m = memo[n]; if (m.empty()) { struct R { static void go(int open, int left, S cur, std::vector<S> &o) { if (left == 0 && open == 0) { o.push_back(cur); return; } if (left) go(open + 1, left - 1, cur + "(", o); if (open) go(open - 1, left, cur + ")", o); } }; R::go(0, n - 1, "", m); } out = m;
}
static Doc label(int l) {
    Doc d; switch (l) { case 0: d = leaf("a", ""); break; case 1: d = leaf("a", "7"); break; case 2: d = leaf("b", "text"); break; case 3: d = leaf("b", "5000000000"); break; case 4: d = leaf("a", "7"); d.at = {{"p", "7"}}; break; case 5: d = leaf("c", ""); d.at = {{"p", "x"}, {"q", "2020-02-29"}}; break; case 6: d = leaf("b", "2020-02-29 12:34:56.789"); d.at = {{"q", "z"}}; break; case 7: d = leaf("c", "t"); break; } return d;
}
static Doc build(const S &sh, uint64_t lab, size_t &p) { Doc d = label(lab & 7); (void)0; return d; }
static void fill(Doc &d, const S &sh, size_t &p, uint64_t &lab) { d = label(lab & 7); lab >>= 3; while (p < sh.size() && sh[p] == '(') { p++; d.ch.emplace_back(); fill(d.ch.back(), sh, p, lab); p++; } }
static int NODES() { return mc::thorough ? 6 : 5; }
static uint64_t tree_cases() { uint64_t c = 0; for (int n = 1; n <= NODES(); n++) { std::vector<S> s; shapes(n, s); c += s.size() << (3 * (n > 2 ? n - 2 : 0)); } return c; }
static void for_trees(uint64_t i, const std::function<void(const Doc &)> &f) { // a case: a shape and the labels of all but two nodes
    for (int n = 1; n <= NODES(); n++) { std::vector<S> s; shapes(n, s); uint64_t per = 1ull << (3 * (n > 2 ? n - 2 : 0)), tot = s.size() * per; if (i >= tot) { i -= tot; continue; }
        S sh = s[i / per]; uint64_t hi = i % per; int low = n > 2 ? 6 : 3 * n;
        for (uint64_t k = 0; k < (1ull << low); k++) { Doc d; size_t p = 0; uint64_t lab = hi << low | k; mc::subcase(k); fill(d, sh, p, lab); f(d); if (mc::failed()) return; }
        return; }
}
// sizes: one dimension of the document grows
static S pat(size_t n, int k) { S s; for (size_t i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 26 + k) % 26); return s; }
static const int SIZES[] = {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 500, 511, 512, 1000, 1023, 1024, 2000, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000};
static const int NS = sizeof SIZES / sizeof *SIZES;
static Doc size_doc(uint64_t i) {
    int n = SIZES[i % NS]; Doc d; d.name = "r";
    switch (i / NS) {
        case 0: for (int k = 0; k < n; k++) d.ch.push_back(leaf("e", "")); break;                      // many equal children
        case 1: for (int k = 0; k < n; k++) d.ch.push_back(leaf("e", std::to_string(k))); break;       // many different children
        case 2: for (int k = 0; k < n && k < 4000; k++) d.ch.push_back(leaf("e" + std::to_string(k), "")); break; // many tags
        case 3: for (int k = 0; k < n && k < 4000; k++) d.at.push_back({"a" + std::to_string(k), k % 3 ? "x" : "7"}); break; // many attributes
        case 4: { Doc *x = &d; for (int k = 0; k < n && k < 200; k++) { x->ch.emplace_back(); x = &x->ch[0]; x->name = k % 2 ? "a" : "b"; x->val = k % 5 == 0 ? "5000000000" : ""; } break; } // depth
        case 5: d.ch = {leaf(pat(n ? n : 1, 1), "v")}; break;                                          // long name
        case 6: d.at = {{pat(n ? n : 1, 2), "v"}}; break;
        case 7: for (int k = 0; k < n && k < 5000; k++) { d.ch.push_back(leaf("e", k % 2 ? "5000000000" : "")); d.ch.back().at = {{"p", std::to_string(k)}}; } break;
        case 8: for (int k = 0; k < n && k < 2000; k++) { d.ch.push_back(leaf("e", "")); for (int j = 0; j < 3; j++) d.ch.back().ch.push_back(leaf("f", std::to_string((k * 7 + j) % 5))); } break; // repeated groups
    }
    return d;
}
static const uint64_t NSIZE = NS * 9;
static const int LONGN[] = {0, 1, 2, 3, 7, 8, 13, 14, 15, 16, 17, 20, 24, 29, 30, 31, 32, 33, 46, 47, 48, 61, 62, 63, 64, 65, 78, 79, 80, 98, 99, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 510, 511, 512, 513, 1000, 1023, 1024, 2047, 4000, 4094, 4095, 4096, 8191, 10000, 32767, 49000}; static const int NLONGN = sizeof LONGN / sizeof *LONGN;
static Doc longname_doc(uint64_t i) { // names equal up to a long prefix, as tags, as attributes, as both
    S p(LONGN[i % NLONGN], 'n'); int mode = i / NLONGN; Doc d; d.name = mode == 1 ? "r" : p + "b"; int k = 0; for (const char *e : {"a", "b", "", "aa", "ab", "z", "b_"}) { S n = p + e; if (n.empty()) continue; Doc x = leaf(mode == 1 ? "e" : n.c_str(), ""); if (mode != 0) x.at = {{n, std::to_string(++k)}, {p + "zz", "t" + std::to_string(k)}}; else x.val = k++ % 2 ? "text" : std::to_string(k); d.ch.push_back(x); } if (mode == 2) d.at = {{p + "a", "5000000000"}}; return d; }
static Doc length_doc(uint64_t n) { Doc d; d.name = "r"; d.val = pat(n, 0); d.at = {{"p", pat(n, 1)}, {"q", "7"}}; d.ch = {leaf("e", pat(n / 2, 2)), leaf("e", n % 2 ? "9999999999" : "")}; return d; }


// names: all triples of names which are prefixes of each other, differ in case or accents, or which the format reserves for itself
static const char *NAMES[] = {"a", "ab", "abc", "b", "A", "a-b", "a.b", "a_b", "\xc3\xa9", "\xc5\xbe", "z", "Z", "_", "x1", "x10", "x2", "NULL", "meta_root", "tag_symbols", "param_symbols", "hash_index", "payload", "reference", "processed", "transaction",
    "name", "hash", "modified", "count", "version", "type_count", "id", "author", "time_ms", "et-tecera", "__reserved__", "__out_of_range__", "META_ROOT"};
static const int NNM = sizeof NAMES / sizeof *NAMES; static const uint64_t NNAMES = (uint64_t)NNM * NNM * NNM;
static Doc name_doc(uint64_t i) {
    S a = NAMES[i % NNM]; i /= NNM; S b = NAMES[i % NNM]; i /= NNM; S c = NAMES[i % NNM]; auto tag = [](const S &n) { return n == "et-tecera" ? S("et-tecera-") : n; }; // such an element has a meaning (C08)
    Doc d; d.name = tag(a); d.at = {{b, "7"}}; if (c != b) d.at.push_back({c, "some text"}); d.ch = {leaf(tag(b), "1.5"), leaf(tag(c), "2020-02-29"), leaf(tag(a), "")}; d.ch[0].at = {{a, "x"}}; d.ch[1].ch = {leaf(tag(b), "1.5")}; d.ch[2].at = {{c, "9999999999"}}; return d;
}
// ---------------- C01.markup: ways to write the same document
static const char *SEG[][2] = {{"ab", "ab"}, {" ", " "}, {"\n\t", "\n\t"}, {"<![CDATA[x<&y]]>", "x<&y"}, {"<!-- c -->", ""}, {"<?pi d?>", ""}, {"&amp;", "&"}, {"&#65;&#x17e;", "A\xc5\xbe"}, {"&foo;", "bar"}, {"&nest;", "<bar>"}, {"<c/>", "\1"}, {"7", "7"}, {"\xc3\xa9", "\xc3\xa9"}, {"&el;", "x\1y"}, {"&more;", "\1x\1ybar\2"}};
static const int NSEG = sizeof SEG / sizeof *SEG;
static const char *ASEG[][2] = {{"ab", "ab"}, {"&amp;", "&"}, {"&lt;&gt;&quot;&apos;", "<>\"'"}, {"&#10;", "\n"}, {"&foo;", "bar"}, {"7", "7"}, {" ", " "}, {"'", "'"}, {"\xc3\xa9", "\xc3\xa9"}};
static const int NASEG = sizeof ASEG / sizeof *ASEG;
static bool check_text(const S &xml, const Doc &d, bool pack) {
    if (!mc::writefile("d.xml", xml)) TBAD("cannot write d.xml");
    if (!conv("d.xml", "d.xb", pack)) TBAD("conversion failed"); Rd r("d.xb"); if (!r.ok) TBAD("the reader refuses the converted document");
    if (!same_xb(r.R, d)) return false; mc::nontrivial(); return true;
}
static S markup_xml(uint64_t i, Doc &d) {
    const uint64_t NE = (uint64_t)NSEG * NSEG * NSEG; S head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE r [<!ENTITY foo \"bar\"><!ENTITY nest \"&#38;lt;&foo;>\"><!ENTITY el \"x<c/>y\"><!ENTITY more \"<c/>&el;&foo;<c q='&foo;1'>5<c><!-- - --></c>&foo;</c>\">]>\n<!-- before -->\n"; d.name = "r";
    if (i < NE) { // element content of three pieces: the value is the first text that is not blank, children are separators
        S body, run; bool found = false; auto flush = [&] { size_t a = run.find_first_not_of(" \t\r\n"); if (!found && a != S::npos) { d.val = run.substr(a); found = true; } run.clear(); };
        for (int k = 0; k < 3; k++) { int j = i % NSEG; i /= NSEG; body += SEG[j][0]; for (const char *s = SEG[j][1]; *s; s++) if (*s <= 2 && *s > 0) { flush(); Doc c; c.name = "c"; if (*s == 2) { c.val = "5"; c.at = {{"q", "bar1"}}; c.ch = {leaf("c", "")}; } d.ch.push_back(c); } else run += *s; } flush();
        return head + "<r>" + body + "</r>";
    }
    i -= NE; S a, v; for (int k = 0; k < 3; k++) { int j = i % NASEG; i /= NASEG; a += ASEG[j][0]; v += ASEG[j][1]; } d.at = {{"p", v}, {"q", "z"}};
    return head + "<r p=\"" + a + "\" q='z'/>\n<!-- after -->";
}
static const uint64_t NMARK = (uint64_t)NSEG * NSEG * NSEG + (uint64_t)NASEG * NASEG * NASEG;
// ---------------- C02: packing
struct Classes { std::map<S, int> id; std::map<int, std::vector<int>> at; std::map<int, bool> wide; std::map<XML_Item *, int> seen; };
static int classify(XB_reader &R, XML_Item *X, Classes &c) { // class of equal subtrees
    auto it = c.seen.find(X); if (it != c.seen.end()) return it->second; bool wide = false; S k = std::to_string(X->name);
    auto put = [&](XML_Binary_Data_Ref D) { k += "|" + std::to_string(D.type) + ":" + S(D.data ? D.data : "", D.data ? D.size : 0); if (XBT_IS_8(D.type)) wide = true; };
    for (int i = 0; i < X->paramcount; i++) { auto *p = X->getParamByIndex(i); k += ";" + std::to_string(p->name); put(p->getData(X)); } k += "="; put(X->getData());
    for (int i = 0; i < X->childcount; i++) { int j = classify(R, X->getChildByIndex(i), c); k += "(" + std::to_string(j) + ")"; wide |= c.wide[j]; }
    int id = c.id.emplace(k, (int)c.id.size()).first->second; c.seen[X] = id; c.at[id].push_back((char *)X - (char *)R.doc); c.wide[id] = wide; return id;
}
static bool check_packed(const Doc &d) {
    if (!xml_file("d.xml", d)) TBAD("cannot write d.xml");
    if (!conv("d.xml", "u.xb", false) || !conv("d.xml", "p.xb", true)) TBAD("conversion failed");
    S u = mc::readfile("u.xb"), p = mc::readfile("p.xb"); if (p.size() > u.size()) TBAD("packed file has %zu bytes, unpacked %zu", p.size(), u.size());
    Rd r("p.xb"); if (!r.ok) TBAD("the reader refuses the packed document"); if (!same_xb(r.R, d)) return false;
    Classes c; classify(r.R, r.R.getRoot(), c);
    for (auto &e : c.at) { auto &v = e.second; if (v.size() == 1) continue; if (c.wide[e.first] && v.size() == 2 && ((v[0] ^ v[1]) & 7)) continue; // 8 byte values depend on the position
        TBAD("equal subtrees are stored %zu times (at %d and %d)", v.size(), v[0], v[1]); }
    Rd q("u.xb"); if (!q.ok) TBAD("the reader refuses the unpacked document"); std::ostringstream a, b; a << q.R; b << r.R; if (a.str() != b.str()) TBAD("packed and unpacked document differ: %s / %s", shrt(a.str()).c_str(), shrt(b.str()).c_str());
    mc::nontrivial(); return true;
}
static void run_c02(const Doc &d) { if (!check_packed(d)) fail("document: %s", shrt(xml_of(d)).c_str()); }
static Doc repeat_doc(uint64_t i) { // groups of equal and nearly equal subtrees at all alignments
    int n = i % 4; i /= 4; int pad = i % 9; i /= 9; int a = i % 8; i /= 8; int b = i % 8; i /= 8; int w = i; Doc g; g.name = "g"; g.ch = {label(a), label(b)}; g.at = {{"p", "v"}};
    Doc d; d.name = "r"; d.at = {{"s", S(pad + 1, 's')}}; Doc mid = leaf("m", S(pad, 'm')); Doc h = g; if (w == 1) h.ch[1].val += "x"; if (w == 2) h.at[0].second = "w"; if (w == 3) std::swap(h.ch[0], h.ch[1]);
    d.ch = {g, mid, h}; for (int k = 0; k < n; k++) d.ch.push_back(k % 2 ? g : h); Doc o; o.name = "o"; o.ch = {h, leaf("y", S(pad / 2, 'y')), g, label(a)}; if (w & 1) d.ch.push_back(o); else d.ch.insert(d.ch.begin(), o); return d;
}
static const uint64_t NREP = 4 * 9 * 8 * 8 * 4;
// C02.near: two subtrees of every size which are equal, or differ in exactly one place
static const int NEAR_K = 7, NEAR_P = 4;
static Doc near_doc(uint64_t i) {
    int L = SIZES[i % NS]; i /= NS; int kind = i % NEAR_K; i /= NEAR_K; int place = i % NEAR_P; i /= NEAR_P; int order = i % 3; Doc d; d.name = "r";
    auto text = [&](bool other) { S v; for (int k = 0; k < L; k++) v += 'a' + (k * 7 + k / 26) % 26; v = "t" + v + "t"; if (other) { size_t at = place == 1 ? 0 : place == 2 ? v.size() / 2 : v.size() - 1; v[at] = v[at] == 'q' ? 'u' : 'q'; } return v; };
    auto make = [&](bool second) { bool other = second && place; Doc g; g.name = "g"; switch (kind) {
        case 0: g.val = text(other); break; case 1: g.at = {{"a", "v"}, {"p", text(other)}}; g.ch = {leaf("c", "v")}; break; case 2: g.ch = {leaf("c", text(other)), leaf("e", "v")}; break;
        case 3: { Doc in = leaf("x", text(other)); for (int k = 0; k < 6; k++) { Doc o; o.name = "n"; o.ch = {in}; in = o; } g.ch = {in}; break; }
        case 4: case 5: { int n = std::max(2, std::min(L / 8, 400)), at = place == 1 ? 0 : place == 2 ? n / 2 : n - 1; for (int k = 0; k < n; k++) g.ch.push_back(leaf(kind == 5 && other && k == at ? "z" : "c", kind == 4 && other && k == at ? "other" : "v" + std::to_string(k))); break; }
        case 6: { int n = std::max(2, std::min(L / 8, 400)), at = place == 1 ? 0 : place == 2 ? n / 2 : n - 1; for (int k = 0; k < n; k++) { Doc o; o.name = "c"; o.at = {{"i", std::to_string(k + (other && k == at ? 100000 : 0))}}; g.ch.push_back(o); } break; } }
        return g; };
    Doc a = make(false), b = make(true), deep; deep.name = "deep"; if (order == 0) d.ch = {a, b}; else if (order == 1) { deep.ch = {leaf("k", "1"), a}; Doc m; m.name = "mid"; m.ch = {deep}; d.ch = {m, b}; } else { deep.ch = {leaf("k", "1"), b, a}; Doc m; m.name = "mid"; m.ch = {deep, a}; d.ch = {a, m, b}; }
    return d;
}
static const uint64_t NNEAR = (uint64_t)NS * NEAR_K * NEAR_P * 3;
// C02.collide: different elements whose hashes agree in 4 of their bytes (found among many elements of a converted document), in every order of up to 6
static const int NCOL = 200000;
static std::vector<std::pair<S, S>> &collisions(int word) {
    static std::vector<std::pair<S, S>> R[5]; static bool ready = false; if (ready) return R[word]; ready = true;
    Doc d; d.name = "r"; d.ch.reserve(NCOL); for (int k = 0; k < NCOL; k++) d.ch.push_back(leaf("c", "t" + std::to_string(k))); mc::touch();
    if (!xml_file("d.xml", d) || !conv("d.xml", "u.xb", false)) { fail("conversion failed"); return R[word]; } mc::touch(); Rd r("u.xb"); if (!r.ok) { fail("the reader refuses the document"); return R[word]; }
    std::unordered_map<uint32_t, int> at[5]; XML_Item *root = r.R.getRoot();
    for (int k = 0; k < NCOL && k < root->childcount; k++) { XML_Item *x = root->getChildByIndex(k); unsigned char h[24] = {0}; SHA1((const unsigned char *)x, x->length, h);
        for (int w = 0; w < 5; w++) { uint32_t v; memcpy(&v, h + 4 * w, 4); auto e = at[w].emplace(v, k); if (!e.second) R[w].push_back({d.ch[e.first->second].val, d.ch[k].val}); } }
    return R[word];
}
static const uint64_t NCOLLIDE = 5 * 4 * 120;
static Doc collide_doc(uint64_t i) {
    int w = i % 5; i /= 5; auto &c = collisions(w); Doc d; d.name = "r"; int p = i % 4; i /= 4; if (p >= (int)c.size()) return d; int n = 3; while (i >= 1u << n) { i -= 1u << n; n++; } // orders of 3 to 6 elements
    for (int k = 0; k < n; k++) d.ch.push_back(leaf("c", i >> k & 1 ? c[p].second : c[p].first)); return d;
}
// ---------------- C03: XML -> XBW
struct BW : BW_plugin { using BW_plugin::BW_plugin; };
static bool same_bw(BW &W, BW_element *e, const Doc &d, const Cols &c) {
    if (d.name != e->getName()) TBAD("element is named %s, expected %s", e->getName(), d.name.c_str());
    auto val = [&](BW_element *x, const S &want, XML_Binary_Type col, const char *what) {
        XML_Binary_Type t = (XML_Binary_Type)x->value_type; XML_Binary_Data_Ref D = x->getData(); const char *g = t == XBT_NULL ? "" : XBT_ToString(t, (char *)(x + 1)); S got = g ? g : "";
        if (!same_text(got, want, t) || got.empty() != want.empty()) TBAD("%s %s=%s comes out as %s (type %s)", what, x->getName(), shrt(want).c_str(), shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t]);
        XML_Binary_Type reg = !(x->flags & BIN_WRITE_ELEMENT_FLAG) ? W.getPool()->getAttrType(x->identification) : W.getPool()->getTagType(x->identification);
        if (t != XBT_NULL && reg != t && reg != XBT_VARIANT) TBAD("%s %s has type %s but its symbol has %s", what, x->getName(), XML_BINARY_TYPE_NAMES[t], XML_BINARY_TYPE_NAMES[reg]);
        return true; };
    if (!(e->flags & BIN_WRITE_ELEMENT_FLAG) || !val(e, d.val, XBT_NULL, "value of")) return false;
    size_t i = 0; if (e->first_attribute) { BW_element *f = W.BWE(e->first_attribute), *a = f; do { if (i >= d.at.size()) TBAD("element %s has more than %zu attributes", d.name.c_str(), i); if (d.at[i].first != a->getName() || (a->flags & BIN_WRITE_ELEMENT_FLAG)) TBAD("attribute %zu is %s, expected %s", i, a->getName(), d.at[i].first.c_str()); if (!val(a, d.at[i].second, XBT_NULL, "attribute")) return false; i++; a = W.BWE(a->next); } while (a != f); }
    if (i != d.at.size()) TBAD("element %s has %zu attributes, expected %zu", d.name.c_str(), i, d.at.size());
    i = 0; { BW_FOREACH2(e, x) { if (i >= d.ch.size()) TBAD("element %s has more than %zu children", d.name.c_str(), i); if (!same_bw(W, x, d.ch[i++], c)) return false; } } if (i != d.ch.size()) TBAD("element %s has %zu children, expected %zu", d.name.c_str(), i, d.ch.size());
    mc::states(1); return true;
}
static bool check_xbw(const Doc &d, bool back) {
    if (!xml_file("d.xml", d)) TBAD("cannot write d.xml");
    { Bin_xml_creator C("d.xml", "d.xbw", XBTARGET_XBW); if (!C.DoAll()) TBAD("conversion to .xbw failed"); }
    Cols c; columns(d, c);
    { BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize()) TBAD("the .xbw file cannot be opened"); BW_element *r = (BW_element *)W.getRoot(); if (!r) TBAD("the .xbw file has no root");
      if (!same_bw(W, r, d, c)) return false; std::ostringstream o; o << W; if (!same_xml(o.str(), d, "XML written from .xbw")) return false; W.Finalize(); }
    if (back) { if (!conv("d.xbw", "b.xb", true)) TBAD("conversion of .xbw to .xb failed"); Rd r("b.xb"); if (!r.ok) TBAD("the reader refuses .xb converted from .xbw"); if (!same_xb(r.R, d)) return false; }
    mc::nontrivial(); return true;
}
static void run_c03(const Doc &d) { if (!check_xbw(d, true)) fail("document: %s", shrt(xml_of(d)).c_str()); }

// ---------------- C17: a converted document is copied to a pool, its values may have several types in one column
struct KeyRd : XB_reader { bool all = true; KeyRd(char *f) : XB_reader(f) { verbosity = 0; } virtual bool ParamIsKey(int) const override { return all; } };
static bool check_copy(const Doc &d, int mode) { // mode: types registered in the pool before import (none, text, variant), packed or not
    via_text = true; int pre = mode % 3; bool pack = mode / 3 & 1; if (!xml_file("d.xml", d)) TBAD("cannot write d.xml"); if (!conv("d.xml", "d.xb", pack)) TBAD("conversion failed"); char fn[] = "d.xb"; KeyRd R(fn); if (!R.Initialize()) TBAD("the reader refuses the document"); XML_Item *root = R.getRoot(); Cols c; columns(d, c);
    auto open = [&](BW &W) { unlink("w.xbw"); if (!W.Initialize()) TBAD("Initialize failed");
        XML_Binary_Type pt = pre == 1 ? XBT_STRING : XBT_VARIANT; if (pre) { for (int k = 0; k < (int)R.tag_symbols.count; k++) if (W.registerTag(R.tag_symbols.getSymbol(k), pt) != k) TBAD("registerTag failed"); for (int k = 0; k < (int)R.param_symbols.count; k++) if (W.registerParam(R.param_symbols.getSymbol(k), pt) != k) TBAD("registerParam failed"); }
        W.importTags(&R); W.importParams(&R); if (!W.allRegistered()) TBAD("allRegistered failed"); return true; };
    { BW W("w.xbw", nullptr, 0x40000, 0); if (!open(W)) return false; BW_element *e = W.CopyPath(R, root, nullptr); mc::transitions(1); if (!e || e != W.getRoot()) TBAD("the document cannot be copied"); if (!same_bw(W, e, d, c)) return false;
      BW_element *again = W.CopyPath(R, root, nullptr); if (again != e) TBAD("the root is not found again"); std::ostringstream o; o << W; if (!same_xml(o.str(), d, "XML written from the copy")) return false;
      W.Finalize(); if (!conv("w.xbw", "b.xb", true)) TBAD("conversion of the copy to .xb failed"); Rd r("b.xb"); if (!r.ok) TBAD("the reader refuses .xb converted from the copy"); if (!same_xb(r.R, d)) return false; }
    auto same_at = [](const Doc &x, const Doc &y, bool exact) { if (x.at.size() != y.at.size()) return false; for (auto &a : x.at) { bool in = false; for (auto &b : y.at) if (a.first == b.first) in = exact ? a.second == b.second : same_meaning(a.second, b.second) || same_meaning(b.second, a.second); if (!in) return false; } return true; };
    for (int whole = 0; whole < 2; whole++) { BW W("w.xbw", nullptr, 0x40000, 0); if (!open(W)) return false; std::vector<BW_element *> got; std::vector<int> fresh; 
      for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < d.ch.size(); k++) { int size = W.getDataSize(); XML_Item *x = root->getChildByIndex(k); BW_element *e = whole ? W.CopyPath(R, root, x, nullptr) : W.CopyPathOnly(R, root, x, nullptr); mc::transitions(1); if (!e) TBAD("child %zu cannot be copied", k);
        if (pass) { if (e != got[k] || W.getDataSize() != size) TBAD("child %zu is not found again", k); continue; }
        bool was = std::find(got.begin(), got.end(), e) != got.end(), must = false, may = false; for (size_t j : fresh) if (d.ch[j].name == d.ch[k].name) { if (same_at(d.ch[j], d.ch[k], true)) must = true; if (same_at(d.ch[j], d.ch[k], false)) may = true; }
        if (was ? !may : must) TBAD("child %zu %s", k, was ? "is taken for another one" : "is not recognized as equal"); got.push_back(e); if (was) continue; fresh.push_back(k);
        Doc want = d.ch[k]; if (!whole) want.val = "", want.ch.clear(); if (!same_bw(W, e, want, c)) return false; }
      W.Finalize(); }
    mc::nontrivial(); return true;
}
static void run_c17(const Doc &d, int mode) { bool ok = check_copy(d, mode); via_text = false; if (!ok) fail("document: %s", shrt(xml_of(d)).c_str()); }

// limits of the format: as many names as there are ids, as deep as the XML parser goes; exact up to them, refused beyond
static const int LNAMES[] = {32765, 32766, 32767, 32768, 32769, 32770, 40000}, LDEPTH[] = {150, 200, 250, 254, 255, 256, 257, 258, 300, 512, 1000, 3000};
static const int NLN = sizeof LNAMES / sizeof *LNAMES, NLD = sizeof LDEPTH / sizeof *LDEPTH; static const uint64_t NLIM = 2 * NLN + 2 * NLD;
static void lim_of(uint64_t i, int &kind, int &n) { if (i < 2 * NLN) kind = i / NLN, n = LNAMES[i % NLN]; else i -= 2 * NLN, kind = 2 + i / NLD, n = LDEPTH[i % NLD]; }
static S lim_desc(uint64_t i) { int k, n; lim_of(i, k, n); static const char *K[] = {" names of tags", " names of attributes", " levels", " levels with siblings"}; return std::to_string(n) + K[k]; }
static const char *L_param(BW_plugin &W, BW_element *y) { XML_Binary_Type t; return W.getSymbol(SYMBOL_TABLE_PARAMS, y->identification, t); }
struct Node { S name, val; std::vector<std::pair<S, S>> at; int kids; };
static void lim_case(uint64_t i, int mode) {
    int kind, n; lim_of(i, kind, n); std::vector<Node> v; S x; auto num = [](int k) { return k % 4 ? std::to_string(k * 7 % 1000) : k % 8 ? "t" + std::to_string(k) : "5000000" + std::to_string(1000 + k % 9000); }; // v in document order
    if (kind == 0) { x = "<r>"; v.push_back({"r", "", {}, n - 1}); for (int k = 1; k < n; k++) { S t = "t" + std::to_string(k); x += "<" + t + ">" + num(k) + "</" + t + ">"; v.push_back({t, num(k), {}, 0}); } x += "</r>"; }
    if (kind == 1) { x = "<r>"; v.push_back({"r", "", {}, 0}); for (int k = 0; k < n;) { Node e{"e", "", {}, 0}; x += "<e"; for (int j = 0; j < 50 && k < n; j++, k++) { S t = "a" + std::to_string(k); e.at.push_back({t, num(k)}); x += " " + t + "=\"" + num(k) + "\""; } x += "/>"; v.push_back(e); v[0].kids++; } x += "</r>"; }
    if (kind >= 2) { S end; for (int k = 0; k < n; k++) { S t = k % 2 ? "a" : "b"; bool last = k == n - 1, sib = kind == 3 && !last; x += "<" + t + ">" + (sib ? "<c>1</c>" : ""); v.push_back({t, last ? "7" : "", {}, last ? 0 : 1 + sib}); if (sib) v.push_back({"c", "1", {}, 0}); end = "</" + t + ">" + end; if (last) x += "7"; } x += end; }
    bool possible = n <= 32768; if (kind >= 2) { mc::touch(); xmlDoc *D = xmlReadMemory(x.data(), x.size(), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); possible = D != nullptr; if (D) xmlFreeDoc(D); }
    for (const char *f : {"d.xb", "d.xbw", "b.xb"}) unlink(f); if (!mc::writefile("d.xml", x)) return fail("cannot write d.xml"); mc::touch(); bool ok; if (mode == 2) { Bin_xml_creator C("d.xml", "d.xbw", XBTARGET_XBW); ok = C.DoAll(); } else ok = conv("d.xml", "d.xb", mode); mc::touch();
    if (!ok) { if (possible) return fail("a document within the limits is refused"); if (mode != 2) { if (access("d.xb", F_OK) == 0) return fail("a refused conversion left a document"); } else { BW W("d.xbw", nullptr, 0x40000, 0); if (W.Initialize() && W.getRoot()) return fail("a refused conversion left a document"); } mc::nontrivial(); return; }
    if (!possible) return fail("a document beyond the limits is accepted"); const char *xb = "d.xb";
    if (mode == 2) { BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize()) return fail("the .xbw file cannot be opened"); size_t k = 0; std::function<bool(BW_element *)> walk = [&](BW_element *e) { mc::touch(); if (k >= v.size()) return fail("more elements than expected"), false; const Node &q = v[k++]; const char *s = W.getNodeName(e); if (!s || q.name != s) return fail("element %zu is named %s, not %s", k - 1, s ? s : "(null)", q.name.c_str()), false; s = W.getNodeValue(e); if (q.val != (s ? s : "")) return fail("element %s has value %s", q.name.c_str(), s ? s : ""), false;
          size_t a = 0; if (e->first_attribute) { BW_element *f = W.BWE(e->first_attribute), *y = f; do { const char *an = L_param(W, y), *av = W.getNodeValue(y); if (a >= q.at.size() || !an || q.at[a].first != an || !av || q.at[a].second != av) return fail("attribute %zu of element %zu is %s=%s", a, k - 1, an ? an : "", av ? av : ""), false; a++; y = W.BWE(y->next); } while (y != f); } if (a != q.at.size()) return fail("element %zu has %zu attributes", k - 1, a), false;
          int c = 0; if (e->first_child) { BW_element *f = W.BWE(e->first_child), *y = f; do { if (!walk(y)) return false; c++; y = W.BWE(y->next); } while (y != f); } if (c != q.kids) return fail("element %s has %d children", q.name.c_str(), c), false; return true; };
        BW_element *r = (BW_element *)W.getRoot(); if (!r || !walk(r)) { if (!r) fail("no root"); return; } if (k != v.size()) return fail("elements are missing"); W.Finalize(); mc::touch(); if (!conv("d.xbw", "b.xb", true)) return fail("conversion of .xbw to .xb failed"); xb = "b.xb"; mc::touch(); }
    Rd r(xb); if (!r.ok) return fail("the reader refuses the document"); size_t k = 0; std::function<bool(XML_Item *)> walk = [&](XML_Item *X) { if (k >= v.size()) return fail("more elements than expected"), false; const Node &q = v[k++]; const char *s = r.R.getNodeName(X->name); if (!s || q.name != s) return fail("element %zu is named %s, not %s", k - 1, s ? s : "(null)", q.name.c_str()), false; s = X->getString(); if (q.val != (s ? s : "")) return fail("element %s has value %s", q.name.c_str(), s ? s : ""), false;
        if (X->paramcount != (int)q.at.size() || X->childcount != q.kids) return fail("element %s has %d attributes and %d children", q.name.c_str(), X->paramcount, X->childcount), false; for (int a = 0; a < X->paramcount; a++) { XML_Param_Description *p = X->getParamByIndex(a); const char *an = r.R.getParamName(p->name), *av = p->getString(X); if (!an || q.at[a].first != an || !av || q.at[a].second != av) return fail("attribute %s reads as %s=%s", q.at[a].first.c_str(), an ? an : "", av ? av : ""), false; if (r.R.getParamID(an) != p->name) return fail("attribute %s is not found", an), false; }
        if (r.R.getNodeID(q.name.c_str()) != X->name) return fail("tag %s is not found", q.name.c_str()), false; for (int c = 0; c < q.kids; c++) if (!walk(X->getChildByIndex(c))) return false; return true; };
    if (!walk(r.R.getRoot())) return; if (k != v.size()) return fail("elements are missing"); mc::nontrivial(); mc::transitions(v.size());
}

// ---------------- C01.namespaces: every element is in a namespace, by default or by prefix; it comes out with that namespace as its own default one
static const int NSK = 6; // kinds of elements
static int NSN() { return mc::thorough ? 5 : 4; }
static uint64_t ns_cases() { uint64_t c = 0; for (int n = 1; n <= NSN(); n++) { std::vector<S> s; shapes(n, s); uint64_t k = s.size(); for (int j = 0; j < n; j++) k *= NSK; c += k; } return c; }
static void ns_build(const S &sh, size_t &p, uint64_t &lab, S def, bool root, S &x, Doc &d) {
    int k = lab % NSK; lab /= NSK; static const char *DEF[] = {nullptr, "urn:one", nullptr, "urn:two&more", nullptr, "urn:one"}; S ns = def; bool pre = k == 2 || k == 4; S decl;
    if (root) decl = " xmlns=\"urn:root\" xmlns:p=\"urn:pre\" xmlns:q=\"http://q/\"", ns = def = "urn:root"; else if (DEF[k]) { ns = def = DEF[k]; decl = " xmlns=\"" + esc(ns, true) + "\""; }
    S name = k % 2 ? "a" : "b"; d.name = name; S tag = pre ? (k == 2 ? "p:" : "q:") + name : name; if (pre) ns = k == 2 ? "urn:pre" : "http://q/"; d.at = {{"xmlns", ns}}; S at; if (k >= 3) { d.at.push_back({"x", "7"}); at = " x=\"7\""; } if (k == 5) { d.val = "v"; }
    x += "<" + tag + (k == 4 ? at + decl : decl + at) + ">" + d.val; while (p < sh.size() && sh[p] == '(') { p++; d.ch.emplace_back(); ns_build(sh, p, lab, def, false, x, d.ch.back()); p++; } x += "</" + tag + ">";
}
static S ns_xml(uint64_t i, Doc &d) { for (int n = 1; n <= NSN(); n++) { std::vector<S> s; shapes(n, s); uint64_t k = 1; for (int j = 0; j < n; j++) k *= NSK; if (i >= s.size() * k) { i -= s.size() * k; continue; } S x; size_t p = 0; uint64_t lab = i % k; ns_build(s[i / k], p, lab, "", true, x, d); return x; } return ""; }
static void c_namespaces(uint64_t i) { Doc d; S x = ns_xml(i, d); if (!check_text(x, d, i % 2)) fail("document: %s", mc::quote(x).c_str()); }

// ---------------- C01.entry: every way to ask for a conversion
#include <binary_xml/bin_json_plugin.h>
#include <sys/stat.h>
#include <sys/time.h>
static const char *E_EXT[] = {".xml", ".xsd", ".wsdl", ".json", ".xbw", "", ".txt", ".XML", ".xb", ".xmlx", "."};
static S dots(int n) { S r; while (n--) r += "./"; return r; }
static const S E_SRC[] = {"s", "./s", "in.dir/s", "a.b", "in.dir/" + dots(126) + "s", "in.dir/" + S(240, 'l')};
static const S E_DST[] = {"t.xb", "t", "out.dir/t", "./t", "out.dir/t.old", "t.u.xml", "t.xbw", "out.dir/" + dots(124) + "t", "out.dir/" + dots(123) + "t.x", "out.dir/" + S(250, 'm'), "out.dir/" + dots(900) + "t.u"}; enum { NES = 6, NED = 11 };
static const char *E_CALL[] = {"Bin_xml_creator::Convert", "Bin_xml_packer::Convert(file)", "Bin_xml_packer::Convert(plugin)", "GetXB", "XB_reader(source)", "Bin_xml_creator(plugin,dst)", "Bin_xml_creator(plugin)", "Bin_xml_creator(file,dst)", "Bin_xml_creator(plugin,target)", "Bin_xml_creator(plugin,dst) .xbw",
    "Bin_xml_creator(file,dst) .xbw", "Bin_xml_packer(plugin,NULL)", "two conversions by one object", "two conversions of a changing source by a packer", "two conversions of a changing source by a creator"};
static const uint64_t NENTRY = 15 * NED * NES * 11;
static S norm(S n) { while (n.compare(0, 2, "./") == 0) n = n.substr(2); for (size_t k; (k = n.find("/./")) != S::npos;) n.erase(k, 2); return n; }
static S with_ext(S n, const S &e) { n = norm(n); size_t sl = n.rfind('/'), dot = n.rfind('.'); if (dot != S::npos && (sl == S::npos || dot > sl)) n = n.substr(0, dot); return n + e; }
static bool e_plain(XB_reader &R, XML_Item *X, const Doc &d) { // names, values and order only (a root without name)
    if (d.name != R.getNodeName(X->name) || X->childcount != (int)d.ch.size() || X->paramcount) TBAD("element %s", d.name.c_str()); const char *v = X->getString(); if (S(v ? v : "") != d.val && (d.val[0] != '5' || X->getData().size != 8)) TBAD("value of %s", d.name.c_str());
    for (int i = 0; i < X->childcount; i++) if (!e_plain(R, X->getChildByIndex(i), d.ch[i])) return false; return true;
}
static bool e_same(XB_reader &R, const Doc &d) { return d.name == "NULL" ? e_plain(R, R.getRoot(), d) : same_xb(R, d); }
static std::set<S> e_files() { std::set<S> r; for (S dir : {S("."), S("in.dir"), S("out.dir")}) { DIR *D = opendir(dir.c_str()); if (!D) continue; while (dirent *e = readdir(D)) { S n = (dir == "." ? S() : dir + "/") + e->d_name; struct stat st; if (!stat(n.c_str(), &st) && S_ISREG(st.st_mode)) r.insert(n); } closedir(D); } return r; }
static void c_entry(uint64_t i) {
    S ext = E_EXT[i % 11]; i /= 11; S base = E_SRC[i % NES]; i /= NES; S dst = E_DST[i % NED]; i /= NED; int call = (int)i; bool known = (ext == ".xml" || ext == ".xsd" || ext == ".wsdl" || ext == ".json" || ext == ".xbw");
    S src = base + ext; for (auto &f : e_files()) unlink(f.c_str()); mkdir("in.dir", 0700); mkdir("out.dir", 0700);
    Doc d; d.name = ext == ".json" ? "NULL" : "r"; d.ch = {leaf("a", "x"), leaf("a", "x"), leaf("b", "5000000000")}; if (ext != ".json") { d.at = {{"p", "7"}}; d.ch[2].ch = {leaf("a", "x")}; }
    S text = ext == ".json" ? "{\"a\":\"x\",\"a\":\"x\",\"b\":\"5000000000\"}" : xml_of(d);
    if (ext == ".xbw") { if (!mc::writefile("m.xml", text)) return fail("write"); Bin_xml_creator C("m.xml", src.c_str(), XBTARGET_XBW); if (!C.DoAll()) return fail("cannot make %s", src.c_str()); if (mc::readfile(src).empty()) return fail("%s was not made", src.c_str()); }
    else if (!mc::writefile(src, text)) return fail("write"); S original = mc::readfile(src);
    bool xml = ext == ".xml" || ext == ".xsd" || ext == ".wsdl", plug = call == 2 || call == 5 || call == 6 || call == 8 || call == 9 || call == 11; if (plug && !known) return mc::nontrivial();
    if (call == 4 && !(xml || ext == ".json")) return mc::nontrivial(); bool xbw = call == 8 || call == 9 || call == 10; if (xbw && ext == ".xbw") return mc::nontrivial();
    timeval old[2] = {{1000000001, 0}, {1200000002, 0}}; if (utimes(src.c_str(), old)) return fail("utimes");
    bool ok = false; S out = with_ext(dst, xbw ? ".xbw" : ".xb"), beside = with_ext(src, xbw ? ".xbw" : ".xb"); std::unique_ptr<Bin_src_plugin> P; if (plug) { P.reset(BIN_SRC_PLUGIN_SELECTOR(src.c_str(), nullptr)); if (!P) return fail("no plugin for %s", src.c_str()); }
    bool expect = known; const char *E = nullptr; char name[600] = "";
    switch (call) {
        case 0: ok = Bin_xml_creator::Convert(src.c_str(), dst.c_str()); break; case 1: ok = Bin_xml_packer::Convert(src.c_str(), dst.c_str()); break; case 2: ok = Bin_xml_packer::Convert(P.get(), dst.c_str()); break;
        case 3: expect = xml; E = "?"; ok = Bin_xml_packer::GetXB(src.c_str(), name, &E); out = beside; if (ok && with_ext(name, ".xb") != beside) return fail("GetXB(%s) names %s", src.c_str(), name); if (ok != !E) return fail("GetXB(%s) returns %d with message %s", src.c_str(), ok, E ? E : "none"); break;
        case 4: { strcpy(name, src.c_str()); XB_reader R(name); R.verbosity = 0; ok = R.Initialize(); if (ok && !e_same(R, d)) return fail("content of %s opened by XB_reader", src.c_str()); R.Finalize(); out = beside; if (with_ext(name, "") != with_ext(src, "")) return fail("XB_reader names %s", name); break; }
        case 5: { Bin_xml_creator C(P.get(), dst.c_str()); ok = C.DoAll(); break; } case 6: { Bin_xml_creator C(P.get()); ok = C.DoAll(); out = beside; break; } case 7: { Bin_xml_creator C(src.c_str(), dst.c_str(), XBTARGET_XB); ok = C.DoAll(); break; }
        case 8: { Bin_xml_creator C(P.get(), XBTARGET_XBW); ok = C.DoAll(); out = beside; break; } case 9: { Bin_xml_creator C(P.get(), dst.c_str(), XBTARGET_XBW); ok = C.DoAll(); break; } case 10: { Bin_xml_creator C(src.c_str(), dst.c_str(), XBTARGET_XBW); ok = C.DoAll(); break; }
        case 11: { Bin_xml_packer C(P.get(), nullptr); ok = C.DoAll(); out = beside; break; }
        case 12: { Bin_xml_packer C(src.c_str(), dst.c_str()); ok = C.DoAll(); S one = mc::readfile(out); unlink(out.c_str()); bool again = C.DoAll(); if (again != ok || mc::readfile(out) != one) return fail("%s of %s gives another result", E_CALL[call], src.c_str()); break; }
        case 13: case 14: { // what was there before is forgotten
            Doc o; o.name = d.name; o.ch = {leaf("zz", "x"), leaf("b", "-1"), leaf("yy", "1.5")}; if (ext != ".json") { o.at = {{"p", "x"}, {"qq", "y"}, {"b", "2"}}; o.ch[0].ch = {leaf("a", "x"), leaf("a", "z")}; } S otext = ext == ".json" ? "{\"zz\":\"x\",\"b\":\"-1\",\"yy\":\"1.5\"}" : xml_of(o);
            if (ext == ".xbw") { if (!mc::writefile("m.xml", otext)) return fail("write"); unlink(src.c_str()); Bin_xml_creator C("m.xml", src.c_str(), XBTARGET_XBW); if (!C.DoAll()) return fail("cannot make %s", src.c_str()); } else if (!mc::writefile(src, otext)) return fail("write");
            auto twice = [&](auto &C) { ok = C.DoAll(); if (!mc::writefile(src, original) || utimes(src.c_str(), old)) return false; return C.DoAll() == ok; }; if (call == 13) { Bin_xml_packer C(src.c_str(), dst.c_str()); if (!twice(C)) return fail("%s of %s: the second one fails", E_CALL[call], src.c_str()); } else { Bin_xml_creator C(src.c_str(), dst.c_str()); if (!twice(C)) return fail("%s of %s: the second one fails", E_CALL[call], src.c_str()); } break; }
    }
    if (ok != expect) return fail("%s of %s to %s returns %d", E_CALL[call], src.c_str(), dst.c_str(), ok); if (out != src && mc::readfile(src) != original) return fail("%s changes its source %s", E_CALL[call], src.c_str());
    std::set<S> files = e_files();
    files.erase("m.xml"); files.erase(norm(src)); if (ok && !files.erase(out)) return fail("%s of %s to %s does not make %s", E_CALL[call], src.c_str(), dst.c_str(), out.c_str()); if (!files.empty()) return fail("%s of %s to %s makes %s", E_CALL[call], src.c_str(), dst.c_str(), files.begin()->c_str());
    if (ok && !xbw && out != src) { S x = mc::readfile(out); XML_Item *D = (XML_Item *)&x[0]; struct stat st; if (stat(src.c_str(), &st)) return fail("stat"); if (x.size() < sizeof *D) return fail("%s is short", out.c_str()); // the header names the source and its time
        XML_Param_Description *v = D->getParamByName(XPNR_FORMAT_VERSION), *n = D->getParamByName(XPNR_NAME), *m = D->getParamByName(XPNR_MODIFIED); if (!v || v->getInt(D) != XB_FORMAT_VERSION || !n || with_ext(n->getString(D), ext) != with_ext(src, ext) || !m || m->type != XBT_UNIX_TIME || m->data != (int32_t)st.st_mtime) return fail("the header of %s made by %s does not describe its source", out.c_str(), E_CALL[call]); }
    if (ok && !xbw) { Rd r(out.c_str()); if (!r.ok) return fail("the reader refuses %s made by %s", out.c_str(), E_CALL[call]); if (!e_same(r.R, d)) return fail("%s of %s", E_CALL[call], src.c_str()); }
    if (ok && xbw) { BW W(out.c_str(), nullptr, 0x40000, 0); Cols c; if (!W.Initialize() || !W.getRoot() || !same_bw(W, (BW_element *)W.getRoot(), d, c)) return fail("%s of %s", E_CALL[call], src.c_str()); W.Finalize(); }
    bool packed = call == 1 || call == 2 || call == 3 || call == 4 || call == 11 || call == 12 || call == 13; if (ok && !xbw) { S mine = mc::readfile(out); S other = "other.xb"; if (packed) { Bin_xml_packer C(src.c_str(), "other.xb"); ok = C.DoAll(); } else { Bin_xml_creator C(src.c_str(), "other.xb"); ok = C.DoAll(); } if (!ok || mc::readfile("other.xb") != mine) return fail("%s of %s to %s stores other bytes than the conversion by an object", E_CALL[call], src.c_str(), dst.c_str()); }
    mc::nontrivial();
}
static S d_entry(uint64_t i) { S r = S("s") + E_EXT[i % 11]; i /= 11; r = shrt(E_SRC[i % NES]) + " " + r; i /= NES; r += S(" to ") + shrt(E_DST[i % NED]); return S(E_CALL[i / NED]) + " " + r; }

#define DESC(f) [](uint64_t i) { return S("document ") + shrt(xml_of(f(i))); }
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
    s.push_back({"C01.values", NVALUE, [](uint64_t i) { run_c01(value_doc(i)); }, DESC(value_doc), quiet});
    s.push_back({"C01.trees", tree_cases(), [](uint64_t i) { for_trees(i, run_c01); }, [](uint64_t i) { return "tree " + std::to_string(i); }, quiet});
    s.push_back({"C01.limits", NLIM, [](uint64_t i) { lim_case(i, 0); }, lim_desc, quiet}); s.push_back({"C02.limits", NLIM, [](uint64_t i) { lim_case(i, 1); }, lim_desc, quiet}); // registering symbols one by one is slow: in the quick tier C13.limit does it with the pool alone
    static const uint64_t LIM3 = mc::thorough ? 0 : 2 * NLN; s.push_back({"C03.limits", NLIM - LIM3, [](uint64_t i) { lim_case(i + LIM3, 2); }, [](uint64_t i) { return lim_desc(i + LIM3); }, quiet});
    s.push_back({"C01.sizes", NSIZE, [](uint64_t i) { run_c01(size_doc(i)); }, DESC(size_doc), quiet});
    s.push_back({"C01.names", NNAMES, [](uint64_t i) { run_c01(name_doc(i)); }, DESC(name_doc), quiet});
    s.push_back({"C01.lengths", (uint64_t)(mc::thorough ? 9000 : 1200), [](uint64_t i) { run_c01(length_doc(i)); }, DESC(length_doc), quiet});
    s.push_back({"C01.longnames", 3 * NLONGN, [](uint64_t i) { run_c01(longname_doc(i)); }, DESC(longname_doc), quiet}); s.push_back({"C02.longnames", 3 * NLONGN, [](uint64_t i) { run_c02(longname_doc(i)); }, DESC(longname_doc), quiet}); s.push_back({"C03.longnames", 3 * NLONGN, [](uint64_t i) { run_c03(longname_doc(i)); }, DESC(longname_doc), quiet});
    s.push_back({"C01.markup", NMARK, [](uint64_t i) { Doc d; S x = markup_xml(i, d); if (!check_text(x, d, false)) fail("document: %s", shrt(x).c_str()); }, [](uint64_t i) { Doc d; S x = markup_xml(i, d); return "document " + mc::quote(x.substr(x.find("-->") + 4)); }, quiet});
    s.push_back({"C01.namespaces", ns_cases(), c_namespaces, [](uint64_t i) { Doc d; return "document " + mc::quote(ns_xml(i, d)); }, quiet});
    s.push_back({"C01.entry", NENTRY, c_entry, d_entry, quiet});
    s.push_back({"C02.values", NVALUE, [](uint64_t i) { run_c02(value_doc(i)); }, DESC(value_doc), quiet});
    s.push_back({"C02.trees", tree_cases(), [](uint64_t i) { for_trees(i, run_c02); }, [](uint64_t i) { return "tree " + std::to_string(i); }, quiet});
    s.push_back({"C02.repeats", NREP, [](uint64_t i) { run_c02(repeat_doc(i)); }, DESC(repeat_doc), quiet});
    s.push_back({"C02.near", NNEAR, [](uint64_t i) { run_c02(near_doc(i)); }, DESC(near_doc), quiet});
    s.push_back({"C02.collide", NCOLLIDE, [](uint64_t i) { Doc d = collide_doc(i); if (!d.ch.empty() && !mc::failed()) run_c02(d); }, [](uint64_t i) { return "pair " + std::to_string(i / 5 % 4) + " of elements with equal word " + std::to_string(i % 5) + " of hash, order " + std::to_string(i / 20); }, quiet});
    s.push_back({"C02.names", NNAMES, [](uint64_t i) { run_c02(name_doc(i)); }, DESC(name_doc), quiet});
    s.push_back({"C02.sizes", NSIZE, [](uint64_t i) { run_c02(size_doc(i)); }, DESC(size_doc), quiet});
    s.push_back({"C17.values", NVALUE, [](uint64_t i) { Doc d = value_doc(i); for (int m = 0; m < 3; m++) { mc::subcase(m); run_c17(d, m + 3 * (i & 1)); if (mc::failed()) return; } }, DESC(value_doc), quiet});
    s.push_back({"C03.values", NVALUE, [](uint64_t i) { run_c03(value_doc(i)); }, DESC(value_doc), quiet});
    s.push_back({"C03.trees", tree_cases(), [](uint64_t i) { for_trees(i, run_c03); }, [](uint64_t i) { return "tree " + std::to_string(i); }, quiet});
    s.push_back({"C03.sizes", NSIZE, [](uint64_t i) { run_c03(size_doc(i)); }, DESC(size_doc), quiet});
    s.push_back({"C03.names", NNAMES, [](uint64_t i) { run_c03(name_doc(i)); }, DESC(name_doc), quiet});
    s.push_back({"C03.lengths", (uint64_t)(mc::thorough ? 9000 : 1200), [](uint64_t i) { run_c03(length_doc(i)); }, DESC(length_doc), quiet});
    return mc::main_(c, v, s);
}

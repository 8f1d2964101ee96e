// Plain document tree used as the model of XML / XB / XBW documents, and readers of the real formats into checks against it.
#pragma once
#include "mc.h"
#include "sem.h"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_write_plugin.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <fstream>
#include <sstream>
#include <set>
#include <map>
#include <memory>
#include <dirent.h>
#include <algorithm>
#include <unistd.h>
using namespace pklib_xml;
typedef std::string S;
using mc::fail;

struct Doc { S name; std::vector<std::pair<S, S>> at; S val; std::vector<Doc> ch; };   // val "" = no value

inline S esc(const S &s, bool attr) { S r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"' && attr) r += "&quot;"; else if (attr && (c == '\n' || c == '\t' || c == '\r')) { char b[8]; snprintf(b, 8, "&#%d;", c); r += b; } else if (c == '\r') r += "&#13;"; else r += c; } return r; }
inline void xml_of(const Doc &d, S &o) {
    o += "<" + d.name; for (auto &a : d.at) o += " " + a.first + "=\"" + esc(a.second, true) + "\"";
    if (d.ch.empty() && d.val.empty()) { o += "/>"; return; }
    o += ">" + esc(d.val, false); for (auto &c : d.ch) xml_of(c, o); o += "</" + d.name + ">";
}
inline S xml_of(const Doc &d) { S o; xml_of(d, o); return o; }
inline void nodes_of(const Doc &d, std::vector<const Doc *> &v) { v.push_back(&d); for (auto &c : d.ch) nodes_of(c, v); }

// text as it comes out after being stored with a type
inline S canon(const S &text, XML_Binary_Type t) {
    if (text.empty() || t == XBT_STRING || t == XBT_VARIANT || t == XBT_BLOB_STRING || t == XBT_UNKNOWN || t == XBT_NULL) return text;
    std::vector<char> buf(text.size() * 2 + 64); char *b = buf.data(); while ((uintptr_t)b & 7) b++; char *w = b;
    if (!XBT_FromString(text.c_str(), t, &w, buf.data() + buf.size())) return "<not convertible>";
    if (t == XBT_STRING) return S(b);
    const char *r = XBT_ToString(t, b); return r ? S(r) : S();
}
inline bool via_text = false; // a value may have had its own type, or the joined one of its column, before it became a text
inline bool same_text(const S &got, const S &text, XML_Binary_Type t) { return got == text || (got == canon(text, t) && same_meaning(text, got)) || (via_text && t == XBT_STRING && got.find('\n') == S::npos && same_meaning(text, got)); }
// how a value given as text is expected to come out, depending on the values that share its symbol
struct Cols { std::map<S, XML_Binary_Type> el, at; };
inline void columns(const Doc &d, Cols &c) {
    auto add = [](std::map<S, XML_Binary_Type> &m, const S &k, const S &v) { XML_Binary_Type t = v.empty() ? XBT_NULL : XBT_Detect(v.c_str()); auto i = m.find(k); if (i == m.end()) m[k] = t; else if (i->second != XBT_VARIANT) i->second = XBT_JoinTypes(t, i->second); };
    add(c.el, d.name, d.val); for (auto &a : d.at) add(c.at, a.first, a.second); for (auto &x : d.ch) columns(x, c);
}
#define TBAD(...) do { char _b[700]; snprintf(_b, sizeof _b, __VA_ARGS__); fail("%s", _b); return false; } while (0)
inline S shrt(const S &s) { return mc::quote(s.size() > 60 ? s.substr(0, 40) + "...(" + std::to_string(s.size()) + ")" : s); }

// chunked output of a value or a parameter
template <class F> inline bool chunks(F f, int size, S &out) { std::vector<char> b(size); int off = 0; out.clear(); for (int k = 0;; k++) { memset(b.data(), 0x7e, size); int l = f(off, b.data(), size); if (l == 0) return true; if (l < 0 || l >= size || b[l] != 0 || k > 100000) return false; out.append(b.data(), l); } }

struct Walk { XB_reader *R; const Cols *cols; bool typed_elements = false; int deep_api = 1; uint64_t nodes = 0; std::vector<XML_Item *> pre, post; };
// number readers on a text: 1 = it is exactly the decimal number v, 0 = it cannot start with a number, -1 = free
inline int numtext(const S &s, long long &v) { size_t i = !s.empty() && s[0] == '-'; if (s.size() > i && s.size() < 19) { size_t k = i; while (k < s.size() && s[k] >= '0' && s[k] <= '9') k++; if (k == s.size()) { v = atoll(s.c_str()); return 1; } } return s.empty() || isalpha((unsigned char)s[0]) || (unsigned char)s[0] >= 0x80 ? 0 : -1; }
// the raw data of a value: aligned, of the size of its type, holding what its text says
inline bool raw_data(const XML_Binary_Data_Ref &D, const S &got, const char *what) {
    int t = D.type, size = -1, al = 4; if (t == XBT_NULL || t == XBT_STRING || t == XBT_VARIANT) return true; if (!D.data) TBAD("getData of %s gives no data", what);
    switch (t) { case XBT_INT64: case XBT_UINT64: case XBT_UNIX_TIME64_MSEC: case XBT_DOUBLE: size = 8; al = 8; break; case XBT_SHA1: size = 20; break; case XBT_GUID: size = 16; break; case XBT_BLOB: case XBT_HEX: { int32_t n; memcpy(&n, D.data, 4); size = 4 + n; break; } case XBT_INT32: case XBT_UINT32: case XBT_FLOAT: case XBT_IPv4: case XBT_UNIX_TIME: case XBT_UNIX_DATE: case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: size = 4; break; }
    if ((uintptr_t)D.data % al) TBAD("getData of %s (type %d) is not aligned", what, t); if (size >= 0 && D.size != size) TBAD("getData of %s (type %d) has %d bytes, expected %d", what, t, D.size, size);
    S copy(D.data, D.size); copy.append(16, 0); alignas(8) static char buf[1 << 16]; if (copy.size() > sizeof buf) return true; memcpy(buf, copy.data(), copy.size()); const char *g = XBT_ToString((XML_Binary_Type)t, buf); if (!g || got != g) TBAD("raw data of %s (type %d) denotes %s, its text is %s", what, t, g ? g : "(null)", got.c_str()); return true;
}
template <class I, class P, class L> inline bool num_getters(const S &got, XML_Binary_Type t, I geti, P ptr, L ptr64) {
    long long v = 0; const int32_t *p = ptr(); const int64_t *q = nullptr; int r = t == XBT_STRING ? numtext(got, v) : t == XBT_INT32 || t == XBT_INT64 ? numtext(got, v) : -2;
    if (r == 1 && v > INT32_MIN && v <= INT32_MAX && t != XBT_INT64) { if (geti() != v || !p || *p != v) TBAD("%s (%s) is read as integer %d / %d", shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t], geti(), p ? *p : -1); }
    q = ptr64();
    if (r == 1 && t != XBT_INT32) { if (!q || *q != v) TBAD("%s (%s) is read as 64 bit integer %lld", shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t], q ? (long long)*q : -1); }
    if (r == 0 && q) TBAD("%s is no number but is read as 64 bit integer %lld", shrt(got).c_str(), (long long)*q);
    if (t == XBT_INT64 && r == 1 && (geti() != INT32_NULL && geti() != v)) TBAD("64 bit number %s is read as integer %d", shrt(got).c_str(), geti());
    return true;
}
inline bool same_item(Walk &w, XML_Item *X, const Doc &d) {
    XB_reader &R = *w.R; w.nodes++; w.pre.push_back(X);
    if (!X) TBAD("element %s is missing", d.name.c_str());
    if (d.name != R.getNodeName(X->name)) TBAD("element is named %s, expected %s", shrt(R.getNodeName(X->name)).c_str(), d.name.c_str());
    if (X->paramcount != (int)d.at.size()) TBAD("element %s has %d attributes, expected %zu", d.name.c_str(), X->paramcount, d.at.size());
    if (X->childcount != (int)d.ch.size()) TBAD("element %s has %d children, expected %zu", d.name.c_str(), X->childcount, d.ch.size());
    std::set<S> aseen; for (size_t i = 0; i < d.at.size(); i++) {
        XML_Param_Description *p = X->getParamByIndex(i); const S &n = d.at[i].first, &v = d.at[i].second;
        if (n != R.getParamName(p->name)) TBAD("attribute %zu of %s is %s, expected %s", i, d.name.c_str(), R.getParamName(p->name), n.c_str());
        const char *s = p->getString(X); S got = s ? s : ""; XML_Binary_Type t = (XML_Binary_Type)p->type;
        if (!same_text(got, v, t) || (v.empty() != got.empty())) TBAD("attribute %s=%s of %s comes out as %s (type %s)", n.c_str(), shrt(v).c_str(), d.name.c_str(), shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t]);
        if (t != XBT_STRING && t != XBT_NULL && t != XBT_VARIANT && got != canon(v, t)) TBAD("attribute %s=%s: stored %s is not what type %s holds", n.c_str(), shrt(v).c_str(), shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t]);
        bool first = aseen.insert(n).second;
        if (first && X->getParamByName((XML_Param_Names)R.getParamID(n.c_str())) != p) TBAD("attribute %s of %s is not found by its id", n.c_str(), d.name.c_str());
        S c; for (int size : {257, 300, 4097}) { { if (!chunks([&](int &o, char *b, int z) { return p->getStringChunk(X, o, b, z); }, size, c) || c != got) TBAD("attribute %s=%s in chunks of %d comes out as %s", n.c_str(), shrt(v).c_str(), size, shrt(c).c_str()); } }
        XML_Binary_Data_Ref D = p->getData(X); if (D.type != t || !D.data || (t == XBT_STRING && (D.size != (int)got.size() + 1 || got != D.data))) TBAD("getData of attribute %s gives type %d size %d", n.c_str(), D.type, D.size);
        if (!raw_data(D, got, n.c_str())) return false;
        if (t == XBT_INT32) { int want = atoi(v.c_str()); if (p->getInt(X) != want || !p->getIntPtr(X) || *p->getIntPtr(X) != want) TBAD("integer attribute %s=%s reads as %d", n.c_str(), v.c_str(), p->getInt(X)); }
        if (!num_getters(got, t, [&] { return p->getInt(X); }, [&] { return p->getIntPtr(X); }, [&] { return p->getInt64Ptr(X); })) return false;
        if (t == XBT_INT64) { const int64_t *q = p->getInt64Ptr(X); if (!q || std::to_string(*q) != got) TBAD("64 bit attribute %s=%s reads as %lld", n.c_str(), v.c_str(), q ? (long long)*q : -1); }
    }
    const char *s = X->getString(); S got = s ? s : ""; XML_Binary_Data_Ref D = X->getData(); XML_Binary_Type t = D.type;
    if (!same_text(got, d.val, t) || d.val.empty() != got.empty()) TBAD("value %s of %s comes out as %s (type %s)", shrt(d.val).c_str(), d.name.c_str(), shrt(got).c_str(), XML_BINARY_TYPE_NAMES[t]);
    if (t == XBT_STRING && !via_text && got != d.val) TBAD("string value %s of %s comes out as %s", shrt(d.val).c_str(), d.name.c_str(), shrt(got).c_str());
    if (!raw_data(D, got, d.name.c_str())) return false;
    S c; for (int size : {257, 300, 4097}) { if (!chunks([&](int &o, char *b, int z) { return X->getStringChunk(o, b, z); }, size, c) || c != got) TBAD("value %s of %s in chunks of %d comes out as %s", shrt(d.val).c_str(), d.name.c_str(), size, shrt(c).c_str()); }
    if (t == XBT_INT32) { int want = atoi(d.val.c_str()); if (X->getInt() != want || !X->getIntPtr() || *X->getIntPtr() != want) TBAD("integer value %s of %s reads as %d", d.val.c_str(), d.name.c_str(), X->getInt()); if (D.size != 4 || *(int32_t *)D.data != want) TBAD("getData of integer value %s is wrong", d.val.c_str()); }
    if (!num_getters(got, t, [&] { return X->getInt(); }, [&] { return X->getIntPtr(); }, [&] { return X->getInt64Ptr(); })) return false;
    if (t == XBT_INT64) { const int64_t *q = X->getInt64Ptr(); if (!q || std::to_string(*q) != got) TBAD("64 bit value %s of %s reads as %lld", d.val.c_str(), d.name.c_str(), q ? (long long)*q : -1); }
    if (t == XBT_STRING) {
        int32_t z = -1; const char *b = (const char *)X->getBinary(&z); if (!b || S(b, z) != got) TBAD("getBinary of the string value %s gives %d bytes", shrt(got).c_str(), z); if (D.size != (int)got.size() + 1) TBAD("getData of the string value %s gives %d bytes", shrt(got).c_str(), D.size);
        if (isdigit((unsigned char)got[0]) && got.size() < 9) { if (X->getInt() != atoi(got.c_str()) || !X->getIntPtr() || *X->getIntPtr() != atoi(got.c_str())) TBAD("text value %s of %s reads as integer %d / %d", shrt(got).c_str(), d.name.c_str(), X->getInt(), X->getIntPtr() ? *X->getIntPtr() : -1); }
    }
    int it = 0;
    std::set<S> seen; for (size_t i = 0; i < d.ch.size(); i++) {
        XML_Item *Y = X->getChildByIndex(i); if (!Y) TBAD("child %zu of %s is missing", i, d.name.c_str());
        if (X->getNextChild(R, it) != Y) TBAD("getNextChild of %s gives another child %zu than getChildByIndex", d.name.c_str(), i);
        bool first = seen.insert(d.ch[i].name).second;
        if (first && X->getChildByName((XML_Tag_Names)R.getNodeID(d.ch[i].name.c_str())) != Y) TBAD("child %s of %s is not found by its id", d.ch[i].name.c_str(), d.name.c_str());
        if (!same_item(w, Y, d.ch[i])) return false;
    }
    if (X->getNextChild(R, it) != nullptr || X->getChildByIndex(d.ch.size()) || X->getChildByIndex(-1) || X->getParamByIndex(d.at.size()) || X->getParamByIndex(-1)) TBAD("element %s has something after its last child or attribute", d.name.c_str());
    w.post.push_back(X); return true;
}
struct Ev { XML_Item *x; int deep; };
inline bool same_xb(XB_reader &R, const Doc &d) {
    Cols cols; columns(d, cols); Walk w; w.R = &R; w.cols = &cols;
    XML_Item *X = R.getRoot(); if (!X) TBAD("the reader has no root"); if (!same_item(w, X, d)) return false;
    std::vector<Ev> a, b, c;
    auto cb = [](XML_Item *x, void *u, int deep) { ((std::vector<Ev> *)u)->push_back({x, deep}); };
    X->ForAllChildrenRecursively(cb, &a, 0); X->ForAllChildrenRecursively_PostOrder(cb, &b, 0);
    static XML_Item *anc[XML_MAX_DEEP]; static bool anc_ok; anc_ok = true;
    X->ForAllChildrenRecursively_PostOrderA([](XML_Item *x, void *u, int deep, XML_Item **root) { ((std::vector<Ev> *)u)->push_back({x, deep}); XML_Item *p = root[deep]; bool ok = false; for (int i = 0; p && i < p->childcount; i++) if (p->getChildByIndex(i) == x) ok = true; if (!ok) anc_ok = false; }, &c, 0, anc);
    auto cmp = [&](std::vector<Ev> &v, std::vector<XML_Item *> &o, bool front, const char *what) { if (v.size() + 1 != o.size()) return fail("%s visits %zu elements, expected %zu", what, v.size(), o.size() - 1), false; for (size_t i = 0; i < v.size(); i++) if (v[i].x != o[i + front]) return fail("%s visits a wrong element at step %zu", what, i), false; return true; };
    if (!cmp(a, w.pre, true, "ForAllChildrenRecursively") || !cmp(b, w.post, false, "ForAllChildrenRecursively_PostOrder") || !cmp(c, w.post, false, "ForAllChildrenRecursively_PostOrderA")) return false;
    if (!anc_ok) TBAD("ForAllChildrenRecursively_PostOrderA gives wrong ancestors");
    // symbol tables: exactly the names used, sorted, found
    std::set<S> tags, atts; std::vector<const Doc *> v; nodes_of(d, v); for (auto x : v) { tags.insert(x->name); for (auto &p : x->at) atts.insert(p.first); }
    auto tab = [&](_XB_symbol_table &T, std::set<S> &names, const char *what) {
        if (T.count != (int)names.size()) return fail("%s table has %d symbols, expected %zu", what, T.count, names.size()), false;
        for (auto &n : names) { int id = T.getID(n.c_str()); if (id < 0 || n != T.getSymbol(id)) return fail("%s %s is not found in the symbol table", what, n.c_str()), false; if (names.count(n + "_") == 0 && T.getID((n + "_").c_str()) != -1) return fail("%s %s_ is found although it is not there", what, n.c_str()), false; }
        if (T.getID("") != -1 || T.getID("~~") != -1) return fail("unknown %s is found", what), false;
        return true; };
    if (!tab(R.tag_symbols, tags, "tag") || !tab(R.param_symbols, atts, "attribute")) return false;
    mc::states(w.nodes); return true;
}
// an XML text, read by libxml2 into the model; whitespace around values is formatting
inline S trim(const S &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == S::npos ? S() : s.substr(a, b - a + 1); }
inline void doc_of(xmlNode *n, Doc &d) {
    d.name = (const char *)n->name; for (xmlAttr *a = n->properties; a; a = a->next) { xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1); d.at.push_back({(const char *)a->name, v ? (const char *)v : ""}); if (v) xmlFree(v); }
    for (xmlNode *c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) { d.ch.emplace_back(); doc_of(c, d.ch.back()); } else if (c->type == XML_TEXT_NODE) { S t = trim((const char *)c->content); if (!t.empty()) d.val += (d.val.empty() ? "" : "|") + t; }
}
inline bool parse_xml(const S &text, Doc &d) { xmlDoc *x = xmlReadMemory(text.data(), text.size(), "m.xml", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE | XML_PARSE_NOCDATA); if (!x) return false; doc_of(xmlDocGetRootElement(x), d); xmlFreeDoc(x); return true; }
// compare a parsed output with the model; each value may come out as given or in a canonical form of its column's or its own type
inline bool same_value(const S &got, const S &want, XML_Binary_Type col) { S w = trim(want); if (got == w || got == trim(want)) return true; return got == trim(canon(want, col)) || got == trim(canon(want, XBT_Detect(want.c_str()))); }
inline bool same_doc(const Doc &g, const Doc &d, const Cols &c, const char *what) {
    if (g.name != d.name) TBAD("%s: element %s instead of %s", what, g.name.c_str(), d.name.c_str());
    if (g.at.size() != d.at.size() || g.ch.size() != d.ch.size()) TBAD("%s: element %s has %zu attributes and %zu children, expected %zu and %zu", what, d.name.c_str(), g.at.size(), g.ch.size(), d.at.size(), d.ch.size());
    for (size_t i = 0; i < d.at.size(); i++) { if (g.at[i].first != d.at[i].first) TBAD("%s: attribute %s instead of %s", what, g.at[i].first.c_str(), d.at[i].first.c_str()); const S &want = d.at[i].second, &got = g.at[i].second; XML_Binary_Type col = c.at.at(d.at[i].first); if (got != want && got != canon(want, col) && got != canon(want, want.empty() ? XBT_NULL : XBT_Detect(want.c_str()))) TBAD("%s: attribute %s=%s comes out as %s", what, d.at[i].first.c_str(), shrt(want).c_str(), shrt(got).c_str()); }
    if (!same_value(g.val, d.val, d.val.empty() ? XBT_NULL : c.el.at(d.name))) TBAD("%s: value %s of %s comes out as %s", what, shrt(d.val).c_str(), d.name.c_str(), shrt(g.val).c_str());
    for (size_t i = 0; i < d.ch.size(); i++) if (!same_doc(g.ch[i], d.ch[i], c, what)) return false;
    return true;
}
inline bool same_xml(const S &text, const Doc &d, const char *what) { Doc g; if (!parse_xml(text, g)) TBAD("%s is not well formed XML: %s", what, shrt(text).c_str()); Cols c; columns(d, c); return same_doc(g, d, c, what); }
struct Quiet { std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };

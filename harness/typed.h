// Typed write-pool trees (every value bit for bit) and their comparison with a reader
#pragma once
#include "tree.h"
#include <memory>

struct V { XML_Binary_Type t; S b; };                        // raw bytes of a value, with the size word of variable sized types
struct TD { int id; V v; std::vector<std::pair<int, V>> at; std::vector<TD> ch; };
static const XML_Binary_Type TYPES[] = {XBT_NULL, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32,
                                        XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING};
static const int NT = sizeof TYPES / sizeof *TYPES;
enum { KT = 3 };                                             // tags and attributes of each type: t<type>_<k>
static S tagname(int i) { return i == XTNR_ET_TECERA ? "et-tecera" : i == XTNR_TRANSACTION ? "transaction" : i == XTNR_PAYLOAD ? "payload" : i == 3 * KT ? "tag_symbols" : i == 3 * KT + 1 ? "meta_root" : "t" + std::to_string(i); }
static S attname(int i) { static const char *R[] = {"NULL", "name", "hash", "modified", "count", "version", "type_count", "id", "author", "time_ms"}; return i < 0 ? R[-1 - i] : i == 3 * KT ? "id" : i == 3 * KT + 1 ? "author" : i == 3 * KT + 2 ? "time_ms" : "a" + std::to_string(i); }
static int typ(XML_Binary_Type t) { for (int i = 0; i < NT; i++) if (TYPES[i] == t) return i; return 0; }
static S word(uint32_t n) { return S((const char *)&n, 4); }
template <class T> static S by(T v) { return S((const char *)&v, sizeof v); }
static S rep(size_t n, int k) { S s; for (size_t i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 26 + k) % 26); return s; }
static V sized(XML_Binary_Type t, size_t n, int k) { // n bytes of payload
    S s = rep(n, k); if (t == XBT_STRING) return {t, s + S(1, 0)}; if (t == XBT_BLOB_STRING) { size_t cap = 16; while (cap < n + 1) cap = cap * 3 / 2 / 8 * 8; s.resize(cap); return {t, word(cap) + s}; }
    if (t == XBT_HEX || t == XBT_BLOB) for (size_t i = 0; i < n; i++) s[i] = (char)(i * 37 + k * 11); return {t, word(n) + s};
}
static V value(int ti, int var) { // two values of each type
    XML_Binary_Type t = TYPES[ti]; bool b = var & 1;
    switch (t) {
        case XBT_NULL: return {t, ""};
        case XBT_STRING: return {t, b ? S("a<&\"' b\xc3\xa9", 9) + S(1, 0) : S(1, 0)};
        case XBT_BLOB: case XBT_HEX: case XBT_BLOB_STRING: return sized(t, b ? 7 : 0, var);
        case XBT_INT32: return {t, by<int32_t>(b ? INT32_MIN + 1 : 7)};
        case XBT_INT64: return {t, by<int64_t>(b ? INT64_MIN + 1 : 0x0102030405060708ll)};
        case XBT_FLOAT: return {t, by<float>(b ? -1.5e20f : 0.25f)};
        case XBT_DOUBLE: return {t, by<double>(b ? 3.141592653589793 : -1e100)};
        case XBT_GUID: return {t, b ? S("\x01\x23\x45\x67\x89\xab\xcd\xef\x01\x23\x45\x67\x89\xab\xcd\xef", 16) : S(16, 0)};
        case XBT_SHA1: return {t, b ? S("\xda\x39\xa3\xee\x5e\x6b\x4b\x0d\x32\x55\xbf\xef\x95\x60\x18\x90\xaf\xd8\x07\x09", 20) : S(20, '\xff')};
        case XBT_UNIX_TIME: return {t, by<uint32_t>(b ? 1700000000u : 0)};
        case XBT_IPv4: return {t, by<uint32_t>(b ? 0x7f000001u : 0xfffefdfcu)};
        case XBT_UINT64: return {t, by<uint64_t>(b ? UINT64_MAX - 1 : 5)};
        case XBT_UNIX_TIME64_MSEC: return {t, by<int64_t>(b ? 1700000000123ll : 0)};
        case XBT_UINT32: return {t, by<uint32_t>(b ? UINT32_MAX - 1 : 0)};
        case XBT_UNIX_DATE: return {t, by<int32_t>(b ? 18321 : 0)};
        default: return {t, by<int32_t>(b ? -123456789 : 5)};
    }
}
static S show(const V &v) { return S(XML_BINARY_TYPE_NAMES[v.t]) + "=" + (v.b.size() > 24 ? mc::hex(v.b.data(), 24) + "...(" + std::to_string(v.b.size()) + ")" : mc::hex(v.b.data(), v.b.size())); }
static S show(const TD &d) { S s = "<" + std::to_string(d.id) + " " + show(d.v); for (auto &a : d.at) s += " @" + std::to_string(a.first) + " " + show(a.second); for (auto &c : d.ch) s += show(c); s = s + ">"; return s.size() > 500 ? s.substr(0, 500) + "..." : s; }

struct BW : BW_plugin { using BW_plugin::BW_plugin; };
static XML_Binary_Data_Ref ref(const V &v, S &buf) { buf = v.b; XML_Binary_Data_Ref D; D.type = v.t; D.data = D.content = (char *)buf.data(); D.size = D.content_size = (int)buf.size(); return D; }
static BW_element *make(BW &W, const TD &d) {
    S buf; XML_Binary_Data_Ref D = ref(d.v, buf); BW_element *e = W.tagData(d.id, D); if (!e) { fail("tagData(%s) failed", show(d.v).c_str()); return nullptr; }
    uint32_t off = e->offset;
    for (auto &a : d.at) { S b2; XML_Binary_Data_Ref A = ref(a.second, b2); if (a.second.t == XBT_NULL ? !e->attrNull(a.first) : !e->attrData(a.first, A)) { fail("attrData(%s) failed", show(a.second).c_str()); return nullptr; } e = W.BWE(off); }
    for (auto &c : d.ch) { BW_element *x = make(W, c); if (!x) return nullptr; e = W.BWE(off); e->add(x); }
    return e;
}
static void names_of(const TD &d, std::map<int, int> &tags, std::map<int, int> &atts) { if (d.id >= 0) tags[d.id] = d.v.t; for (auto &a : d.at) if (a.first >= 0) atts[a.first] = a.second.t; for (auto &c : d.ch) names_of(c, tags, atts); }
static S raw(XML_Binary_Data_Ref D) { return D.data && D.size > 0 ? S(D.data, D.size) : S(); }
static bool same(XB_reader &R, XML_Item *X, const TD &d) {
    if (!X) TBAD("an element is missing"); if (S(R.getNodeName(X->name)) != tagname(d.id)) TBAD("element is %s, expected %s", R.getNodeName(X->name), tagname(d.id).c_str());
    XML_Binary_Data_Ref D = X->getData(); if (D.type != d.v.t || raw(D) != d.v.b) TBAD("value of %s is %s, expected %s", tagname(d.id).c_str(), show(V{D.type, raw(D)}).c_str(), show(d.v).c_str());
    if ((uintptr_t)X & 3) TBAD("element is not aligned"); if (D.data && (XBT_IS_4(D.type) || XBT_IS_VARSIZE(D.type)) && ((uintptr_t)D.data & 3)) TBAD("value is not aligned"); if (D.data && XBT_IS_8(D.type) && ((uintptr_t)D.data & 7)) TBAD("8 byte value is not aligned");
    if (X->paramcount != (int)d.at.size() || X->childcount != (int)d.ch.size()) TBAD("element %s has %d attributes and %d children, expected %zu and %zu", tagname(d.id).c_str(), X->paramcount, X->childcount, d.at.size(), d.ch.size());
    auto text = [&](const char *got, const V &v, const char *what) { const char *w = v.t == XBT_NULL ? "" : XBT_ToString(v.t, v.b.data()); if (S(got ? got : "") != S(w ? w : "")) return fail("text of the %s %s is %s, expected %s", what, show(v).c_str(), shrt(got ? got : "(null)").c_str(), shrt(w ? w : "(null)").c_str()), false; return true; };
    if (!text(X->getString(), d.v, "value")) return false;
    if (d.v.t == XBT_INT32 && (X->getInt() != *(int32_t *)d.v.b.data() || !X->getIntPtr() || *X->getIntPtr() != *(int32_t *)d.v.b.data())) TBAD("getInt of %s gives %d", show(d.v).c_str(), X->getInt());
    if (d.v.t == XBT_INT64 && (!X->getInt64Ptr() || *X->getInt64Ptr() != *(int64_t *)d.v.b.data())) TBAD("getInt64Ptr of %s is wrong", show(d.v).c_str());
    if (XBT_IS_VARSIZE(d.v.t) || d.v.t == XBT_STRING) { int32_t z = -1; const char *p = (const char *)X->getBinary(&z); S w = d.v.t == XBT_STRING ? d.v.b.substr(0, d.v.b.size() - 1) : d.v.b.substr(4); if (d.v.t != XBT_HEX && d.v.t != XBT_BLOB_STRING && (!p || S(p, z) != w)) TBAD("getBinary of %s gives %d bytes", show(d.v).c_str(), z); }
    for (size_t i = 0; i < d.at.size(); i++) {
        XML_Param_Description *p = X->getParamByIndex(i); auto &a = d.at[i]; if (S(R.getParamName(p->name)) != attname(a.first)) TBAD("attribute %zu is %s, expected %s", i, R.getParamName(p->name), attname(a.first).c_str());
        XML_Binary_Data_Ref A = p->getData(X); if (A.type != a.second.t || (A.type != XBT_NULL && raw(A) != a.second.b)) TBAD("attribute %s is %s, expected %s", attname(a.first).c_str(), show(V{A.type, raw(A)}).c_str(), show(a.second).c_str());
        if (A.type != XBT_NULL && ((XBT_IS_VARSIZE(A.type) && ((uintptr_t)A.data & 3)) || (XBT_IS_8(A.type) && ((uintptr_t)A.data & 7)))) TBAD("attribute is not aligned");
        if (!text(p->getString(X), a.second, "attribute")) return false;
        if (A.type == XBT_INT32 && (p->getInt(X) != *(int32_t *)a.second.b.data() || !p->getIntPtr(X) || *p->getIntPtr(X) != *(int32_t *)a.second.b.data())) TBAD("getInt of attribute %s is wrong", show(a.second).c_str());
        if (A.type == XBT_INT64 && (!p->getInt64Ptr(X) || *p->getInt64Ptr(X) != *(int64_t *)a.second.b.data())) TBAD("getInt64Ptr of attribute %s is wrong", show(a.second).c_str());
    }
    for (size_t i = 0; i < d.ch.size(); i++) if (!same(R, X->getChildByIndex(i), d.ch[i])) return false;
    mc::states(1); return true;
}
static bool check_file(const char *fn, const TD &d, std::map<int, int> &tags, std::map<int, int> &atts, S *text, const char *route) {
    char n[64]; strcpy(n, fn); XB_reader R(n); R.verbosity = 0; if (!R.Initialize()) TBAD("%s: the reader refuses the file", route);
    bool ok = same(R, R.getRoot(), d);
    auto find = [&](_XB_symbol_table &T, std::map<int, int> &used, S (*nm)(int)) { for (auto &u : used) { int id = T.getID(nm(u.first).c_str()); if (id < 0 || nm(u.first) != T.getSymbol(id)) { fail("%s: symbol %s is not found", route, nm(u.first).c_str()); return false; } } return true; };
    ok = ok && find(R.tag_symbols, tags, tagname) && find(R.param_symbols, atts, attname);
    if (ok && text) { std::ostringstream o; o << R; if (text->empty()) *text = o.str(); else if (*text != o.str()) { fail("%s: XML text differs: %s / %s", route, shrt(*text).c_str(), shrt(o.str()).c_str()); ok = false; } }
    R.Finalize(); if (!ok) fail("%s of %s", route, show(d).c_str()); return ok;
}

// C04 (DOM operations), C13 (symbol dictionary), C07 (pool growth, several plugins), C06 (reopening .xbw files):
// every operation sequence up to a depth on the real write pool, compared with a plain tree / map model after each step.
#include <limits.h>
#include "mc.h"
#include <binary_xml/bin_write_plugin.h>
#include <map>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using namespace pklib_xml;
typedef std::string S;
using mc::fail;

static const XML_Binary_Type TYPES[] = {XBT_NULL, XBT_INT32, XBT_INT64, XBT_STRING, XBT_UNIX_TIME, XBT_SHA1, XBT_UNIX_TIME64_MSEC, XBT_BLOB, XBT_HEX, XBT_GUID, XBT_FLOAT,
                                        XBT_BLOB_STRING, XBT_UINT32, XBT_UINT64, XBT_DOUBLE, XBT_UNIX_DATE, XBT_IPv4, XBT_INT32_CENTI, XBT_VARIANT, XBT_IPv6};
static const int NT = sizeof TYPES / sizeof *TYPES;
enum { T_NULL, T_INT32, T_INT64, T_STRING, T_TIME, T_SHA1, T_TIME64, T_BLOB, T_HEX, T_GUID, T_FLOAT, T_BSTR, T_UINT32, T_UINT64, T_DOUBLE, T_DATE, T_IP4, T_CENTI, T_VAR, T_IP6 };
static S tname(int t) { return XML_BINARY_TYPE_NAMES[TYPES[t]]; }

struct TestPlugin : BW_plugin { using BW_plugin::BW_plugin; };
typedef std::unique_ptr<TestPlugin> Pl;
static Pl open_new(const char *fn, int max = 0x100000) {
    unlink((S(fn) + ".xbw").c_str());
    bool later = max & 0x3000 || max == 0x40000; Pl p(new TestPlugin((S(fn) + (later ? "" : ".xbw")).c_str(), nullptr, later ? max / 2 : max, 0)); // settings may come later
    if (later) { if (!p->setMaxPoolSize(max)) { fail("setMaxPoolSize refused before Initialize"); return nullptr; } }
    if (!p->Initialize()) { fail("Initialize of a new pool failed"); return nullptr; }
    if (later && p->setMaxPoolSize(max * 2)) { fail("setMaxPoolSize accepted by an opened pool"); return nullptr; }
    if ((int)p->getPool()->mmap_size != max) { fail("pool created with limit %u instead of %d", p->getPool()->mmap_size, max); return nullptr; }
    return p;
}
// symbols: tag i has type TYPES[i] and name "t<i>", attribute i "a<i>"
static bool reg_all(BW_plugin *p) {
    for (int i = 0; i < NT; i++) if (!p->registerTag(i, ("t" + std::to_string(i)).c_str(), TYPES[i])) { fail("registerTag(%d) failed", i); return false; }
    for (int i = 0; i < NT; i++) if (!p->registerAttr(i, ("a" + std::to_string(i)).c_str(), TYPES[i])) { fail("registerAttr(%d) failed", i); return false; }
    if (!p->allRegistered()) { fail("allRegistered failed"); return false; }
    return true;
}

// ------------------------------------------------------------------ tree model
struct N { BW_element *p; int id; XML_Binary_Type type; S val; bool elem; std::vector<int> ch, at; int parent = -1; };
struct World { std::vector<N> n; int held = -1; };
static S raw(BW_element *e) { XML_Binary_Data_Ref d = e->getData(); if (d.content_size < 0) return "?"; return S(d.content, d.content_size); }
template <class T> static S bytes(const T &v) { return S((const char *)&v, sizeof v); }
static S z(const S &s) { return s + S(1, '\0'); }

static BW_plugin *P; static BW_pool *L; static S path;
#define BAD(...) do { char _b[500]; snprintf(_b, sizeof _b, __VA_ARGS__); fail("%s | after: %s", _b, path.c_str()); return false; } while (0)

static bool ring(const World &w, const N &x, const std::vector<int> &l, BW_offset_t first, const char *what) {
    if (l.empty()) { if (first != 0) BAD("%s list of %s should be empty", what, x.p->getName()); return true; }
    if (first == 0) BAD("%s list of an element is empty, expected %zu", what, l.size());
    BW_element *e = L->BWE(first);
    for (size_t i = 0; i < l.size(); i++) {
        if (e != w.n[l[i]].p) BAD("%s #%zu of %zu is a different element", what, i, l.size());
        if (L->BWE(e->next)->prev != e->offset) BAD("next/prev of %s #%zu disagree", what, i);
        e = L->BWE(e->next);
    }
    if (e->offset != first) BAD("%s list has more than %zu members", what, l.size());
    return true;
}
static bool check_node(const World &w, int k, bool deep, int level = 0) {
    if (level > 40) BAD("model cycle");
    const N &x = w.n[k]; BW_element *p = x.p;
    if (p->offset != (char *)p - (char *)L || p->getPool() != L) BAD("element offset wrong");
    if (p->identification != x.id) BAD("identification is %d, expected %d", p->identification, x.id);
    if (p->value_type != x.type) BAD("type of %s%d is %s, expected %s", x.elem ? "t" : "a", x.id, XML_BINARY_TYPE_NAMES[p->value_type], XML_BINARY_TYPE_NAMES[x.type]);
    if (!!(p->flags & BIN_WRITE_ELEMENT_FLAG) != x.elem) BAD("element flag wrong");
    S v = raw(p);
    if (v != x.val) BAD("value of %s%d is %s, expected %s", x.elem ? "t" : "a", x.id, mc::hex(v.data(), v.size()).c_str(), mc::hex(x.val.data(), x.val.size()).c_str());
    if (!ring(w, x, x.ch, p->first_child, "child") || !ring(w, x, x.at, p->first_attribute, "attribute")) return false;
    if (deep) {
        size_t i = 0; { BW_FOREACH2(p, c) { if (i >= x.ch.size() || c != w.n[x.ch[i]].p) BAD("NextChild visits a wrong element at %zu", i); i++; } } if (i != x.ch.size()) BAD("NextChild visits %zu of %zu", i, x.ch.size());
        i = x.ch.size(); { BW_FOREACH2_REV(p, c) { if (i == 0 || c != w.n[x.ch[i - 1]].p) BAD("PrevChild visits a wrong element at %zu", i); i--; } } if (i != 0) BAD("PrevChild leaves %zu unvisited", i);
        for (int id = 0; id < NT; id++) {
            BW_element *e = nullptr; for (int c : x.ch) if (w.n[c].id == id) { e = w.n[c].p; break; }
            if (p->tagGet(id) != e || p->findChildByTag(id) != e) BAD("tagGet/findChildByTag(%d) wrong", id);
            char *str = !e ? nullptr : e->value_type == XBT_STRING ? (char *)(e + 1) : e->value_type == XBT_BLOB_STRING ? (char *)(e + 1) + 4 : nullptr; if (p->tagGetStr(id) != str) BAD("tagGetStr(%d) wrong", id);
            if ((!e || XBT_IS_4(TYPES[id])) && p->tagGetInt32(id) != (e ? (int32_t *)(e + 1) : nullptr)) BAD("tagGetInt32(%d) wrong", id);
            BW_element *a = nullptr; for (int c : x.at) if (w.n[c].id == id) { a = w.n[c].p; break; }
            if (p->attrGet(id) != a || p->findAttr(id) != a) BAD("attrGet/findAttr(%d) wrong", id);
            if ((!a || XBT_IS_4(TYPES[id])) && p->findAttrInt32(id) != (a ? (int32_t *)(a + 1) : nullptr)) BAD("findAttrInt32(%d) wrong", id);
        }
    }
    for (int c : x.ch) { if (!w.n[c].elem) BAD("model"); if (!check_node(w, c, deep, level + 1)) return false; }
    for (int c : x.at) if (!check_node(w, c, false, level + 1)) return false;
    return true;
}
struct Visit { const World *w; std::vector<std::pair<void *, int>> got; };
static void flat(const World &w, int k, int d, std::vector<std::pair<void *, int>> &o) { o.push_back({w.n[k].p, d}); for (int c : w.n[k].ch) flat(w, c, d + 1, o); }
static bool check_world(const World &w) {
    if (!check_node(w, 0, true)) return false;
    if (P->getRoot() != w.n[0].p) BAD("getRoot changed");
    std::vector<std::pair<void *, int>> exp, got; flat(w, 0, 0, exp);
    P->ForAllChildrenRecursively([](void *e, void *u, int d) { ((std::vector<std::pair<void *, int>> *)u)->push_back({e, d}); }, w.n[0].p, &got, 0);
    if (exp != got) BAD("ForAllChildrenRecursively visits %zu elements, expected %zu (or in a wrong order)", got.size(), exp.size());
    std::vector<void *> g2; P->ForAllChildren([](void *e, void *u) { ((std::vector<void *> *)u)->push_back(e); }, w.n[0].p, &g2);
    if (g2.size() != w.n[0].ch.size()) BAD("ForAllChildren count");
    for (size_t i = 0; i < g2.size(); i++) if (g2[i] != w.n[w.n[0].ch[i]].p) BAD("ForAllChildren order");
    for (auto &e : exp) { // binary and text attribute visits
        const N *x = nullptr; for (auto &n : w.n) if (n.p == e.first) { x = &n; }
        struct U { std::vector<std::pair<int, const char *>> b; std::vector<S> t; } u;
        P->ForAllBinParams([](const char *nm, int id, XML_Binary_Type t, const char *v, void *, void *u) { ((U *)u)->b.push_back({id, v}); }, e.first, &u);
        P->ForAllParams([](const char *nm, const char *v, void *, void *u) { ((U *)u)->t.push_back(S(nm ? nm : "?") + "=" + (v ? v : "(null)")); }, e.first, &u);
        if (u.b.size() != x->at.size() || u.t.size() != x->at.size()) BAD("ForAllBinParams/ForAllParams visit %zu/%zu of %zu attributes", u.b.size(), u.t.size(), x->at.size());
        for (size_t i = 0; i < x->at.size(); i++) {
            const N &a = w.n[x->at[i]];
            if (u.b[i].first != a.id || u.b[i].second != (char *)(a.p + 1)) BAD("ForAllBinParams #%zu wrong", i);
            S t = "a" + std::to_string(a.id) + "="; if (a.type == XBT_STRING) t += a.val.c_str(); else if (a.type == XBT_INT32) t += std::to_string(*(int32_t *)a.val.data()); else continue;
            if (u.t[i] != t) BAD("ForAllParams gives %s, expected %s", u.t[i].c_str(), t.c_str());
        }
    }
    return true;
}

// ------------------------------------------------------------------ C04.ops
static int add_node(World &w, int parent, BW_element *p, int id, XML_Binary_Type t, const S &v, bool elem) {
    N n; n.p = p; n.id = id; n.type = t; n.val = v; n.elem = elem; n.parent = parent; w.n.push_back(n); int k = (int)w.n.size() - 1;
    if (parent >= 0) (elem ? w.n[parent].ch : w.n[parent].at).push_back(k);
    return k;
}
static int first_child(const World &w, int k) { return w.n[k].ch.empty() ? -1 : w.n[k].ch[0]; }
static int last_child(const World &w, int k) { return w.n[k].ch.empty() ? -1 : w.n[k].ch.back(); }
static void drop(std::vector<int> &v, int k) { v.erase(std::find(v.begin(), v.end(), k)); }
struct Op { S name; std::function<bool(World &)> f; };
static std::vector<Op> OPS;
static bool need(const void *p) { if (!p) { fail("an operation refused its valid arguments | after: %s", path.c_str()); return false; } return true; }
static int target(const World &w, int which) { // 0 root, 1 first child, 2 last child, 3 first grandchild of the first child
    if (which == 0) return 0; if (which == 1) return first_child(w, 0); if (which == 2) { return w.n[0].ch.size() < 2 ? -1 : last_child(w, 0); }
    int f = first_child(w, 0); return f < 0 ? -1 : first_child(w, f);
}
static const char *TN[] = {"root", "first", "last", "grandchild"};
static void make_ops() {
    static bool done = false; if (done) return; done = true;
    auto op = [](S n, std::function<bool(World &)> f) { OPS.push_back({n, f}); };
    for (int t = 0; t < 3; t++) op(S(TN[t]) + ".add(NULL tag)", [t](World &w) { int k = target(w, t); if (k < 0) return false; BW_element *e = P->tag(T_NULL); if (!need(e)) return true; if (w.n[k].p->add(e) != w.n[k].p) fail("add"); add_node(w, k, e, T_NULL, XBT_NULL, "", true); return true; });
    op("root.add(STRING 'abc')", [](World &w) { BW_element *e = P->tagStr(T_STRING, "abc"); if (!need(e)) return true; w.n[0].p->add(e); add_node(w, 0, e, T_STRING, XBT_STRING, z("abc"), true); return true; });
    op("root.add(INT32 7)", [](World &w) { BW_element *e = P->tagInt32(T_INT32, 7); if (!need(e)) return true; w.n[0].p->add(e); add_node(w, 0, e, T_INT32, XBT_INT32, bytes<int32_t>(7), true); return true; });
    op("root.add(circle of two)", [](World &w) { BW_element *a = P->tagInt32(T_INT32, 1), *b = P->tagStr(T_STRING, ""); if (!need(a) || !need(b)) return true; a->join(b); w.n[0].p->add(a); add_node(w, 0, a, T_INT32, XBT_INT32, bytes<int32_t>(1), true); add_node(w, 0, b, T_STRING, XBT_STRING, z(""), true); return true; });
    op("last.join(new)", [](World &w) { int k = target(w, 2); if (k < 0) return false; BW_element *e = P->tag(T_NULL); if (!need(e)) return true; w.n[k].p->join(e); // inserted before 'last'
        int m = add_node(w, 0, e, T_NULL, XBT_NULL, "", true); auto &c = w.n[0].ch; c.pop_back(); c.insert(c.end() - 1, m); return true; });
    op("first.join(new)", [](World &w) { int k = target(w, 1); if (k < 0) return false; BW_element *e = P->tagInt32(T_INT32, 9); if (!need(e)) return true; w.n[k].p->join(e); add_node(w, 0, e, T_INT32, XBT_INT32, bytes<int32_t>(9), true); return true; });
    for (int t = 1; t < 4; t++) op(S("remove ") + TN[t], [t](World &w) { int k = target(w, t); if (k < 0) return false; int p = w.n[k].parent; if (w.n[p].p->remove(w.n[k].p) != w.n[p].p) fail("remove"); drop(w.n[p].ch, k); w.n[k].parent = -1; w.held = k; if (!(w.n[k].p->flags & BIN_DELETED)) fail("a removed element is not marked"); return true; });
    op("root.add(removed one)", [](World &w) { if (w.held < 0) return false; w.n[0].p->add(w.n[w.held].p); w.n[0].ch.push_back(w.held); w.n[w.held].parent = 0; w.held = -1; return true; });
    op("first.add(removed one)", [](World &w) { int k = target(w, 1); if (w.held < 0 || k < 0) return false; w.n[k].p->add(w.n[w.held].p); w.n[k].ch.push_back(w.held); w.n[w.held].parent = k; w.held = -1; return true; });
    op("root.remove(not a child)", [](World &w) { if (w.n[0].ch.empty()) return false; BW_element *e = P->tag(T_NULL); if (!need(e)) return true; w.n[0].p->remove(e); return true; });
    for (int t = 1; t < 4; t++) op(S("replace ") + TN[t], [t](World &w) { int k = target(w, t); if (k < 0) return false; int p = w.n[k].parent; BW_element *e = P->tagStr(T_STRING, "new"); if (!need(e)) return true;
        if (w.n[p].p->replace(w.n[k].p, e) != w.n[p].p) fail("replace"); if (!(w.n[k].p->flags & BIN_DELETED) || (e->flags & BIN_DELETED)) fail("the replaced element and not the new one should be marked"); auto &c = w.n[p].ch; int pos = std::find(c.begin(), c.end(), k) - c.begin();
        int m = add_node(w, -1, e, T_STRING, XBT_STRING, z("new"), true); w.n[m].parent = p; w.n[p].ch[pos] = m; w.n[k].parent = -1; w.held = k; return true; });
    // find or create
    op("root.tag(NULL tag)", [](World &w) { int f = -1; for (int c : w.n[0].ch) if (w.n[c].id == T_NULL) { f = c; break; } BW_element *e = w.n[0].p->tag(T_NULL); if (!need(e)) return true; if (f >= 0) { if (e != w.n[f].p) fail("tag() created a second element | after: %s", path.c_str()); } else add_node(w, 0, e, T_NULL, XBT_NULL, "", true); return true; });
    auto set = [op](S name, int id, XML_Binary_Type t, S v, std::function<BW_element *(BW_element *)> f) { op(name, [=](World &w) {
        int k = -1; for (int c : w.n[0].ch) if (w.n[c].id == id) { k = c; break; }
        BW_element *e = f(w.n[0].p); if (!need(e)) return true;
        if (k < 0) { add_node(w, 0, e, id, t, v, true); return true; }
        if (e != w.n[k].p) { auto &c = w.n[0].ch; int pos = std::find(c.begin(), c.end(), k) - c.begin(); int m = add_node(w, -1, e, id, t, v, true); w.n[m].parent = 0; w.n[0].ch[pos] = m; w.n[k].parent = -1; return true; } // replaced by a new element
        w.n[k].val = v; w.n[k].type = t; return true; }); };
    set("tagSetInt32(-5)", T_INT32, XBT_INT32, bytes<int32_t>(-5), [](BW_element *r) { return r->tagSetInt32(T_INT32, -5); });
    set("tagSetInt64(2^40)", T_INT64, XBT_INT64, bytes<int64_t>(1ll << 40), [](BW_element *r) { return r->tagSetInt64(T_INT64, 1ll << 40); });
    set("tagSetString('')", T_STRING, XBT_STRING, z(""), [](BW_element *r) { return r->tagSetString(T_STRING, ""); });
    set("tagSetString(long)", T_STRING, XBT_STRING, z("longer string"), [](BW_element *r) { return r->tagSetString(T_STRING, "longer string"); });
    set("tagSetString(4)", T_STRING, XBT_STRING, z("four"), [](BW_element *r) { return r->tagSetString(T_STRING, "four"); });
    set("tagSetTime", T_TIME, XBT_UNIX_TIME, bytes<uint32_t>(0x80000001u), [](BW_element *r) { return r->tagSetTime(T_TIME, 0x80000001ll); });
    set("tagSetSHA1(null)", T_SHA1, XBT_SHA1, S(20, '\0'), [](BW_element *r) { return r->tagSetSHA1(T_SHA1, nullptr); });
    set("tagSetSHA1", T_SHA1, XBT_SHA1, S("\1\2\3\4\5\6\7\10\11\12\13\14\15\16\17\20\21\22\23\24", 20), [](BW_element *r) { return r->tagSetSHA1(T_SHA1, (const uint8_t *)"\1\2\3\4\5\6\7\10\11\12\13\14\15\16\17\20\21\22\23\24"); });
    // attributes
    for (int t = 0; t < 2; t++) op(S(TN[t]) + ".attrStr('x')", [t](World &w) { int k = target(w, t); if (k < 0) return false; BW_element *r = w.n[k].p->attrStr(T_STRING, "x"); if (r != w.n[k].p) { fail("attrStr failed"); return true; } BW_element *a = L->BWE(L->BWE(r->first_attribute)->prev); add_node(w, k, a, T_STRING, XBT_STRING, z("x"), false); return true; });
    op("root.attrInt32(3)", [](World &w) { BW_element *a = nullptr; BW_element *r = w.n[0].p->attrInt32(T_INT32, 3, &a); if (r != w.n[0].p || !a) { fail("attrInt32 failed"); return true; } add_node(w, 0, a, T_INT32, XBT_INT32, bytes<int32_t>(3), false); return true; });
    op("root.remove(first attribute)", [](World &w) { if (w.n[0].at.empty()) return false; int k = w.n[0].at[0]; w.n[0].p->remove(w.n[k].p); drop(w.n[0].at, k); w.n[k].parent = -1; return true; });
    op("root.replace(last attribute)", [](World &w) { if (w.n[0].at.size() < 2) return false; int k = w.n[0].at.back(); BW_element *keep = w.n[0].p; // a new attribute is made by adding and removing it again
        keep->attrStr(T_STRING, "nw"); BW_element *a = L->BWE(L->BWE(keep->first_attribute)->prev); keep->remove(a); if (keep->replace(w.n[k].p, a) != keep) fail("replace of an attribute"); int m = add_node(w, -1, a, T_STRING, XBT_STRING, z("nw"), false); w.n[0].at.back() = m; w.n[m].parent = 0; w.n[k].parent = -1; return true; });
    auto setstr = [op](S name, bool attr, S v) { op(name, [=](World &w) {
        auto &l = attr ? w.n[0].at : w.n[0].ch; int k = -1, pos = 0; for (size_t i = 0; i < l.size(); i++) if (w.n[l[i]].type == XBT_STRING) { k = l[i]; pos = i; break; } if (k < 0) return false;
        bool changed = w.n[k].val.c_str() != v; bool r = w.n[k].p->setStr(P, w.n[0].p, v.empty() && w.n.size() % 2 ? nullptr : v.c_str()); // null is an empty string
        if (r != changed) { fail("setStr returned %d for %s value | after: %s", r, changed ? "a new" : "the same", path.c_str()); return true; }
        // the element may have been replaced: find it again by its position
        BW_offset_t o = attr ? w.n[0].p->first_attribute : w.n[0].p->first_child; if (!o) { fail("setStr lost the list"); return true; } BW_element *e = L->BWE(o); for (int i = 0; i < pos; i++) e = L->BWE(e->next);
        w.n[k].p = e; w.n[k].val = z(v); return true; }); };
    setstr("setStr(child,'q')", false, "q"); setstr("setStr(child,long)", false, "a quite long value"); setstr("setStr(attr,'')", true, ""); setstr("setStr(attr,long)", true, "another long value");
    op("retype INT32 -> UINT32", [](World &w) { int k = -1; for (int c : w.n[0].ch) if (w.n[c].type == XBT_INT32) { k = c; break; } if (k < 0) return false; if (w.n[k].p->retype(XBT_UINT32) != w.n[k].p) fail("retype refused"); w.n[k].type = XBT_UINT32; return true; });
    op("retype INT64 -> TIME64", [](World &w) { int k = -1; for (int c : w.n[0].ch) if (w.n[c].type == XBT_INT64) { k = c; break; } if (k < 0) return false; if (w.n[k].p->retype(XBT_UNIX_TIME64_MSEC) != w.n[k].p) fail("retype refused"); w.n[k].type = XBT_UNIX_TIME64_MSEC; return true; });
    op("retype to another size", [](World &w) { int k = first_child(w, 0); if (k < 0) return false; XML_Binary_Type t = w.n[k].type; XML_Binary_Type n = (XBT_IS_8(t)) ? XBT_INT32 : XBT_INT64; if (w.n[k].p->retype(n) != nullptr) { fail("retype between sizes accepted"); } return true; });
    OPS.back().f = OPS.back().f;
}
static int D04() { return mc::thorough ? 6 : 5; }
struct Snap { S d; };
static Snap take() { return {S((char *)L, L->allocator)}; }
static void restore(const Snap &s) { int now = L->allocator; memcpy((char *)L, s.d.data(), s.d.size()); if (now > (int)s.d.size()) memset((char *)L + s.d.size(), 0, now - s.d.size()); }
static uint64_t nodes_checked;
static void dfs(const World &w, const Snap &s, int depth, int max, uint64_t code) {
    for (size_t o = 0; o < OPS.size() && !mc::failed(); o++) {
        World n = w; size_t pl = path.size(); path += (pl ? "; " : "") + OPS[o].name; mc::subcase(code * 64 + o + 1);
        bool ap = OPS[o].f(n);
        if (ap) {
            mc::transitions(1);
            if (!mc::failed() && check_world(n)) { mc::states(1); mc::nontrivial(1); mc::touch(); if ((++nodes_checked & 15) == 0) mc::outcome(mc::fnv((char *)L + 92, L->allocator - 92)); if (depth + 1 < max) { Snap s2 = take(); dfs(n, s2, depth + 1, max, code * 64 + o + 1); } }
            restore(s);
        }
        path.resize(pl);
    }
}
static Pl base04; static World w04; static Snap s04;
static void init04() {
    make_ops(); base04 = open_new("dom"); if (!base04) return; P = base04.get(); L = P->getPool(); path = "setup"; if (!reg_all(P)) return;
    P->makeSpace(0x20000); BW_element *r = P->tag(T_NULL); P->setRoot(r); w04 = World(); add_node(w04, -1, r, T_NULL, XBT_NULL, "", true); s04 = take(); path = "";
}
static uint64_t c04_count() { make_ops(); return OPS.size() * OPS.size(); }
static void c04_ops(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); restore(s04); path = "";
    World w = w04; int o1 = i % OPS.size(), o2 = i / OPS.size(); // prefix of two operations; every extension is explored below
    for (int o : {o1, o2}) { path += (path.empty() ? "" : "; ") + OPS[o].name; if (!OPS[o].f(w)) return; mc::transitions(1); if (mc::failed() || !check_world(w)) return; }
    Snap s = take(); dfs(w, s, 2, D04(), 0); if (ftruncate(2, 0)) {}
}
static S c04_desc(uint64_t i) { make_ops(); return OPS[i % OPS.size()].name + "; " + OPS[i / OPS.size()].name + "; then every sequence of up to " + std::to_string(D04() - 2) + " more operations"; }

// ------------------------------------------------------------------ C04.types: every creator x every symbol type x alignment
struct Creator { S name; int type; bool attr; std::function<BW_element *(BW_element *, int)> f; S val, txt; };
static std::vector<Creator> CR;
static const char G16[17] = "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\xff";
static const uint8_t H20[21] = "\xff\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x80";
static BW_element *lastattr(BW_element *r, BW_element *e) { if (!r) return nullptr; if (r != e) { fail("attr creator returned another element"); return nullptr; } return L->BWE(L->BWE(e->first_attribute)->prev); }
static void make_creators() {
    if (!CR.empty()) return;
    auto c = [](S n, int t, bool a, S v, std::function<BW_element *(BW_element *, int)> f) { CR.push_back({n, t, a, f, v, ""}); };
    typedef BW_element *E;
    c("plugin.tag", T_NULL, false, "", [](E, int id) { return P->tag(id); });
    c("pool.tag", T_NULL, false, "", [](E, int id) { return L->tag(id); });
    for (S v : {S(""), S("a"), S("abc"), S("abcd"), S(300, 'x')}) {
        c("plugin.tagStr", T_STRING, false, z(v), [v](E, int id) { return P->tagStr(id, v.c_str()); });
        c("pool.tagString", T_STRING, false, z(v), [v](E, int id) { return L->tagString(id, v.c_str()); });
        c("attrStr", T_STRING, true, z(v), [v](E e, int id) { return lastattr(e->attrStr(id, v.c_str()), e); });
        c("attrStr2", T_STRING, true, z(v), [v](E e, int id) { S u = v + "tail"; return lastattr(e->attrStr2(id, u.c_str(), u.c_str() + v.size()), e); });
        c("plugin.tagBLOB", T_BLOB, false, v, [v](E, int id) { return P->tagBLOB(id, v.data(), v.size()); });
        c("plugin.tagHEX", T_HEX, false, v, [v](E, int id) { return P->tagHEX(id, v.data(), v.size()); });
        c("attrBLOB", T_BLOB, true, v, [v](E e, int id) { return lastattr(e->attrBLOB(id, v.data(), v.size()), e); });
        c("attrHEX", T_HEX, true, v, [v](E e, int id) { return lastattr(e->attrHEX(id, v.data(), v.size()), e); });
        c("plugin.tagBLOB(null)", T_BLOB, false, S(v.size(), '\0'), [v](E, int id) { return P->tagBLOB(id, nullptr, v.size()); });
        c("plugin.tagHEX(null)", T_HEX, false, S(v.size(), '\0'), [v](E, int id) { return P->tagHEX(id, nullptr, v.size()); });
        c("attrHEX(null)", T_HEX, true, S(v.size(), '\0'), [v](E e, int id) { return lastattr(e->attrHEX(id, nullptr, v.size()), e); });
        c("attrBLOB(null)", T_BLOB, true, S(v.size(), '\0'), [v](E e, int id) { return lastattr(e->attrBLOB(id, nullptr, v.size()), e); });
    }
    c("plugin.tagStr(BLOB_STRING)", T_BSTR, false, "*abc", [](E, int id) { return P->tagStr(id, "abc"); });
    for (int32_t v : {0, 1, -1, INT32_MAX, INT32_MIN}) {
        c("plugin.tagInt32", T_INT32, false, bytes(v), [v](E, int id) { return P->tagInt32(id, v); }); c("pool.tagInt32", T_INT32, false, bytes(v), [v](E, int id) { return L->tagInt32(id, v); });
        c("attrInt32", T_INT32, true, bytes(v), [v](E e, int id) { return lastattr(e->attrInt32(id, v), e); }); c("attrUInt32", T_UINT32, true, bytes(v), [v](E e, int id) { return lastattr(e->attrUInt32(id, v), e); });
    }
    for (int64_t v : {(int64_t)0, (int64_t)-1, (int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)0x0102030405060708ll}) {
        c("plugin.tagInt64", T_INT64, false, bytes(v), [v](E, int id) { return P->tagInt64(id, v); }); c("pool.tagInt64", T_INT64, false, bytes(v), [v](E, int id) { return L->tagInt64(id, v); });
        c("attrInt64", T_INT64, true, bytes(v), [v](E e, int id) { return lastattr(e->attrInt64(id, v), e); }); c("attrUInt64", T_UINT64, true, bytes(v), [v](E e, int id) { return lastattr(e->attrUInt64(id, v), e); });
        c("attrTime64", T_TIME64, true, bytes(v), [v](E e, int id) { return lastattr(e->attrTime64(id, v), e); }); c("plugin.tagTime64", T_TIME64, false, bytes(v), [v](E, int id) { return P->tagTime64(id, v); });
    }
    for (time_t v : {(time_t)0, (time_t)1, (time_t)0xffffffffll}) { c("plugin.tagTime", T_TIME, false, bytes((uint32_t)v), [v](E, int id) { return P->tagTime(id, v); }); c("pool.tagTime", T_TIME, false, bytes((uint32_t)v), [v](E, int id) { return L->tagTime(id, v); });
        c("attrTime", T_TIME, true, bytes((uint32_t)v), [v](E e, int id) { return lastattr(e->attrTime(id, v), e); }); }
    c("plugin.tagFloat", T_FLOAT, false, bytes(1.5f), [](E, int id) { return P->tagFloat(id, 1.5f); }); c("attrFloat", T_FLOAT, true, bytes(-2.25f), [](E e, int id) { return lastattr(e->attrFloat(id, -2.25f), e); });
    c("attrDouble", T_DOUBLE, true, bytes(1e300), [](E e, int id) { return lastattr(e->attrDouble(id, 1e300), e); });
    c("plugin.tagGUID", T_GUID, false, S(G16, 16), [](E, int id) { return P->tagGUID(id, (GUID_t *)G16); }); c("attrGUID", T_GUID, true, S(G16, 16), [](E e, int id) { return lastattr(e->attrGUID(id, G16), e); });
    c("plugin.tagSHA1", T_SHA1, false, S((char *)H20, 20), [](E, int id) { char *h = (char *)malloc(20); memcpy(h, H20, 20); E e = P->tagSHA1(id, (uint8_t *)h); free(h); return e; });
    c("pool.tagSHA1", T_SHA1, false, S((char *)H20, 20), [](E, int id) { return L->tagSHA1(id, H20); });
    c("attrSHA1", T_SHA1, true, S((char *)H20, 20), [](E e, int id) { char *h = (char *)malloc(20); memcpy(h, H20, 20); E r = lastattr(e->attrSHA1(id, h), e); free(h); return r; });
    c("attrNull", T_NULL, true, "", [](E e, int id) { return lastattr(e->attrNull(id), e); });
    // not implemented ones: refused for every symbol, nothing changes
    c("attrHexStr", -1, true, "", [](E e, int id) { return e->attrHexStr(id, "00ff"); }); c("attrIPv4", -1, true, "", [](E e, int id) { return e->attrIPv4(id, "1.2.3.4"); }); c("attrIPv6", -1, true, "", [](E e, int id) { return e->attrIPv6(id, "::1"); });
    c("plugin.tagHexStr", -1, false, "", [](E, int id) { return P->tagHexStr(id, "00ff"); }); c("plugin.tagUInt32", -1, false, "", [](E, int id) { return P->tagUInt32(id, 5); }); c("plugin.tagUInt64", -1, false, "", [](E, int id) { return P->tagUInt64(id, 5); });
    c("plugin.tagDouble", -1, false, "", [](E, int id) { return P->tagDouble(id, 5); }); c("plugin.tagIPv4", -1, false, "", [](E, int id) { return P->tagIPv4(id, "1.2.3.4"); }); c("plugin.tagIPv6", -1, false, "", [](E, int id) { return P->tagIPv6(id, "::1"); });
    // nothing to add: accepted without a change
    c("attrStr(null)", -2, true, "", [](E e, int id) { return e->attrStr(id, nullptr); }); c("attrStr2(null)", -2, true, "", [](E e, int id) { return e->attrStr2(id, nullptr, nullptr); }); c("attrHexStr(null)", -2, true, "", [](E e, int id) { return e->attrHexStr(id, nullptr); });
    c("pool.tagString(null)", T_STRING, false, z(""), [](E, int id) { return L->tagString(id, nullptr); }); c("pool.tagSHA1(null)", T_SHA1, false, S(20, '\0'), [](E, int id) { return L->tagSHA1(id, nullptr); });
    // attrData / tagData: typed copy and conversion from text
    struct D { int t; S v; const char *txt; }; static const D ds[] = {{T_INT32, bytes<int32_t>(-7), "-7"}, {T_INT64, bytes<int64_t>(1ll << 40), "1099511627776"}, {T_STRING, z("str"), nullptr}, {T_GUID, S("\xc7\x37\x49\x9b\x7c\x6c\x4d\x1f\x9d\x5b\x01\x02\x03\x04\x05\x06", 16), nullptr}, {T_SHA1, S((char *)H20, 20), nullptr}, {T_TIME, bytes<uint32_t>(86400), "1970-01-02 00:00:00"}, {T_UINT32, bytes<uint32_t>(4000000000u), "4000000000"}, {T_DOUBLE, bytes(0.5), "0.5"}, {T_FLOAT, bytes(0.5f), "0.5"}, {T_IP4, bytes<uint32_t>(0x01020304), "1.2.3.4"}, {T_DATE, bytes<int32_t>(1), "1970-01-02"}, {T_CENTI, bytes<int32_t>(123), "1.23"}, {T_TIME64, bytes<int64_t>(1500), "1970-01-01 00:00:01.500"}, {T_UINT64, bytes<uint64_t>(~0ull), "18446744073709551615"}, {T_BLOB, S("\0\1\2", 3), nullptr}, {T_HEX, S("\xab\xcd", 2), nullptr}};
    for (auto &d : ds) for (int a = 0; a < 2; a++) {
        auto mk = [d](bool text) { S r; if (text) r = z(d.txt); else if (XBT_IS_VARSIZE(TYPES[d.t])) { r = bytes<int32_t>(d.v.size()) + d.v; } else r = d.v; return r; };
        for (int text = 0; text < 2; text++) { if (text && !d.txt) continue; S b = mk(text);
            c(S(a ? "attrData" : "plugin.tagData") + (text ? " from text" : ""), d.t, a, d.v, [=](E e, int id) { XML_Binary_Data_Ref r; r.type = text ? XBT_STRING : TYPES[d.t]; char *m = (char *)malloc(b.size()); memcpy(m, b.data(), b.size()); r.data = m; r.size = b.size(); r.content = m + (XBT_IS_VARSIZE(r.type) ? 4 : 0); r.content_size = r.size - (r.content - r.data); S orig((char *)&r, sizeof r);
                E x = a ? lastattr(e->attrData(id, r), e) : P->tagData(id, r); if (S((char *)&r, sizeof r) != orig) fail("tagData/attrData changed the caller's reference"); free(m); return x; }); if (text) CR.back().txt = b; } }
}
static uint64_t c04t_count() { make_creators(); return CR.size() * 2; }
static void c04_types(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool();
    const Creator &c = CR[i / 2]; S pad = i % 2 ? "abcd" : ""; // moves the allocator by 4 bytes: both alignments modulo 8
    for (int sym = 0; sym < NT; sym++) for (int near = 0; near < 4; near++) { // preceding content decides where the element lands
        restore(s04); World w = w04; path = c.name + " on symbol type " + tname(sym) + (near ? " near the end of the committed file" : "");
        w.n[0].p->attrStr(T_STRING, pad.c_str()); { BW_element *a = L->BWE(w.n[0].p->first_attribute); add_node(w, 0, a, T_STRING, XBT_STRING, z(pad), false); }
        if (near) { int left = L->allocator_limit - L->allocator - 4 * (near - 1) - 24; if (!L->allocate(left - left % 4)) return fail("setup"); } // only a few bytes left: growing must happen
        mc::subcase(sym * 4 + near);
        BW_element *e = c.f(w.n[0].p, sym); mc::transitions(1); if (mc::failed()) return;
        bool ok = sym == c.type;
        if (c.type == -2) { if (e != w.n[0].p) return fail("%s does not return the element", c.name.c_str()); if (!check_world(w)) return; mc::nontrivial(); continue; }
        if (!e) { if (ok) return fail("%s refused a valid value for %s", c.name.c_str(), tname(sym).c_str()); if (!check_world(w)) return; mc::nontrivial(); continue; }
        bool lenient = false; // creators that accept several types of the same size store the symbol's type
        if (!ok) { S n = c.name; lenient = (n == "plugin.tag") || ((n == "plugin.tagInt32" || n == "pool.tagInt32") && XBT_IS_4(TYPES[sym])) || (sym == T_VAR && c.type >= 0) || (n == "pool.tagInt64" && XBT_IS_8(TYPES[sym])) || (n == "attrInt64" && XBT_IS_8(TYPES[sym])) || (n == "plugin.tagStr" && sym == T_BSTR) || (n == "plugin.tagStr(BLOB_STRING)" && sym == T_STRING) || (n.find("Data") != S::npos && (n.find("from text") != S::npos || c.type == T_STRING)); // other data are not converted
            if (!lenient) return fail("%s stored a value for symbol type %s", c.name.c_str(), tname(sym).c_str()); }
        if (!c.attr) w.n[0].p->add(e);
        if (ok) {
            S v = c.val; if (sym == T_BSTR) { v = raw(e); if (v.size() < 4 || S(v.c_str()) != "abc") return fail("BLOB_STRING holds %s", mc::hex(v.data(), v.size()).c_str()); }
            add_node(w, 0, e, sym, TYPES[sym], v, !c.attr);
            if (!check_world(w)) return;
            if ((intptr_t)(e + 1) % std::max(1, XBT_Align(TYPES[sym]))) return fail("%s: value of %s is not aligned", c.name.c_str(), tname(sym).c_str());
            P->setRoot(e); P->setRoot(nullptr); if (P->getRoot() != w.n[0].p) return fail("a second setRoot moved the root");
            // typed getters answer exactly for their types
            auto is = [&](const void *g, std::initializer_list<int> ts, const char *n) { bool in = std::find(ts.begin(), ts.end(), sym) != ts.end(); if ((g != nullptr) != in) fail("%s on %s %s", n, tname(sym).c_str(), g ? "answers" : "is refused"); else if (g && memcmp(g, c.val.data(), std::min<size_t>(8, c.val.size()))) fail("%s on %s gives a wrong value", n, tname(sym).c_str()); };
            is(e->getInt32(), {T_INT32, T_UINT32, T_FLOAT, T_TIME, T_DATE, T_IP4, T_CENTI}, "getInt32"); is(e->getFloat(), {T_FLOAT}, "getFloat"); is(e->getTime(), {T_TIME}, "getTime"); is(e->getInt64(), {T_INT64, T_TIME64}, "getInt64"); is(e->getUInt64(), {T_UINT64}, "getUInt64"); is(e->getGUID(), {T_GUID}, "getGUID");
            if (sym == T_STRING || sym == T_BSTR) { if (!e->getStr() || S(e->getStr()) != (sym == T_STRING ? S(c.val.c_str()) : S("abc"))) return fail("getStr wrong"); } else if (e->getStr()) return fail("getStr on %s", tname(sym).c_str());
            XML_Binary_Type t; int size = -1; const char *b = P->getNodeBinValue(e, t, size); if (t != TYPES[sym] || (sym != T_NULL && b != (char *)(e + 1))) return fail("getNodeBinValue wrong for %s", tname(sym).c_str());
            mc::states(1); mc::nontrivial();
        } else { // conversions of attrData/tagData aside, type and content are known
            XML_Binary_Type vt = (XML_Binary_Type)e->value_type; S v = raw(e); bool text = c.name.find("Data") != S::npos;
            if (c.name == "plugin.tag") vt = XBT_NULL, v = ""; else if (sym == T_VAR) { vt = c.txt.empty() ? TYPES[c.type] : XBT_STRING; v = c.txt.empty() ? c.val : c.txt; if (c.type == T_BSTR) { vt = XBT_STRING; v = z("abc"); } } else { vt = TYPES[sym]; if (sym == T_BSTR && !text) { if (!e->getStr() || z(e->getStr()) != c.val) return fail("%s holds another string", c.name.c_str()); } else if (c.type == T_BSTR) v = z("abc"); else if (!text) v = c.val; }
            add_node(w, 0, e, sym, vt, v, !c.attr); if (!check_world(w)) return; mc::nontrivial();
        }
        if (mc::failed()) return;
    }
    restore(s04);
}
static S c04t_desc(uint64_t i) { make_creators(); return CR[i / 2].name + " value " + mc::hex(CR[i / 2].val.data(), std::min<size_t>(CR[i / 2].val.size(), 24)) + (i % 2 ? " with" : " without") + " preceding 4 byte shift, on every symbol type"; }

// ------------------------------------------------------------------ C04.reserved: every creator with every reserved symbol (negative ids with documented names and types)
static const struct { const char *name; int type; } RES_ATTR[] = {{"NULL", T_NULL}, {"name", T_STRING}, {"hash", T_SHA1}, {"modified", T_TIME}, {"count", T_INT32}, {"version", T_INT32}, {"type_count", T_INT32}, {"id", T_INT32}, {"author", T_INT64}, {"time_ms", T_TIME64}, {nullptr, -1}};
static const struct { const char *name; int type; } RES_TAG[] = {{"NULL", -1}, {"meta_root", T_NULL}, {"tag_symbols", T_BLOB}, {"param_symbols", T_BLOB}, {"hash_index", -1}, {"payload", T_NULL}, {"reference", -1}, {"processed", -1}, {"et-tecera", T_NULL}, {"transaction", -3}, {nullptr, -1}};
static void c04_reserved(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); const Creator &c = CR[i];
    for (int id = -1; id >= -11; id--) { // the last one is not a symbol
        int want = c.attr ? RES_ATTR[-id - 1].type : RES_TAG[-id - 1].type; const char *name = c.attr ? RES_ATTR[-id - 1].name : RES_TAG[-id - 1].name; if (want == -3) continue; // not for creators
        restore(s04); World w = w04; path = c.name + " on reserved symbol " + (name ? name : "-11"); mc::subcase(-id); mc::transitions(1);
        if (c.attr && want >= 0 && L->getAttrType(id) != TYPES[want]) return fail("type of reserved attribute %s is %s", name, XML_BINARY_TYPE_NAMES[L->getAttrType(id)]);
        if (!c.attr && want >= 0 && L->getTagType(id) != TYPES[want]) return fail("type of reserved tag %s is %s", name, XML_BINARY_TYPE_NAMES[L->getTagType(id)]);
        if (name) { const char *n = c.attr ? L->getAttrName(id) : L->getTagName(id); if (!n || S(n) != name) return fail("name of reserved symbol %d is %s", id, n ? n : "(null)"); }
        BW_element *r = w.n[0].p, *e = c.f(r, id); if (mc::failed()) return; bool data = c.name.find("Data") != S::npos;
        if (c.type == -2) { if (e != r) return fail("%s does not return the element", c.name.c_str()); if (!check_world(w)) return; continue; }
        if (!e) { if (want >= 0 && want == c.type) return fail("%s refused a valid value for %s", c.name.c_str(), name); if (!check_world(w)) return; mc::nontrivial(); continue; }
        bool lenient = c.name == "plugin.tag" || data || (want >= 0 && ((XBT_IS_4(TYPES[want]) && c.name.find("agInt32") != S::npos) || (XBT_IS_8(TYPES[want]) && (c.name == "attrInt64" || c.name == "pool.tagInt64"))));
        if (want != c.type && !lenient) return fail("%s stored a value for symbol %s", c.name.c_str(), name ? name : "-11");
        if (!c.attr) r->add(e); XML_Binary_Type vt = want >= 0 ? TYPES[want] : (XML_Binary_Type)e->value_type; S v = c.val; if (c.name == "plugin.tag") vt = XBT_NULL, v = ""; else if (data && want != c.type) vt = (XML_Binary_Type)e->value_type, v = raw(e);
        add_node(w, 0, e, id, vt, v, !c.attr); if (name && S(e->getName()) != name) return fail("getName of %s gives %s", name, e->getName());
        if (!check_node(w, 0, true)) return; // (names of reserved attributes are seen above)
        struct U { int n; S s; } u = {0, ""}; if (c.attr) { P->ForAllBinParams([](const char *nm, int id, XML_Binary_Type, const char *, void *, void *u) { ((U *)u)->n++; ((U *)u)->s = S(nm ? nm : "?") + std::to_string(id); }, r, &u); if (u.n != 1 || u.s != S(name ? name : "?") + std::to_string(id)) return fail("ForAllBinParams gives %d attributes, %s", u.n, u.s.c_str()); }
        mc::states(1); mc::nontrivial(); mc::outcome(mc::fnv((char *)L + 92, L->allocator - 92));
    }
    restore(s04);
}

// ------------------------------------------------------------------ C04.retype: every pair of types, as element and attribute; setStr on everything that is not a string
static void c04_retype(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); restore(s04); World w = w04; XML_Binary_Type from = (XML_Binary_Type)(i % XBT_LAST); bool elem = i / XBT_LAST % 2; int pat = i / XBT_LAST / 2;
    path = S("retype of ") + XML_BINARY_TYPE_NAMES[from]; if (from == XBT_VARIANT || from == XBT_UNKNOWN) return; // no values of these
    auto four = [](int t) { switch (t) { case XBT_INT32: case XBT_UINT32: case XBT_FLOAT: case XBT_UNIX_TIME: case XBT_UNIX_DATE: case XBT_IPv4: case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: return true; } return false; };
    auto eight = [](int t) { return t == XBT_INT64 || t == XBT_UINT64 || t == XBT_DOUBLE || t == XBT_UNIX_TIME64_MSEC; }; auto sized = [](int t) { return t == XBT_BLOB || t == XBT_HEX || t == XBT_BLOB_STRING; };
    int size = from == XBT_STRING || sized(from) ? 12 : four(from) ? 4 : eight(from) ? 8 : from == XBT_SHA1 ? 20 : from == XBT_NULL ? 0 : 16;
    for (int to = 0; to < XBT_LAST; to++) {
        restore(s04); w = w04; mc::subcase(to); BW_element *r = w.n[0].p, *b = P->tagStr(T_STRING, "before"); if (!b) return fail("setup"); r->add(b); add_node(w, 0, b, T_STRING, XBT_STRING, z("before"), true);
        BW_element *e = L->new_element(from, size); if (!e) return fail("new_element(%s) failed", XML_BINARY_TYPE_NAMES[from]); e->init(L, T_NULL, from, elem ? BIN_WRITE_ELEMENT_FLAG : BIN_WRITE_ATTR_FLAG);
        char *d = (char *)(e + 1) + (sized(from) ? 4 : 0); int n = sized(from) ? *(int32_t *)(e + 1) : size; if (sized(from) && n < size) return fail("new_element(%s) has room for %d bytes of %d", XML_BINARY_TYPE_NAMES[from], n, size); for (int k = 0; k < n; k++) d[k] = from == XBT_BLOB_STRING || from == XBT_STRING ? (k == n - 1 ? 0 : 'a' + k) : (char)(pat ? 0x80 + 7 * k : k + 1); if (from == XBT_STRING) d[n] = 0;
        r->add(e); S v = raw(e); if (v == "?" || ((int)v.size() != n && from != XBT_STRING)) return fail("getData of %s gives %zu bytes", XML_BINARY_TYPE_NAMES[from], v.size()); int ne = add_node(w, 0, e, T_NULL, from, v, elem);
        BW_element *a = P->tagInt32(T_INT32, -1); if (!a) return fail("setup"); r->add(a); add_node(w, 0, a, T_INT32, XBT_INT32, bytes<int32_t>(-1), true); if (!check_world(w)) return;
        bool may = from == to || (four(from) && four(to)) || (eight(from) && eight(to)) || (sized(from) && sized(to)); mc::transitions(1);
        BW_element *g = e->retype((XML_Binary_Type)to); if (g != (may ? e : nullptr)) return fail("retype to %s %s", XML_BINARY_TYPE_NAMES[to], g ? "accepted" : "refused");
        if (may) w.n[ne].type = (XML_Binary_Type)to; if (!check_world(w)) return; mc::states(1); mc::nontrivial();
        if (w.n[ne].type != XBT_STRING && w.n[ne].type != XBT_BLOB_STRING) { if (e->setStr(P, r, "no string")) return fail("setStr on %s accepted", XML_BINARY_TYPE_NAMES[w.n[ne].type]); if (!check_world(w)) return; }
    }
    restore(s04);
}

// ------------------------------------------------------------------ C04.setstr: two changes of a string, every old and new length, of both string types, as element (bare or with children) and attribute
static void c04_setstr(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); int l0 = i % 41; bool blob = i / 41 % 2; int how = i / 82 % 4; bool elem = how != 0, kids = how >= 2, by_parent = how == 3; if (by_parent && blob) return; // tagSetString is for STRING
    S old; for (int k = 0; k < l0; k++) old += 'a' + k % 26; int id = blob ? T_BSTR : T_STRING;
    auto text = [](int n, char c) { S s; for (int k = 0; k < n; k++) s += c + (k * 7 + n) % 26; return s; };
    for (int l1 = 0; l1 <= 41; l1++) for (int q = 0; q < 4; q++) {
        restore(s04); World w = w04; mc::subcase(l1 * 4 + q); path = S("setStr of a ") + (blob ? "BLOB_STRING" : "STRING") + (elem ? " element" : " attribute") + " of length " + std::to_string(l0); BW_element *r = w.n[0].p;
        auto side = [&](int v) { BW_element *b = L->tagInt32(T_INT32, v); if (!b) return fail("setup"), false; if (!elem) b->flags &= ~BIN_WRITE_ELEMENT_FLAG; r->add(b); add_node(w, 0, b, T_INT32, XBT_INT32, bytes<int32_t>(v), elem); return true; };
        if (!side(0x11111111)) return;
        BW_element *e = L->new_element(blob ? XBT_BLOB_STRING : XBT_STRING, l0); if (!e) return fail("new_element failed"); e->init(L, id, blob ? XBT_BLOB_STRING : XBT_STRING, elem ? BIN_WRITE_ELEMENT_FLAG : BIN_WRITE_ATTR_FLAG); strcpy(e->getStr(), old.c_str()); r->add(e); int k = add_node(w, 0, e, id, (XML_Binary_Type)e->value_type, raw(e), elem);
        if (blob ? w.n[k].val.size() < old.size() + 1 || S(w.n[k].val.c_str()) != old : w.n[k].val != z(old)) return fail("new element does not hold its string | after: %s", path.c_str());
        if (!side(-1)) return;
        if (kids) { BW_element *c = P->tagStr(T_STRING, "child"); if (!need(c)) return; e->add(c); add_node(w, k, c, T_STRING, XBT_STRING, z("child"), true); e->attrInt32(T_INT32, 77); add_node(w, k, L->BWE(e->first_attribute), T_INT32, XBT_INT32, bytes<int32_t>(77), false); }
        if (!check_world(w)) return;
        S val = old; int len2[] = {l1 + 1, l0, 16, 12};
        for (int step = 0; step < 2; step++) { S v = text(step ? len2[q] : l1, step ? 'A' : 'a'); if (!step && l1 == 41) v = old; // unchanged
            e = w.n[k].p; path += "; to length " + std::to_string(v.size()); mc::transitions(1); size_t cap = w.n[k].val.size();
            if (by_parent) { BW_element *g = r->tagSetString(T_STRING, v.c_str()); if (!need(g)) return; if (g != e) { w.n[k].p = g; if (kids) { if (!w.n[k].ch.empty() && g->first_child == 0 && g->first_attribute == 0) w.n[k].ch.clear(), w.n[k].at.clear(); } } }
            else { bool ch = e->setStr(P, r, v.empty() && q == 1 ? nullptr : v.c_str()); if (ch != (v != val)) return fail("setStr returned %d for %s value | after: %s", ch, ch ? "the same" : "a new", path.c_str());
                BW_offset_t o = elem ? r->first_child : r->first_attribute; if (!o) return fail("setStr lost the list | after: %s", path.c_str()); w.n[k].p = L->BWE(L->BWE(o)->next); }
            bool same = w.n[k].p == e; S now = raw(w.n[k].p); if (blob ? S(now.c_str()) != v || now.size() < v.size() + 1 : now != z(v)) return fail("holds %s, expected %s | after: %s", now.c_str(), v.c_str(), path.c_str());
            if (same && v.size() + 1 > cap && !by_parent) return fail("a string of %zu bytes was written over %zu bytes | after: %s", v.size() + 1, cap, path.c_str());
            w.n[k].val = now; val = v; if (!check_world(w)) return; mc::states(1); mc::nontrivial(); }
        mc::outcome(mc::fnv((char *)L + 92, L->allocator - 92));
    }
    restore(s04);
}

// ------------------------------------------------------------------ C04.find: findChildByParam over all small trees
static void c04_find(uint64_t i) { // each child has tag A/B and up to two attributes out of a small set
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); restore(s04); path = "find"; World w = w04;
    struct C { int tag; int kind; }; std::vector<C> cs; uint64_t x = i; int n = x % 4; x /= 4; for (int k = 0; k < n; k++) { cs.push_back({(int)(x % 2), (int)(x / 2 % 8)}); x /= 16; } if (x) return;
    std::vector<BW_element *> el;
    for (auto &c : cs) { BW_element *e = c.tag ? P->tag(T_NULL) : P->tagInt32(T_INT32, 1); w.n[0].p->add(e); el.push_back(e);
        switch (c.kind) { case 1: e->attrInt32(T_INT32, 5); break; case 2: e->attrStr(T_STRING, "k"); break; case 3: e->attrInt32(T_INT32, 6); e->attrStr(T_STRING, "kk"); break; case 4: e->attrStr(T_STRING, "kk"); e->attrInt32(T_INT32, 5); break; case 5: e->attrInt64(T_INT64, 5); e->attrInt32(T_INT32, -5); break; case 6: e->attrInt32(T_INT32, 4); e->attrInt32(T_INT32, 5); break; case 7: e->attrInt32(T_INT32, 6); e->attrStr(T_STRING, "k"); e->attrInt32(T_INT32, 4); e->attrStr(T_STRING, "kk"); break; } }
    for (int tag = 0; tag < 2; tag++) for (int q = 0; q < 6; q++) { mc::subcase(tag * 6 + q);
        int32_t iv = q == 0 ? 5 : q == 1 ? 6 : -5; const char *sv = q == 3 ? "k" : q == 4 ? "kk" : "absent"; bool str = q >= 3; BW_element *exp = nullptr;
        for (size_t k = 0; k < cs.size() && !exp; k++) { if (cs[k].tag != tag) continue; int kd = cs[k].kind; bool m = str ? (S(sv) == "k" ? kd == 2 || kd == 7 : S(sv) == "kk" ? kd == 3 || kd == 4 || kd == 7 : false) : (iv == 5 ? kd == 1 || kd == 4 || kd == 6 : iv == 6 ? kd == 3 || kd == 7 : kd == 5); if (m) exp = el[k]; }
        BW_element *g = w.n[0].p->findChildByParam(tag ? T_NULL : T_INT32, str ? T_STRING : T_INT32, str ? XBT_STRING : XBT_INT32, str ? (const void *)sv : &iv, str ? strlen(sv) + 1 : 4);
        if (g != exp) return fail("findChildByParam(tag %d, %s) found child %d, expected %d", tag, str ? sv : std::to_string(iv).c_str(), g ? (int)(std::find(el.begin(), el.end(), g) - el.begin()) : -1, exp ? (int)(std::find(el.begin(), el.end(), exp) - el.begin()) : -1);
        mc::nontrivial(); }
    restore(s04);
}

// ------------------------------------------------------------------ C13 symbol dictionary
struct Sym { S name; XML_Binary_Type t; };
struct Dict { std::vector<Sym> tags, attrs; bool ready = false; };
static const char *NAMES[] = {"a", "ab", "b", "abcd", "abcdefg"};
static std::vector<Op> DO_; static Dict *D; static XML_Binary_Type DT[] = {XBT_STRING, XBT_INT32, XBT_INT64, XBT_FLOAT};
struct DOp { S name; std::function<bool(Dict &)> f; };
static std::vector<DOp> DOPS;
static void make_dops() {
    if (!DOPS.empty()) return;
    auto op = [](S n, std::function<bool(Dict &)> f) { DOPS.push_back({n, f}); };
    auto reg = [](std::vector<Sym> &v, const char *n, XML_Binary_Type t) { for (size_t i = 0; i < v.size(); i++) if (v[i].name == n) { if (v[i].t != t) v[i].t = XBT_JoinTypes(t, v[i].t); return (int)i; } v.push_back({n, t}); return (int)v.size() - 1; };
    for (int n = 0; n < 4; n++) for (int t = 0; t < (n < 2 ? 3 : 1); t++) {
        op(S("tag ") + NAMES[n] + ":" + XML_BINARY_TYPE_NAMES[DT[t]], [=](Dict &d) { int before = d.tags.size(); int e = reg(d.tags, NAMES[n], DT[t]); if ((int)d.tags.size() != before) d.ready = false; int g = P->registerTag(NAMES[n], DT[t]); if (g != e) fail("registerTag(%s) gives id %d, expected %d | after: %s", NAMES[n], g, e, path.c_str()); return true; });
        op(S("param ") + NAMES[n] + ":" + XML_BINARY_TYPE_NAMES[DT[t]], [=](Dict &d) { if (d.tags.empty()) return false; int before = d.attrs.size(); int e = reg(d.attrs, NAMES[n], DT[t]); if ((int)d.attrs.size() != before) d.ready = false; int g = P->registerParam(NAMES[n], DT[t]); if (g != e) fail("registerParam(%s) gives id %d, expected %d | after: %s", NAMES[n], g, e, path.c_str()); return true; });
    }
    op("next tag by id", [](Dict &d) { S nm = "n" + std::to_string(d.tags.size()); if (!P->registerTag((int16_t)d.tags.size(), nm.c_str(), XBT_INT32)) fail("registerTag(%zu) by id failed | after: %s", d.tags.size(), path.c_str()); d.tags.push_back({nm, XBT_INT32}); d.ready = false; return true; });
    op("next attr by id", [](Dict &d) { if (d.tags.empty()) return false; S nm = "m" + std::to_string(d.attrs.size()); if (!P->registerAttr((int16_t)d.attrs.size(), nm.c_str(), XBT_STRING)) fail("registerAttr(%zu) by id failed | after: %s", d.attrs.size(), path.c_str()); d.attrs.push_back({nm, XBT_STRING}); d.ready = false; return true; });
    op("register what is not next", [](Dict &d) { if (d.tags.empty()) return false; int n = d.tags.size(), m = d.attrs.size();
        for (int id : {-1, -5, -32768, n + 1, n + 2, 32767}) if (P->registerTag((int16_t)id, "q", XBT_INT32)) fail("registerTag(%d) is accepted with %d tags | after: %s", id, n, path.c_str());
        for (int id : {-1, -5, -32768, m + 1, m + 2, 32767}) if (P->registerAttr((int16_t)id, "q", XBT_INT32)) fail("registerAttr(%d) is accepted with %d attributes | after: %s", id, m, path.c_str());
        for (int k = 0; k < n; k++) { if (!P->registerTag((int16_t)k, d.tags[k].name.c_str(), d.tags[k].t)) fail("tag %d cannot be registered again | after: %s", k, path.c_str()); if (P->registerTag((int16_t)k, "q", d.tags[k].t) || P->registerTag((int16_t)k, d.tags[k].name.c_str(), d.tags[k].t == XBT_INT32 ? XBT_FLOAT : XBT_INT32)) fail("id of tag %d is accepted for another | after: %s", k, path.c_str()); }
        for (int k = 0; k < m; k++) { if (!P->registerAttr((int16_t)k, d.attrs[k].name.c_str(), d.attrs[k].t)) fail("attribute %d cannot be registered again | after: %s", k, path.c_str()); if (P->registerAttr((int16_t)k, "q", d.attrs[k].t) || P->registerAttr((int16_t)k, d.attrs[k].name.c_str(), d.attrs[k].t == XBT_INT32 ? XBT_FLOAT : XBT_INT32)) fail("id of attribute %d is accepted for another | after: %s", k, path.c_str()); }
        return true; });
    op("allRegistered", [](Dict &d) { if (!P->allRegistered()) fail("allRegistered failed | after: %s", path.c_str()); d.ready = true; return true; });
    op("data element", [](Dict &d) { if (d.tags.empty() || !d.ready) return false; BW_element *e = P->tag(0); if (!e) fail("tag() failed | after: %s", path.c_str()); return true; });
    op("Clear", [](Dict &d) { if (d.tags.empty() || d.attrs.empty()) return false; if (!P->Clear()) fail("Clear failed | after: %s", path.c_str()); d.ready = true; return true; });
    op("alterTag(last -> STRING)", [](Dict &d) { if (d.tags.empty()) return false; int k = d.tags.size() - 1; bool e = XBT_ConvertableType(d.tags[k].t, XBT_STRING) == XBT_CONVERTABLE; bool g = P->alterTag(k, XBT_STRING); if (g != e) fail("alterTag returns %d | after: %s", g, path.c_str()); if (g) d.tags[k].t = XBT_STRING; return true; });
    op("alterAttr(0 -> INT64)", [](Dict &d) { if (d.attrs.empty()) return false; bool e = XBT_ConvertableType(d.attrs[0].t, XBT_INT64) == XBT_CONVERTABLE; bool g = P->alterAttr(0, XBT_INT64); if (g != e) fail("alterAttr returns %d | after: %s", g, path.c_str()); if (g) d.attrs[0].t = XBT_INT64; return true; });
    op("alterTag(0 -> FLOAT)", [](Dict &d) { if (d.tags.empty()) return false; bool e = XBT_ConvertableType(d.tags[0].t, XBT_FLOAT) == XBT_CONVERTABLE; bool g = P->alterTag(0, XBT_FLOAT); if (g != e) fail("alterTag returns %d | after: %s", g, path.c_str()); if (g) d.tags[0].t = XBT_FLOAT; return true; });
}
static bool check_dict(const Dict &d) {
    for (int k = 0; k < 2; k++) {
        const std::vector<Sym> &v = k ? d.attrs : d.tags; BW_symbol_table_16B &t = k ? L->params : L->tags; const char *w = k ? "attribute" : "tag";
        auto tab = k ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES;
        if (P->getSymbolCount(tab) != (int)v.size()) BAD("%s count is %d, expected %zu", w, P->getSymbolCount(tab), v.size());
        for (size_t i = 0; i < v.size(); i++) {
            const char *n = t.getName(L, i); if (!n || v[i].name != n) BAD("name of %s %zu is %s, expected %s", w, i, n ? n : "(null)", v[i].name.c_str());
            XML_Binary_Type_Stored *ty = t.getType(L, i); if (!ty || *ty != v[i].t) BAD("type of %s %s is %s, expected %s", w, v[i].name.c_str(), ty ? XML_BINARY_TYPE_NAMES[*ty] : "(null)", XML_BINARY_TYPE_NAMES[v[i].t]);
            XML_Binary_Type gt = XBT_UNKNOWN; BW_offset_t off = 0; int id = t.getByName(L, v[i].name.c_str(), &off, &gt); if (id != (int)i || gt != v[i].t) BAD("getByName(%s %s) gives %d/%s, expected %zu/%s", w, v[i].name.c_str(), id, XML_BINARY_TYPE_NAMES[gt], i, XML_BINARY_TYPE_NAMES[v[i].t]);
            if (d.ready) { XML_Binary_Type st; const char *s = P->getSymbol(tab, i, st); if (!s || v[i].name != s || st != v[i].t) BAD("getSymbol(%s %zu) wrong", w, i); }
        }
        if (!v.empty()) for (const char *n : {"", "aa", "abc", "zz", "n", "t"}) { if (t.getByName(L, n, nullptr, nullptr) != -1) BAD("getByName finds %s %s which was never registered", w, mc::quote(n).c_str()); }
        if (t.getNamesSize(L) < 0 || P->getDataSize() < 0) BAD("negative size");
    }
    if (P->getDataSize() != (int)L->allocator - (int)sizeof(*L) - L->tags.getNamesSize(L) - L->params.getNamesSize(L)) BAD("getDataSize is %d, allocated are %d bytes, names take %d and %d", P->getDataSize(), (int)L->allocator, L->tags.getNamesSize(L), L->params.getNamesSize(L));
    return true;
}
static int D13() { return mc::thorough ? 6 : 5; }
static void dfs13(const Dict &d, const Snap &s, int depth, int max, uint64_t code) {
    for (size_t o = 0; o < DOPS.size() && !mc::failed(); o++) {
        Dict n = d; size_t pl = path.size(); path += (pl ? "; " : "") + DOPS[o].name; mc::subcase(code * 32 + o + 1);
        if (DOPS[o].f(n)) { mc::transitions(1); if (!mc::failed() && check_dict(n)) { mc::states(1); mc::nontrivial(1); mc::touch(); if ((++nodes_checked & 15) == 0) mc::outcome(mc::fnv((char *)L + 40, L->allocator - 40)); if (depth + 1 < max) { Snap s2 = take(); dfs13(n, s2, depth + 1, max, code * 32 + o + 1); } } restore(s); }
        path.resize(pl);
    }
}
static void init13() { make_dops(); base04 = open_new("dict"); if (!base04) return; P = base04.get(); L = P->getPool(); P->makeSpace(0x20000); s04 = take(); }
static uint64_t c13_count() { make_dops(); return DOPS.size() * DOPS.size(); }
static void c13_ops(uint64_t i) {
    if (!base04) return fail("no pool"); P = base04.get(); L = P->getPool(); restore(s04); path = ""; Dict d; int oo[2] = {(int)(i % DOPS.size()), (int)(i / DOPS.size())};
    for (int o : oo) { path += (path.empty() ? "" : "; ") + DOPS[o].name; if (!DOPS[o].f(d)) return; mc::transitions(1); if (mc::failed() || !check_dict(d)) return; mc::nontrivial(1); }
    Snap s = take(); dfs13(d, s, 2, D13(), 0); if (ftruncate(2, 0)) {}
}
static S c13_desc(uint64_t i) { make_dops(); return DOPS[i % DOPS.size()].name + "; " + DOPS[i / DOPS.size()].name + "; then every sequence of up to " + std::to_string(D13() - 2) + " more operations"; }
// many symbols: table sizes around every byte boundary, three name length patterns, both registration styles, then reopening of the tables by more symbols
static std::vector<int> SIZES() { std::vector<int> v; for (int i = 1; i <= 40; i++) v.push_back(i); for (int b : {64, 100, 127, 128, 129, 200, 255, 256, 257, 383, 384, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000}) v.push_back(b); if (mc::thorough) for (int b : {3000, 4095, 4096, 4097, 6000}) v.push_back(b); return v; }
static void c13_many(uint64_t i) {
    auto sz = SIZES(); int n = sz[i / 6], pat = i % 3, style = i / 3 % 2; Pl p = open_new("many", 0x400000); if (!p) return; P = p.get(); L = P->getPool(); Dict d; path = "many";
    auto nm = [&](const char *pre, int k) { S s = pre + std::to_string(k); if (pat == 1) s += S(k % 7, 'x'); if (pat == 2) s = S(pre) + S(60, 'p') + std::to_string(k); return s; };
    auto rt = [&](int k) { S s = nm("t", k); XML_Binary_Type t = TYPES[k % NT]; mc::touch(); if (style) { if (P->registerTag(s.c_str(), t) != k) { fail("registerTag #%d of %d", k, n); return false; } } else if (!P->registerTag(k, s.c_str(), t)) { fail("registerTag(%d) of %d", k, n); return false; } d.tags.push_back({s, t}); return true; };
    auto ra = [&](int k) { S s = nm("a", k); XML_Binary_Type t = TYPES[(k * 5 + 1) % NT]; mc::touch(); if (style) { if (P->registerParam(s.c_str(), t) != k) { fail("registerParam #%d of %d", k, n); return false; } } else if (!P->registerAttr(k, s.c_str(), t)) { fail("registerAttr(%d) of %d", k, n); return false; } d.attrs.push_back({s, t}); return true; };
    for (int k = 0; k < n; k++) { mc::subcase(k); if (!rt(k)) return; } for (int k = 0; k < n; k++) if (!ra(k)) return;
    if (!P->allRegistered()) return fail("allRegistered failed"); d.ready = true; if (!check_dict(d)) return; mc::nontrivial();
    BW_element *r = P->tag(0); if (!r) return fail("tag"); P->setRoot(r);
    for (int k = n; k < n + 3; k++) { if (!rt(k) || !ra(k)) return; } d.ready = false; if (!P->allRegistered()) return fail("second allRegistered failed"); d.ready = true; if (!check_dict(d)) return; mc::nontrivial();
    if (P->getRoot() != r || r->identification != 0) return fail("root moved");
    if (!P->Clear()) return fail("Clear failed"); if (!check_dict(d)) return; if (P->getRoot()) return fail("root survived Clear"); mc::nontrivial();
    if (!rt(n + 3) || !ra(n + 3)) return; d.ready = false; if (!P->allRegistered()) return fail("allRegistered after Clear failed"); d.ready = true; if (!check_dict(d)) return; mc::states(1); mc::nontrivial();
}

// as many symbols as there are ids: the last one is found, one more is refused and changes nothing
static void c13_limit(uint64_t i) {
    bool at = i & 1, byname = i & 2; Pl p = open_new("limit", 0x4000000); if (!p) return; P = p.get(); L = P->getPool(); path = "limit"; int n = 32768; if (at && !P->registerTag(0, "root", XBT_NULL)) return fail("root tag");
    auto nm = [](int k) { return "s" + std::to_string(k); }; auto byid = [&](int k, const char *s) { return at ? P->registerAttr((int16_t)k, s, XBT_INT32) : P->registerTag((int16_t)k, s, XBT_INT32); }; auto named = [&](const char *s, XML_Binary_Type t) { return at ? (int)P->registerParam(s, t) : (int)P->registerTag(s, t); };
    for (int k = 0; k < n; k++) { mc::touch(); if (byname && (k < 40 || k >= n - 10)) { int g = named(nm(k).c_str(), XBT_INT32); if (g != k) return fail("symbol %d gets id %d", k, g); } else if (!byid(k, nm(k).c_str())) return fail("symbol %d is refused", k); }
    auto tab = at ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES; BW_symbol_table_16B &t = at ? L->params : L->tags;
    auto check = [&](int step) { if (P->getSymbolCount(tab) != n) return fail("count is %d", P->getSymbolCount(tab)), false; for (int k = 0; k < n; k += k < 50 || k > n - 50 ? 1 : step) { mc::touch(); const char *s = t.getName(L, k); if (!s || nm(k) != s) return fail("name of symbol %d is %s", k, s ? s : "(null)"), false; if (t.getByName(L, nm(k).c_str(), nullptr, nullptr) != k) return fail("symbol %d is not found", k), false; } return true; };
    if (!check(3000)) return; if (named("more", XBT_INT32) != -1) return fail("one symbol too many is accepted"); if (byid(-32768, "more")) return fail("a symbol with negative id is accepted"); if (named(nm(n - 1).c_str(), XBT_INT32) != n - 1) return fail("the last symbol is not found again"); if (!check(3000)) return;
    if (!P->allRegistered()) return fail("allRegistered failed"); if (!check(500)) return; BW_element *e = at ? P->tag(0) : P->tagInt32(n - 1, 7); if (!e) return fail("no element"); P->setRoot(e); if (at && !e->attrInt32(n - 1, 7)) return fail("no attribute");
    if (named("more", XBT_INT32) != -1) return fail("one symbol too many is accepted after indexing"); if (!check(500)) return; if (P->getRoot() != e || (!at && (e->identification != n - 1 || *e->getInt32() != 7))) return fail("the element changed"); if (at) { BW_element *q = e->findAttr(n - 1); if (!q || *q->getInt32() != 7) return fail("the last attribute is not found"); } mc::nontrivial(); mc::states(n);
}

// registrations of what does not exist: types out of range, names missing, ids out of order; refused without any change, at every stage
static const int BADT[] = {INT_MIN, -256, -2, -1, XBT_LAST, XBT_LAST + 1, 127, 128, 254, 255, 256, 257, 258, 0x10002, 1000000, INT_MAX}; static const int BADI[] = {-32768, -2, -1, 0, 1, 2, 3, 4, 100, 32767};
static void c13_invalid(uint64_t i) {
    int stage = i % 5, n = i / 5 % 4; Pl p = open_new("inv", 0x40000); if (!p) return; P = p.get(); L = P->getPool(); path = "invalid"; auto nm = [](int k) { return "s" + std::to_string(k); }; int nt = std::max(1, n); // stages: registered, indexed, with elements, reopened, reopened and indexed
    auto reg = [&]() { for (int k = 0; k < nt; k++) if (!P->registerTag(k, nm(k).c_str(), XBT_INT32)) return false; for (int k = 0; k < n; k++) if (!P->registerAttr(k, nm(k).c_str(), XBT_STRING)) return false; return true; }; if (!reg()) return fail("registration"); if (stage && !P->allRegistered()) return fail("allRegistered");
    if (stage >= 2) { BW_element *e = P->tagInt32(0, 7); if (!e) return fail("no element"); P->setRoot(e); if (n && !e->attrStr(0, "v")) return fail("no attribute"); }
    if (stage >= 3) { p.reset(); p.reset(new TestPlugin("inv.xbw", nullptr, 0x40000, 0)); if (!p->Initialize()) return fail("reopening"); P = p.get(); L = P->getPool(); if (stage == 4 && (!reg() || !P->allRegistered())) return fail("registration again"); }
    auto snap = [&]() { return S((char *)L, L->file_size); }; auto state = [&]() { S r; for (int a = 0; a < 2; a++) for (int k = 0; k < (a ? n : nt); k++) { BW_symbol_table_16B &t = a ? L->params : L->tags; const char *s = t.getName(L, k); const XML_Binary_Type_Stored *y = t.getType(L, k); r += s ? s : "?"; r += y ? *y : '?'; } return r; };
    S was = snap(), st = state(); int cnt = 0;
    auto no = [&](bool refused, const char *what, const char *name, int id, int type) { mc::transitions(1); cnt++; if (!refused) return fail("%s(%d,%s,%d) is accepted", what, id, name ? name : "null", type), false; if (snap() != was || state() != st || P->getSymbolCount(SYMBOL_TABLE_NODES) != nt || P->getSymbolCount(SYMBOL_TABLE_PARAMS) != n) return fail("%s(%d,%s,%d) changes the dictionary", what, id, name ? name : "null", type), false; return true; };
    for (const char *name : {(const char *)nullptr, "new", "s0", "s1", ""}) for (int k = 0; k < 17; k++) { if (name && k == 16) continue; XML_Binary_Type t = (XML_Binary_Type)(k == 16 ? (int)XBT_INT32 : BADT[k]);
        if (!no(P->registerTag(name, t) == XTNR_NULL, "registerTag by name", name, 0, t) || !no(P->registerParam(name, t) == XPNR_NULL, "registerParam", name, 0, t)) return;
        for (int id : BADI) if (!no(!P->registerTag((int16_t)id, name, t), "registerTag", name, id, t) || !no(!P->registerAttr((int16_t)id, name, t), "registerAttr", name, id, t)) return; }
    if (stage != 3) for (int id : BADI) if (id < 0 || id > nt) if (!no(!P->registerTag((int16_t)id, "new", XBT_INT32), "registerTag", "new", id, XBT_INT32)) return; if (stage != 3) for (int id : BADI) if (id < 0 || id > n) if (!no(!P->registerAttr((int16_t)id, "new", XBT_INT32), "registerAttr", "new", id, XBT_INT32)) return;
    if (stage != 3) { if (P->registerTag("new", XBT_INT64) != nt || P->registerParam("new", XBT_INT64) != n || P->registerTag("new", XBT_INT64) != nt || P->registerParam("new", XBT_INT64) != n) return fail("a valid registration fails afterwards"); if (state() != st) return fail("valid registrations changed others: %s, not %s", mc::quote(state()).c_str(), mc::quote(st).c_str()); } mc::nontrivial(); mc::states(cnt);
}

// ------------------------------------------------------------------ C07: growth to the limit, several plugins
static const int SZ7[] = {0, 1, 3, 4, 5, 8, 40, 100, 1000, 4000, 4072, 4096, 5000, 16384, 30000};
static const int N7 = sizeof SZ7 / sizeof *SZ7;
static const int MAX7[] = {0x8000, 0x9000, 0xa000, 0x10000, 0x20000, 0x40000};
static void c07_fill(uint64_t i) { // alternate two sizes until the pool refuses; everything stored stays intact and the limit holds
    int a = SZ7[i % N7], b = SZ7[i / N7 % N7], mx = MAX7[i / N7 / N7 % 6], way = i / N7 / N7 / 6; Pl p = open_new("fill", mx); if (!p) return; P = p.get(); L = P->getPool(); path = "fill"; if (!reg_all(P)) { return; }
    BW_element *r = P->tag(T_NULL); if (!r) return mx <= 0x8000 ? (void)0 : fail("no root in a pool of %d", mx); P->setRoot(r); World w; add_node(w, -1, r, T_NULL, XBT_NULL, "", true);
    int refused = 0, n = 0;
    while (refused < 3 && n < 5000) {
        int size = n % 2 ? b : a; S v(size, (char)('a' + n % 26)); mc::subcase(n); int before = L->allocator;
        BW_element *e = nullptr; XML_Binary_Type t = XBT_BLOB; int id = T_BLOB; S val = v; bool elem = way != 2;
        if (way == 0) e = P->tagBLOB(T_BLOB, v.data(), size);
        else if (way == 1) { e = L->tagString(T_STRING, v.c_str()); t = XBT_STRING; id = T_STRING; val = z(v); }
        else if (way == 2) { if (r->attrStr(T_STRING, v.c_str()) == r) e = L->BWE(L->BWE(r->first_attribute)->prev); t = XBT_STRING; id = T_STRING; val = z(v); }
        else if (n % 2) { e = L->tagInt64(T_INT64, n); t = XBT_INT64; id = T_INT64; val = bytes<int64_t>(n); }
        else { e = P->tagStr(T_STRING, v.c_str()); t = XBT_STRING; id = T_STRING; val = z(v); }
        mc::transitions(1);
        struct stat st; if (stat("fill.xbw", &st)) return fail("stat"); if (st.st_size > mx) return fail("file has %ld bytes, limit is %d", (long)st.st_size, mx);
        if (L->allocator > st.st_size || (int)L->file_size != st.st_size) return fail("allocated %d of a file of %ld bytes (header says %u)", L->allocator, (long)st.st_size, L->file_size);
        if (!e) { refused++; if (before + 2 * size + 0x4000 + 0x2000 < mx && before + (size + 100) < mx) return fail("refused %d bytes with %d of %d used", size, before, mx); if ((way == 1 || (way == 3 && n % 2)) && before + (int)sizeof(BW_element) + (way == 3 ? 8 : 4 + size + 1) + 32 <= mx) return fail("a fitting element of %d bytes refused by the pool with %d of %d used", size, before, mx); if (L->allocator > before + 64) return fail("a refused element consumed space"); n++; continue; }
        if ((char *)e + 24 + (int)val.size() > (char *)L + st.st_size) return fail("element beyond the file");
        if (elem) r->add(e); add_node(w, 0, e, id, t, val, elem); n++;
        if (n % 64 == 0) mc::touch();
    }
    if (!check_node(w, 0, false)) return; mc::states(n); mc::nontrivial();
    // what was written is found again by another process
    std::vector<S> vals; for (int c : w.n[0].ch) vals.push_back(w.n[c].val); for (int c : w.n[0].at) vals.push_back(w.n[c].val);
    p.reset(); Pl q(new TestPlugin("fill.xbw", nullptr, mx, 0)); if (!q->Initialize()) return fail("reopen of a full pool failed"); P = q.get(); L = P->getPool(); BW_element *r2 = (BW_element *)P->getRoot(); if (!r2) return fail("root lost");
    size_t k = 0; { BW_FOREACH2(r2, c) { if (k >= vals.size() || raw(c) != vals[k]) return fail("element %zu differs after reopening", k); k++; } }
    if (r2->first_attribute) { BW_element *c = L->BWE(r2->first_attribute); for (;;) { if (k >= vals.size() || raw(c) != vals[k]) return fail("attribute %zu differs after reopening", k); k++; if (c->next == r2->first_attribute) break; c = L->BWE(c->next); } }
    if (k != vals.size()) return fail("%zu of %zu elements after reopening", k, vals.size());
}
static S c07_desc(uint64_t i) { return "alternating values of " + std::to_string(SZ7[i % N7]) + " and " + std::to_string(SZ7[i / N7 % N7]) + " bytes, way " + std::to_string(i / N7 / N7 / 6) + ", pool limit " + std::to_string(MAX7[i / N7 / N7 % 6]); }
// sizes which cannot be: negative ones and those around the biggest number are refused, nothing changes and the pool works on
static std::vector<int> extremes() { std::vector<int> r = {INT_MIN, INT_MIN + 1, INT_MIN + 24, INT_MIN + 4096, -0x7fff0000, -0x40000000, -100000, -0x4004, -4096}; for (int k = -40; k < 0; k++) r.push_back(k); for (int k = 0; k < 80; k++) r.push_back(INT_MAX - k); for (int k : {100, 127, 128, 200, 255, 256, 300, 500, 600, 1000, 4095, 4096, 4097, 0x3ff0, 0x4000, 0x4004, 0x4005, 0x4020, 0x5000, 0x8000, 0xa000, 0x10000}) r.push_back(INT_MAX - k); for (int k : {-1, 0, 1}) r.push_back(0x40000000 + k), r.push_back(0x60000000 + k); return r; }
static const std::vector<int> EX7 = extremes(); static const char *EXW[] = {"tagBLOB", "tagBLOB without value", "tagHEX", "tagHEX without value", "attrBLOB", "attrBLOB without value", "attrHEX", "attrHEX without value", "tagAny BLOB", "tagAny STRING", "tagData", "attrData", "new_element STRING", "new_element BLOB_STRING", "allocate", "allocate8"};
static const int MXE[] = {0x10000, 0x40000, 0x4000000, 0x7ffff000}; static const uint64_t N7E = 16 * 4 * 3;
static void c07_extremes(uint64_t i) {
    int size = EX7[i / N7E], way = i % 16, mx = MXE[i / 16 % 4], fill = i / 64 % 3; if (mx == 0x7ffff000 && size > 0 && size < 0x7fff0000) return mc::nontrivial(); // it may fit
    Pl p = open_new("extreme", mx); if (!p) return; P = p.get(); L = P->getPool(); path = "extreme"; if (!reg_all(P)) return; BW_element *r = P->tag(T_NULL); if (!r) return fail("no root"); P->setRoot(r); World w; add_node(w, -1, r, T_NULL, XBT_NULL, "", true);
    auto put = [&](int n, char c) { S v(n, c); BW_element *e = P->tagBLOB(T_BLOB, v.data(), n); if (!e) return fail("a blob of %d bytes is refused", n), false; r->add(e); add_node(w, 0, e, T_BLOB, XBT_BLOB, v, true); return true; }; if (!put(5, 'a') || (fill && !put(fill == 1 ? 3000 : 20000, 'b'))) return;
    static char buf[64]; memset(buf, '7', sizeof buf); buf[63] = 0; int before = L->allocator; void *got = nullptr; XML_Binary_Data_Ref d; d.type = XBT_BLOB; d.data = buf; d.content = buf + 4; d.size = size; d.content_size = size; int32_t b0; memcpy(&b0, buf, 4);
    switch (way) { case 0: got = P->tagBLOB(T_BLOB, buf, size); break; case 1: got = P->tagBLOB(T_BLOB, nullptr, size); break; case 2: got = P->tagHEX(T_HEX, buf, size); break; case 3: got = P->tagHEX(T_HEX, nullptr, size); break; case 4: got = r->attrBLOB(T_BLOB, buf, size); break; case 5: got = r->attrBLOB(T_BLOB, nullptr, size); break; case 6: got = r->attrHEX(T_HEX, buf, size); break; case 7: got = r->attrHEX(T_HEX, nullptr, size); break;
        case 8: got = L->tagAny(T_BLOB, XBT_BLOB, "", size); break; case 9: got = L->tagAny(T_STRING, XBT_STRING, "x", size); break; case 10: got = P->tagData(T_BLOB, d); break; case 11: got = r->attrData(T_BLOB, d); break; case 12: got = L->new_element(XBT_STRING, size); break; case 13: got = L->new_element(XBT_BLOB_STRING, size); break; case 14: got = L->allocate(size); break; case 15: got = L->allocate8(size); break; }
    if (got) return fail("%s of %d bytes is accepted", EXW[way], size); struct stat st; if (stat("extreme.xbw", &st)) return fail("stat"); if (st.st_size > mx || L->allocator > st.st_size || (int)L->file_size != st.st_size) return fail("allocated %d of a file of %ld bytes (header says %u)", L->allocator, (long)st.st_size, L->file_size); if (L->allocator < before || L->allocator > before + 8) return fail("%s of %d bytes moves the end from %d to %d", EXW[way], size, before, L->allocator);
    if (!check_node(w, 0, false) || !put(100, 'c') || !check_node(w, 0, false)) return; mc::nontrivial(); mc::states(1);
}
static S c07e_desc(uint64_t i) { return S(EXW[i % 16]) + " of " + std::to_string(EX7[i / N7E]) + " bytes, pool limit " + std::to_string(MXE[i / 16 % 4]) + ", filled " + std::to_string(i / 64 % 3); }
// limits of any size, over what is in the place of the file: a pool that cannot keep its limit is refused and the file stays, others keep it
static const int LIM7[] = {INT_MIN, -0x40000, -4096, -1, 0, 1, 100, 255, 4095, 4096, 0x2000, 0x3fff, 0x4000, 0x4001, 0x4fff, 0x5000, 0x5001, 0x6001, 0x7fff, 0x8000, 0x8001, 0x9abc, 0x40000, 0x40001}; static const int OLD7[] = {0, 0, 0, 0x6001, 0x8000, 0x40000}; static const uint64_t NLIM7 = 24 * 6 * 12;
static void c07_limits(uint64_t i) {
    int mx = LIM7[i % 24], old = i / 24 % 6, o = i / 144; bool fresh = o & 1, later = o >> 1 & 1; int size = o / 4 == 0 ? 10 : o / 4 == 1 ? 1000 : 5000; const char *F = "lim.xbw"; path = "limit";
    int used = mx; World w; std::vector<S> vals; unlink(F);
    auto root = [&]() { if (!P->registerTag(0, "r", XBT_NULL) || !P->registerTag(1, "s", XBT_STRING) || !P->allRegistered()) return (BW_element *)nullptr; BW_element *r = L->tag(0); if (r) P->setRoot(r); return r; };
    auto ok = [&]() { struct stat st; if (stat(F, &st)) return fail("stat"), false; if (st.st_size > used) return fail("file has %ld bytes, limit is %d", (long)st.st_size, used), false; if ((int)L->mmap_size != used) return fail("the limit is %u, not %d", L->mmap_size, used), false; if (L->allocator > st.st_size || (int)L->file_size != st.st_size) return fail("allocated %d of a file of %ld bytes (header says %u)", L->allocator, (long)st.st_size, L->file_size), false; return true; };
    auto same = [&]() { BW_element *r = (BW_element *)P->getRoot(); if (!r) return fail("no root"), false; size_t k = 0; BW_FOREACH2(r, e) { if (k >= vals.size() || !e->getStr() || vals[k] != e->getStr()) return fail("element %zu differs", k), false; k++; } if (k != vals.size()) return fail("%zu of %zu elements", k, vals.size()), false; return true; };
    auto fill = [&](int n) { BW_element *r = (BW_element *)P->getRoot(); for (int k = 0; k < n; k++) { S v(size, (char)('a' + vals.size() % 26)); int before = L->allocator; BW_element *e = L->tagString(1, v.c_str()); mc::transitions(1); if (!ok()) return false; if (!e) { if (before + (int)sizeof(BW_element) + size + 1 + 4 + 32 <= (used & ~4095)) return fail("a fitting element of %d bytes refused with %d of %d used", size, before, used), false; break; } if ((char *)e + sizeof(BW_element) + size + 1 > (char *)L + L->file_size) return fail("element beyond the file"), false; r->add(e); vals.push_back(v); } return true; };
    bool valid = false; if (old == 1 && !mc::writefile(F, "")) return fail("write"); if (old == 2 && !mc::writefile(F, "too short")) return fail("write");
    if (old >= 3) { int n = used; used = OLD7[old]; Pl p(new TestPlugin(F, nullptr, used, 0)); if (!p->Initialize()) return fail("a pool with limit %d is refused", used); P = p.get(); L = P->getPool(); if (!root()) return fail("no root in a pool of %d", used); if (!fill(2) || !same()) return; p.reset(); if (fresh) vals.clear(), used = n; else valid = true; } S before = mc::readfile(F);
    Pl p(new TestPlugin(F, nullptr, later ? 0x40000 : mx, fresh ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0)); if (later && !p->setMaxPoolSize(mx)) return fail("setMaxPoolSize is refused"); bool is = p->Initialize(); mc::touch();
    if (!valid && is != (mx >= 0x4000)) return fail("a new pool with limit %d is %s", mx, is ? "accepted" : "refused"); if (valid && mx >= 4096 && !is) return fail("an existing pool is refused for another limit"); 
    if (!is) { if (mc::readfile(F) != before) return fail("a refused opening changed the file"); if (!p->setMaxPoolSize(0x10000)) return fail("setMaxPoolSize after refusal"); if (!valid) used = 0x10000; if (!p->Initialize()) return fail("the pool cannot be opened with another limit"); }
    P = p.get(); L = P->getPool(); if (!ok()) return; if (valid) { if (!P->registerTag(0, "r", XBT_NULL) || !P->registerTag(1, "s", XBT_STRING) || !P->allRegistered()) return fail("registration"); } else if (!root()) return used < 0x6000 ? mc::nontrivial() : fail("no root in a pool of %d", used); /* indexing keeps a reserve */ if (!same() || !fill(400) || !same()) return;
    p.reset(); p.reset(new TestPlugin(F, nullptr, 0x20000, 0)); if (!p->Initialize()) return fail("reopening failed"); P = p.get(); L = P->getPool(); if (!ok() || !same()) return; mc::nontrivial(); mc::states(vals.size());
}
// every interleaving of operations on 3 plugins (write / grow a lot / destroy / create again), order = base-9 digits
static int D7() { return mc::thorough ? 6 : 5; }
static uint64_t c07p_count() { uint64_t n = 1; for (int i = 0; i < D7(); i++) n *= 9; return n; }
static void c07_plugins(uint64_t i) {
    struct One { Pl p; std::vector<S> v; BW_element *r = nullptr; }; One pl[3]; path = "";
    auto create = [&](int k) { std::string fn = "m" + std::to_string(k); pl[k].p = open_new(fn.c_str(), 0x80000); if (!pl[k].p) return false; P = pl[k].p.get(); L = P->getPool(); 
        for (int t = 0; t < 4; t++) { if (!P->registerTag(t, ("t" + std::to_string(t)).c_str(), TYPES[t])) { fail("registerTag"); return false; } } if (!P->registerAttr(0, "a", XBT_STRING) || !P->allRegistered()) { fail("register"); return false; }
        pl[k].r = L->tag(T_NULL); if (!pl[k].r) { fail("root"); return false; } P->setRoot(pl[k].r); pl[k].v.clear(); return true; };
    for (int k = 0; k < 3; k++) if (!create(k)) return;
    for (int s = 0; s < D7(); s++, i /= 9) {
        int k = i % 3, o = i / 3 % 3; mc::subcase(s); One &x = pl[k]; mc::transitions(1);
        path += (path.empty() ? "" : "; ") + S(o == 0 ? "write" : o == 1 ? "big write" : "destroy/create") + std::to_string(k);
        if (o == 2) { if (x.p) x.p.reset(); else if (!create(k)) return; }
        else { if (!x.p) continue; BW_pool *q = x.p->getPool(); S v(o ? 20000 + 4 * s : 5, (char)('A' + s)); BW_element *e = q->tagString(T_STRING, v.c_str()); if (!e) return fail("write to plugin %d refused | after: %s", k, path.c_str()); x.r->add(e); x.v.push_back(v); }
        for (int m = 0; m < 3; m++) if (pl[m].p) { size_t c = 0; BW_FOREACH2(pl[m].r, e) { if (c >= pl[m].v.size() || pl[m].v[c] != e->getStr()) return fail("plugin %d: element %zu damaged | after: %s", m, c, path.c_str()); c++; } if (c != pl[m].v.size()) return fail("plugin %d lost elements | after: %s", m, path.c_str());
            struct stat st; if (stat(("m" + std::to_string(m) + ".xbw").c_str(), &st) || st.st_size != (long)pl[m].p->getPool()->file_size || pl[m].p->getPool()->allocator > st.st_size) return fail("plugin %d: file size %ld does not agree with the header | after: %s", m, (long)st.st_size, path.c_str()); }
        mc::states(1);
    }
    mc::nontrivial();
}

// ------------------------------------------------------------------ C06: reopening
// a file with tree T and symbols is closed and opened again; dictionary is re-registered with one (or no) difference
static bool build6(const char *fn, int max, int nt, int na, int tree, World *w) {
    Pl p = open_new(fn, max); if (!p) return false; P = p.get(); L = P->getPool();
    for (int i = 0; i < nt; i++) if (!P->registerTag(i, ("t" + std::to_string(i)).c_str(), TYPES[i])) { fail("registerTag"); return false; }
    for (int i = 0; i < na; i++) if (!P->registerAttr(i, ("a" + std::to_string(i)).c_str(), TYPES[i])) { fail("registerAttr"); return false; }
    if (!P->allRegistered()) { fail("allRegistered"); return false; }
    BW_element *r = P->tag(T_NULL); P->setRoot(r); add_node(*w, -1, r, T_NULL, XBT_NULL, "", true);
    for (int k = 0; k < tree; k++) { if (nt > T_INT32) { BW_element *e = P->tagInt32(T_INT32, k); r->add(e); int m = add_node(*w, 0, e, T_INT32, XBT_INT32, bytes<int32_t>(k), true);
            if (na > T_STRING) { e->attrStr(T_STRING, S(k, 'q').c_str()); add_node(*w, m, L->BWE(e->first_attribute), T_STRING, XBT_STRING, z(S(k, 'q')), false); } }
        if (nt > T_STRING && k % 2) { BW_element *e = P->tagStr(T_STRING, S(k * 300, 's').c_str()); r->add(e); add_node(*w, 0, e, T_STRING, XBT_STRING, z(S(k * 300, 's')), true); } }
    for (auto &n : w->n) n.p = (BW_element *)(n.p->offset + (char *)0);  // offsets: the mapping moves
    return true;
}
static void rebase(World &w) { for (auto &n : w.n) n.p = (BW_element *)((char *)L + ((char *)n.p - (char *)0)); }
static void c06_dict(uint64_t i) { // i: number of tags (1..6) x attrs (1..5) x deviation
    int nt = i % 6 + 1, na = i / 6 % 5 + 1, dev = i / 30 % 12, at = i / 360; if (at >= std::max(nt, na)) return; World w; path = "reopen"; if (!build6("re", 0x40000, nt, na, 4, &w)) return;
    struct stat st; stat("re.xbw", &st); S before = mc::readfile("re.xbw");
    Pl p(new TestPlugin("re.xbw", nullptr, dev == 11 ? 0x80000 : 0x40000, 0)); if (!p->Initialize()) return fail("reopening failed"); P = p.get(); L = P->getPool(); World w2 = w; rebase(w2); if (!check_world(w2)) return; 
    if ((int)L->mmap_size != 0x40000) return fail("limit of the pool changed");
    bool expect = true, used = false;
    for (int k = 0; k < nt; k++) { S n = "t" + std::to_string(k); int id = k; XML_Binary_Type t = TYPES[k]; if (k == at) { if (dev == 1) { n = "u"; used = true; } if (dev == 2) { t = XBT_DOUBLE; used = true; } if (dev == 3) { id = k + 1; used = true; } if (dev == 4) { n += "x"; used = true; } if (dev == 9) { n = "t"; used = true; } }
        bool exp = !(k == at && (dev == 1 || dev == 2 || dev == 3 || dev == 4 || dev == 9)); if (!exp) expect = false; bool g = P->registerTag(id, n.c_str(), t); if (g != exp) return fail("registerTag(%d,%s,%s) on a reopened pool returns %d", id, n.c_str(), XML_BINARY_TYPE_NAMES[t], g); }
    for (int k = 0; k < na; k++) { S n = "a" + std::to_string(k); int id = k; XML_Binary_Type t = TYPES[k]; if (k == at) { if (dev == 5) { n = "u"; used = true; } if (dev == 6) { t = XBT_DOUBLE; used = true; } if (dev == 7) { id = k + 1; used = true; } if (dev == 8) { n += "x"; used = true; } if (dev == 10) { n = "A" + n.substr(1); used = true; } }
        bool exp = !(k == at && (dev == 5 || dev == 6 || dev == 7 || dev == 8 || dev == 10)); if (!exp) expect = false; bool g = P->registerAttr(id, n.c_str(), t); if (g != exp) return fail("registerAttr(%d,%s,%s) on a reopened pool returns %d", id, n.c_str(), XML_BINARY_TYPE_NAMES[t], g); }
    if (P->allRegistered() != expect) return fail("allRegistered of a reopened pool returns %d with%s differences", !expect, expect ? "out" : "");
    if (!check_world(w2)) return;
    if (expect) { // and it can be extended
        BW_element *r = (BW_element *)P->getRoot(), *e = P->tag(T_NULL); if (!e) return fail("a reopened pool cannot be extended"); r->add(e); add_node(w2, 0, e, T_NULL, XBT_NULL, "", true); if (!check_world(w2)) return; 
        for (auto &n : w2.n) n.p = (BW_element *)(n.p->offset + (char *)0); p.reset(); p.reset(new TestPlugin("re.xbw", nullptr, 0x40000, 0)); if (!p->Initialize()) return fail("second reopening failed"); P = p.get(); L = P->getPool(); rebase(w2); if (!check_world(w2)) return; }
    else { p.reset(); if (mc::readfile("re.xbw") != before) return fail("checking of a different dictionary changed the file"); }
    mc::states(1); mc::nontrivial(); (void)used;
}
// every stored type against every requested type
static void c06_types(uint64_t i) {
    int have = i % NT, want = i / NT; bool at; path = "types"; S before; { Pl p = open_new("ty", 0x10000); if (!p) return; P = p.get(); L = P->getPool(); if (!P->registerTag(0, "r", XBT_NULL) || !P->registerTag(1, "t", TYPES[have]) || !P->registerAttr(0, "a", TYPES[have]) || !P->registerAttr(1, "b", XBT_STRING) || !P->allRegistered()) return fail("registration"); BW_element *r = P->tag(0); if (!need(r)) return; P->setRoot(r); } before = mc::readfile("ty.xbw");
    for (int k = 0; k < 3; k++) { at = k == 1; Pl p(new TestPlugin("ty.xbw", nullptr, 0x10000, 0)); if (!p->Initialize()) return fail("reopening failed"); P = p.get(); L = P->getPool(); mc::transitions(1); bool ok = P->registerTag(0, "r", XBT_NULL) & P->registerTag(1, "t", TYPES[k == 1 ? have : want]) & P->registerAttr(0, "a", TYPES[k == 0 ? have : want]) & P->registerAttr(1, "b", XBT_STRING), all = P->allRegistered(), exp = have == want;
        if (ok != exp || all != exp) return fail("%s of type %s is %s as %s", at ? "attribute" : k ? "symbol" : "tag", tname(have).c_str(), ok || all ? "accepted" : "refused", tname(want).c_str()); p.reset(); if (have != want && mc::readfile("ty.xbw") != before) return fail("checking of a different dictionary changed the file"); }
    mc::nontrivial(); mc::states(1);
}
// what the file has after its end is cut off, whatever it is
static const int LONGER[] = {1, 2, 3, 4, 100, 4092, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 50000, 100000, 200000};
static void c06_longer(uint64_t i) {
    int extra = LONGER[i % 17], tree = i / 17 % 6, fill = i / 102; World w; path = "longer"; if (!build6("lo", 0x40000, 5, 4, tree, &w)) return; S f = mc::readfile("lo.xbw"); if (!mc::writefile("lo.xbw", f + S(extra, fill ? '\x5a' : '\0'))) return fail("write"); Pl p(new TestPlugin("lo.xbw", nullptr, 0x40000, 0)); mc::transitions(1); bool fits = f.size() + extra <= 0x40000;
    if (p->Initialize() != fits) return fail("a pool with %d more bytes is %s", extra, fits ? "refused" : "accepted"); if (!fits) { p.reset(); if (mc::readfile("lo.xbw").size() != f.size() + extra) return fail("a refused file was modified"); return mc::nontrivial(); }
    P = p.get(); L = P->getPool(); rebase(w); if (mc::readfile("lo.xbw") != f) return fail("the end of a file longer by %d bytes is not cut off", extra); if (!check_world(w)) return; for (int k = 0; k < 5; k++) if (!P->registerTag(k, ("t" + std::to_string(k)).c_str(), TYPES[k])) return fail("registerTag"); for (int k = 0; k < 4; k++) if (!P->registerAttr(k, ("a" + std::to_string(k)).c_str(), TYPES[k])) return fail("registerAttr"); if (!P->allRegistered()) return fail("allRegistered");
    for (int k = 0; k < 3; k++) { S v(k * 9000, 'k'); BW_element *r = (BW_element *)P->getRoot(), *e = P->tagStr(T_STRING, v.c_str()); if (!need(e)) return; r->add(e); add_node(w, 0, e, T_STRING, XBT_STRING, z(v), true); } if (!check_world(w)) return; mc::nontrivial(); mc::states(1);
}
static void c06_trunc(uint64_t i) { // every truncation and every single byte change of the header's identification and sizes
    World w; path = "trunc"; if (!build6("tr", 0x40000, 5, 4, 5, &w)) return; S f = mc::readfile("tr.xbw"); bool mut = i % 2; uint64_t k = i / 2; S g = f; bool must_fail = true, fresh = false;
    if (!mut) { size_t len = k < 400 ? k : k < 400 + 64 ? f.size() - 1 - (k - 400) : (k - 464) * 509; if (len >= f.size()) return; g = f.substr(0, len); fresh = len < sizeof(BW_pool); if (fresh) must_fail = false; }
    else { // header: size(4, informative) info[24] version(4) file_size(4) mmap_size(4)
        static const int vals[] = {1, 0x10, 0x80, 0xff}; int pos = 4 + k / 4, x = vals[k % 4]; if (pos >= 4 + 24 + 12) return; if (pos >= 4 + 22 && pos < 28) return; /* byte after the terminator */ g[pos] ^= x; if (pos >= 36) return; /* mmap_size: an inconsistent limit is covered below */ }
    mc::writefile("tr.xbw", g); Pl p(new TestPlugin("tr.xbw", nullptr, 0x40000, 0)); bool r = p->Initialize(); mc::nontrivial();
    if (must_fail && r) return fail("a damaged pool was accepted (%s %llu)", mut ? "change" : "truncation", (unsigned long long)k);
    if (fresh) { if (!r) return fail("a file shorter than a header was not taken as new"); if (p->getRoot() != nullptr || p->getPool()->tags.max_id != -1) return fail("a new pool is not empty"); return; }
    p.reset(); if (mc::readfile("tr.xbw") != g) return fail("a refused file was modified");
}
// sizes of the header that disagree, and index entries that lead out of the names
static void c06_header(uint64_t i) {
    World w; path = "header"; if (!build6("hd", 0x40000, 5, 4, 5, &w)) return; S f = mc::readfile("hd.xbw"), g = f; BW_pool *H = (BW_pool *)&g[0]; bool must_fail = true; int dev = i % 3; i /= 3; int fld = i / 12, v = i % 12; int32_t lim = H->allocator_limit;
    auto put = [&](BW_offset_t &x, std::initializer_list<int32_t> vals) { if (v >= (int)vals.size()) return false; int32_t n = vals.begin()[v]; if (n == x) return false; x = n; return true; };
    if (fld == 0) { if (!put(H->allocator_limit, {0, 4, lim - 1, lim + 1, lim - 4096, lim + 4096, -lim, INT32_MAX, INT32_MIN, (int32_t)H->mmap_size})) return; }
    else if (fld == 1) { if (!put(H->allocator, {0, 4, (int32_t)sizeof(BW_pool) - 1, lim + 1, lim + 4096, -1, -lim, INT32_MAX, INT32_MIN, (int32_t)H->mmap_size})) return; }
    else { must_fail = false; int k = fld - 2; BW_symbol_table_16B &t = k < 5 ? H->tags : H->params; int e = k < 5 ? k : k - 5; int ns = t.getNamesSize(H); BW_offset_t *ix = (BW_offset_t *)(&g[0] + t.index); if (!put(ix[e], {0, 4, 4 + 20, t.names_offset - 1, t.names_offset - 4, t.names_offset + ns, t.names_offset + ns + 4, -1, 0x100000, INT32_MAX, INT32_MIN, (int32_t)sizeof(BW_pool) - 8})) return; }
    mc::writefile("hd.xbw", g); Pl p(new TestPlugin("hd.xbw", nullptr, 0x40000, 0)); mc::transitions(1); bool r = p->Initialize(); mc::nontrivial();
    if (must_fail && r) return fail("a pool with disagreeing sizes was accepted");
    if (!r) { p.reset(); if (mc::readfile("hd.xbw") != g) return fail("a refused file was modified"); return; }
    P = p.get(); L = P->getPool(); rebase(w); S before = mc::readfile("hd.xbw");
    auto seen = [&](bool must) { for (int k = 0; k < 2; k++) for (int j = 0; j < (k ? 4 : 5); j++) { S n = (k ? "a" : "t") + std::to_string(j); XML_Binary_Type ty = XBT_UNKNOWN, gt = XBT_UNKNOWN; BW_symbol_table_16B &t = k ? L->params : L->tags;
        const char *s = P->getSymbol(k ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES, j, ty); if (s ? n != s || ty != TYPES[j] : must) return fail("a damaged index gives %s %d as %s", k ? "attribute" : "tag", j, mc::quote(S(s ? s : "(null)").substr(0, 40)).c_str()), false;
        int id = t.getByName(L, n.c_str(), nullptr, &gt); if (id != j || gt != TYPES[j]) return fail("getByName(%s) gives %d", n.c_str(), id), false; } return true; };
    if (!seen(false)) return;
    for (int k = 0; k < 2; k++) for (int j = 0; j < (k ? 4 : 5); j++) { S n = (k ? "a" : "t") + std::to_string(j); bool wrong = dev == 1 && k == 0 && j == 2 || dev == 2 && k == 1 && j == 3; if (wrong) n = "zz"; bool g = k ? P->registerAttr(j, n.c_str(), TYPES[j]) : P->registerTag(j, n.c_str(), TYPES[j]); if (g == wrong) return fail("registering %s in a pool with a damaged index returns %d", n.c_str(), g); }
    if (P->allRegistered() != !dev) return fail("allRegistered returns %d with%s differences", !!dev, dev ? "" : "out");
    if (dev) { if (!seen(false)) return; if (mc::readfile("hd.xbw") != before) return fail("checking of a different dictionary changed the file"); return; }
    if (!seen(true) || !check_world(w)) return; BW_element *r2 = (BW_element *)P->getRoot(), *e = P->tag(T_NULL); if (!need(e)) return; r2->add(e); add_node(w, 0, e, T_NULL, XBT_NULL, "", true); if (!check_world(w)) return;
    for (auto &n : w.n) n.p = (BW_element *)(n.p->offset + (char *)0); p.reset(); p.reset(new TestPlugin("hd.xbw", nullptr, 0x40000, 0)); if (!p->Initialize()) return fail("second reopening failed"); P = p.get(); L = P->getPool(); rebase(w); if (!check_world(w) || !seen(true)) return; mc::states(1); mc::outcome(i);
}
// pool life cycle across processes: sequences of {write, close+reopen, reopen with ALWAYS_CREATE_NEW, Clear}
static uint64_t pw(int b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static int D6() { return mc::thorough ? 8 : 7; }
static void c06_life(uint64_t i) {
    std::vector<S> v; path = ""; Pl p = open_new("life", 0x40000); if (!p) return; bool regd = false;
    auto reg = [&]() { P = p.get(); L = P->getPool(); for (int t = 0; t < 4; t++) if (!P->registerTag(t, ("t" + std::to_string(t)).c_str(), TYPES[t])) { fail("registerTag | after: %s", path.c_str()); return false; } if (!P->registerAttr(0, "a", XBT_STRING) || !P->allRegistered()) { fail("registration | after: %s", path.c_str()); return false; }
        if (!P->getRoot()) { BW_element *r = P->tag(T_NULL); if (!r) { fail("root"); return false; } P->setRoot(r); v.clear(); } return true; };
    if (!reg()) return;
    for (int s = 0; s < D6(); s++, i /= 5) {
        int o = i % 5; path += (path.empty() ? "" : "; ") + S(o == 0 ? "write" : o == 1 ? "big write" : o == 2 ? "reopen" : o == 3 ? "create new" : "Clear"); mc::subcase(s); mc::transitions(1);
        if (o <= 1) { S x(o ? 9000 : 3, (char)('a' + s)); BW_element *e = P->tagStr(T_STRING, x.c_str()); if (!e) return fail("write refused | after: %s", path.c_str()); ((BW_element *)P->getRoot())->add(e); v.push_back(x); }
        else if (o == 4) { if (!P->Clear()) return fail("Clear failed | after: %s", path.c_str()); if (P->getRoot()) return fail("root after Clear"); BW_element *r = P->tag(T_NULL); if (!r) return fail("tag after Clear | after: %s", path.c_str()); P->setRoot(r); v.clear(); }
        else { p.reset(); int fl = o == 3 ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0; p.reset(new TestPlugin("life.xbw", nullptr, 0x40000, s % 2 ? fl ^ BIN_WRITE_CFG_ALWAYS_CREATE_NEW : fl)); if (s % 2) p->setFlags(fl); if (!p->Initialize()) return fail("Initialize failed | after: %s", path.c_str()); if (o == 3 && p->getRoot()) return fail("old content survived | after: %s", path.c_str()); if (o == 2 && !p->getRoot()) return fail("root lost | after: %s", path.c_str()); if (!reg()) return; }
        size_t c = 0; BW_element *r = (BW_element *)P->getRoot(); { BW_FOREACH2(r, e) { if (c >= v.size() || !e->getStr() || v[c] != e->getStr()) return fail("element %zu differs | after: %s", c, path.c_str()); c++; } } if (c != v.size()) return fail("%zu of %zu elements | after: %s", c, v.size(), path.c_str());
        for (int t = 0; t < 4; t++) { XML_Binary_Type ty; const char *n = P->getSymbol(SYMBOL_TABLE_NODES, t, ty); if (!n || S(n) != "t" + std::to_string(t) || ty != TYPES[t]) return fail("symbol %d damaged | after: %s", t, path.c_str()); }
        mc::states(1);
    }
    mc::nontrivial();
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s = {
        {"C04.ops", c04_count(), c04_ops, c04_desc, init04},
        {"C04.types", c04t_count(), c04_types, c04t_desc, [] { init04(); make_creators(); }},
        {"C04.setstr", 41 * 8, c04_setstr, [](uint64_t i) { return S(i / 41 % 2 ? "BLOB_STRING" : "STRING") + " of length " + std::to_string(i % 41) + (i / 82 % 4 == 0 ? " attribute" : i / 82 % 4 == 1 ? " element" : i / 82 % 4 == 2 ? " element with children" : " changed by tagSetString") + ", changed twice to every length"; }, init04},
        {"C04.reserved", c04t_count() / 2, c04_reserved, [](uint64_t i) { make_creators(); return CR[i].name + " value " + mc::hex(CR[i].val.data(), std::min<size_t>(CR[i].val.size(), 24)) + ", on every reserved symbol"; }, [] { init04(); make_creators(); }},
        {"C04.retype", XBT_LAST * 4, c04_retype, [](uint64_t i) { return S(i / XBT_LAST % 2 ? "element" : "attribute") + " of " + XML_BINARY_TYPE_NAMES[i % XBT_LAST] + ", to every type"; }, init04},
        {"C04.find", 4 * 16 * 16 * 16, c04_find, [](uint64_t i) { return S("children coded ") + std::to_string(i); }, init04},
        {"C17.find", 4 * 16 * 16 * 16, c04_find, [](uint64_t i) { return S("children coded ") + std::to_string(i); }, init04},
        {"C13.ops", c13_count(), c13_ops, c13_desc, init13},
        {"C13.many", SIZES().size() * 6, c13_many, [](uint64_t i) { return std::to_string(SIZES()[i / 6]) + " symbols, name pattern " + std::to_string(i % 3) + (i / 3 % 2 ? ", by name" : ", by id"); }},
        {"C13.invalid", 20, c13_invalid, [](uint64_t i) { static const char *K[] = {"registered", "indexed", "with an element", "reopened", "reopened and indexed"}; return std::to_string(i / 5) + " symbols " + K[i % 5]; }},
        {"C13.limit", 4, c13_limit, [](uint64_t i) { return S("32768 ") + (i & 1 ? "attributes" : "tags") + (i & 2 ? ", first and last by name" : ", by id"); }},
        {"C07.fill", (uint64_t)N7 * N7 * 6 * 4, c07_fill, c07_desc},
        {"C07.extremes", EX7.size() * N7E, c07_extremes, c07e_desc},
        {"C07.limits", NLIM7, c07_limits, [](uint64_t i) { int o = i / 144; static const char *K[] = {"nothing", "an empty file", "a short file", "a pool limited to 0x6001", "a pool limited to 0x8000", "a pool limited to 0x40000"}; return "limit " + std::to_string(LIM7[i % 24]) + (o >> 1 & 1 ? " set later" : "") + (o & 1 ? ", always new, over " : ", over ") + K[i / 24 % 6] + ", values of " + (o / 4 == 0 ? "10" : o / 4 == 1 ? "1000" : "5000") + " bytes"; }},
        {"C07.plugins", c07p_count(), c07_plugins, [](uint64_t i) { S r; for (int s = 0; s < D7(); s++, i /= 9) r += S(i / 3 % 3 == 0 ? "write" : i / 3 % 3 == 1 ? "big write" : "destroy/create") + std::to_string(i % 3) + " "; return r; }},
        {"C06.dict", 30 * 12 * 6, c06_dict, [](uint64_t i) { return std::to_string(i % 6 + 1) + " tags, " + std::to_string(i / 6 % 5 + 1) + " attributes, deviation " + std::to_string(i / 30 % 12) + " at " + std::to_string(i / 360); }},
        {"C06.header", 3 * 12 * 11, c06_header, [](uint64_t i) { int d = i % 3; i /= 3; int f = i / 12; return S(f == 0 ? "allocator_limit" : f == 1 ? "allocator" : f < 7 ? "index of tag " + std::to_string(f - 2) : "index of attribute " + std::to_string(f - 7)) + " := value " + std::to_string(i % 12) + (d ? d == 1 ? ", another tag registered" : ", another attribute registered" : ""); }},
        {"C06.types", (uint64_t)NT * NT, c06_types, [](uint64_t i) { return tname(i % NT) + " reopened as " + tname(i / NT); }},
        {"C06.longer", 17 * 6 * 2, c06_longer, [](uint64_t i) { return "file longer by " + std::to_string(LONGER[i % 17]) + ", tree " + std::to_string(i / 17 % 6); }},
        {"C06.trunc", 2 * 600, c06_trunc, [](uint64_t i) { return S(i % 2 ? "header change " : "truncation ") + std::to_string(i / 2); }},
        {"C06.life", pw(5, D6()), c06_life, [](uint64_t i) { S r; static const char *n[] = {"write", "big write", "reopen", "create new", "Clear"}; for (int s = 0; s < D6(); s++, i /= 5) r += S(n[i % 5]) + "; "; return r; }},
    };
    return mc::main_(argc, argv, s);
}

// C17: copying by path and key between a reader and a write pool, key comparison and lookups, against a plain tree model.
#include "typed.h"
struct KR : XB_reader { std::set<int> keys; KR(char *f) : XB_reader(f) { verbosity = 0; } virtual bool ParamIsKey(int p) const override { return keys.count(p) > 0; } };
static bool is_key(int a) { return a < 2 || a >= 10; }       // attributes a0, a1 and a10... are keys
typedef std::map<int, int> Types;
struct Source { TD d; std::unique_ptr<KR> R; char fn[32]; };
static bool write_source(Source &s, const TD &d, const char *fn, const Types &tags, const Types &atts) {
    s.d = d; strcpy(s.fn, fn); unlink("s.xbw"); unlink(fn);
    {
        BW W("s.xbw", nullptr, 0x8000000, 0); if (!W.Initialize()) TBAD("Initialize failed");
        for (auto &t : tags) if (!W.registerTag(t.first, tagname(t.first).c_str(), (XML_Binary_Type)t.second)) TBAD("registerTag failed");
        for (auto &t : atts) if (!W.registerAttr(t.first, attname(t.first).c_str(), (XML_Binary_Type)t.second)) TBAD("registerAttr failed");
        if (!W.allRegistered()) TBAD("allRegistered failed"); BW_element *r = make(W, d); if (!r) return false; W.setRoot(r);
        { Bin_xml_creator C(&W, fn); if (!C.DoAll()) TBAD("conversion to .xb failed"); } W.Finalize();
    }
    s.R.reset(new KR(s.fn)); if (!s.R->Initialize()) TBAD("the reader refuses the source");
    for (auto &t : atts) if (is_key(t.first)) s.R->keys.insert(s.R->getParamID(attname(t.first).c_str()));
    return true;
}
// ---- model
static const V *attr(const TD &d, int a) { for (auto &x : d.at) if (x.first == a) return &x.second; return nullptr; }
static bool keys_equal(const TD &x, const TD &y) { auto sub = [](const TD &a, const TD &b) { for (auto &p : a.at) if (is_key(p.first)) { const V *v = attr(b, p.first); if (!v || v->t != p.second.t || v->b != p.second.b) return false; } return true; }; return sub(x, y) && sub(y, x); }
static TD bare(const TD &s, bool keys) { TD d; d.id = s.id; d.v = {XBT_NULL, ""}; if (keys) for (auto &a : s.at) if (is_key(a.first)) d.at.push_back(a); return d; }
typedef std::vector<int> Path;                               // child indices from the root
static const TD &at(const TD &d, const Path &p, size_t n) { const TD *x = &d; for (size_t i = 0; i < n; i++) x = &x->ch[p[i]]; return *x; }
struct Model { bool has = false, transaction = false; TD root; }; // root of the content
static bool model_copy(Model &m, const TD &src, const Path &p, bool whole, Path &where) { // false: refused, nothing changes
    where.clear(); TD *dst = &m.root; bool copy = !m.has; auto fresh = [&](const TD &s, bool last) { return last && whole ? s : bare(s, true); };
    if (!m.has) { m.root = fresh(src, p.empty()); m.has = true; } else if (m.root.id != src.id || !keys_equal(m.root, src)) return false;
    (void)copy;
    for (size_t i = 0; i < p.size(); i++) {
        const TD &e = at(src, p, i + 1); size_t k = 0; while (k < dst->ch.size() && !(dst->ch[k].id == e.id && keys_equal(dst->ch[k], e))) k++;
        if (k == dst->ch.size()) dst->ch.push_back(fresh(e, i + 1 == p.size()));
        where.push_back(k); dst = &dst->ch[k];
    }
    return true;
}
static void paths_of(const TD &d, Path cur, std::vector<Path> &out) { out.push_back(cur); for (size_t i = 0; i < d.ch.size(); i++) { Path q = cur; q.push_back(i); paths_of(d.ch[i], q, out); } }
// ---- the pool
static bool eq(BW &W, BW_element *e, const TD &d) {
    if (!e) TBAD("an element is missing in the pool"); if (S(e->getName()) != tagname(d.id)) TBAD("element %s in the pool, expected %s", e->getName(), tagname(d.id).c_str());
    XML_Binary_Data_Ref D = e->getData(); if (D.type != d.v.t || raw(D) != d.v.b) TBAD("value of %s in the pool is %s, expected %s", e->getName(), show(V{D.type, raw(D)}).c_str(), show(d.v).c_str());
    size_t n = 0; if (e->first_attribute) for (BW_element *a = W.BWE(e->first_attribute);; a = W.BWE(a->next)) {
        if (n >= d.at.size()) TBAD("element %s in the pool has more than the expected %zu attributes", e->getName(), d.at.size());
        XML_Binary_Data_Ref A = a->getData(); if (S(a->getName()) != attname(d.at[n].first) || A.type != d.at[n].second.t || raw(A) != d.at[n].second.b) TBAD("attribute %s=%s of %s in the pool, expected %s=%s", a->getName(), show(V{A.type, raw(A)}).c_str(), e->getName(), attname(d.at[n].first).c_str(), show(d.at[n].second).c_str());
        n++; if (a->next == e->first_attribute) break; }
    if (n != d.at.size()) TBAD("element %s in the pool has %zu attributes, expected %zu", e->getName(), n, d.at.size());
    n = 0; if (e->first_child) for (BW_element *c = W.BWE(e->first_child);; c = W.BWE(c->next)) { if (n >= d.ch.size()) TBAD("element %s in the pool has more than the expected %zu children", e->getName(), d.ch.size()); if (!eq(W, c, d.ch[n])) return false; n++; e = W.BWE(e->offset); if (c->next == e->first_child) break; }
    if (n != d.ch.size()) TBAD("element %s in the pool has %zu children, expected %zu", e->getName(), n, d.ch.size());
    return true;
}
static BW_element *nth(BW &W, BW_element *e, int i) { BW_element *c = W.BWE(e->first_child); while (i--) c = W.BWE(c->next); return c; }
static BW_element *content(BW &W, const Model &m) { BW_pool *P = W.getPool(); if (!P->root) return nullptr; BW_element *r = W.BWE(P->root); return m.transaction ? r->first_child ? W.BWE(r->first_child) : nullptr : r; }
static bool open_dest(BW &W, Source &s, Model &m) {
    if (!W.Initialize()) TBAD("Initialize failed"); W.importTags(s.R.get()); W.importParams(s.R.get()); if (!W.allRegistered()) TBAD("allRegistered failed");
    if (m.transaction) { BW_element *t = W.tag(XTNR_TRANSACTION); if (!t) TBAD("tag(transaction) failed"); W.setRoot(t); } return true;
}
static bool step(BW &W, Source &s, Model &m, const Path &p, bool whole) {
    Model before = m; Path where; bool want = model_copy(m, s.d, p, whole, where); if (!want) m = before;
    XML_Item *e[6] = {}; XML_Item *x = s.R->getRoot(); for (size_t i = 0; i < p.size(); i++) e[i] = x = x->getChildByIndex(p[i]);
    XML_Item *r = s.R->getRoot(), *z = nullptr;
    BW_element *got = whole ? W.CopyPath(*s.R, r, e[0], e[1], e[2], e[3], e[4], z) : W.CopyPathOnly(*s.R, r, e[0], e[1], e[2], e[3], e[4], z); mc::transitions(1);
    if (want != (got != nullptr)) TBAD("%s %s", whole ? "CopyPath" : "CopyPathOnly", want ? "failed" : "accepted another root");
    BW_element *c = content(W, m); if (m.has != (c != nullptr)) TBAD("the pool has %s root", c ? "a" : "no"); if (!c) return true;
    if (!eq(W, c, m.root)) return false;
    if (want) { for (int i : where) c = nth(W, c, i); if (c != got) TBAD("%s returns another element than the copied one", whole ? "CopyPath" : "CopyPathOnly"); }
    mc::states(1); return true;
}
static S show(const Path &p) { S s = "/"; for (int i : p) s += std::to_string(i) + "/"; return s; }
static const Types TAGS = {{0, XBT_INT32}, {1, XBT_STRING}, {2, XBT_INT64}}, ATTS = {{0, XBT_STRING}, {1, XBT_INT32}, {2, XBT_BLOB}, {3, XBT_DOUBLE}};
// ---- every element against every other: key comparison and lookups
static bool lookups(BW &W, Source &s, BW_element *root, const TD &dst) {
    std::vector<Path> a, b; paths_of(s.d, {}, a); paths_of(dst, {}, b);
    for (auto &q : b) {
        const TD &y = at(dst, q, q.size()); BW_element *e = root; for (int i : q) e = nth(W, e, i);
        for (auto &p : a) { XML_Item *x = s.R->getRoot(); for (int i : p) x = x->getChildByIndex(i); const TD &m = at(s.d, p, p.size()); if (e->EqualKeys(*s.R, x) != keys_equal(m, y)) TBAD("EqualKeys of %s in the pool and %s in the file is %d", show(q).c_str(), show(p).c_str(), !keys_equal(m, y)); }
        for (auto &t : TAGS) {
            int id = W.getPool()->tags.getByName(W.getPool(), tagname(t.first).c_str(), nullptr, nullptr); BW_element *want = nullptr; for (size_t i = 0; i < y.ch.size() && !want; i++) if (y.ch[i].id == t.first) want = nth(W, e, i);
            if (e->findChildByTag(id) != want) TBAD("findChildByTag(%s) of %s is wrong", tagname(t.first).c_str(), show(q).c_str());
            for (auto &k : ATTS) { int aid = W.getPool()->params.getByName(W.getPool(), attname(k.first).c_str(), nullptr, nullptr); for (int var = 0; var < 3; var++) {
                V v = value(typ((XML_Binary_Type)k.second), var); if (var == 2) v = k.second == XBT_STRING ? V{XBT_STRING, S("a", 2)} : k.second == XBT_BLOB ? sized(XBT_BLOB, 7, 5) : V{(XML_Binary_Type)k.second, S(v.b.size(), 1)};
                want = nullptr; for (size_t i = 0; i < y.ch.size() && !want; i++) if (y.ch[i].id == t.first) { const V *w = attr(y.ch[i], k.first); if (w && w->b == v.b) want = nth(W, e, i); }
                int z = v.b.size(); if (e->findChildByParam(id, aid, v.t, v.b.data(), z) != want) TBAD("findChildByParam(%s,%s,%s) of %s %s", tagname(t.first).c_str(), attname(k.first).c_str(), show(v).c_str(), show(q).c_str(), want ? "does not give the first such child" : "gives a child that has not this value"); } }
        }
        for (auto &k : ATTS) { int aid = W.getPool()->params.getByName(W.getPool(), attname(k.first).c_str(), nullptr, nullptr); const V *w = attr(y, k.first); BW_element *f = e->findAttr(aid); if ((f != nullptr) != (w != nullptr) || (f && raw(f->getData()) != w->b) || e->attrGet(aid) != f) TBAD("findAttr(%s) of %s is wrong", attname(k.first).c_str(), show(q).c_str()); int32_t *n = e->findAttrInt32(aid); if (w && w->t == XBT_INT32 ? !n || *n != *(const int32_t *)w->b.data() : n != nullptr) TBAD("findAttrInt32(%s) of %s is wrong", attname(k.first).c_str(), show(q).c_str()); }
        mc::states(1);
    }
    return true;
}
// ---- trees
static TD label(int l) {
    TD d; V s0 = value(typ(XBT_STRING), 1), s1 = {XBT_STRING, S("a", 2)}, i0 = value(typ(XBT_INT32), 0), i1 = value(typ(XBT_INT32), 1); V blob = value(typ(XBT_BLOB), 1), dbl = value(typ(XBT_DOUBLE), 1);
    switch (l) {
        case 0: d.id = 1; d.v = {XBT_STRING, S("x", 2)}; d.at = {{2, blob}, {0, s0}}; break;   case 1: d.id = 1; d.v = {XBT_STRING, S("y", 2)}; d.at = {{0, s0}, {3, dbl}}; break; // same keys, other content
        case 2: d.id = 1; d.v = {XBT_NULL, ""}; d.at = {{0, s1}}; break;                          case 3: d.id = 2; d.v = value(typ(XBT_INT64), 1); d.at = {{0, s0}}; break;        // same keys, other tag
        case 4: d.id = 2; d.v = value(typ(XBT_INT64), 0); d.at = {{1, i0}, {0, s0}}; break;        case 5: d.id = 2; d.v = {XBT_NULL, ""}; d.at = {{0, s0}, {2, blob}, {1, i0}}; break; // keys in another order
        case 6: d.id = 2; d.v = {XBT_NULL, ""}; d.at = {{0, s0}, {1, i1}}; break;                  default: d.id = 1; d.v = {XBT_STRING, S(1, 0)}; d.at = {{3, dbl}}; break;          // no key
    } return d;
}
static TD root_label(int l) { TD d; d.id = l == 2 ? 1 : 0; d.v = l == 2 ? V{XBT_STRING, S("r", 2)} : value(typ(XBT_INT32), 1); d.at = {{3, value(typ(XBT_DOUBLE), 0)}, {1, value(typ(XBT_INT32), l == 1)}}; return d; }
static void shapes(int n, std::vector<S> &out) { std::function<void(int, int, S)> go = [&](int open, int left, S cur) { if (!left && !open) { out.push_back(cur); return; } if (left) go(open + 1, left - 1, cur + "("); if (open) go(open - 1, left, cur + ")"); }; go(0, n - 1, ""); }
static void fill(TD &d, const S &sh, size_t &p, uint64_t &lab) { while (p < sh.size() && sh[p] == '(') { p++; d.ch.push_back(label(lab & 7)); lab >>= 3; fill(d.ch.back(), sh, p, lab); } if (p < sh.size()) p++; }
static uint64_t ntrees(int max, int roots) { uint64_t c = 0; for (int n = 1; n <= max; n++) { std::vector<S> s; shapes(n, s); c += s.size() << (3 * (n - 1)); } return c * roots; }
static TD tree(uint64_t i, int roots) { TD d = root_label(i % roots); i /= roots; for (int n = 1;; n++) { std::vector<S> s; shapes(n, s); uint64_t tot = s.size() << (3 * (n - 1)); if (i >= tot) { i -= tot; continue; } size_t p = 0; uint64_t lab = i & ((1ull << (3 * (n - 1))) - 1); fill(d, s[i >> (3 * (n - 1))], p, lab); return d; } }
// one source: every sequence of two (three) copies of any of its elements, whole or keys only, into an empty pool or an empty transaction
static int ONE() { return mc::thorough ? 5 : 4; }
static int THREE() { return 4; }
static void one(uint64_t i, int steps) {
    bool tr = i & 1; Source s; if (!write_source(s, tree(i >> 1, 1), "s.xb", TAGS, ATTS)) return;
    std::vector<Path> ps; paths_of(s.d, {}, ps); int n = ps.size() * 2, tot = steps == 3 ? n * n * n : n * n;
    for (int k = 0; k < tot && !mc::failed(); k++) {
        mc::subcase(k); unlink("d.xbw"); BW W("d.xbw", nullptr, 0x40000, 0); Model m; m.transaction = tr; if (!open_dest(W, s, m)) return; int r = k;
        for (int j = 0; j < steps; j++, r /= n) if (!step(W, s, m, ps[r % n / 2], r % n & 1)) { fail("step %d (%s %s) of sequence %d", j, r % n & 1 ? "whole" : "keys", show(ps[r % n / 2]).c_str(), k); return; }
        if (k == tot - 1 || k == n + 1) { if (!lookups(W, s, content(W, m), m.root)) return; if (!tr) { Bin_xml_creator C(&W, "m.xb"); if (!C.DoAll()) return fail("conversion of the copy failed"); std::map<int, int> t, a; S x; W.Finalize(); if (!check_file("m.xb", m.root, t, a, nullptr, "copy")) return; continue; } }
        W.Finalize();
    }
    mc::nontrivial();
}
// root of the source is itself a transaction: it is an ordinary root, in an empty pool and in a pool whose root is a transaction
static void transaction(uint64_t i) {
    TD d = tree(i / 4, 1); d.id = XTNR_TRANSACTION; d.v = {XBT_NULL, ""}; if (i & 1) d.at.clear(); Source s; if (!write_source(s, d, "s.xb", TAGS, ATTS)) return;
    std::vector<Path> ps; paths_of(s.d, {}, ps); int n = ps.size() * 2;
    for (int k = 0; k < n * n && !mc::failed(); k++) {
        mc::subcase(k); unlink("d.xbw"); BW W("d.xbw", nullptr, 0x40000, 0); Model m; if (!open_dest(W, s, m)) return;
        if (i & 2) { BW_element *t = W.tag(XTNR_TRANSACTION); if (!t) return fail("tag(transaction) failed"); W.setRoot(t); m.has = true; m.root = TD(); m.root.id = XTNR_TRANSACTION; m.root.v = {XBT_NULL, ""}; }
        for (int j = 0, r = k; j < 2; j++, r /= n) if (!step(W, s, m, ps[r % n / 2], r % n & 1)) { fail("step %d (%s %s) of sequence %d", j, r % n & 1 ? "whole" : "keys", show(ps[r % n / 2]).c_str(), k); return; }
        W.Finalize();
    }
    mc::nontrivial();
}
// two sources with the same symbols: every element of the first, then every element of the second, then every element of the first again
static int TWO() { return mc::thorough ? 3 : 2; }
static void two(uint64_t i) {
    uint64_t nb = ntrees(TWO(), 3); Source a, b; if (!write_source(a, tree(i / nb, 3), "s.xb", TAGS, ATTS) || !write_source(b, tree(i % nb, 3), "s2.xb", TAGS, ATTS)) return;
    std::vector<Path> pa, pb; paths_of(a.d, {}, pa); paths_of(b.d, {}, pb);
    for (auto &p : pa) for (auto &q : pb) for (int w = 0; w < 4; w++) {
        unlink("d.xbw"); BW W("d.xbw", nullptr, 0x40000, 0); Model m; if (!open_dest(W, a, m)) return;
        if (!step(W, a, m, p, w & 1) || !step(W, b, m, q, w & 2) || !step(W, a, m, pa.back(), true)) { fail("copies %s then %s, mode %d", show(p).c_str(), show(q).c_str(), w); return; }
        W.Finalize();
    }
    mc::nontrivial();
}
static S show_two(uint64_t i) { uint64_t nb = ntrees(TWO(), 3); return show(tree(i / nb, 3)) + " then " + show(tree(i % nb, 3)); }
// keys, values and other attributes of each type; the text of the value as a string in the source and typed in the pool
static void types(uint64_t i) {
    int kt = i % NT; i /= NT; int ot = i % NT; i /= NT; bool text = i & 1; XML_Binary_Type T = TYPES[kt]; Types tags = {{0, XBT_STRING}, {1, TYPES[ot]}}, atts = {{0, T}, {1, XBT_INT32}, {2, TYPES[ot]}};
    TD d; d.id = 0; d.v = {XBT_NULL, ""}; for (int k = 0; k < 3; k++) { TD c; c.id = 1; c.v = value(ot, k); c.at = {{0, value(kt, k)}, {2, value(ot, !k)}}; d.ch.push_back(c); }
    TD src = d; Types stags = tags, satts = atts;
    auto str = [](V v) { const char *p = v.t == XBT_NULL ? "" : XBT_ToString(v.t, v.b.data()); return V{XBT_STRING, S(p ? p : "") + S(1, 0)}; };
    if (text) { stags[1] = XBT_STRING; satts[0] = satts[2] = XBT_STRING; for (auto &c : src.ch) { c.v = str(c.v); for (auto &a : c.at) a.second = str(a.second); } }
    Source s; if (!write_source(s, src, "s.xb", stags, satts)) return;
    unlink("d.xbw"); BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize()) return fail("Initialize failed");
    Model m; if (!text) { W.importTags(s.R.get()); W.importParams(s.R.get()); } else { for (auto &t : tags) if (!W.registerTag(s.R->getNodeID(tagname(t.first).c_str()), tagname(t.first).c_str(), (XML_Binary_Type)t.second)) return fail("registerTag failed"); for (auto &t : atts) if (!W.registerAttr(s.R->getParamID(attname(t.first).c_str()), attname(t.first).c_str(), (XML_Binary_Type)t.second)) return fail("registerAttr failed"); }
    if (!W.allRegistered()) return fail("allRegistered failed");
    s.d = d; for (int k : {0, 1, 2, 1, 0}) if (!step(W, s, m, {k}, true)) return fail("copy of child %d", k);
    BW_element *root = content(W, m); int id = s.R->getNodeID("t1"), aid = s.R->getParamID("a0"), oid = s.R->getParamID("a2");
    for (int k = 0; k < 4; k++) for (int which = 0; which < 2; which++) { // found by the same bytes only
        V v = which ? value(ot, k) : value(kt, k); if (v.t == XBT_NULL) continue; if (k >= 2) { v.b[v.b.size() - 1] ^= 0x20; if (v.t == XBT_STRING || v.t == XBT_BLOB_STRING) v = sized(v.t, 3, k); }
        BW_element *want = nullptr; for (size_t i = 0; i < m.root.ch.size() && !want; i++) if (attr(m.root.ch[i], which ? 2 : 0)->b == v.b) want = nth(W, root, i);
        if (root->findChildByParam(id, which ? oid : aid, v.t, v.b.data(), v.b.size()) != want) return fail("findChildByParam(%s) %s", show(v).c_str(), want ? "does not give the first such child" : "gives a child that has not this value");
    }
    W.Finalize(); mc::nontrivial();
}
static bool types_ok(uint64_t i) { // text form of the type must be readable back
    int kt = i % NT, ot = i / NT % NT; bool text = i / NT / NT & 1; auto bad = [](XML_Binary_Type t) { return t == XBT_NULL || t == XBT_BLOB || t == XBT_HEX || t == XBT_BLOB_STRING || t == XBT_FLOAT || t == XBT_DOUBLE; }; return TYPES[kt] != XBT_NULL && (!text || (!bad(TYPES[kt]) && !bad(TYPES[ot])));
}
// many keys, many siblings, long values
static void sizes(uint64_t i) {
    int n = i / 2 + 1; bool last = i & 1; Types tags = {{0, XBT_INT32}, {1, XBT_STRING}}, atts; for (int k = 0; k < 10 + n; k++) atts[k] = k % 3 ? XBT_STRING : XBT_INT32;
    TD d; d.id = 0; d.v = {XBT_NULL, ""}; auto val = [&](int k, int x) { return atts[k] == XBT_STRING ? sized(XBT_STRING, n + k % 5, x) : V{XBT_INT32, word(k * 10 + x)}; };
    for (int c = 0; c < 4; c++) { TD e; e.id = 1; e.v = sized(XBT_STRING, n * 40, c); for (int k = 0; k < n; k++) e.at.push_back({10 + k, val(10 + k, (last ? k == n - 1 : k == 0) ? c & 1 : 0)}); e.at.push_back({2, val(2, c)}); if (c >= 2) std::reverse(e.at.begin(), e.at.end()); d.ch.push_back(e); }
    for (int c = 0; c < n; c++) { TD e; e.id = 1; e.v = {XBT_NULL, ""}; e.at = {{0, V{XBT_INT32, word(c)}}}; d.ch.push_back(e); }
    Source s; if (!write_source(s, d, "s.xb", tags, atts)) return; unlink("d.xbw"); BW W("d.xbw", nullptr, 0x200000, 0); Model m; if (!open_dest(W, s, m)) return;
    for (int c = 0; c < (int)d.ch.size(); c++) if (!step(W, s, m, {c}, c % 3 != 1)) return fail("copy of child %d", c);
    for (int c = d.ch.size() - 1; c >= 0; c--) if (!step(W, s, m, {c}, true)) return fail("second copy of child %d", c);
    { unlink("e.xbw"); BW W2("e.xbw", nullptr, 0x200000, 0); Model m2; if (!open_dest(W2, s, m2) || !step(W2, s, m2, {}, true)) return; W2.Finalize(); }
    W.Finalize(); mc::nontrivial();
}
// texts of any length as key and value, kept as text or stored in another type
static const int LLEN[] = {0, 1, 7, 8, 60, 64, 65, 1000, 4096, 65536, 1 << 20, (7 << 20) + 1, (8 << 20) - 100, 8 << 20, (9 << 20) + 3, 20 << 20}; static const int NLL = sizeof LLEN / sizeof *LLEN;
static XML_Binary_Type ltype(int k) { return k == 0 ? XBT_STRING : k == 1 ? XBT_INT32 : XBT_HEX; }
static void longs(uint64_t i) {
    int n = LLEN[i % NLL], kt = i / NLL % 3, vt = i / NLL / 3; Types stags = {{0, XBT_STRING}, {1, XBT_STRING}}, satts = {{0, XBT_STRING}}, tags = {{0, XBT_STRING}, {1, ltype(vt)}}, atts = {{0, ltype(kt)}}; auto text = [&](int k, int x, bool bin) { int y = x + 1; // x-th value of kind k
        if (k == 0) return V{XBT_STRING, S(n, 'x') + (char)('a' + x) + S(1, 0)}; if (k == 1) return bin ? V{XBT_INT32, word(y)} : V{XBT_STRING, S(n, '0') + (char)('0' + y) + S(1, 0)}; S h = S(n & ~1, 'a') + "0" + (char)('0' + y); if (!bin) return V{XBT_STRING, h + S(1, 0)}; S b; for (size_t j = 0; j < h.size(); j += 2) b += (char)strtol(h.substr(j, 2).c_str(), nullptr, 16); return V{XBT_HEX, word(b.size()) + b}; };
    auto doc = [&](bool bin) { TD d; d.id = 0; d.v = {XBT_NULL, ""}; for (int x = 0; x < 2; x++) { TD c; c.id = 1; c.v = text(vt, x, bin); c.at = {{0, text(kt, x, bin)}}; d.ch.push_back(c); mc::touch(); } return d; };
    Source s; if (!write_source(s, doc(false), "s.xb", stags, satts)) return; mc::touch(); unlink("d.xbw"); BW W("d.xbw", nullptr, 0x20000000, 0); if (!W.Initialize()) return fail("Initialize failed");
    for (auto &t : tags) if (!W.registerTag(t.first, tagname(t.first).c_str(), (XML_Binary_Type)t.second)) return fail("registerTag failed"); for (auto &t : atts) if (!W.registerAttr(t.first, attname(t.first).c_str(), (XML_Binary_Type)t.second)) return fail("registerAttr failed"); if (!W.allRegistered()) return fail("allRegistered failed");
    Model m; s.d = doc(true); for (int k : {0, 1, 1, 0}) { mc::touch(); if (!step(W, s, m, {k}, true)) return fail("copy of child %d", k); } W.Finalize(); for (const char *f : {"d.xbw", "s.xb", "s.xbw"}) unlink(f); mc::nontrivial();
}
// importing symbols and then registering names: each name has one id
static void import(uint64_t i) {
    int nt = i % 3, na = i / 3 % 3, order = i / 9 % 4, pre = i / 36; Types tags, atts; for (int k = 0; k <= nt; k++) tags[k] = XBT_INT32; for (int k = 0; k < na; k++) atts[k] = XBT_STRING;
    TD d; d.id = 0; d.v = value(typ(XBT_INT32), 0); for (int k = 0; k < na; k++) d.at.push_back({k, value(typ(XBT_STRING), k)});
    Source s; if (!write_source(s, d, "s.xb", tags, atts)) return; unlink("d.xbw"); BW W("d.xbw", nullptr, 0x40000, 0); if (!W.Initialize()) return fail("Initialize failed");
    bool before = order & 1; std::map<S, int> t, a; XB_reader *src = order & 2 ? nullptr : s.R.get();
    auto reg = [&](bool attr, const char *n, XML_Binary_Type ty) { int id = attr ? (int)W.registerParam(n, ty) : (int)W.registerTag(n, ty); auto &m = attr ? a : t; if (id < 0) fail("%s could not be registered", n); if (m.count(n) && m[n] != id) fail("%s %s has two ids, %d and %d", attr ? "attribute" : "tag", n, m[n], id); for (auto &o : m) if (o.first != n && o.second == id) fail("%s and %s have the same id", n, o.first.c_str()); m[n] = id; };
        auto before_import = [&](bool attr) { XML_Binary_Type ty = attr ? XBT_STRING : XBT_INT32; S n = attr ? "a" : "t"; if (pre == 0) { reg(attr, "pre", XBT_STRING); reg(attr, (n + "1").c_str(), ty); } else if (pre < 5) reg(attr, pre == 4 ? "pre" : (n + std::to_string(pre - 1)).c_str(), ty); else for (int k = 2; k >= 0; k--) reg(attr, (n + std::to_string(k)).c_str(), ty); };
    if (before) before_import(false);
    W.importTags(src); if (src) for (int k = 0; k <= nt; k++) reg(false, tagname(k).c_str(), XBT_INT32);
    reg(false, "x", XBT_STRING); reg(false, "y", XBT_STRING); reg(false, "x", XBT_STRING); reg(false, "t0", XBT_INT32); reg(false, "y", XBT_STRING);
    if (before) before_import(true);
    W.importParams(src); if (src) for (int k = 0; k < na; k++) reg(true, attname(k).c_str(), XBT_STRING);
    reg(true, "x", XBT_STRING); reg(true, "y", XBT_STRING); reg(true, "x", XBT_STRING); reg(true, "a0", XBT_STRING); reg(true, "y", XBT_STRING);
    if (!W.allRegistered()) return fail("allRegistered failed");
    if (W.getSymbolCount(SYMBOL_TABLE_NODES) != (int)t.size() || W.getSymbolCount(SYMBOL_TABLE_PARAMS) != (int)a.size()) return fail("%d tags and %d attributes for %zu and %zu names", W.getSymbolCount(SYMBOL_TABLE_NODES), W.getSymbolCount(SYMBOL_TABLE_PARAMS), t.size(), a.size());
    for (auto &x : t) { if (W.getPool()->tags.getByName(W.getPool(), x.first.c_str(), nullptr, nullptr) != x.second || x.first != W.getPool()->getTagName(x.second)) return fail("tag %s is lost", x.first.c_str()); }
    for (auto &x : a) { if (W.getPool()->params.getByName(W.getPool(), x.first.c_str(), nullptr, nullptr) != x.second || x.first != W.getPool()->getAttrName(x.second)) return fail("attribute %s is lost", x.first.c_str()); }
    W.Finalize(); mc::nontrivial();
}
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
    for (int steps = 2; steps <= 3; steps++) s.push_back({steps == 2 ? "C17.one" : "C17.three", ntrees(steps == 2 ? ONE() : THREE(), 1) * 2, [steps](uint64_t i) { one(i, steps); }, [](uint64_t i) { return show(tree(i >> 1, 1)) + (i & 1 ? " into a transaction" : ""); }, quiet});
    s.push_back({"C17.transaction", ntrees(4, 1) * 4, transaction, [](uint64_t i) { return show(tree(i / 4, 1)) + (i & 1 ? " without keys of the root" : "") + (i & 2 ? " into a transaction" : ""); }, quiet});
    s.push_back({"C17.two", ntrees(3, 3) * ntrees(TWO(), 3), two, show_two, quiet});
    static std::vector<uint64_t> T; for (uint64_t i = 0; i < (uint64_t)NT * NT * 2; i++) if (types_ok(i)) T.push_back(i);
    s.push_back({"C17.types", T.size(), [](uint64_t i) { types(T[i]); }, [](uint64_t i) { uint64_t x = T[i]; return S("key ") + XML_BINARY_TYPE_NAMES[TYPES[x % NT]] + " value " + XML_BINARY_TYPE_NAMES[TYPES[x / NT % NT]] + (x / NT / NT ? " from text" : ""); }, quiet});
    s.push_back({"C17.sizes", (uint64_t)(mc::thorough ? 400 : 80), sizes, [](uint64_t i) { return std::to_string(i / 2 + 1) + " keys"; }, quiet});
    s.push_back({"C17.long", (uint64_t)NLL * 9, longs, [](uint64_t i) { return std::to_string(LLEN[i % NLL]) + " characters, key " + XML_BINARY_TYPE_NAMES[ltype(i / NLL % 3)] + ", value " + XML_BINARY_TYPE_NAMES[ltype(i / NLL / 3)]; }, quiet});
    s.push_back({"C17.import", 36 * 6, import, [](uint64_t i) { return std::to_string(i % 3 + 1) + " tags, " + std::to_string(i / 3 % 3) + " attributes, order " + std::to_string(i / 9 % 4) + ", registered before " + std::to_string(i / 36); }, quiet});
    return mc::main_(c, v, s);
}

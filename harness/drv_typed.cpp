// C05: write-pool trees with typed values -> .xb (unpacked, packed, straight from memory and from the file): every value bit for bit.
#include "typed.h"
static void run(const TD &d) {
    std::map<int, int> tags, atts; names_of(d, tags, atts); unlink("w.xbw"); S bwtext;
    {
        BW W("w.xbw", nullptr, 0x200000, 0); if (!W.Initialize()) return fail("Initialize failed");
        int mt = tags.empty() ? -1 : tags.rbegin()->first, ma = atts.empty() ? -1 : atts.rbegin()->first;
        for (int i = 0; i <= mt; i++) if (!W.registerTag(i, tagname(i).c_str(), tags.count(i) ? (XML_Binary_Type)tags[i] : XBT_STRING)) return fail("registerTag(%d) failed", i);
        for (int i = 0; i <= ma; i++) if (!W.registerAttr(i, attname(i).c_str(), atts.count(i) ? (XML_Binary_Type)atts[i] : XBT_STRING)) return fail("registerAttr(%d) failed", i);
        if (!W.allRegistered()) return fail("allRegistered failed");
        BW_element *r = make(W, d); if (!r) return; W.setRoot(r);
        { std::ostringstream o; o << W; bwtext = o.str(); }
        { Bin_xml_creator C(&W, "m.xb"); if (!C.DoAll()) return fail("conversion to .xb failed: %s", show(d).c_str()); }
        { Bin_xml_packer C(&W, "n.xb"); if (!C.DoAll()) return fail("packed conversion to .xb failed: %s", show(d).c_str()); }
        W.Finalize();
    }
    S text;
    if (!check_file("m.xb", d, tags, atts, &text, "unpacked")) return;
    if (!check_file("n.xb", d, tags, atts, &text, "packed")) return;
    { Bin_xml_packer C("w.xbw", "o.xb"); if (!C.DoAll()) return fail("conversion of the .xbw file failed: %s", show(d).c_str()); }
    if (!check_file("o.xb", d, tags, atts, &text, "from file")) return;
    Doc a, b; if (!parse_xml(bwtext, a)) return fail("XML written from the pool is not well formed: %s", shrt(bwtext).c_str()); if (!parse_xml(text, b)) return fail("XML written from .xb is not well formed: %s", shrt(text).c_str());
    std::function<bool(const Doc &, const Doc &)> eq = [&](const Doc &x, const Doc &y) { if (x.name != y.name || x.at != y.at || x.val != y.val || x.ch.size() != y.ch.size()) return false; for (size_t i = 0; i < x.ch.size(); i++) if (!eq(x.ch[i], y.ch[i])) return false; return true; };
    if (!eq(a, b)) return fail("XML of the pool and of the .xb file differ: %s / %s", shrt(bwtext).c_str(), shrt(text).c_str());
    mc::nontrivial();
}
// ---- spaces
static TD types_doc(uint64_t i) { // type of the value x type of 1st attribute x type of 2nd attribute x type of the child (x values)
    int a = i % NT; i /= NT; int b = i % NT; i /= NT; int c = i % NT; i /= NT; int var = i % 2; i /= 2; int e = mc::thorough ? i % NT : (a + 2 * b + 3 * c + 5 * var) % NT;
    TD d; d.id = 0; d.v = value(a, var); d.at = {{0, value(b, var ^ (a & 1))}, {1, value(c, var ^ (b & 1))}}; TD k; k.id = 1; k.v = value(e, !var); k.at = {{1, value(c, !var)}, {2, value(a, var)}}; d.ch = {k}; return d;
}
static uint64_t ntypes() { return (uint64_t)NT * NT * NT * 2 * (mc::thorough ? NT : 1); }
static const XML_Binary_Type VT[] = {XBT_STRING, XBT_BLOB, XBT_HEX, XBT_BLOB_STRING};
static TD length_doc(uint64_t i) { // lengths of variable sized values in all positions
    int t = i % 4; i /= 4; int u = i % 4; i /= 4; int n = i; TD d; d.id = 0; d.v = sized(VT[t], n, 1); d.at = {{0, sized(VT[u], n, 2)}, {1, value(typ(XBT_INT64), 1)}, {2, sized(VT[u], n / 2, 3)}};
    TD k; k.id = 1; k.v = sized(VT[u], n + 1, 4); TD l; l.id = 2; l.v = value(typ(XBT_DOUBLE), 1); l.at = {{0, sized(VT[u], (n * 7) % 50, 5)}}; d.ch = {k, l}; d.at[2].second.t = VT[u]; return d;
}
static uint64_t nlength() { return 16 * (mc::thorough ? 2000 : 200); }
static TD label(int l, int ty) { // eight kinds of nodes over three types; ids: tag k has type k
    static const int T3[][3] = {{1, 3, 4}, {6, 2, 0}, {21, 13, 9}, {5, 8, 7}}; const int *t = T3[ty]; TD d;
    switch (l) {
        case 0: d.id = 0; d.v = value(t[0], 1); break; case 1: d.id = 0; d.v = value(t[0], 0); break; case 2: d.id = 1; d.v = value(t[1], 1); break; case 3: d.id = 2; d.v = value(t[2], 1); break;
        case 4: d.id = 1; d.v = value(t[1], 1); d.at = {{0, value(t[2], 0)}}; break; case 5: d.id = 2; d.v = value(t[2], 0); d.at = {{1, value(t[0], 1)}, {2, value(t[1], 1)}}; break;
        case 6: d.id = 3 * KT; d.v = value(t[0], 1); d.at = {{3 * KT + 2, value(t[1], 1)}}; break; default: d.id = 3 * KT + 1; d.v = value(t[2], 1); d.at = {{3 * KT, value(t[0], 1)}, {3 * KT + 1, value(t[2], 1)}}; break;
    } return d;
}
static int NODES() { return mc::thorough ? 5 : 4; }
static void shapes(int n, std::vector<S> &out) { std::function<void(int, int, S)> go = [&](int open, int left, S cur) { if (!left && !open) { out.push_back(cur); return; } if (left) go(open + 1, left - 1, cur + "("); if (open) go(open - 1, left, cur + ")"); }; go(0, n - 1, ""); }
static void fill(TD &d, const S &sh, size_t &p, uint64_t &lab, int ty) { d = label(lab & 7, ty); lab >>= 3; while (p < sh.size() && sh[p] == '(') { p++; d.ch.emplace_back(); fill(d.ch.back(), sh, p, lab, ty); } if (p < sh.size()) p++; }
static uint64_t ntrees() { uint64_t c = 0; for (int n = 1; n <= NODES(); n++) { std::vector<S> s; shapes(n, s); c += s.size() << (3 * n); } return c * 4; }
static TD tree_doc(uint64_t i) { int ty = i % 4; i /= 4; for (int n = 1;; n++) { std::vector<S> s; shapes(n, s); uint64_t tot = s.size() << (3 * n); if (i >= tot) { i -= tot; continue; } TD d; size_t p = 0; uint64_t lab = i & ((1ull << (3 * n)) - 1); fill(d, s[i >> (3 * n)], p, lab, ty); return d; } }
static const int SZ[] = {1, 3, 10, 60, 200, 500, 1000, 3000};
static TD size_doc(uint64_t i) { // many children / attributes / levels of each type
    int ti = i % NT; i /= NT; int n = SZ[i % 8]; i /= 8; TD d; d.id = 0; d.v = value(typ(XBT_INT32), 1);
    if (i == 0) for (int k = 0; k < n; k++) { TD c; c.id = 1; c.v = value(ti, k); d.ch.push_back(c); }
    if (i == 1) for (int k = 0; k < n; k++) d.at.push_back({4 + k, value(ti, k)});
    if (i == 2) { TD *x = &d; for (int k = 0; k < n && k < 150; k++) { TD c; c.id = 1 + k % 2; c.v = value(k % 2 ? typ(XBT_STRING) : ti, 1); x->ch.push_back(c); x = &x->ch.back(); } }
    return d;
}
static TD reserved_doc(uint64_t i) { // reserved tags and attributes with and without other names in the pool
    static const int T[] = {XTNR_PAYLOAD, XTNR_TRANSACTION, 0}; static const XML_Binary_Type AT[] = {XBT_STRING, XBT_SHA1, XBT_UNIX_TIME, XBT_INT32, XBT_INT32, XBT_INT32, XBT_INT32, XBT_INT64, XBT_UNIX_TIME64_MSEC};
    auto at = [&](int k, int var) -> std::pair<int, V> { return k == 9 ? std::pair<int, V>(5, value(typ(XBT_DOUBLE), var)) : std::pair<int, V>(-2 - k, value(typ(AT[k]), var)); };
    TD d; d.id = T[i % 3]; i /= 3; int n = i % 3; i /= 3; int a = i % 10; i /= 10; int b = i % 10; i /= 10; if (n) d.at.push_back(at(a, 1)); if (n == 2 && a != b) d.at.push_back(at(b, 0)); int k = i; d.v = value(0, 0);
    if (k) { TD c; c.id = T[k - 1]; c.v = value(0, 0); c.at = {at(b, 1)}; d.ch = {c, c}; }
    std::map<int, int> tags, atts; names_of(d, tags, atts); if (tags.empty() && !atts.empty()) d.id = 0;  // attributes are registered after tags
    return d;
}
// deep nesting: what can be converted reads back exactly, anything deeper must be refused
static const std::vector<int> &depths() { static std::vector<int> d; if (d.empty()) { for (int k : {1, 2, 3, 100, 200, 500}) d.push_back(k); for (int p = 256; p <= (mc::thorough ? 65536 : 8192); p *= 2) for (int k = -3; k <= 3; k++) d.push_back(p + k); for (int k : {1000, 3000, 10000, 20000}) d.push_back(k); } return d; }
static const char *DK[] = {"unpacked", "packed", "unpacked from file", "packed from file", "appended record"};
static bool deep_same(XB_reader &R, XML_Item *X, int N, int leafs) { int k = 0; for (;; k++) { if (!X) TBAD("level %d of %d is missing", k, N); const char *nm = R.getNodeName(X->name); if (!nm || nm != tagname(k % 3)) TBAD("level %d is <%s>", k, nm ? nm : ""); const int32_t *v = k % 3 == 1 ? X->getIntPtr() : nullptr; if (k % 3 == 1 && (!v || *v != k)) TBAD("level %d has another value", k); XML_Param_Description *P = k % 3 == 2 ? X->getParamByIndex(0) : nullptr; if (X->paramcount != (k % 3 == 2) || (P && strcmp(P->getString(X), std::to_string(k).c_str()))) TBAD("level %d has other attributes", k);
    int want = k == N - 1 ? 0 : k % 5 == leafs ? 2 : 1; if (X->childcount != want) TBAD("level %d of %d has %d children instead of %d", k, N, X->childcount, want); if (!want) return true; X = X->getChildByIndex(want - 1); } }
static void deep_case(uint64_t i) {
    int kind = i % 5; i /= 5; int leafs = i % 2 ? 2 : -1; i /= 2; int N = depths()[i]; bool rec = kind == 4, packed = kind & 1, ff = kind == 2 || kind == 3; for (const char *f : {"w.xbw", "m.xb"}) unlink(f);
    auto chain = [&](BW_plugin &W) -> BW_element * { uint32_t first = 0, x = 0; for (int k = 0; k < N; k++) { BW_element *e = k % 3 == 1 ? W.tagInt32(1, k) : W.tag(k % 3); if (!e) return nullptr; uint32_t o = e->offset; if (k % 3 == 2) { BW_element *q = e->attrStr(0, std::to_string(k).c_str()); if (!q) return nullptr; } if (x) { if ((k - 1) % 5 == leafs) { BW_element *l = W.tag(0); if (!l) return nullptr; W.BWE(x)->add(l); } W.BWE(x)->add(W.BWE(o)); } else first = o; x = o; } return W.BWE(first); };
    bool ok; {
        BW W("w.xbw", nullptr, 0x2000000, 0); if (!W.Initialize() || !W.registerTag(0, tagname(0).c_str(), XBT_NULL) || !W.registerTag(1, tagname(1).c_str(), XBT_INT32) || !W.registerTag(2, tagname(2).c_str(), XBT_NULL) || !W.registerAttr(0, attname(0).c_str(), XBT_STRING) || !W.allRegistered()) return fail("the pool cannot be made");
        BW_element *r; if (rec) { r = W.tag(0); r->add(W.tag(XTNR_ET_TECERA)); } else r = chain(W); if (!r) return fail("%d levels cannot be built", N); W.setRoot(r);
        if (ff) { W.Finalize(); if (packed) { Bin_xml_packer C("w.xbw", "m.xb"); ok = C.DoAll(); } else { Bin_xml_creator C("w.xbw", "m.xb"); ok = C.DoAll(); } }
        else { std::unique_ptr<Bin_xml_creator> C(packed ? new Bin_xml_packer(&W, "m.xb") : new Bin_xml_creator(&W, "m.xb")); ok = C->DoAll(); if (rec) { if (!ok) return fail("an empty log cannot be made"); if (!W.Clear()) return fail("Clear failed"); BW_element *x = chain(W); if (!x) return fail("%d levels cannot be built", N); ok = W.Write(x); } W.Finalize(); }
    }
    if (!ok) { if (N <= XML_MAX_DEEP) return fail("a tree of %d levels is refused", N); if (!rec && access("m.xb", F_OK) == 0) return fail("a refused conversion left the target"); if (!rec) { mc::nontrivial(); return; } }
    char nm[8] = "m.xb"; XB_reader R(nm); R.setVerbosity(0); if (!R.Initialize()) return fail("%s tree of %d levels is not readable", DK[kind], N); XML_Item *X = R.getRoot();
    if (rec) { int it = 0; X = R.getRoot()->getNextChild(R, it); if (!ok) { if (X) fail("a refused record is in the log"); mc::nontrivial(); return; } }
    if (!deep_same(R, X, N, leafs)) return fail("%s, %d levels", DK[kind], N); mc::nontrivial(); mc::transitions(N);
}
static S deep_desc(uint64_t i) { return S(DK[i % 5]) + ", " + std::to_string(depths()[i / 10]) + " levels" + (i / 5 % 2 ? " with leaves" : ""); }
// elements with very many attributes or children: exact, or refused beyond what the count in the file can hold
static const std::vector<int> &widths() { static std::vector<int> d; if (d.empty()) { d = {1, 127, 128, 254, 255, 256, 257, 4095, 4096, 4097, 32765, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 65540, 70000}; if (mc::thorough) for (int k : {98303, 98304, 98305, 131071, 131072, 131073, 200000, 300000}) d.push_back(k); } return d; }
static void wide_case(uint64_t i) {
    int kind = i % 5; i /= 5; bool at = i % 2; i /= 2; bool inner = i % 2; i /= 2; int N = widths()[i]; bool rec = kind == 4, packed = kind & 1, ff = kind == 2 || kind == 3, may = at && N > 32767; for (const char *f : {"w.xbw", "m.xb"}) unlink(f);
    auto wide = [&](BW_plugin &W) -> BW_element * { uint32_t top = 0; BW_element *x = W.tag(2); if (!x) return nullptr; uint32_t o = x->offset; if (inner) { BW_element *p = W.tag(0); if (!p) return nullptr; p->add(W.BWE(o)); top = p->offset; }
        for (int k = 0; k < N; k++) { if (at) { if (!W.BWE(o)->attrInt32(1, k)) return nullptr; } else { BW_element *e = W.tagInt32(1, k); if (!e) return nullptr; W.BWE(o)->add(e); } }
        if (inner) { BW_element *e = W.tagInt32(1, -7); if (!e) return nullptr; W.BWE(top)->add(e); } return W.BWE(top ? top : o); };
    bool ok; {
        BW W("w.xbw", nullptr, 0x4000000, 0); if (!W.Initialize() || !W.registerTag(0, tagname(0).c_str(), XBT_NULL) || !W.registerTag(1, tagname(1).c_str(), XBT_INT32) || !W.registerTag(2, tagname(2).c_str(), XBT_NULL) || !W.registerAttr(0, attname(0).c_str(), XBT_STRING) || !W.registerAttr(1, attname(1).c_str(), XBT_INT32) || !W.allRegistered()) return fail("the pool cannot be made");
        BW_element *r; if (rec) { r = W.tag(0); r->add(W.tag(XTNR_ET_TECERA)); } else r = wide(W); if (!r) return fail("%d cannot be built", N); W.setRoot(r);
        if (ff) { W.Finalize(); if (packed) { Bin_xml_packer C("w.xbw", "m.xb"); ok = C.DoAll(); } else { Bin_xml_creator C("w.xbw", "m.xb"); ok = C.DoAll(); } }
        else { std::unique_ptr<Bin_xml_creator> C(packed ? new Bin_xml_packer(&W, "m.xb") : new Bin_xml_creator(&W, "m.xb")); ok = C->DoAll(); if (rec) { if (!ok) return fail("an empty log cannot be made"); if (!W.Clear()) return fail("Clear failed"); BW_element *x = wide(W); if (!x) return fail("%d cannot be built", N); ok = W.Write(x); } W.Finalize(); }
    }
    if (!ok) { if (!may) return fail("an element with %d %s is refused", N, at ? "attributes" : "children"); if (!rec && access("m.xb", F_OK) == 0) return fail("a refused conversion left the target"); if (!rec) { mc::nontrivial(); return; } }
    char nm[8] = "m.xb"; XB_reader R(nm); R.setVerbosity(0); if (!R.Initialize()) return fail("%s document is not readable", DK[kind]); XML_Item *X = R.getRoot();
    if (rec) { int it = 0; X = R.getRoot()->getNextChild(R, it); if (!ok) { if (X) fail("a refused record is in the log"); mc::nontrivial(); return; } if (!X || R.getRoot()->getNextChild(R, it)) return fail("the log has not exactly one record"); }
    if (inner) { if (X->paramcount || X->childcount != 2) return fail("the root has %d children", X->childcount); XML_Item *L = X->getChildByIndex(1); if (!L || L->getInt() != -7) return fail("the element behind is wrong"); X = X->getChildByIndex(0); }
    if (!X || X->paramcount != (at ? N : 0) || X->childcount != (at ? 0 : N)) return fail("%s, %d %s: %d attributes and %d children", DK[kind], N, at ? "attributes" : "children", X ? X->paramcount : -1, X ? X->childcount : -1);
    int it = 0; for (int k = 0; k < N; k++) { if (at) { XML_Param_Description *P = X->getParamByIndex(k); if (!P || P->type != XBT_INT32 || P->getInt(X) != k || attname(1) != R.getParamName(P->name)) return fail("attribute %d of %d is wrong", k, N); } else { XML_Item *Y = X->getChildByIndex(k); if (!Y || Y->getInt() != k || tagname(1) != R.getNodeName(Y->name)) return fail("child %d of %d is wrong", k, N); if (X->getNextChild(R, it) != Y) return fail("getNextChild misses child %d of %d", k, N); } }
    mc::nontrivial(); mc::transitions(N);
}
static S wide_desc(uint64_t i) { return S(DK[i % 5]) + ", " + std::to_string(widths()[i / 20]) + (i / 5 % 2 ? " attributes" : " children") + (i / 10 % 2 ? ", inside" : ""); }
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
#define SP(name, n, f) s.push_back({name, (uint64_t)(n), [](uint64_t i) { run(f(i)); }, [](uint64_t i) { return show(f(i)); }, quiet})
    SP("C05.types", ntypes(), types_doc); SP("C05.lengths", nlength(), length_doc); SP("C05.trees", ntrees(), tree_doc); SP("C05.reserved", 3 * 3 * 100 * 4, reserved_doc); SP("C05.sizes", NT * 8 * 3, size_doc);
    s.push_back({"C05.deep", depths().size() * 10, deep_case, deep_desc, quiet});
    s.push_back({"C05.wide", widths().size() * 20, wide_case, wide_desc, quiet});
    return mc::main_(c, v, s);
}

// C08: the open-ended .xb log - every sequence of appends, every crash point (prefix) and zero filled tail.
// C09: the reader on damaged files - every truncation, every single byte, every aligned word and pairs of words of whole documents.
#include "typed.h"
#include <sys/mman.h>
#include <fcntl.h>

// Files are mapped into heap blocks of exactly their size, so that AddressSanitizer sees any access behind the end of file.
static bool exact = false; static std::map<void *, size_t> blocks;
extern "C" { void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { if (!exact) return __real_mmap(a, n, prot, fl, fd, o); char *p = (char *)malloc(n); size_t k = 0; for (ssize_t r; k < n && (r = pread(fd, p + k, n - k, o + k)) > 0;) k += r; blocks[p] = n; return p; }
int __wrap_munmap(void *a, size_t n) { auto i = blocks.find(a); if (i == blocks.end()) return __real_munmap(a, n); bool ok = i->second == n; blocks.erase(i); free(a); if (!ok) fail("munmap of %zu bytes differs from what was mapped", n); return 0; }
}
struct Exact { Exact() { exact = true; } ~Exact() { exact = false; } };
static void put(const char *fn, const S &s) { if (!mc::writefile(fn, s)) fail("cannot write %s", fn); }

// ---- everything a reader can be asked for about an accepted file
static volatile uint64_t sink;
static void eat(const char *s) { if (s) sink = sink + strlen(s); }
static void eat(const void *p, int n) { const unsigned char *b = (const unsigned char *)p; uint64_t x = 0; for (int i = 0; i < n; i++) x += b[i]; sink = sink + x; }
struct Use {
    XB_reader &R; std::vector<XML_Item *> todo; std::set<XML_Item *> seen; std::map<XML_Item *, double> size; uint64_t n = 0;
    Use(XB_reader &r) : R(r) {}
    void add(XML_Item *x) { if (x && seen.insert(x).second) todo.push_back(x); }
    template <class F> void chunk(F f) { char b[300]; int off = 0; for (int k = 0; k < 200000; k++) { int l = f(off, b, 300); if (l <= 0) return; if (l >= 300) { fail("a chunk of %d bytes does not fit into 300", l); return; } sink = sink + b[0]; } fail("getStringChunk does not end"); }
    void rel(const char *s) { // relative pointers of what lies in the file, and only of that
        const char *d = (const char *)R.doc; bool in = s > d && s < d + R.size; uint32_t r = R.getRelPtr(s); if (r != (in ? (uint32_t)(s - d) : 0)) fail("getRelPtr gives %u", r); else if (R.getString(r) != (in ? s : nullptr)) fail("getString(%u) does not lead back", r); }
    void item(XML_Item *X) {
        n++; eat(R.getNodeName(X->name)); XML_Binary_Data_Ref D = X->getData(); if (D.data) eat(D.data, D.size); eat(X->getString()); rel(X->getString()); chunk([&](int &o, char *b, int z) { return X->getStringChunk(o, b, z); });
        int32_t z = 0; const void *p = X->getBinary(&z); if (p) eat(p, z); X->getInt(); if (auto q = X->getIntPtr()) sink = sink + *q; if (auto q = X->getInt64Ptr()) sink = sink + *q;
        for (int i = 0; i < X->paramcount; i++) {
            XML_Param_Description *P = X->getParamByIndex(i); eat(R.getParamName(P->name)); R.param_symbols.getType(P->name); XML_Binary_Data_Ref A = P->getData(X); if (A.data) eat(A.data, A.size); eat(P->getString(X)); rel(P->getString(X)); chunk([&](int &o, char *b, int z) { return P->getStringChunk(X, o, b, z); });
            P->getInt(X); if (auto q = P->getIntPtr(X)) sink = sink + *q; if (auto q = P->getInt64Ptr(X)) sink = sink + *q; X->getParamByName((XML_Param_Names)P->name);
        }
        R.tag_symbols.getType(X->name);
        for (int i = 0; i < X->childcount; i++) { XML_Item *Y = X->getChildByIndex(i); add(Y); X->getChildByName((XML_Tag_Names)Y->name); }
        int it = 0; for (int k = 0;; k++) { XML_Item *Y = X->getNextChild(R, it); if (!Y) break; add(Y); if (k > X->childcount + (int)(R.size / sizeof(XML_Item))) { fail("getNextChild does not end"); break; } }
    }
    double expand(XML_Item *X) { auto i = size.find(X); if (i != size.end()) return i->second; size[X] = 1e18; double s = 1; int it = 0; while (XML_Item *Y = X->getNextChild(R, it)) s += expand(Y); return size[X] = s; }
    void all() {
        rel(nullptr); rel((const char *)R.doc + R.size); rel((const char *)R.doc + R.size - 1); rel((const char *)R.doc); if (R.getString(0) || R.getString(R.size) || R.getString(0xffffffffu)) fail("getString of a place outside of the file");
        eat(R.getFilename()); for (int i = -12; i <= R.tag_symbols.count; i++) { eat(R.getNodeName(i)); R.tag_symbols.getType(i); } for (int i = -12; i <= R.param_symbols.count; i++) { eat(R.getParamName(i)); R.param_symbols.getType(i); }
        for (const char *s : {"", "t0", "t1", "a0", "zzz", "item"}) { R.getNodeID(s); R.getParamID(s); }
        add(R.getRoot()); while (!todo.empty() && !mc::failed()) { XML_Item *x = todo.back(); todo.pop_back(); item(x); }
        if (mc::failed()) return; double s = expand(R.getRoot());
        if (s < 3000) {
            std::ostringstream o; o << R; sink = sink + o.str().size(); uint64_t cnt = 0; auto cb = [](XML_Item *, void *u, int) { ++*(uint64_t *)u; };
            R.getRoot()->ForAllChildrenRecursively(cb, &cnt, 0); R.getRoot()->ForAllChildrenRecursively_PostOrder(cb, &cnt, 0);
            static XML_Item *anc[XML_MAX_DEEP]; R.getRoot()->ForAllChildrenRecursively_PostOrderA([](XML_Item *, void *u, int, XML_Item **) { ++*(uint64_t *)u; }, &cnt, 0, anc);
        }
        mc::states(n);
    }
};
// true = accepted
static void closed(XB_reader &R, const char *when) { if (R.getRoot()) fail("a reader %s has a root", when); if (R.getString(12) || R.getString(1)) fail("a reader %s resolves relative pointers", when); if (R.getRelPtr((const char *)&R)) fail("a reader %s has relative pointers", when); }
static bool use(const char *fn) { Exact e; char n[64]; strcpy(n, fn); XB_reader R(n); R.setVerbosity(0); bool ok = R.Initialize(); if (ok) { Use u(R); u.all(); } else closed(R, "which refused its file"); if (!R.Finalize()) fail("Finalize failed"); closed(R, "which was closed"); return ok; }

// ---- documents
static TD node(int id, V v, std::vector<std::pair<int, V>> at = {}, std::vector<TD> ch = {}) { TD d; d.id = id; d.v = v; d.at = at; d.ch = ch; return d; }
static V str(const S &s) { return {XBT_STRING, s + S(1, 0)}; }
static V val(XML_Binary_Type t, int k) { return value(typ(t), k); }
static TD tecera() { return node(XTNR_ET_TECERA, val(XBT_NULL, 0)); }
static bool write_base(BW &W, const TD &d, std::map<int, int> tags, std::map<int, int> atts) {
    int mt = tags.rbegin()->first, ma = atts.empty() ? -1 : atts.rbegin()->first;
    for (int i = 0; i <= mt; i++) if (!W.registerTag(i, tagname(i).c_str(), tags.count(i) ? (XML_Binary_Type)tags[i] : XBT_STRING)) return false;
    for (int i = 0; i <= ma; i++) if (!W.registerAttr(i, attname(i).c_str(), atts.count(i) ? (XML_Binary_Type)atts[i] : XBT_STRING)) return false;
    if (!W.allRegistered()) return false;
    BW_element *r = make(W, d); if (!r) return false; W.setRoot(r); return true;
}
static std::unique_ptr<Bin_xml_creator> creator(BW *W, const char *fn, bool packed) { return std::unique_ptr<Bin_xml_creator>(packed ? new Bin_xml_packer(W, fn) : new Bin_xml_creator(W, fn)); }

// ---- C08
static TD rec(int k) {
    switch (k) {
        case 0: return node(4, val(XBT_NULL, 0));
        case 1: return node(1, str("record one"), {{0, val(XBT_INT32, 1)}, {1, str("text")}});
        case 2: return node(4, val(XBT_NULL, 0), {}, {node(1, str("in")), node(2, val(XBT_INT64, 1), {{2, val(XBT_INT64, 0)}}, {node(4, val(XBT_NULL, 0))})});
        case 3: return node(5, val(XBT_DOUBLE, 1), {{2, val(XBT_INT64, 1)}});
        case 4: return node(3, val(XBT_BLOB, 1), {{3, val(XBT_BLOB, 1)}});
        default: return node(1, str(rep(700, k)), {{1, str(rep(300, k + 1))}});
    }
}
static TD rlen(int n) { return node(1, str(rep(n, 3)), {{1, str(rep(n / 2, 1))}}); }
enum { NB = 4 };
static TD base(int b, std::vector<TD> log, bool open) { // log in place of et-tecera, or et-tecera
    std::vector<TD> tail = log; if (open) tail = {tecera()};
    auto with = [&](std::vector<TD> c) { c.insert(c.end(), tail.begin(), tail.end()); return c; };
    switch (b) {
        case 0: return node(0, val(XBT_NULL, 0), {}, with({}));
        case 1: return node(0, val(XBT_NULL, 0), {{0, val(XBT_INT32, 1)}}, with({node(1, str("head")), node(4, val(XBT_NULL, 0), {}, {node(2, val(XBT_INT64, 0))})}));
        case 2: return node(0, val(XBT_NULL, 0), {}, with({node(1, str("same")), node(1, str("same")), node(5, val(XBT_DOUBLE, 1)), node(5, val(XBT_DOUBLE, 1))}));
        default: return node(0, val(XBT_NULL, 0), {}, {node(4, val(XBT_NULL, 0), {}, with({node(3, val(XBT_BLOB, 1))}))});
    }
}
static void everything(std::map<int, int> &tags, std::map<int, int> &atts) { for (int k = 0; k < 6; k++) names_of(rec(k), tags, atts); for (int b = 0; b < NB; b++) names_of(base(b, {}, true), tags, atts); }
static XML_Item *container(XB_reader &R, int b) { XML_Item *r = R.getRoot(); return b == 3 ? r->getChildByIndex(0) : r; }
struct Log { int b; TD open; std::vector<TD> recs; std::vector<size_t> ends; size_t base_size = 0; };
// opens the file; the container must give its own children and then exactly n records (or at least n, when the tail is damaged)
static bool read_log(const char *fn, Log &L, size_t n, bool exactly, const char *what) {
    Exact e; char nm[64]; strcpy(nm, fn); XB_reader R(nm); R.verbosity = 0; if (!R.Initialize()) { R.Finalize(); TBAD("%s: the reader refuses the file", what); }
    XML_Item *c = container(R, L.b); const TD &o = L.b == 3 ? L.open.ch[0] : L.open; size_t own = o.ch.size() - 1, got = 0; int it = 0; bool ok = true;
    for (size_t i = 0; ok && i < own; i++) { XML_Item *x = c->getNextChild(R, it); ok = same(R, x, o.ch[i]); }
    while (ok) { XML_Item *x = c->getNextChild(R, it); if (!x) break; if (got < n) ok = same(R, x, L.recs[got]); else { Use u(R); u.add(x); while (!u.todo.empty() && !mc::failed()) { XML_Item *y = u.todo.back(); u.todo.pop_back(); u.item(y); } } if (++got > L.recs.size() + 200) { fail("%s: records do not end", what); ok = false; } }
    if (ok && (got < n || (exactly && got != n))) { fail("%s: %zu records are read, expected %zu", what, got, n); ok = false; }
    if (ok && c->getNextChild(R, it) != nullptr) { fail("%s: something is read behind the last record", what); ok = false; }
    R.Finalize(); if (!ok) fail("%s", what); return ok && !mc::failed();
}
static bool ends_of(const char *fn, Log &L) { // where each record ends
    char nm[64]; strcpy(nm, fn); XB_reader R(nm); R.verbosity = 0; if (!R.Initialize()) TBAD("the reader refuses the log"); XML_Item *c = container(R, L.b); int it = 0, k = 0, own = c->childcount - 1; L.ends.clear();
    while (XML_Item *x = c->getNextChild(R, it)) if (k++ >= own) L.ends.push_back((char *)x - (char *)R.doc + x->length); R.Finalize(); return true;
}
static S as_text(const char *fn) { char n[64]; strcpy(n, fn); XB_reader R(n); R.verbosity = 0; if (!R.Initialize()) return "<refused>"; std::ostringstream o; o << R; R.Finalize(); return o.str(); }
static uint64_t NOPS = 9;
static S opname(int o) { return o < 6 ? "append " + std::to_string(o) : o == 6 ? "batch" : o == 7 ? "clear" : "append twice"; }
static S in_pool(BW &W, BW_element *e) { XML_Binary_Data_Ref d = e->getData(); S s = S("<") + (e->getName() ? e->getName() : "(null)") + " " + std::to_string(d.type) + ":" + raw(d); for (int k = 0; k < 2; k++) if (uint32_t f = k ? e->first_child : e->first_attribute) for (BW_element *x = W.BWE(f);; x = W.BWE(x->next)) { s += k ? in_pool(W, x) : "@" + in_pool(W, x); if (x->next == f) break; } return s + ">"; }
static S list_in_pool(BW &W, BW_element *l) { S s; for (BW_element *x = l;; x = W.BWE(x->next)) { s += in_pool(W, x); if (W.BWE(x->next) == l) return s; } }
static bool do_op(BW &W, int o, Log &L, std::function<TD(int)> r) {
    if (o == 7) { if (!W.Clear()) TBAD("Clear failed"); return true; }
    std::vector<int> ks; if (o < 6) ks = {o}; else if (o == 8) ks = {3, 1}; else ks = {1, 3, 0, 2}; BW_element *list = nullptr; uint32_t off = 0;
    for (int k : ks) { TD t = r(k); BW_element *x = make(W, t); if (!x) return false; L.recs.push_back(t); if (!off) off = x->offset; else { list = W.BWE(off); list->join(x); } }
    list = W.BWE(off); S had = list_in_pool(W, list); for (int k = 0; k < (o == 8 ? 2 : 1); k++) { if (k) for (int q : ks) L.recs.push_back(r(q)); if (!W.Write(list)) TBAD("Write(%s) failed", opname(o).c_str()); if (list_in_pool(W, W.BWE(off)) != had) TBAD("Write(%s) changed the elements in the pool", opname(o).c_str()); } return true;
}
static void log_run(int b, bool packed, const std::vector<int> &ops, std::function<TD(int)> r, bool torn) {
    Log L; L.b = b; L.open = base(b, {}, true); std::map<int, int> tags, atts; everything(tags, atts); unlink("l.xbw"); unlink("l.xb"); S before;
    {
        BW W("l.xbw", nullptr, 0x200000, 0); if (!W.Initialize()) return fail("Initialize failed"); if (!write_base(W, L.open, tags, atts)) return fail("the base cannot be written");
        auto C = creator(&W, "l.xb", packed); if (!C->DoAll()) return fail("conversion of the base failed"); if (!W.Clear()) return fail("Clear failed");
        before = mc::readfile("l.xb"); L.base_size = before.size(); if (!read_log("l.xb", L, 0, true, "empty log")) return;
        for (size_t i = 0; i < ops.size(); i++) {
            if (!do_op(W, ops[i], L, r)) return; S now = mc::readfile("l.xb"); if (now.compare(0, before.size(), before) != 0) return fail("operation %zu changed what was written before", i); before = now;
            if (!read_log("l.xb", L, L.recs.size(), true, "log")) return; mc::transitions(1);
        }
        W.Finalize();
    }
    if (!ends_of("l.xb", L)) return; if (L.ends.size() != L.recs.size()) return fail("%zu records, expected %zu", L.ends.size(), L.recs.size()); if (!L.ends.empty() && L.ends.back() != before.size()) return fail("the last record ends at %zu of %zu", L.ends.back(), before.size());
    { // the log reads as an ordinary document with the records in place of et-tecera
        unlink("x.xbw"); BW W("x.xbw", nullptr, 0x200000, 0); if (!W.Initialize() || !write_base(W, base(b, L.recs, false), tags, atts)) return fail("the ordinary document cannot be written");
        auto C = creator(&W, "x.xb", packed); if (!C->DoAll()) return fail("conversion of the ordinary document failed"); W.Finalize(); if (!L.recs.empty() || b != 0) { S a = as_text("l.xb"), o = as_text("x.xb"); Doc da, dx; if (!parse_xml(a, da) || !parse_xml(o, dx)) return fail("XML of the log is not well formed: %s", shrt(a).c_str());
            if (a != o) return fail("XML of the log differs from the ordinary document: %s / %s", shrt(a).c_str(), shrt(o).c_str()); }
    }
    if (!torn) { mc::nontrivial(); return; }
    uint64_t cnt = 0; put("p.xb", before); auto whole = [&](size_t p) { size_t n = 0; while (n < L.ends.size() && L.ends[n] <= p) n++; return n; };
    for (size_t p = before.size() + 1; p-- > L.base_size;) { // every crash point of the appends
        if (truncate("p.xb", p)) return fail("truncate"); mc::subcase(p); size_t n = whole(p); char w[64]; snprintf(w, 64, "log cut at %zu of %zu", p, before.size()); if (!read_log("p.xb", L, n, true, w)) return;
        bool at_end = n < L.ends.size() && (p == L.base_size || (n && L.ends[n - 1] == p));
        std::vector<size_t> z = {before.size()}; if (at_end) for (size_t k = 1; k <= 40; k++) z.push_back(p + k); if (n < L.ends.size()) z.push_back(L.ends[n]);
        for (size_t q : z) if (q > p) { if (truncate("p.xb", q)) return fail("truncate"); snprintf(w, 64, "log cut at %zu and zero filled to %zu", p, q); if (!read_log("p.xb", L, n, at_end, w)) return; cnt++; }
        cnt++;
    }
    mc::states(cnt); mc::nontrivial(cnt);
}
static int DEPTH() { return mc::thorough ? 4 : 3; }
static uint64_t nlog() { uint64_t c = 0, p = 1; for (int d = 0; d <= DEPTH(); d++, p *= NOPS) c += p; return c * NB * 2; }
static void log_dec(uint64_t i, int &b, bool &packed, std::vector<int> &ops) { b = i % NB; i /= NB; packed = i % 2; i /= 2; uint64_t p = 1; int d = 0; while (i >= p) { i -= p; p *= NOPS; d++; } for (int k = 0; k < d; k++) { ops.push_back(i % NOPS); i /= NOPS; } }
static S log_desc(uint64_t i) { int b; bool k; std::vector<int> o; log_dec(i, b, k, o); S s = "base " + std::to_string(b) + (k ? " packed:" : ":"); for (int x : o) s += " " + opname(x) + ","; return s; }
static void log_case(uint64_t i) { int b; bool k; std::vector<int> o; log_dec(i, b, k, o); log_run(b, k, o, rec, o.size() <= 2 || mc::thorough); }
// alignment: records of all lengths before every kind of record
static uint64_t nalign() { return 48 * 6 * 2; }
static void align_case(uint64_t i) { int n = i % 48; i /= 48; int k = i % 6; i /= 6; int first = 1; int b = i ? 2 : 1; (void)first; bool used = false; log_run(b, i, {1, k, 3, 4}, [&](int x) { if (x == 1 && !used) { used = true; return rlen(n); } return rec(x); }, n < 16); }
static S align_desc(uint64_t i) { return "record with " + std::to_string(i % 48) + " characters, then record " + std::to_string(i / 48 % 6) + (i / 288 ? " packed" : ""); }
// big records: bigger than the document itself
static const int BIG[] = {1000, 4000, 5000, 20000, 66000, 300000, 1000000};
static uint64_t nbig() { return 7 * 4 * NB; }
static void big_case(uint64_t i) { int n = BIG[i % 7]; i /= 7; int kind = i % 4; i /= 4; log_run(i, 0, {0, 5, 1}, [&](int x) { if (x != 5) return rec(x); if (kind == 0) return node(1, str(rep(n, 2))); if (kind == 1) return node(3, sized(XBT_BLOB, n, 1), {{3, sized(XBT_BLOB, n / 2, 1)}}); TD t = node(4, val(XBT_NULL, 0)); if (kind == 3) { for (int k = 0; k < n / 25; k++) t.ch.push_back(node(4, val(XBT_NULL, 0))); return t; } for (int k = 0; k < n / 200; k++) t.ch.push_back(rec(k % 5)); return t; }, false); }
static S big_desc(uint64_t i) { const char *k[] = {"string", "blob", "children", "empty children"}; return S(k[i / 7 % 4]) + " of " + std::to_string(BIG[i % 7]); }
// what must be refused, leaving the file as it is
struct Cr : Bin_xml_creator { using Bin_xml_creator::Bin_xml_creator; };
static uint64_t nrefuse() { return 6 * NB; }
static void refuse_case(uint64_t i) {
    int kind = i % 6; int b = i / 6; Log L; L.b = b; L.open = base(b, {}, true); std::map<int, int> tags, atts; everything(tags, atts); unlink("l.xbw"); unlink("l.xb"); unlink("k.xbw");
    BW W("l.xbw", nullptr, 0x200000, 0); if (!W.Initialize()) return fail("Initialize failed"); if (!write_base(W, L.open, tags, atts)) return fail("the base cannot be written");
    if (kind == 0) { Bin_xml_creator C(&W, "l.xb"); BW_element *x = make(W, rec(1)); if (W.Write(x)) return fail("Write before the document was made succeeded"); if (access("l.xb", F_OK) == 0) return fail("Write before the document was made created it"); mc::nontrivial(); return; }
    if (kind == 1) { Bin_xml_creator C(&W, "k.xbw", XBTARGET_XBW); BW_element *x = make(W, rec(1)); put("k.xbw", "abcd"); if (W.Write(x)) return fail("appending of .xb element to .xbw succeeded"); if (mc::readfile("k.xbw") != "abcd") return fail(".xbw was changed by a refused append"); mc::nontrivial(); return; }
    Bin_xml_creator C(&W, "l.xb"); if (!C.DoAll()) return fail("conversion of the base failed"); if (kind == 5) { if (!W.Clear()) return fail("Clear failed"); } S before = mc::readfile("l.xb");
    if (kind == 2) { unlink("l.xb"); BW_element *x = make(W, rec(1)); if (W.Write(x)) return fail("Write to a document that does not exist succeeded"); if (access("l.xb", F_OK) == 0) return fail("a refused Write created the document"); }
    if (kind == 3) { // tags and attributes registered after the document was made are not in its symbol tables
        int t = tags.rbegin()->first + 1, n = atts.rbegin()->first + 1; if (!W.registerTag(t, "late", XBT_STRING) || !W.registerAttr(n, "lateattr", XBT_STRING) || !W.allRegistered()) { mc::nontrivial(); return; }
        BW_element *x = W.tagStr(t, "v"); if (x) { if (W.Write(x)) return fail("element with a tag unknown to the document was appended"); if (mc::readfile("l.xb") != before) return fail("a refused append changed the document"); }
        x = make(W, rec(1)); if (!x) return fail("element cannot be made"); x = x->attrStr(n, "v"); if (x) { if (W.Write(x)) return fail("element with an attribute unknown to the document was appended"); if (mc::readfile("l.xb") != before) return fail("a refused append changed the document"); }
        TD p = rec(2); x = make(W, p); BW_element *y = W.tagStr(t, "v"); if (x && y) { x->add(y); if (W.Write(x)) return fail("element with a child unknown to the document was appended"); if (mc::readfile("l.xb") != before) return fail("a refused append changed the document"); }
        L.recs = {rec(3)}; if (!W.Write(make(W, rec(3)))) return fail("Write after refused ones failed"); if (!read_log("l.xb", L, 1, true, "after refused appends")) return;
    }
    if (kind == 4) { if (C.Append(nullptr)) return fail("Append(nullptr) succeeded"); if (mc::readfile("l.xb") != before) return fail("a refused append changed the document"); }
    if (kind == 5) { // second conversion with the same creator, then the log goes on
        BW_element *r = make(W, L.open); W.setRoot(r); if (!C.DoAll()) return fail("second conversion failed"); if (mc::readfile("l.xb").size() != before.size()) return fail("second conversion gives another document"); BW_element *x = make(W, rec(1)); L.recs = {rec(1)}; if (!W.Write(x)) return fail("Write after the second conversion failed"); if (!read_log("l.xb", L, 1, true, "after the second conversion")) return;
    }
    mc::nontrivial();
}
static S refuse_desc(uint64_t i) { const char *k[] = {"before DoAll", "target is .xbw", "document was deleted", "unknown tag", "null", "DoAll twice"}; return S(k[i % 6]) + ", base " + std::to_string(i / 6); }

// ---- C09
struct Base { S name, data; size_t doc; };
static std::vector<Base> bases;
static void build_bases() {
    char dir[] = "/tmp/vreaderXXXXXX"; if (!mkdtemp(dir)) abort(); S old = mc::readfile("/proc/self/cwd"); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); if (chdir(dir)) abort(); { Quiet q; int so = dup(1), se = dup(2), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); dup2(nul, 2);
    auto take = [&](const char *n, const char *fn) { S s = mc::readfile(fn); size_t d = s.size() >= 12 ? (size_t) * (int32_t *)(s.data() + 8) : 0; bases.push_back({n, s, d}); };
    auto xml = [&](const char *n, const char *text, bool packed) { put("s.xml", text); if (packed) { Bin_xml_packer C("s.xml", "s.xb"); C.DoAll(); } else { Bin_xml_creator C("s.xml", "s.xb"); C.DoAll(); } take(n, "s.xb"); };
    xml("minimal", "<a/>", false); xml("packed", "<r><b x=\"1\">t</b><b x=\"1\">t</b><c><b x=\"1\">t</b></c></r>", true);
    for (int half = 0; half < 2; half++) { TD d = node(0, val(XBT_NULL, 0)); for (int t = half * 11; t < half * 11 + 11; t++) d.ch.push_back(node(1 + t % 11, value(t, 1), {{t % 11, value(t, 1)}})); std::map<int, int> tags, atts; names_of(d, tags, atts); unlink("w.xbw"); BW W("w.xbw", nullptr, 0x200000, 0); W.Initialize();
        if (write_base(W, d, tags, atts)) { Bin_xml_creator C(&W, "w.xb"); C.DoAll(); } W.Finalize(); take(half ? "typed 2" : "typed 1", "w.xb"); }
    { Log L; L.b = 1; L.open = base(1, {}, true); std::map<int, int> tags, atts; names_of(L.open, tags, atts); for (int k : {1, 2, 3}) names_of(rec(k), tags, atts); unlink("w.xbw"); BW W("w.xbw", nullptr, 0x200000, 0); W.Initialize(); write_base(W, L.open, tags, atts); Bin_xml_creator C(&W, "l.xb"); C.DoAll(); for (int k : {1, 2, 3}) W.Write(make(W, rec(k))); W.Finalize(); take("log", "l.xb"); }
    fflush(stdout); dup2(so, 1); dup2(se, 2); close(nul); close(so); close(se); }
    for (const char *f : {"s.xml", "s.xb", "w.xbw", "w.xb", "l.xb", "l.xbw"}) unlink(f); if (chdir(cwd)) abort(); rmdir(dir);
}
static void mutant(const S &m) { put("d.xb", m); use("d.xb"); }
static bool patch(int fd, size_t off, const void *p, size_t n) { return pwrite(fd, p, n, off) == (ssize_t)n; }
struct Where { int b; size_t off; };
static Where at(uint64_t i, size_t unit) { for (size_t b = 0; b < bases.size(); b++) { size_t n = bases[b].data.size() / unit; if (i < n) return {(int)b, (size_t)i * unit}; i -= n; } return {-1, 0}; }
static uint64_t positions(size_t unit) { uint64_t c = 0; for (auto &b : bases) c += b.data.size() / unit; return c; }
static S wdesc(uint64_t i, size_t unit) { Where w = at(i, unit); return w.b < 0 ? S("?") : bases[w.b].name + " document of " + std::to_string(bases[w.b].data.size()) + " bytes, offset " + std::to_string(w.off); }
static void pristine() {
    for (auto &b : bases) { put("d.xb", b.data); if (!use("d.xb")) fail("the undamaged %s document is refused", b.name.c_str()); }
    for (auto &a : bases) for (auto &b : bases) for (int dmg = 0; dmg < 3; dmg++) { // named later, opened again while open: after another document, after a damaged one
        put("a.xb", a.data); put("b.xb", b.data); char fa[8] = "a.xb", fb[8] = "b.xb"; Exact e; XB_reader R(nullptr); R.setVerbosity(0); closed(R, "without a name"); if (R.getFilename()) fail("filename of a new reader");
        if (!R.setFilename(fa) || R.setFilename(fb) || R.getFilename() != fa) fail("setFilename does not take exactly the first name"); if (!R.Initialize()) return fail("the reader named later refuses %s", a.name.c_str()); { Use u(R); u.all(); }
        S m = dmg == 1 ? b.data.substr(0, b.doc - 1) : dmg == 2 ? S("") : b.data; put("t.xb", m); rename("t.xb", "a.xb"); bool ok = R.Initialize(); if (ok != (dmg == 0)) return fail("opening again gives %d", ok);
        if (!ok) closed(R, "which refused its second file"); else { Use u(R); u.all(); std::ostringstream o; o << R; S t = as_text("b.xb"); if (o.str() != t) return fail("the second document of a reader differs from the document itself"); }
        if (!R.Finalize() || !R.Finalize()) return fail("Finalize failed"); closed(R, "which was closed"); mc::nontrivial(); if (mc::failed()) return; }
}
static void cut_case(uint64_t i) { // truncated, and truncated with garbage behind
    Where w = at(i, 1); Base &b = bases[w.b]; put("d.xb", b.data.substr(0, w.off)); bool ok = use("d.xb"); if (w.off < b.doc && ok) return fail("a document cut at %zu of %zu is accepted", w.off, b.doc); if (w.off >= b.doc && !ok) return fail("a log cut at %zu behind its document of %zu is refused", w.off, b.doc);
    for (int f : {0x00, 0xff, 0x01, 0x80}) { S m = b.data; for (size_t k = w.off; k < m.size(); k++) m[k] = (char)f; mc::subcase(f); mutant(m); }
    for (int f : {0x00, 0xff}) { S m = b.data.substr(0, w.off) + S(f ? 16 : 4096, (char)f); mutant(m); } mc::nontrivial(7); mc::transitions(7);
}
static void byte_case(uint64_t i) {
    Where w = at(i, 1); Base &b = bases[w.b]; put("d.xb", b.data); int fd = open("d.xb", O_RDWR); uint64_t acc = 0;
    for (int v = 0; v < 256 && !mc::failed(); v++) { if (v == (unsigned char)b.data[w.off]) continue; unsigned char c = v; mc::subcase(v); if (!patch(fd, w.off, &c, 1)) fail("write"); acc += use("d.xb"); mc::nontrivial(); mc::transitions(1); }
    close(fd); (void)acc;
}
static std::vector<uint32_t> words32(const S &d, size_t off) { // interesting values of a 32 bit word: boundaries, sizes, places of the document
    uint32_t o; memcpy(&o, d.data() + off, 4); std::set<uint32_t> s = {0, 1, 2, 3, 4, 7, 8, 12, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffc, 0xfffffff4, 0x7ffffffc, 0x40000000, 0x3fffffff, 0x20000000, 0x10000000, 0x55555556, 0x7fff0000, 0xffff0000, 0x0000ffff, 0x00007fff, 0x00008000, 0x80008000};
    for (int k = -8; k <= 8; k++) { s.insert(o + k); s.insert(d.size() + k); s.insert(d.size() - off + k); s.insert((uint32_t)(0 - off + k)); s.insert((d.size() - off) / 4 + k); s.insert((d.size() - off) / 8 + k); } for (int k = 0; k < 32; k++) s.insert(o ^ (1u << k));
    for (size_t p = 0; p < d.size(); p += 4) { s.insert(p); s.insert((uint32_t)(p - off)); } s.erase(o); return {s.begin(), s.end()};
}
static void word_case(uint64_t i) {
    Where w = at(i, 4); Base &b = bases[w.b]; put("d.xb", b.data); int fd = open("d.xb", O_RDWR); int k = 0;
    for (uint32_t v : words32(b.data, w.off)) { mc::subcase(k++); if (!patch(fd, w.off, &v, 4)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("value %#x", v); break; } }
    close(fd);
}
static void half_case(uint64_t i) { // every value of 16 bit fields that matter, boundaries of others
    Where w = at(i, 2); Base &b = bases[w.b]; put("d.xb", b.data); int fd = open("d.xb", O_RDWR); uint16_t o; memcpy(&o, b.data.data() + w.off, 2);
    std::set<uint16_t> s; for (int k = -24; k <= 300; k++) s.insert(k); for (int k = 0; k < 16; k++) s.insert(o ^ (1 << k)); for (int k : {0x7fff, 0x7ffe, 0x8000, 0x8001, 0x4000, 0x2000, 0x1000, 0x0fff}) s.insert(k);
    for (uint16_t v : s) { mc::subcase(v); if (!patch(fd, w.off, &v, 2)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("value %#x", v); break; } }
    close(fd);
}
// pairs of words (16 bit halves of headers included as whole words), a small set of values each, whole minimal and packed documents
static const std::vector<uint32_t> few(const S &d, size_t off) { uint32_t o; memcpy(&o, d.data() + off, 4); std::set<uint32_t> s = {0, 1, 4, 0xffffffff, 0x80000000, 0x7fffffff, o + 1, o - 1, o + 4, o - 4, o + 0x10000, (uint32_t)d.size(), (uint32_t)(d.size() - off), (uint32_t)(0 - off)}; if (mc::thorough) for (uint32_t x : {o + 8, o - 8, o + 12, o - 12, o ^ 0xffffu, o ^ 0xffff0000u, o + 0x100, o - 0x10000, (uint32_t)d.size() - 4, (uint32_t)d.size() + 4, (uint32_t)(d.size() - off) / 4, (uint32_t)(d.size() - off) - 12, 0x7fffu, 0x40000000u, 12u, 8u}) s.insert(x); s.erase(o); return {s.begin(), s.end()}; }
static std::vector<int> pair_docs() { return {0, 1, 4, 2, 3}; }
static uint64_t npairs() { uint64_t c = 0; for (int b : pair_docs()) c += bases[b].data.size() / 4; return c; }
static void pair_pos(uint64_t i, int &b, size_t &w) { for (int k : pair_docs()) { uint64_t n = bases[k].data.size() / 4; if (i < n) { b = k; w = i * 4; return; } i -= n; } }
static void pair_case(uint64_t i) {
    int bi = 0; size_t w = 0; pair_pos(i, bi, w); Base &b = bases[bi]; put("d.xb", b.data); int fd = open("d.xb", O_RDWR); auto A = few(b.data, w);
    for (size_t u = w + 4; u + 4 <= b.data.size() && !mc::failed(); u += 4) { mc::touch(); auto B = few(b.data, u); for (uint32_t x : A) { if (!patch(fd, w, &x, 4)) fail("write"); for (uint32_t y : B) { mc::subcase(u); if (!patch(fd, u, &y, 4)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("values %#x at %zu and %#x at %zu", x, w, y, u); close(fd); return; } } } if (!patch(fd, u, b.data.data() + u, 4)) fail("write"); }
    close(fd);
}
static S pair_desc(uint64_t i) { int b = 0; size_t w = 0; pair_pos(i, b, w); return bases[b].name + " document, word at " + std::to_string(w) + " with every later word"; }
// every element without children (also the symbol tables) moved to the very end of the file, whole or cut by up to 3 bytes: nothing behind its last byte can stop a reader that misses a check
struct Tail { S data; size_t off, n; S name; int trim; };
static std::vector<Tail> tails;
static void tail_walk(const Base &b, size_t o, std::set<size_t> &seen, int depth) {
    const XML_Item *X = (const XML_Item *)&b.data[o]; const int32_t *ch = (const int32_t *)(b.data.data() + o + sizeof(XML_Item) + X->paramcount * sizeof(XML_Param_Description));
    for (int k = 0; k < X->childcount; k++) { size_t c = o + ch[k]; if (!seen.insert(c).second) continue; const XML_Item *C = (const XML_Item *)&b.data[c]; if (C->childcount) { tail_walk(b, c, seen, depth + 1); continue; }
        for (int trim = 0; trim < 4; trim++) { Tail t; t.data = b.data.substr(0, b.doc); while (t.data.size() % 8 != c % 8) t.data += (char)0; t.off = t.data.size(); t.data += b.data.substr(c, C->length - trim); t.n = t.data.size() - t.off; t.trim = trim; auto set = [&](size_t at, int32_t v) { memcpy(&t.data[at], &v, 4); };
            set((const char *)(ch + k) - b.data.data(), (int32_t)(t.off - o)); set(t.off + offsetof(XML_Item, length), C->length - trim); set(offsetof(XML_Item, length), t.data.size()); t.name = b.name + " document, child " + std::to_string(k) + " in depth " + std::to_string(depth) + " moved to the end" + (trim ? " and cut by " + std::to_string(trim) : S("")); tails.push_back(t); } }
}
static void build_tails() { for (auto &b : bases) { std::set<size_t> seen; tail_walk(b, 0, seen, 1); } }
static uint64_t ntail() { uint64_t c = 0; for (auto &t : tails) c += (t.n + 3) / 4; return c; }
static const Tail &tail_at(uint64_t i, size_t &w) { for (auto &t : tails) { uint64_t n = (t.n + 3) / 4; if (i < n) { w = t.off + 4 * i; return t; } i -= n; } abort(); }
static S tail_desc(uint64_t i) { size_t w; const Tail &t = tail_at(i, w); return t.name + ", offset " + std::to_string(w - t.off) + " of " + std::to_string(t.n); }
static void tail_case(uint64_t i) {
    size_t w; const Tail &t = tail_at(i, w); put("d.xb", t.data); bool ok = use("d.xb"); if (mc::failed()) return; if (!t.trim && !ok) return fail("the undamaged document is refused"); int fd = open("d.xb", O_RDWR);
    for (size_t a = w; a < w + 4 && a < t.data.size(); a++) { for (int v = 0; v < 256; v++) { unsigned char c = v; if (v == (unsigned char)t.data[a]) continue; mc::subcase(a * 256 + v); if (!patch(fd, a, &c, 1)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("byte %zu = %#x", a - t.off, v); close(fd); return; } } if (!patch(fd, a, &t.data[a], 1)) fail("write"); }
    if (w + 4 <= t.data.size()) { for (uint32_t v : words32(t.data, w)) { if (!patch(fd, w, &v, 4)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("word at %zu = %#x", w - t.off, v); close(fd); return; } }
        if (!t.trim || mc::thorough) { auto A = few(t.data, w); for (size_t u = w + 4; u + 4 <= t.data.size(); u += 4) { mc::touch(); auto B = few(t.data, u); for (uint32_t x : A) { if (!patch(fd, w, &x, 4)) fail("write"); for (uint32_t y : B) { if (!patch(fd, u, &y, 4)) fail("write"); use("d.xb"); mc::nontrivial(); mc::transitions(1); if (mc::failed()) { fail("words %#x at %zu and %#x at %zu", x, w - t.off, y, u - t.off); close(fd); return; } } } if (!patch(fd, u, t.data.data() + u, 4)) fail("write"); } } }
    close(fd);
}
// other files than .xb
static uint64_t nforeign() { return 4096 + 300; }
static void foreign_case(uint64_t i) {
    S m; if (i < 300) m = S(i, (char)0); else { i -= 300; static const unsigned char al[] = {0, 1, 0xfe, 0xff}; m = bases[0].data.substr(0, 12); for (int k = 0; k < 6; k++) { static const int pos[] = {0, 2, 4, 8, 9, 3}; m[pos[k]] = (char)al[i >> (2 * k) & 3]; } m += bases[0].data.substr(12); }
    mutant(m); mc::nontrivial(); mc::transitions(1);
}
// deep nesting: chains, chains behind other children, shared elements reached in several depths, appended records
static const std::vector<int> &depths() { static std::vector<int> d; if (d.empty()) { for (int k : {1, 2, 3, 100}) d.push_back(k); for (int p = 256; p <= 1 << 20; p *= 2) for (int k = -3; k <= 3; k++) d.push_back(p + k); for (int k : {1000, 10000, 20000, 50000, 100000, 500000}) d.push_back(k); } return d; }
enum { NSHAPES = 7 }; static const char *shapes[NSHAPES] = {"a chain", "two chains", "a chain with leaves", "8 shared segments", "64 shared segments", "shared segments listed backwards", "a chain in an appended record"};
struct Build { // elements of a document with the header, symbol tables and names of a base
    S t; int name; std::vector<size_t> off; Build(const S &d, int n) : t(d), name(n) {}
    size_t item(int nch) { XML_Item X; memset(&X, 0, sizeof X); X.name = name; X.childcount = nch; X.length = sizeof X + 4 * nch + 4; size_t o = t.size(); t.append((char *)&X, sizeof X); t.append(4 * nch + 4, 0); return o; }
    void link(size_t o, int k, size_t c) { int32_t r = (int32_t)(c - o); memcpy(&t[o + sizeof(XML_Item) + 4 * k], &r, 4); }
    void len(size_t o, size_t n) { int32_t l = n; memcpy(&t[o] + offsetof(XML_Item, length), &l, 4); }
    std::pair<size_t, size_t> chain(int n, int width = 1) { size_t first = item(n > 1 ? width : 0), x = first; for (int i = 1; i < n; i++) { for (int w = 0; w < width - 1; w++) link(x, w, item(0)); size_t y = item(i < n - 1 ? width : 0); link(x, width - 1, y); x = y; } return {first, x}; }
};
struct Count : std::streambuf { uint64_t n = 0; int overflow(int c) override { n++; return c; } std::streamsize xsputn(const char *, std::streamsize k) override { n += k; return k; } };
static void deep_case(uint64_t i) {
    int N = depths()[i / NSHAPES], sh = i % NSHAPES; bool rec = sh == 6; Base &b = bases[rec ? 4 : 0]; S d = b.data; XML_Item *D = (XML_Item *)&d[0], *P = D->getChildByName(XTNR_PAYLOAD); if (!P) return fail("no payload in the base"); size_t po = (char *)P - &d[0]; XML_Item *R0 = P->getChildByIndex(0); int name = R0->name;
    Build B(rec ? d : d.substr(0, (char *)R0 - &d[0]), name); size_t from = B.t.size(); uint64_t cnt = 0; // elements below the root of what is nested
    if (sh == 0 || rec) { B.chain(N); cnt = N - 1; }
    else if (sh == 1) { size_t r = B.item(2); B.link(r, 0, B.chain(N).first); B.link(r, 1, B.chain(N).first); cnt = 2 * (uint64_t)N; }
    else if (sh == 2) { B.chain(N, 3); cnt = 3 * (uint64_t)(N - 1); }
    else { int k = sh == 4 ? 64 : 8; if (N < k) { mc::nontrivial(); return; } std::vector<std::pair<size_t, size_t>> seg; size_t r = B.item(k); int left = N; uint64_t below = 0;
        for (int q = 0; q < k; q++) { int m = left / (k - q); left -= m; size_t f = B.item(1), x = f; for (int j = 1; j < m; j++) { size_t y = B.item(1); B.link(x, 0, y); x = y; } if (seg.empty()) { ((XML_Item *)&B.t[x])->childcount = 0; } else B.link(x, 0, seg.back().first); seg.push_back({f, x}); below += m; cnt += below; }
        for (int q = 0; q < k; q++) B.link(r, q, seg[sh == 5 ? k - 1 - q : q].first); }
    B.len(from, B.t.size() - from); if (!rec) { B.len(po, B.t.size() - po); B.len(0, B.t.size()); } put("d.xb", B.t);
    Exact e; char nm[8] = "d.xb"; XB_reader R(nm); R.setVerbosity(0); bool ok = R.Initialize(); XML_Item *X = nullptr;
    if (ok && rec) { int it = 0, k = 0; XML_Item *c = R.getRoot(); while (XML_Item *y = c->getNextChild(R, it)) { if (++k > c->childcount + 2) { X = y; break; } } if (k < c->childcount + 2) return fail("records before the nested one are lost"); } else if (ok) X = R.getRoot(); else if (rec) return fail("a log with a nested record is refused");
    if (!X) { if (N <= 1000) return fail("%s of %d elements is refused", shapes[sh], N); if (!ok) closed(R, "which refused its file"); mc::nontrivial(); return; }
    auto cb = [](XML_Item *, void *u, int) { ++*(uint64_t *)u; }; uint64_t n = 0; X->ForAllChildrenRecursively(cb, &n, 0); if (n != cnt) return fail("ForAllChildrenRecursively visits %llu of %llu", (unsigned long long)n, (unsigned long long)cnt); n = 0; X->ForAllChildrenRecursively_PostOrder(cb, &n, 0); if (n != cnt) return fail("PostOrder visits %llu of %llu", (unsigned long long)n, (unsigned long long)cnt);
    static XML_Item *anc[XML_MAX_DEEP]; n = 0; X->ForAllChildrenRecursively_PostOrderA([](XML_Item *, void *u, int, XML_Item **) { ++*(uint64_t *)u; }, &n, 0, anc); if (n != cnt) return fail("PostOrderA visits %llu of %llu", (unsigned long long)n, (unsigned long long)cnt);
    if (N <= 20000 && cnt < 40000) { Count c; std::ostream o(&c); o << R; if (c.n < cnt * 5) return fail("text of %llu elements has %llu characters", (unsigned long long)cnt, (unsigned long long)c.n); }
    mc::nontrivial(); mc::transitions(cnt);
}
static S deep_desc(uint64_t i) { return S(shapes[i % NSHAPES]) + " of " + std::to_string(depths()[i / NSHAPES]) + " nested elements"; }
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    build_bases(); build_tails(); auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
    std::vector<mc::Space> s;
    s.push_back({"C08.log", nlog(), log_case, log_desc, quiet}); s.push_back({"C08.align", nalign(), align_case, align_desc, quiet}); s.push_back({"C08.big", nbig(), big_case, big_desc, quiet}); s.push_back({"C08.refuse", nrefuse(), refuse_case, refuse_desc, quiet});
    s.push_back({"C09.whole", 1, [](uint64_t) { pristine(); mc::nontrivial(); }, [](uint64_t) { return S("undamaged documents"); }, quiet});
    s.push_back({"C09.cut", positions(1), cut_case, [](uint64_t i) { return wdesc(i, 1); }, quiet}); s.push_back({"C09.byte", positions(1), byte_case, [](uint64_t i) { return wdesc(i, 1); }, quiet});
    s.push_back({"C09.half", positions(2), half_case, [](uint64_t i) { return wdesc(i, 2); }, quiet}); s.push_back({"C09.word", positions(4), word_case, [](uint64_t i) { return wdesc(i, 4); }, quiet});
    s.push_back({"C09.pairs", npairs(), pair_case, pair_desc, quiet}); s.push_back({"C09.foreign", nforeign(), foreign_case, [](uint64_t i) { return "foreign file " + std::to_string(i); }, quiet});
    s.push_back({"C09.tail", ntail(), tail_case, tail_desc, quiet});
    s.push_back({"C09.deep", depths().size() * NSHAPES, deep_case, deep_desc, quiet});
    return mc::main_(c, v, s);
}

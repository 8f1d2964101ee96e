// C15: crash points. The process is killed at any system call, at any byte of any write, between any two steps of its work:
// what is in the files then is opened by the real reader and by the real write pool and compared with the model.
#include "pool.h"
#include <binary_xml/bin_json_plugin.h>
#include <binary_xml/bin_xml_plugin.h>
#include <sys/stat.h>
#include <fcntl.h>

static std::function<void()> point;                       // a crash point: the files are as they are now
static std::function<void(const char *, size_t)> writing; // a write: any prefix of it can be in the file
static bool inside;
struct In { bool was; In() : was(inside) { inside = true; } ~In() { inside = was; } };
struct Out { bool was; Out() : was(inside) { inside = false; } ~Out() { inside = was; } };
static void here() { if (inside && point && !mc::failed()) { Out o; point(); } }
extern "C" {
int __real_open(const char *, int, ...); int __real_creat(const char *, mode_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_ftruncate(int, off_t);
int __wrap_open(const char *n, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); int r = __real_open(n, fl, m); if (fl & (O_CREAT | O_TRUNC)) here(); return r; }
int __wrap_creat(const char *n, mode_t m) { int r = __real_creat(n, m); here(); return r; }
ssize_t __wrap_write(int f, const void *b, size_t n) { if (inside && writing && !mc::failed()) { Out o; writing((const char *)b, n); } ssize_t r = __real_write(f, b, n); here(); return r; }
int __wrap_close(int f) { here(); int r = __real_close(f); here(); return r; }
int __wrap_ftruncate(int f, off_t n) { here(); int r = __real_ftruncate(f, n); here(); return r; }
}

// ---------------- what may be found
static bool read_xb(const S &img, bool &accepted) { mc::writefile("c.xb", img); char n[64]; strcpy(n, "c.xb"); XB_reader R(n); accepted = R.Initialize(); R.Finalize(); return true; }
static void check_xb(const S &img, const Doc &d, const S &old, const char *what) { // refused, the older document, or the document
    mc::states(1); if (img == old) return; mc::writefile("c.xb", img); char n[64]; strcpy(n, "c.xb"); XB_reader R(n);
    if (R.Initialize()) { Cols cols; columns(d, cols); Walk w; w.R = &R; w.cols = &cols; if (!same_item(w, R.getRoot(), d)) fail("%s: the reader accepts a wrong document (%zu bytes)", what, img.size()); }
    R.Finalize();
}
static void check_xbw(const S &img, const Doc &d, const S &old, const char *what) { // refused, no document, the older document, or the document
    mc::states(1); if (img == old) return; mc::writefile("c.xbw", img); BW W("c.xbw", nullptr, 0x40000, 0);
    if (W.Initialize() && W.getRoot() && !same_bw(W, (BW_element *)W.getRoot(), d)) fail("%s: the .xbw file holds a wrong document (%zu bytes)", what, img.size());
    W.Finalize();
}

// ---------------- C15.convert
static Doc leaf(const S &n, const S &v) { Doc d; d.name = n; d.val = v; return d; }
static std::vector<Doc> &docs() {
    static std::vector<Doc> v; if (!v.empty()) return v;
    v.push_back(leaf("r", "")); v.push_back(leaf("r", "x")); v.push_back(leaf("r", "12"));
    { Doc d = leaf("r", "1.5"); d.at = {{"p", "text"}, {"q", "7"}}; d.ch = {leaf("a", "12"), leaf("b", "2020-02-29"), leaf("b", "")}; v.push_back(d); }
    { Doc d = leaf("r", ""); for (int i = 0; i < 6; i++) { Doc a = leaf("item", i % 2 ? "same" : "other"); a.at = {{"k", std::to_string(i % 3)}}; a.ch = {leaf("x", "1"), leaf("y", "deep")}; d.ch.push_back(a); } v.push_back(d); }   // packed: shared elements
    { Doc d = leaf("r", ""), *p = &d; for (int i = 0; i < 12; i++) { p->ch = {leaf("n" + std::to_string(i), std::to_string(i * 1000))}; p = &p->ch[0]; } v.push_back(d); }
    { Doc d = leaf("r", ""); const char *val[] = {"-5", "3000000000", "12345678901", "1.25", "2020-02-29", "2020-02-29T10:11:12Z", "2020-02-29T10:11:12.345Z", "0123456789abcdef0123456789abcdef01234567", "00112233-4455-6677-8899-aabbccddeeff", "192.168.1.2", "text with spaces", "\xc5\xbelu\xc5\xa5"}; int i = 0; for (auto x : val) { Doc a = leaf("v" + std::to_string(i), x); a.at = {{"w" + std::to_string(i++), x}}; d.ch.push_back(a); } v.push_back(d); }
    { Doc d = leaf("r", S(300, 'v')); d.at = {{"long", S(500, 'a')}}; d.ch = {leaf("e", S(200, 'e'))}; v.push_back(d); }
    { Doc d = leaf("r", ""); for (int i = 0; i < 5; i++) { Doc a = leaf("big", S(4000 + i, 'a' + i)); a.at = {{"p", S(3000, 'z')}}; d.ch.push_back(a); } v.push_back(d); } // grows several times in .xbw
    return v;
}
struct Src : Bin_xml_plugin { // a source whose callbacks are crash points
    using Bin_xml_plugin::Bin_xml_plugin;
    const char *getNodeName(void *e) override { here(); return Bin_xml_plugin::getNodeName(e); }
    const char *getNodeValue(void *e) override { here(); return Bin_xml_plugin::getNodeValue(e); }
    void ForAllChildren(OnElement_t f, void *p, void *u) override { here(); Bin_xml_plugin::ForAllChildren(f, p, u); here(); }
    void ForAllParams(OnParam_t f, void *p, void *u) override { here(); Bin_xml_plugin::ForAllParams(f, p, u); here(); }
};
static S made(const Doc &d, int kind) { mc::writefile("m.xml", xml_of(d)); const char *dst = kind == 2 ? "m.xbw" : "m.xb"; std::unique_ptr<Bin_xml_creator> C(kind == 1 ? new Bin_xml_packer("m.xml", dst) : new Bin_xml_creator("m.xml", dst, kind == 2 ? XBTARGET_XBW : XBTARGET_XB)); C->DoAll(); C.reset(); S r = mc::readfile(dst); unlink(dst); return r; }
enum { OLD = 5 };
static S olddoc(int o, int kind) { // what was there before
    if (o == 0) return ""; if (o == 4) return S(40000, '\x07');
    static std::map<int, S> c; S &r = c[o * 3 + kind]; if (!r.empty()) return r; Doc d = leaf("old", "1"); if (o == 2) d.ch = {leaf("o", S(900, 'o')), leaf("p", "5")}; if (o == 3) for (int i = 0; i < 10; i++) d.ch.push_back(leaf("o", S(4000 + i, 'o'))); return r = made(d, kind);
}
static void run_convert(uint64_t i) {
    int part = i % 4; i /= 4; int kind = i % 3; i /= 3; int o = i % OLD; const Doc &d = docs()[i / OLD]; S old = olddoc(o, kind); const char *dst = kind == 2 ? "d.xbw" : "d.xb"; uint64_t n = 0;
    mc::writefile("d.xml", xml_of(d)); unlink(dst); if (o) mc::writefile(dst, old);
    auto check = [&](const S &img, const char *what) { mc::subcase(n); mc::touch(); if (n++ % 4 != (uint64_t)part) return; kind == 2 ? check_xbw(img, d, old, what) : check_xb(img, d, old, what); mc::transitions(1); };
    point = [&] { check(mc::readfile(dst), "killed between two calls"); };
    writing = [&](const char *b, size_t k) { S now = mc::readfile(dst); for (size_t j = 1; j < k && !mc::failed(); j++) check(now + S(b, j), "killed inside of a write"); };
    { Src *src = new Src("d.xml", nullptr); bool ok; { std::unique_ptr<Bin_xml_creator> C(kind == 1 ? new Bin_xml_packer(src, dst) : new Bin_xml_creator(src, dst, kind == 2 ? XBTARGET_XBW : XBTARGET_XB)); In in; ok = C->DoAll(); } delete src; if (!ok) fail("the conversion failed"); }
    point = nullptr; writing = nullptr; if (mc::failed()) return; S img = mc::readfile(dst); bool a; if (kind != 2 && (read_xb(img, a), !a)) return fail("the result is refused"); old = "-"; check_xb("", d, "", ""); kind == 2 ? check_xbw(img, d, old, "result") : check_xb(img, d, old, "result"); mc::nontrivial(n / 4);
}

// ---------------- C15.pool: histories of a write pool, crash points of the last operation
static bool reg(BW &W) { const char *T[] = {"root", "a", "b"}; for (int i = 0; i < 3; i++) if (!W.registerTag(i, T[i], i ? i == 1 ? XBT_INT32 : XBT_STRING : XBT_NULL)) return false; return W.registerAttr(0, "p", XBT_STRING) && W.registerAttr(1, "q", XBT_INT32) && W.allRegistered(); }
static const char *OPN[] = {"add", "add big", "attribute", "big attribute", "remove first", "replace last", "set longer text", "Clear", "reopen", "add list", "add inside"};
enum { NOPS = 11 };
static int DP() { return mc::thorough ? 6 : 5; }
struct Pool {
    std::unique_ptr<BW> W; Doc m; bool rooted = false; int no = 0; std::function<void()> step;
    BW_element *root() { return (BW_element *)W->getRoot(); }
    BW_element *last() { return W->BWE(W->BWE(root()->first_child)->prev); }
    bool open(bool fresh) { if (fresh) unlink("w.xbw"); W.reset(new BW("w.xbw", nullptr, 0x80000, 0)); return W->Initialize(); }
    BW_element *fresh(bool str, const S &v) { BW_element *e = str ? W->tagStr(2, v.c_str()) : W->tagInt32(1, atoi(v.c_str())); if (!e) fail("a new element is refused"); step(); return e; }
    bool newroot() { BW_element *r = W->tag(0); if (!r) { fail("no root"); return false; } step(); W->setRoot(r); m = Doc(); m.name = "root"; rooted = true; step(); return true; }
    bool op(int o) { // model changes together with the one call that makes the change visible
        no++; S num = std::to_string(100 + no), big(9000 + no, 'a' + no);
        switch (o) {
        case 0: { BW_element *e = fresh(false, num); if (!e) return false; root()->add(e); m.ch.push_back(leaf("a", num)); step(); return true; }
        case 1: { BW_element *e = fresh(true, big); if (!e) return false; root()->add(e); m.ch.push_back(leaf("b", big)); step(); return true; }
        case 2: case 3: { BW_element *e = m.ch.empty() ? root() : last(); Doc &x = m.ch.empty() ? m : m.ch.back(); S v = o == 2 ? num : S(5000 + no, 'A' + no); auto before = x.at; x.at.push_back({o == 2 ? "q" : "p", v}); Doc after = m; x.at = before; if (!(o == 2 ? e->attrInt32(1, atoi(v.c_str())) : e->attrStr(0, v.c_str()))) { fail("an attribute is refused"); return false; } m = after; step(); return true; }
        case 4: if (m.ch.empty()) return false; root()->remove(W->BWE(root()->first_child)); m.ch.erase(m.ch.begin()); step(); return true;
        case 5: { if (m.ch.empty()) return false; BW_element *e = fresh(true, "new" + num); if (!e) return false; root()->replace(last(), e); m.ch.back() = leaf("b", "new" + num); step(); return true; }
        case 6: { int k = 0; for (auto &c : m.ch) { if (c.name == "b") break; k++; } if (k == (int)m.ch.size()) return false; BW_element *e = W->BWE(root()->first_child); for (int j = 0; j < k; j++) e = W->BWE(e->next); S v = m.ch[k].val + num; if (!e->setStr(W.get(), root(), v.c_str())) { fail("setStr is refused"); return false; } m.ch[k].val = v; step(); return true; }
        case 7: if (!W->Clear() || !W->allRegistered()) { fail("Clear failed"); return false; } rooted = false; step(); return newroot();
        case 8: step(); W->Finalize(); step(); if (!open(false) || !reg(*W)) { fail("reopening failed"); return false; } step(); return true;
        case 9: { BW_element *e = fresh(false, num), *f = e ? fresh(true, "list" + num) : nullptr; if (!f) return false; e->join(f); step(); root()->add(e); m.ch.push_back(leaf("a", num)); m.ch.push_back(leaf("b", "list" + num)); step(); return true; }
        case 10: { if (m.ch.empty()) return false; BW_element *p = last(), *e = fresh(false, num); if (!e) return false; BW_element *g = fresh(true, "in" + num); if (!g) return false; e->add(g); step(); p->add(e); Doc x = leaf("a", num); x.ch = {leaf("b", "in" + num)}; m.ch.back().ch.push_back(x); step(); return true; }
        }
        return false;
    }
};
static void check_image(Pool &p, const S &img, bool extend, const char *what) {
    mc::states(1); mc::writefile("c.xbw", img); Doc m = p.m;
    { BW W("c.xbw", nullptr, 0x80000, 0); if (!W.Initialize()) return fail("%s: the pool cannot be opened (%zu bytes)", what, img.size());
      if (!p.rooted) { if (W.getRoot()) fail("%s: there is a document after Clear", what); return; }
      if (!W.getRoot()) return fail("%s: the document is lost", what); if (!same_bw(W, (BW_element *)W.getRoot(), m)) return fail("%s", what);
      if (!extend) return; if (!reg(W)) return fail("%s: symbols are refused", what);
      BW_element *e = W.tagStr(2, S(20000, 'E').c_str()), *f = W.tagInt32(1, 77); if (!e || !f) return fail("%s: the pool cannot be extended", what); ((BW_element *)W.getRoot())->add(e)->add(f); m.ch.push_back(leaf("b", S(20000, 'E'))); m.ch.push_back(leaf("a", "77")); if (!same_bw(W, (BW_element *)W.getRoot(), m)) return fail("%s, extended", what); }
    BW W("c.xbw", nullptr, 0x80000, 0); if (!W.Initialize() || !W.getRoot()) return fail("%s: the extended pool cannot be opened", what); if (!same_bw(W, (BW_element *)W.getRoot(), m)) fail("%s, extended and opened again", what);
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static S history(uint64_t i) { int len = 1; while (i >= ipow(NOPS, len)) { i -= ipow(NOPS, len); len++; } S s; for (int k = 0; k < len; k++, i /= NOPS) s += (k ? "; " : "") + S(OPN[i % NOPS]); return s; }
static uint64_t pool_count() { uint64_t n = 0; for (int l = 1; l <= DP(); l++) n += ipow(NOPS, l); return n; }
static void run_pool(uint64_t i) {
    int len = 1; while (i >= ipow(NOPS, len)) { i -= ipow(NOPS, len); len++; }
    Pool p; p.step = [] {}; if (!p.open(true) || !reg(*p.W)) return fail("a new pool failed"); if (!p.newroot()) return; int crash = 0;
    for (int k = 0; k < len && !mc::failed(); k++, i /= NOPS) {
        if (k == len - 1) { auto snap = [&](const char *what) { mc::subcase(crash++); mc::transitions(1); check_image(p, mc::readfile("w.xbw"), true, what); }; p.step = [&p, snap] { if (!mc::failed()) { Out o; snap("killed after a step"); } }; point = [&p, snap] { snap("killed inside of a step"); }; }
        bool done; { In in; done = p.op(i % NOPS); } if (!done) break;
    }
    point = nullptr; p.step = nullptr; if (crash) mc::nontrivial();
}
// ---------------- C15.log: appending to an .xb file
static const char *RN[] = {"int", "empty text", "text", "long text", "attributes", "children"};
enum { NREC = 6 };
static int RL() { return mc::thorough ? 4 : 3; }
static BW_element *record(BW &W, int k, int no, Doc &d) {
    S num = std::to_string(100 + no), t = "text" + num, big(1500 + 37 * no, 'a' + no);
    switch (k) {
    case 0: d = leaf("a", num); return W.tagInt32(1, 100 + no);
    case 1: d = leaf("b", ""); return W.tagStr(2, "");
    case 2: d = leaf("b", t); return W.tagStr(2, t.c_str());
    case 3: d = leaf("b", big); return W.tagStr(2, big.c_str());
    case 4: { d = leaf("a", num); d.at = {{"p", t}, {"q", num}}; BW_element *e = W.tagInt32(1, 100 + no); return e ? e->attrStr(0, t.c_str())->attrInt32(1, 100 + no) : e; }
    default: { d = leaf("root", ""); d.ch = {leaf("a", num), leaf("root", ""), leaf("b", t)}; d.ch[1].ch = {leaf("b", t)}; BW_element *e = W.tag(0), *f = W.tag(0); return e && f ? e->add(W.tagInt32(1, 100 + no))->add(f->add(W.tagStr(2, t.c_str())))->add(W.tagStr(2, t.c_str())) : nullptr; }
    }
}
static void check_log(const S &img, const Doc &m, Cols &cols, size_t lo, size_t hi, const char *what) { // the records written, one in progress only as a whole
    mc::states(1); mc::writefile("c.xb", img); char n[64]; strcpy(n, "c.xb"); XB_reader R(n); R.verbosity = 0; if (!R.Initialize()) return fail("%s: the log is refused (%zu bytes)", what, img.size());
    int it = 0; size_t k = 0; XML_Item *root = R.getRoot();
    while (XML_Item *x = root->getNextChild(R, it)) { if (k >= hi) return fail("%s: more than %zu records (%zu bytes)", what, hi, img.size()); Walk w; w.R = &R; w.cols = &cols; if (!same_item(w, x, m.ch[k++])) return fail("%s: record %zu (%zu bytes)", what, k - 1, img.size()); }
    if (k < lo) fail("%s: %zu of %zu records are read (%zu bytes)", what, k, lo, img.size()); R.Finalize();
}
static uint64_t log_count() { uint64_t n = 0; for (int l = 1; l <= RL(); l++) n += ipow(NREC, l); return n * 2; }
static void run_log(uint64_t i) {
    bool pre = i % 2; i /= 2; int len = 1; while (i >= ipow(NREC, len)) { i -= ipow(NREC, len); len++; }
    BW W("w.xbw", nullptr, 0x80000, BIN_WRITE_CFG_ALWAYS_CREATE_NEW); if (!W.Initialize() || !reg(W)) return fail("a new pool failed"); BW_element *r = W.tag(0); if (!r) return fail("no root"); W.setRoot(r);
    Doc m = leaf("root", ""); if (pre) { r->add(W.tagInt32(1, 5)); m.ch.push_back(leaf("a", "5")); } r->add(W.tag(XTNR_ET_TECERA)); unlink("log.xb");
    Bin_xml_creator C(&W, "log.xb"); if (!C.DoAll() || !W.Clear() || !W.allRegistered()) return fail("the log cannot be started");
    std::vector<Doc> rec(len); Doc full = m; size_t have = m.ch.size(); uint64_t n = 0; std::vector<int> kinds; for (int k = 0; k < len; k++, i /= NREC) kinds.push_back(i % NREC);
    for (int k = 0; k < len && !mc::failed(); k++) {
        Doc d; BW_element *e = record(W, kinds[k], k, d); if (!e) return fail("a record is refused"); full.ch.push_back(d); S before = mc::readfile("log.xb"); Doc cur = full; S last; Cols cols; columns(cur, cols);
        auto check = [&](const S &img, const char *what) { mc::subcase(n++); mc::touch(); mc::transitions(1); mc::nontrivial(); if (img.substr(0, before.size()) != before) return fail("%s: what was written before is changed", what); check_log(img, cur, cols, have, have + 1, what); };
        point = [&] { S now = mc::readfile("log.xb"); if (now != last) check(last = now, "killed between two calls"); };
        writing = [&](const char *b, size_t z) { S now = mc::readfile("log.xb"); for (size_t j = 1; j < z && !mc::failed(); j++) check(now + S(b, j), "killed inside of a write"); };
        bool ok; { In in; ok = W.Write(e); } point = nullptr; writing = nullptr; if (mc::failed()) return; if (!ok) return fail("an append failed"); have++; check_log(mc::readfile("log.xb"), cur, cols, have, have, "finished append");
    }
}
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
    s.push_back({"C15.convert", docs().size() * OLD * 3 * 4, run_convert, [](uint64_t i) { static const char *K[] = {".xb", "packed .xb", ".xbw"}; static const char *O[] = {"no file", "a small document", "a document", "a big document", "a foreign file"}; return "document " + std::to_string(i / 4 / 3 / OLD) + " to " + K[i / 4 % 3] + " over " + O[i / 12 % OLD]; }, quiet});
    s.push_back({"C15.pool", pool_count(), run_pool, [](uint64_t i) { return history(i); }, quiet});
    s.push_back({"C15.log", log_count(), run_log, [](uint64_t i) { S t = i % 2 ? "log with a record:" : "empty log:"; i /= 2; int len = 1; while (i >= ipow(NREC, len)) { i -= ipow(NREC, len); len++; } for (int k = 0; k < len; k++, i /= NREC) t += S(k ? "; " : " ") + RN[i % NREC]; return t; }, quiet});
    return mc::main_(c, v, s);
}

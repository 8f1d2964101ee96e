// C16: fault enumeration. Every system call the library makes in a scenario is a choice point: it succeeds, fails, or (read, write) is
// short. All schedules with up to a bounded number of faults are executed on the real code.
#include "pool.h"
#include <binary_xml/bin_json_plugin.h>
#include <binary_xml/bin_xml_plugin.h>
#include <binary_xml/files.h>
#include <binary_xml/utils.h>
#include <binary_xml/missings.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>

// ---------------- the controlled system calls
enum Fn { OPEN, CREAT, WRITE, READ, CLOSE, FTRUNC, MMAP, STAT, FSTAT, MKDIR, FOPEN, VFPRINTF, FCLOSE, OPENDIR, READDIR, NFN };
static const char *FNAME[] = {"open", "creat", "write", "read", "close", "ftruncate", "mmap", "stat", "fstat", "mkdir", "fopen", "vfprintf", "fclose", "opendir", "readdir"};
static const int KINDS[] = {1, 1, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};   // 1: error; write and read: 2: half of it, 3: one byte
// memory: what the library allocates in a scenario it also releases in it
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static bool active, counting; static const void *live_tab[1 << 16]; static int live_n, live_lost; static const int LIVE = 1 << 16;
static void on_malloc(const volatile void *p, size_t) { if (!counting || !p) return; if (live_n > LIVE / 2) { live_lost++; return; } uint32_t h = (uint32_t)((uintptr_t)p >> 4) * 2654435761u >> 16; while (live_tab[h % LIVE] > (const void *)1) h++; live_tab[h % LIVE] = (const void *)p; live_n++; }
static void on_free(const volatile void *p) { if (!live_n || !p) return; uint32_t h = (uint32_t)((uintptr_t)p >> 4) * 2654435761u >> 16; while (live_tab[h % LIVE]) { if (live_tab[h % LIVE] == (const void *)p) { live_tab[h % LIVE] = (const void *)1; live_n--; return; } h++; } }
struct Uncounted { bool was; Uncounted() : was(counting) { counting = false; } ~Uncounted() { counting = was; } };
struct Choice { int pos, kind; };
static std::vector<Choice> plan; static std::vector<int> trace; static std::set<int> fds; static std::map<void *, size_t> maps; static std::set<void *> files, dirs; static int disk_full = -1;
static int choose(Fn f) { // 0 = no fault
    if (!active) return 0; Uncounted q; int p = (int)trace.size(); trace.push_back(f); mc::transitions(1);
    if (disk_full >= 0 && p >= disk_full && (f == WRITE || f == FTRUNC || f == CREAT || f == MKDIR)) return 1;
    for (auto &c : plan) if (c.pos == p) return c.kind; return 0;
}
// what a failed call reports: the first one in C16.faults, all of them in C16.errors
enum { NERR = 5 }; static int evar = 0;
static const int ERR[NFN][NERR] = {{EMFILE, EACCES, ENOMEM, EINTR, EIO}, {ENOSPC, EACCES, EROFS, EINTR, EDQUOT}, {ENOSPC, EIO, EINTR, EAGAIN, EFBIG}, {EIO, EINTR, EAGAIN, EISDIR, EINVAL}, {EIO, EINTR, ENOSPC, EDQUOT, EBADF}, {ENOSPC, EIO, EINTR, EFBIG, EPERM}, {ENOMEM, EAGAIN, EACCES, ENODEV, EPERM},
    {EIO, EACCES, ENOMEM, EOVERFLOW, ELOOP}, {EIO, EACCES, ENOMEM, EOVERFLOW, EBADF}, {EACCES, ENOSPC, EROFS, EMLINK, ENAMETOOLONG}, {EMFILE, EACCES, ENOMEM, EINTR, EROFS}, {EIO, ENOSPC, EINTR, ENOMEM, EAGAIN}, {ENOSPC, EIO, EINTR, EDQUOT, EBADF}, {EMFILE, EACCES, ENOMEM, ENFILE, ELOOP}, {EIO, EBADF, EOVERFLOW, ENOMEM, ENOENT}};
#define FAULT(f) (errno = ERR[f][evar])
static void bad(const char *s) { Uncounted q; if (active) fail("%s", s); }
extern "C" {
int __real_open(const char *, int, ...); int __real_creat(const char *, mode_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_read(int, void *, size_t); int __real_close(int); int __real_ftruncate(int, off_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_stat(const char *, struct stat *); int __real_fstat(int, struct stat *); int __real_mkdir(const char *, mode_t);
FILE *__real_fopen(const char *, const char *); int __real_vfprintf(FILE *, const char *, va_list); int __real_fclose(FILE *); DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); int __real_closedir(DIR *);
int __wrap_open(const char *n, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (choose(OPEN)) { FAULT(OPEN); return -1; } int f = __real_open(n, fl, m); if (active && f >= 0) ({ Uncounted q; fds.insert(f); }); return f; }
int __wrap_creat(const char *n, mode_t m) { if (choose(CREAT)) { FAULT(CREAT); return -1; } int f = __real_creat(n, m); if (active && f >= 0) ({ Uncounted q; fds.insert(f); }); return f; }
static size_t part(int k, size_t n) { return k == 2 ? (n + 1) / 2 : n < 1 ? n : 1; }
ssize_t __wrap_write(int f, const void *b, size_t n) { int k = choose(WRITE); if (k == 1) { FAULT(WRITE); return -1; } return __real_write(f, b, k ? part(k, n) : n); }
ssize_t __wrap_read(int f, void *b, size_t n) { int k = choose(READ); if (k == 1) { FAULT(READ); return -1; } return __real_read(f, b, k ? part(k, n) : n); }
int __wrap_close(int f) { int k = choose(CLOSE); if (active && !fds.count(f)) { bad("a descriptor which is not open is closed"); errno = EBADF; return -1; } ({ Uncounted q; fds.erase(f); }); int r = __real_close(f); if (k) { FAULT(CLOSE); return -1; } return r; }
int __wrap_ftruncate(int f, off_t n) { if (choose(FTRUNC)) { FAULT(FTRUNC); return -1; } return __real_ftruncate(f, n); }
void *__wrap_mmap(void *a, size_t n, int p, int fl, int f, off_t o) { if (choose(MMAP)) { FAULT(MMAP); return MAP_FAILED; } void *r = __real_mmap(a, n, p, fl, f, o); if (active && r != MAP_FAILED) ({ Uncounted q; maps[r] = n; }); return r; }
int __wrap_munmap(void *a, size_t n) { if (active) { auto i = maps.find(a); if (i == maps.end()) { bad("memory which is not mapped is unmapped"); errno = EINVAL; return -1; } if (i->second != n) bad("other size is unmapped than was mapped"); ({ Uncounted q; maps.erase(i); }); } return __real_munmap(a, n); }
int __wrap_stat(const char *n, struct stat *s) { if (choose(STAT)) { FAULT(STAT); return -1; } return __real_stat(n, s); }
int __wrap_fstat(int f, struct stat *s) { if (choose(FSTAT)) { FAULT(FSTAT); return -1; } return __real_fstat(f, s); }
int __wrap_mkdir(const char *n, mode_t m) { if (choose(MKDIR)) { FAULT(MKDIR); return -1; } return __real_mkdir(n, m); }
FILE *__wrap_fopen(const char *n, const char *m) { if (choose(FOPEN)) { FAULT(FOPEN); return nullptr; } FILE *f = __real_fopen(n, m); if (active && f) ({ Uncounted q; files.insert(f); }); return f; }
int __wrap_vfprintf(FILE *f, const char *t, va_list a) { if (f != stderr && f != stdout && choose(VFPRINTF)) { FAULT(VFPRINTF); return -1; } return __real_vfprintf(f, t, a); }
int __wrap_fclose(FILE *f) { int k = choose(FCLOSE); if (active && !files.count(f)) { bad("a stream which is not open is closed"); return EOF; } ({ Uncounted q; files.erase(f); }); int r = __real_fclose(f); if (k) { FAULT(FCLOSE); return EOF; } return r; }
DIR *__wrap_opendir(const char *n) { if (choose(OPENDIR)) { FAULT(OPENDIR); return nullptr; } DIR *d = __real_opendir(n); if (active && d) ({ Uncounted q; dirs.insert(d); }); return d; }
struct dirent *__wrap_readdir(DIR *d) { if (choose(READDIR)) { FAULT(READDIR); return nullptr; } return __real_readdir(d); }
int __wrap_closedir(DIR *d) { if (active && !({ Uncounted q; dirs.erase(d); })) bad("a directory which is not open is closed"); return __real_closedir(d); }
}
struct On { On() { active = counting = true; } ~On() { active = counting = false; } };
struct Off { bool was, count; Off() : was(active), count(counting) { active = counting = false; } ~Off() { active = was; counting = count; } };  // the checks inside of a scenario

// ---------------- documents
static Doc leaf(const S &n, const S &v) { Doc d; d.name = n; d.val = v; return d; }
static Doc doc_model() { Doc d; d.name = "r"; d.at = {{"p", "text"}, {"q", "7"}}; Doc a = leaf("a", "12"); a.at = {{"q", "8"}}; Doc b = leaf("b", "2020-02-29"); Doc c = leaf("b", ""); c.ch = {leaf("a", "13"), leaf("a", "13"), leaf("d", S(17000, 'x'))}; d.ch = {a, b, c, leaf("e", "1.5"), leaf("d", S(9000, 'y'))}; d.ch[3].at = {{"p", S(6000, 'z')}}; return d; }
static Doc doc_names() { Doc d; d.name = "r"; for (int i = 0; i < 40; i++) { Doc x = leaf("e" + S(150, 'a' + i % 26) + std::to_string(i), i % 3 ? "1" : "t"); x.at = {{"a" + S(120, 'a' + i % 26) + std::to_string(i), "2"}}; d.ch.push_back(x); } return d; } // tables of symbols longer than a page
static const char *JSON = "{\"users\":[{\"name\":\"Jan\",\"age\":7},{\"name\":\"\\u017d\",\"age\":8}],\"ok\":true}";
static Doc json_model() { Doc d; d.name = "NULL"; Doc u; u.name = "users"; Doc a; a.name = "user"; a.ch = {leaf("name", "Jan"), leaf("age", "7")}; Doc b = a; b.ch = {leaf("name", "\xc5\xbd"), leaf("age", "8")}; u.ch = {a, b}; d.ch = {u, leaf("ok", "true")}; return d; }
static bool same_tree(XB_reader &R, const Doc &d) { Cols cols; columns(d, cols); Walk w; w.R = &R; w.cols = &cols; return same_item(w, R.getRoot(), d); }
static bool xb_is(const char *fn, const Doc &d, const char *what) { Off o; char n[64]; strcpy(n, fn); XB_reader R(n); R.verbosity = 0; bool ok = R.Initialize(); if (!ok) fail("%s: success was reported but the reader refuses the .xb file", what); ok = ok && same_tree(R, d); R.Finalize(); if (!ok) fail("%s", what); return ok; }
static bool xbw_is(const char *fn, const Doc &d, const char *what) { Off o; BW W(fn, nullptr, 0x40000, 0); bool ok = W.Initialize() && W.getRoot(); if (!ok) fail("%s: success was reported but the .xbw file cannot be opened", what); ok = ok && same_bw(W, (BW_element *)W.getRoot(), d); W.Finalize(); if (!ok) fail("%s", what); return ok; }
static void put(const char *fn, const S &s) { Off o; if (!mc::writefile(fn, s)) fail("cannot write %s", fn); }
static S base_xb, base_xbw, base_xb2;   // prepared once
// what stays after a reported failure: nothing, something the reader refuses, the older document or the new one - never a wrong document
static void no_wrong(const char *fn, int kind, const Doc &d) {
    Off o; if (mc::failed()) return; S now = mc::readfile(fn); if (now.empty() || now == base_xb2 || now == base_xbw) return;
    if (kind == 2) { BW W(fn, nullptr, 0x40000, 0); if (W.Initialize() && W.getRoot() && !same_bw(W, (BW_element *)W.getRoot(), d)) fail("failure was reported, but the .xbw file holds a wrong document"); W.Finalize(); return; }
    char n[64]; strcpy(n, fn); XB_reader R(n); R.verbosity = 0; if (R.Initialize() && !same_tree(R, d)) fail("failure was reported, but the reader accepts a wrong document"); R.Finalize();
}

// ---------------- scenarios: each tells whether the work was done completely; checks the result itself
struct Scenario { const char *name; std::function<void()> setup; std::function<void()> run; };
static void old_xb() { put("d.xb", base_xb); }
static void convert(const char *src, const char *dst, int kind, const Doc &d, bool twice) { // kind 0 creator, 1 packer, 2 .xbw
    bool ok = false;
    { std::unique_ptr<Bin_xml_creator> C(kind == 1 ? new Bin_xml_packer(src, dst) : kind == 2 ? new Bin_xml_creator(src, dst, XBTARGET_XBW) : new Bin_xml_creator(src, dst));
      ok = C->DoAll(); if (ok) kind == 2 ? xbw_is(dst, d, "first conversion") : xb_is(dst, d, "first conversion");
      if (!ok) no_wrong(dst, kind, d);
      if (!ok && twice && !mc::failed()) { ok = C->DoAll(); if (ok) kind == 2 ? xbw_is(dst, d, "repeated conversion") : xb_is(dst, d, "repeated conversion"); else no_wrong(dst, kind, d); } }
    if (ok) kind == 2 ? xbw_is(dst, d, "after the converter was released") : xb_is(dst, d, "after the converter was released");
}
static void read_xb(bool twice) { char n[64]; strcpy(n, "d.xb"); XB_reader R(n); R.verbosity = 0; bool ok = R.Initialize(); if (ok) { Off o; if (!same_tree(R, doc_model())) { fail("opened reader"); return; } } if (!ok && twice) { ok = R.Initialize(); if (ok) { Off o; if (!same_tree(R, doc_model())) { fail("reader opened at the second attempt"); return; } } } R.Finalize(); if (twice) { ok = R.Initialize(); if (ok) { Off o; if (!same_tree(R, doc_model())) fail("reader opened again"); } R.Finalize(); } }
static void read_src(const char *fn, const Doc &d) { char n[64]; strcpy(n, fn); XB_reader R(n); R.verbosity = 0; if (R.Initialize()) { Off o; if (!same_tree(R, d)) { fail("reader of the source"); return; } } R.Finalize(); }
// build of a write pool: each step is repeated up to 3 times; what succeeded is in the tree, what failed left no trace
template <class F> static auto again(F f) -> decltype(f()) { for (int i = 0; i < 2; i++) if (auto r = f()) return r; return f(); }
static bool reg(BW &W) { const char *T[] = {"root", "a", "b"}; for (int i = 0; i < 3; i++) if (!again([&] { return W.registerTag(i, T[i], i ? i == 1 ? XBT_INT32 : XBT_STRING : XBT_NULL); })) return false; if (!again([&] { return W.registerAttr(0, "p", XBT_STRING); }) || !again([&] { return W.registerAttr(1, "q", XBT_INT32); })) return false; return again([&] { return W.allRegistered(); }); }
static S big(int i) { return S(2500 + 100 * i, 'a' + i); }
static void grow(BW &W, Doc &m, int from, int n) { // appends elements under the root
    for (int i = from; i < from + n; i++) {
        BW_element *x = again([&] { return i % 2 ? W.tagInt32(1, i) : W.tagStr(2, big(i).c_str()); }); if (!x) continue; Doc d = leaf(i % 2 ? "a" : "b", i % 2 ? std::to_string(i) : big(i)); uint32_t off = x->offset;
        if (again([&] { return W.BWE(off)->attrStr(0, big(i).c_str()); })) d.at.push_back({"p", big(i)}); if (again([&] { return W.BWE(off)->attrInt32(1, i); })) d.at.push_back({"q", std::to_string(i)});
        ((BW_element *)W.getRoot())->add(W.BWE(off)); m.ch.push_back(d);
    }
}
static void build(bool reopen) {
    Doc m; m.name = "root"; bool have = false;
    { BW W("w.xbw", nullptr, 0x40000, 0);
      if (again([&] { return W.Initialize(); }) && reg(W)) { BW_element *r = again([&] { return W.tag(0); }); if (r) { W.setRoot(r); have = true; grow(W, m, 0, 6); { Off o; if (!same_bw(W, (BW_element *)W.getRoot(), m)) { fail("pool after the steps"); return; } } } }
      if (!W.Finalize()) { fail("Finalize failed"); return; } }
    if (have && !xbw_is("w.xbw", m, "pool opened again")) return;
    if (have && reopen) {
        BW W("w.xbw", nullptr, 0x40000, 0); if (again([&] { return W.Initialize(); })) { if (reg(W)) grow(W, m, 6, 3); Off o; if (!same_bw(W, (BW_element *)W.getRoot(), m)) { fail("pool opened again and extended"); return; } }
        W.Finalize(); if (!xbw_is("w.xbw", m, "pool opened for the third time")) return;
    }
    if (have) { Bin_xml_packer C("w.xbw", "w.xb"); if (C.DoAll()) xb_is("w.xb", m, "converted pool"); }
}
static Doc log_model(int recs) { Doc d; d.name = "root"; d.ch = {leaf("a", "5")}; for (int i = 0; i < recs; i++) d.ch.push_back(leaf(i % 2 ? "a" : "b", i % 2 ? std::to_string(100 + i) : big(i))); return d; }
static void append_log() { // records appended one by one; a failed one is repeated
    std::vector<bool> done; bool clean = true; BW W("w.xbw", nullptr, 0x40000, BIN_WRITE_CFG_ALWAYS_CREATE_NEW); if (!W.Initialize() || !reg(W)) return; BW_element *r = W.tag(0); if (!r) return; W.setRoot(r); BW_element *a = W.tagInt32(1, 5); if (!a) return; r->add(a); BW_element *e = W.tag(XTNR_ET_TECERA); if (!e) return; r->add(e);
    Bin_xml_creator C(&W, "log.xb"); if (!C.DoAll()) return;
    if (!W.Clear() || !W.allRegistered()) return;
    size_t n = 0; S before; { Off o; before = mc::readfile("log.xb"); }
    for (int i = 0; i < 3; i++) {
        BW_element *x = i % 2 ? W.tagInt32(1, 100 + i) : W.tagStr(2, big(i).c_str()); if (!x) break; bool ok = false;
        for (int k = 0; k < 2 && !ok; k++) { size_t t0 = trace.size(); ok = W.Write(x); Off o; S now = mc::readfile("log.xb"); if (ok) { if (now.size() <= before.size() || now.substr(0, before.size()) != before) { fail("append changed what was written before"); return; } before = now; } else if (now != before) { bool undo = false; for (auto &c : plan) if (c.pos >= (int)t0 && c.pos < (int)trace.size() && trace[c.pos] == FTRUNC) undo = true; if (disk_full >= 0) undo = true; if (!undo || now.substr(0, before.size()) != before) { fail("a refused append changed the file (%zu bytes -> %zu)", before.size(), now.size()); return; } clean = false; before = now; } }
        if (!ok) break; n++;
    }
    Off o; char nm[64]; strcpy(nm, "log.xb"); XB_reader R(nm); R.verbosity = 0; bool ok = R.Initialize(); if (!ok) fail("the reader refuses the log"); else if (clean) { Doc m = log_model(n); XML_Item *root = R.getRoot(); int it = 0; size_t k = 0; Cols cols; columns(m, cols); while (XML_Item *x = root->getNextChild(R, it)) { if (k >= m.ch.size()) { fail("more records than appended"); break; } Walk w; w.R = &R; w.cols = &cols; if (!same_item(w, x, m.ch[k++])) { fail("record %zu", k); break; } } if (k < m.ch.size()) fail("%zu of %zu records are read", k, m.ch.size()); } R.Finalize();
}
static S content(int n) { S s; for (int i = 0; i < n; i++) s += (char)(i * 31 + i / 251); return s; }
static S sha_ref;   // of content(10000), from the fault free run
static void utils_read() {
    S want = content(10000);
    { int size = -7; char *p = ReadFile("f.bin", true, &size); if (p) { if (size != 10000 || S(p, size) != want) { fail("ReadFile returned something else than the file"); } delete[] p; } if (mc::failed()) return; }
    { std::vector<char> b(12000, 1); int n = file_get_contents("f.bin", b.data(), 12000); if (n > 0 && S(b.data(), n) != want.substr(0, n)) { fail("file_get_contents returned something else than the file"); return; } if (n > 0 && n != 10000) { fail("file_get_contents returned %d of 10000 bytes", n); return; } }
    { unsigned char h[20] = {0}; if (file_getsha1("f.bin", h)) { unsigned char r[20]; SHA1((const unsigned char *)want.data(), want.size(), r); if (memcmp(h, r, 20)) { fail("file_getsha1 reported success with a wrong hash"); return; } } }
    off_t z = FileGetSize("f.bin"); if (z != -1 && z != 10000) { fail("FileGetSize gives %lld", (long long)z); return; } z = file_getsize("f.bin"); if (z != -1 && z != 10000) { fail("file_getsize gives %lld", (long long)z); return; }
}
static void utils_share() {
    int fd = -1; char *p = ShareFileRO("f.bin", &fd, 16384); if (p) { if (memcmp(p, content(10000).data(), 10000)) { fail("ShareFileRO shows something else than the file"); return; } CloseSharedFile(p, 16384, fd, "f.bin"); }
    p = ShareFileRO("f.bin", nullptr, 16384); if (p) CloseSharedFile(p, 16384, -1, "f.bin");
    fd = -1; p = ShareFileRW("f.bin", true, &fd, 16384); if (p) { p[5] = 'Q'; CloseSharedFile(p, 16384, fd, "f.bin"); Off o; if (mc::readfile("f.bin")[5] != 'Q') { fail("a change of the shared file is lost"); return; } }
}
static void utils_write() {
    bool ok = WriteToFile("o.txt", "%s-%d", S(9000, 'w').c_str(), 42); if (ok) { Off o; if (mc::readfile("o.txt") != S(9000, 'w') + "-42") fail("WriteToFile reported success but the file differs"); }
    ok = force_directory("dd/ee/ff/file", 0755); if (ok) { Off o; struct stat s; if (__real_stat("dd/ee/ff", &s) || !S_ISDIR(s.st_mode)) fail("force_directory reported success but the directory is missing"); }
    std::set<S> seen; if (scan_dir("sd", &seen, [](const char *, const char *f, void *u, uint8_t) { ((std::set<S> *)u)->insert(f); return true; }) && seen != std::set<S>{"x", "y", ".z"}) fail("scan_dir reported success but did not visit all files");
}
static std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> v; if (!v.empty()) return v; auto xml = [] { put("d.xml", xml_of(doc_model())); };
    v.push_back({"XML to .xb", [=] { xml(); }, [] { convert("d.xml", "d.xb", 0, doc_model(), true); }});
    v.push_back({"XML to .xb over an older file", [=] { xml(); put("d.xb", base_xb2); }, [] { convert("d.xml", "d.xb", 0, doc_model(), true); }});
    v.push_back({"XML to packed .xb over an older file", [=] { xml(); put("d.xb", base_xb2); }, [] { convert("d.xml", "d.xb", 1, doc_model(), true); }});
    v.push_back({"XML to packed .xb", [=] { xml(); }, [] { convert("d.xml", "d.xb", 1, doc_model(), true); }});
    v.push_back({"XML to .xbw", [=] { xml(); }, [] { convert("d.xml", "d.xbw", 2, doc_model(), true); }});
    v.push_back({"XML to .xbw over an older file", [=] { xml(); put("d.xbw", base_xbw); }, [] { convert("d.xml", "d.xbw", 2, doc_model(), true); }});
    v.push_back({"XML with many names to .xbw", [=] { put("d.xml", xml_of(doc_names())); }, [] { convert("d.xml", "d.xbw", 2, doc_names(), true); }});
    v.push_back({"JSON to packed .xb", [] { put("d.json", JSON); }, [] { convert("d.json", "d.xb", 1, json_model(), true); }});
    v.push_back({"JSON to .xbw", [] { put("d.json", JSON); }, [] { convert("d.json", "d.xbw", 2, json_model(), true); }});
    v.push_back({".xbw to packed .xb", [] { put("e.xbw", base_xbw); }, [] { convert("e.xbw", "e.xb", 1, doc_model(), true); }});
    v.push_back({"reader", old_xb, [] { read_xb(true); }});
    v.push_back({"reader of XML", [=] { xml(); }, [] { read_src("d.xml", doc_model()); }});
    v.push_back({"reader of JSON", [] { put("d.json", JSON); }, [] { read_src("d.json", json_model()); }});
    v.push_back({"write pool", [] {}, [] { build(false); }});
    v.push_back({"write pool opened again", [] {}, [] { build(true); }});
    v.push_back({"log", [] {}, append_log});
    v.push_back({"reading utilities", [] { put("f.bin", content(10000)); }, utils_read});
    v.push_back({"shared files", [] { put("f.bin", content(10000)); }, utils_share});
    v.push_back({"writing utilities", [] { mkdir("sd", 0755); put("sd/x", "1"); put("sd/y", "2"); put("sd/.z", "3"); }, utils_write});
    return v;
}
static const char *FILES[] = {"d.xml", "d.json", "d.xb", "d.xbw", "e.xbw", "e.xb", "w.xbw", "w.xb", "log.xb", "f.bin", "o.txt", "sd/x", "sd/y", "sd/.z"};
static void clean() { for (auto f : FILES) unlink(f); for (auto d : {"sd", "dd/ee/ff", "dd/ee", "dd"}) rmdir(d); }
static void prepare() { // files made by the library without faults
    if (!base_xb.empty()) return; clean(); put("d.xml", xml_of(doc_model())); { Bin_xml_packer C("d.xml", "d.xb"); C.DoAll(); } base_xb = mc::readfile("d.xb"); { Bin_xml_creator C("d.xml", "d.xbw", XBTARGET_XBW); C.DoAll(); } base_xbw = mc::readfile("d.xbw"); put("d.json", JSON); { Bin_xml_packer C("d.json", "d.xb"); C.DoAll(); } base_xb2 = mc::readfile("d.xb"); clean();
}
static S show_plan() { S s; for (auto &c : plan) { if (!s.empty()) s += ", "; s += "call " + std::to_string(c.pos) + (c.pos < (int)trace.size() ? S(" ") + FNAME[trace[c.pos]] : "") + (c.kind == 1 ? " fails" : c.kind == 2 ? " does half" : " does one byte"); } if (disk_full >= 0) s += " disk full from call " + std::to_string(disk_full); return s.empty() ? "no fault" : s; }
static int execute(Scenario &s) { // number of choice points
    clean(); s.setup(); trace.clear(); fds.clear(); maps.clear(); files.clear(); dirs.clear();
    static bool hooked; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } memset(live_tab, 0, sizeof(live_tab)); live_n = live_lost = 0;
    { On on; s.run(); }
    if (!mc::failed() && live_n) { if (live_n) fail("%d allocated blocks are not released", live_n); } live_n = 0;
    if (!mc::failed()) { if (!fds.empty()) fail("%zu descriptors stay open", fds.size()); if (!maps.empty()) fail("%zu mappings stay", maps.size()); if (!files.empty()) fail("%zu streams stay open", files.size()); if (!dirs.empty()) fail("%zu directories stay open", dirs.size()); }
    for (int f : fds) __real_close(f); for (auto &m : maps) __real_munmap(m.first, m.second);
    mc::states(1); mc::nontrivial(); uint64_t h = 7; for (int t : trace) h = h * 31 + t; mc::outcome(h);
    if (mc::failed()) fail("scenario %s: %s", s.name, show_plan().c_str()); return (int)trace.size();
}
static int FAULTS() { return mc::thorough ? 5 : 3; }
enum { POS = 128, PART = 8 };   // a case: scenario x position of the first fault x its kind (0: disk full from the position) x part of the positions of the second fault
static void extend(Scenario &s, int from, int left, int part = -1) { // all faults behind the given position
    int n = execute(s); mc::touch(); if (mc::failed() || !left) return; std::vector<int> t = trace;
    for (int p = from; p < n; p++) if (part < 0 || p % PART == part) for (int k = 1; k <= KINDS[t[p]]; k++) { plan.push_back({p, k}); extend(s, p + 1, left - 1); plan.pop_back(); if (mc::failed()) return; }
}
static void run_case(uint64_t i) {
    prepare(); auto &v = scenarios(); int part = i % PART; i /= PART; Scenario &s = v[i / (POS * 4)]; int p = i / 4 % POS, k = i % 4; plan.clear(); disk_full = -1; evar = 0; mc::subcase(p);
    int n = execute(s); if (mc::failed()) return; std::vector<int> t = trace; if (n > POS) { fail("scenario %s makes %d calls", s.name, n); return; }
    if (p >= n) return;
    if (k == 0) { if (part) return; disk_full = p; execute(s); disk_full = -1; return; }
    if (k > KINDS[t[p]]) return; plan.push_back({p, k}); extend(s, p + 1, FAULTS() - 1, part);
}
static void error_case(uint64_t i) { // all errors a failed call can report, with up to one (thorough: two) faults more
    prepare(); auto &v = scenarios(); int e = 1 + i % (NERR - 1); i /= NERR - 1; Scenario &s = v[i / POS]; int p = i % POS; plan.clear(); disk_full = -1; evar = 0; int n = execute(s); if (mc::failed() || p >= n) return;
    evar = e; plan.push_back({p, 1}); extend(s, p + 1, mc::thorough ? 2 : 1); evar = 0;
}
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto quiet = [] { static char buf[4096]; setvbuf(stdout, buf, _IOFBF, sizeof buf); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); };
    s.push_back({"C16.faults", scenarios().size() * POS * 4 * PART, run_case, [](uint64_t i) { i /= PART; return S("scenario ") + scenarios()[i / (POS * 4)].name + ", " + (i % 4 ? "first fault at call " : "disk full from call ") + std::to_string(i / 4 % POS); }, quiet});
    s.push_back({"C16.errors", scenarios().size() * POS * (NERR - 1), error_case, [](uint64_t i) { uint64_t j = i / (NERR - 1); return S("scenario ") + scenarios()[j / POS].name + ", first failure at call " + std::to_string(j % POS) + " with error " + std::to_string(1 + i % (NERR - 1)); }, quiet});
    return mc::main_(c, v, s);
}

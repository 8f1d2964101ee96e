// C18: the primitives that deduplication rests on: content hash and stable sort.
#include "mc.h"
#include <binary_xml/missings.h>
#include <algorithm>
#include <unistd.h>
#include <string>
#include <vector>
typedef std::string S;
using mc::fail;
// reference SHA-1 (FIPS 180-4), bit by the book
struct Ref { uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    void blocks(const uint8_t *p, size_t n) { for (size_t o = 0; o < n; o += 64) { uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = p[o+4*i] << 24 | p[o+4*i+1] << 16 | p[o+4*i+2] << 8 | p[o+4*i+3];
        for (int i = 16; i < 80; i++) { uint32_t x = w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16]; w[i] = x << 1 | x >> 31; }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = (a << 5 | a >> 27) + f + e + k + w[i]; e = d; d = c; c = b << 30 | b >> 2; b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; } }
    S last(S p, uint64_t total) { p += (char)0x80; while (p.size() % 64 != 56) p += (char)0; uint64_t bits = total * 8; for (int i = 7; i >= 0; i--) p += (char)(bits >> (8 * i)); blocks((const uint8_t *)p.data(), p.size()); S r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += (char)(h[i] >> (8 * j)); return r; }
};
static S refsha(const S &m) { Ref r; return r.last(m, m.size()); }
static S pat(size_t n, int k) { S s; uint32_t x = 88172645u + k * 977; for (size_t i = 0; i < n; i++) { if (k == 0) s += (char)i; else if (k == 1) s += (char)0xff; else if (k == 2) s += (char)0x80; else { x ^= x << 13; x ^= x >> 17; x ^= x << 5; s += (char)(x >> 9); } } return s; }
static bool same(const S &e, const unsigned char *h, const char *what, size_t n) { if (memcmp(e.data(), h, 20)) { fail("%s of %zu bytes is %s, expected %s", what, n, mc::hex(h, 20).c_str(), mc::hex(e.data(), 20).c_str()); return false; } return true; }
static void sha_len(uint64_t i) { // all lengths x patterns, whole and file based
    for (int k = 0; k < 4; k++) { S s = pat(i, k), e = refsha(s); unsigned char h[20];
        unsigned char *m = (unsigned char *)malloc(i ? i : 1); memcpy(m, s.data(), i); SHA1(m, i, h); free(m); if (!same(e, h, "SHA1", i)) return;
        if (k == 3 || (k == 0 && i > 4000)) { mc::writefile("f.bin", s); if (!file_getsha1("f.bin", h)) return fail("file_getsha1 failed"); if (!same(e, h, "file_getsha1", i)) return; unlink("f.bin"); }
        mc::nontrivial(); }
}
static uint64_t nhuge() { return mc::thorough ? 12 : 8; }
static void sha_huge(uint64_t i) { // messages whose length in bits needs more than 32 bits
    static const uint64_t N[] = {(1ull << 29) - 65, (1ull << 29) - 1, 1ull << 29, (1ull << 29) + 1, (1ull << 29) + 55, (1ull << 29) + 56, 3ull << 28, (1ull << 30) + 64, (1ull << 31) + 3, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1}; uint64_t n = N[i]; static const size_t CH = 1 << 20; S s = pat(CH, 3);
    blk_SHA_CTX c; blk_SHA1_Init(&c); Ref r; uint64_t d = 0; for (; n - d >= CH; d += CH) { blk_SHA1_Update(&c, s.data(), CH); r.blocks((const uint8_t *)s.data(), CH); mc::touch(); }
    size_t k = n - d, w = k / 64 * 64; blk_SHA1_Update(&c, s.data(), k); r.blocks((const uint8_t *)s.data(), w); S e = r.last(s.substr(w, k - w), n); unsigned char h[20]; blk_SHA1_Final(h, &c); same(e, h, "SHA1", n); mc::nontrivial();
}
static void sha_split(uint64_t i) { // message length i: every split into three updates at boundary points
    S s = pat(i, 3), e = refsha(s); static const int P[] = {0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192};
    for (int a : P) for (int b : P) { if (a + b > (int)i) continue; blk_SHA_CTX c; blk_SHA1_Init(&c); blk_SHA1_Update(&c, s.data(), a); blk_SHA1_Update(&c, s.data() + a, b); blk_SHA1_Update(&c, s.data() + a + b, i - a - b); unsigned char h[20]; blk_SHA1_Final(h, &c); if (!same(e, h, "split SHA1", i)) return; mc::nontrivial(); }
    // byte by byte
    blk_SHA_CTX c; blk_SHA1_Init(&c); for (size_t k = 0; k < i; k++) blk_SHA1_Update(&c, s.data() + k, 1); unsigned char h[20]; blk_SHA1_Final(h, &c); same(e, h, "bytewise SHA1", i);
}
struct El { int key, pos; char pad[5]; };
static int cmp(const void *a, const void *b, void *arg) { ++*(int *)arg; const El *x = (const El *)a, *y = (const El *)b; return x->key < y->key ? -1 : x->key > y->key; }
static int cmp_int(const void *a, const void *b, void *arg) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static int NMAX() { return mc::thorough ? 8 : 7; }
static void sort_seq(uint64_t i) { // every sequence over {0..n-1} of length n
    for (int n = 0; n <= NMAX(); n++) {
        uint64_t tot = 1; int base = n > 6 ? 5 : (n ? n : 1); for (int k = 0; k < n; k++) tot *= base;
        for (uint64_t c = i; c < tot; c += 512) {
            std::vector<El> v(n), r; uint64_t x = c; for (int k = 0; k < n; k++) { memset(&v[k], 0, sizeof(El)); v[k].key = x % base; v[k].pos = k; v[k].pad[0] = (char)k; x /= base; }
            r = v; std::stable_sort(r.begin(), r.end(), [](const El &a, const El &b) { return a.key < b.key; });
            int calls = 0; El *m = (El *)malloc(sizeof(El) * (n ? n : 1)); if (n) memcpy(m, v.data(), sizeof(El) * n);
            mergesort_r2(m, n, sizeof(El), cmp, &calls);
            bool ok = !n || !memcmp(m, r.data(), sizeof(El) * n);
            if (!ok) { S d; for (int k = 0; k < n; k++) d += std::to_string(v[k].key) + " "; S g; for (int k = 0; k < n; k++) g += std::to_string(m[k].key) + "@" + std::to_string(m[k].pos) + " "; free(m); return fail("mergesort of [%s] gives [%s]", d.c_str(), g.c_str()); }
            free(m);
            mc::nontrivial();
        }
    }
}
static const int SZ[] = {1, 2, 3, 5, 8, 13, 24, 100};
static int cmp_rec(const void *a, const void *b, void *arg) { const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b; int sz = *(int *)arg; int kx = x[0], ky = y[0]; if (sz >= 5) { kx |= x[1] << 8; ky |= y[1] << 8; } return kx - ky; }
static int shape_key(int shape, size_t k, size_t n, uint32_t &x) {
    x = x * 1103515245 + 12345;
    switch (shape) { case 0: return k; case 1: return n - k; case 2: return 0; case 3: return k % 3; case 4: return (k * 7) % n; case 5: return k < n / 2 ? k + n : k; case 6: return k % 2 ? n : k; case 7: return k == n - 1 ? 0 : 1; case 8: return k == 0 ? 9 : 1; case 9: return n / 2 > k ? n / 2 - k : k - n / 2; default: return (x >> 8) % ((shape - 9) * (shape - 9) + 1); }
}
static void sort_len(uint64_t n) { // every length, 14 shapes, 8 element sizes: both sorts, on a block of exactly the array's size
    for (int shape = 0; shape < 14; shape++) for (int sz : SZ) {
        if (n > 300 && sz != 8 && sz != 5) continue;
        uint32_t x = 12345 + shape; std::vector<S> v(n); 
        for (size_t k = 0; k < n; k++) { int key = shape_key(shape, k, n, x); S e(sz, (char)k); e[0] = (char)(sz >= 5 ? key & 255 : key % 251); if (sz >= 5) { e[1] = (char)(key >> 8); e[2] = (char)k; e[3] = (char)(k >> 8); } v[k] = e; }
        std::vector<S> r = v; int a = sz; std::stable_sort(r.begin(), r.end(), [&](const S &p, const S &q) { return cmp_rec(p.data(), q.data(), &a) < 0; });
        char *m = (char *)malloc(n * sz ? n * sz : 1);
        for (size_t k = 0; k < n; k++) memcpy(m + k * sz, v[k].data(), sz);
        mc::subcase(shape * 1000 + sz); mergesort_r2(m, n, sz, cmp_rec, &a);
        for (size_t k = 0; k < n; k++) if (memcmp(m + k * sz, r[k].data(), sz)) { free(m); return fail("mergesort of %zu elements of %d bytes (shape %d): element %zu is wrong", (size_t)n, sz, shape, k); }
        for (size_t k = 0; k < n; k++) memcpy(m + k * sz, v[k].data(), sz);
        qsort_r2(m, n, sz, cmp_rec, &a);
        std::vector<S> g; for (size_t k = 0; k < n; k++) g.push_back(S(m + k * sz, sz)); free(m);
        for (size_t k = 1; k < n; k++) if (cmp_rec(g[k - 1].data(), g[k].data(), &a) > 0) return fail("qsort of %zu elements of %d bytes (shape %d): elements %zu and %zu in the wrong order", (size_t)n, sz, shape, k - 1, k);
        std::sort(g.begin(), g.end()); std::vector<S> w = v; std::sort(w.begin(), w.end()); if (g != w) return fail("qsort of %zu elements of %d bytes (shape %d) is not a permutation of its input", (size_t)n, sz, shape);
        mc::nontrivial(); }
}
static void sort_bits(uint64_t i) { // every sequence of two key values up to length 16 (thorough 20): stable result known in closed form
    int N = mc::thorough ? 20 : 16;
    for (int n = 1; n <= N; n++) for (uint64_t c = i; c < (1ull << n); c += 512) {
        uint16_t v[20], w[20]; int z = 0; for (int k = 0; k < n; k++) { v[k] = (c >> k & 1) << 8 | k; if (!(c >> k & 1)) w[z++] = v[k]; } for (int k = 0; k < n; k++) if (c >> k & 1) w[z++] = v[k];
        mergesort_r2(v, n, 2, [](const void *a, const void *b, void *) { return (*(const uint16_t *)a >> 8) - (*(const uint16_t *)b >> 8); }, nullptr);
        if (memcmp(v, w, 2 * n)) return fail("mergesort of the %d keys with bits %llx is not the stable order", n, (unsigned long long)c);
        mc::nontrivial(); }
}
static void qsort_seq(uint64_t i) {
    for (int n = 0; n <= 6; n++) { uint64_t tot = 1; for (int k = 0; k < n; k++) tot *= n;
        for (uint64_t c = i; c < tot; c += 64) { std::vector<int> v(n), r; uint64_t x = c; for (int k = 0; k < n; k++) { v[k] = x % n; x /= n; } r = v; std::sort(r.begin(), r.end()); std::vector<int> m = v; mc::subcase(n * 1000000 + c); qsort_r2(m.data(), n, sizeof(int), cmp_int, nullptr);
            if (m != r) { S d; for (int k : v) d += std::to_string(k) + " "; return fail("qsort_r2 of [%s] wrong", d.c_str()); } mc::nontrivial(); } }
}
// the order that is worst for a quicksort, found while it runs (McIlroy's adversary: a value is decided only when a comparison forces it)
struct Adv { std::vector<int> val; int gas, solid, cand; uint64_t calls; };
static int adv_cmp(const void *a, const void *b, void *arg) { Adv *A = (Adv *)arg; int x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); if (!(++A->calls & 0xfffff)) mc::touch();
    if (A->val[x] == A->gas && A->val[y] == A->gas) A->val[x == A->cand ? x : y] = A->solid++; if (A->val[x] == A->gas) A->cand = x; else if (A->val[y] == A->gas) A->cand = y; return A->val[x] < A->val[y] ? -1 : A->val[x] > A->val[y]; }
static const int KN[] = {2, 3, 10, 100, 1000, 4000, 12000, 40000}, KS[] = {4, 100, 1000};
static void killer(uint64_t i) { int alg = i % 2, sz = KS[i / 2 % 3], n = KN[i / 6]; Adv A; A.val.assign(n, n); A.gas = n; A.solid = 0; A.cand = 0; A.calls = 0;
    char *m = (char *)calloc(n, sz); for (int k = 0; k < n; k++) { memcpy(m + (size_t)k * sz, &k, 4); memset(m + (size_t)k * sz + 4, k % 251, sz - 4); }
    (alg ? mergesort_r2 : qsort_r2)(m, n, sz, adv_cmp, &A); std::vector<int> o(n); bool ok = true; for (int k = 0; k < n; k++) { memcpy(&o[k], m + (size_t)k * sz, 4); for (int j = 4; j < sz; j++) if ((uint8_t)m[(size_t)k * sz + j] != o[k] % 251) ok = false; } free(m);
    if (!ok) return fail("%s of %d elements of %d bytes mixed bytes of different elements", alg ? "mergesort" : "qsort", n, sz);
    for (int k = 1; k < n; k++) if (A.val[o[k - 1]] > A.val[o[k]]) return fail("%s of %d elements of %d bytes in the order that is worst for it: elements %d and %d in the wrong order", alg ? "mergesort" : "qsort", n, sz, k - 1, k);
    std::vector<int> w = o; std::sort(w.begin(), w.end()); for (int k = 0; k < n; k++) if (w[k] != k) return fail("%s of %d elements of %d bytes is not a permutation of its input", alg ? "mergesort" : "qsort", n, sz);
    // the same order given from the start
    std::vector<int> val = A.val; m = (char *)calloc(n, sz); for (int k = 0; k < n; k++) memcpy(m + (size_t)k * sz, &val[k], 4); (alg ? mergesort_r2 : qsort_r2)(m, n, sz, cmp_int, nullptr); std::sort(val.begin(), val.end()); for (int k = 0; k < n; k++) if (memcmp(m + (size_t)k * sz, &val[k], 4)) { free(m); return fail("%s of %d elements of %d bytes given in the worst order: element %d is wrong", alg ? "mergesort" : "qsort", n, sz, k); } free(m); mc::nontrivial(); }
static void big_elems(uint64_t i) { // elements too big for a stack, every order of up to 4 of them
    static const int P[4] = {1 << 16, 1 << 20, 9 << 20, (1 << 24) + 1}; int sz = P[i / 2]; int alg = i % 2; for (int n = 1; n <= (sz > (1 << 20) ? 3 : 4); n++) { int tot = 1; for (int k = 0; k < n; k++) tot *= n;
        for (int c = 0; c < tot; c++) { mc::touch(); char *m = (char *)malloc((size_t)n * sz); std::vector<int> v(n); int x = c; for (int k = 0; k < n; k++) { v[k] = x % n; x /= n; memset(m + (size_t)k * sz, 16 * v[k] + k, sz); memcpy(m + (size_t)k * sz, &v[k], 4); }
            (alg ? mergesort_r2 : qsort_r2)(m, n, sz, cmp_int, nullptr); std::vector<char> used(n); for (int k = 0; k < n; k++) { int key; memcpy(&key, m + (size_t)k * sz, 4); int b = (uint8_t)m[(size_t)k * sz + 4], pos = b & 15; int prev = -1; if (k) memcpy(&prev, m + (size_t)(k - 1) * sz, 4);
                bool ok = b >> 4 == key && pos < n && v[pos] == key && !used[pos] && prev <= key && (!alg || !k || prev != key || (m[(size_t)(k - 1) * sz + 4] & 15) < pos); if (ok) { used[pos] = 1; ok = !memcmp(m + (size_t)k * sz + 4, m + (size_t)k * sz + 5, sz - 5); } if (!ok) { free(m); return fail("%s of %d elements of %d bytes: element %d is wrong", alg ? "mergesort" : "qsort", n, sz, k); } } free(m); mc::nontrivial(); } } }
static void over_2g(uint64_t i) { // thorough: the array is longer than 2 GB
    int sz = 300 << 20, n = 8; char *m = (char *)malloc((size_t)n * sz); for (int k = 0; k < n; k++) { int key = (k * 5 + 3) % 8; memset(m + (size_t)k * sz, key, sz); memcpy(m + (size_t)k * sz, &key, 4); mc::touch(); } (i ? mergesort_r2 : qsort_r2)(m, n, sz, [](const void *a, const void *b, void *) { mc::touch(); return cmp_int(a, b, nullptr); }, nullptr);
    for (int k = 0; k < n; k++) { int key; memcpy(&key, m + (size_t)k * sz, 4); if (key != k || m[(size_t)k * sz + 4] != k || memcmp(m + (size_t)k * sz + 4, m + (size_t)k * sz + 5, sz - 5)) { free(m); return fail("%s of an array of %zu bytes: element %d is wrong", i ? "mergesort" : "qsort", (size_t)n * sz, k); } mc::touch(); } free(m); mc::nontrivial(); }
int main(int c, char **v) {
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "--thorough")) mc::thorough = true;
    std::vector<mc::Space> s; auto n = [](const char *x) { return [x](uint64_t i) { return S(x) + " " + std::to_string(i); }; };
    s.push_back({"C18.sha1-lengths", (uint64_t)(mc::thorough ? 20000 : 1500) + 0, sha_len, n("length")});
    s.push_back({"C18.sha1-file-pages", 12, [](uint64_t i) { sha_len(4090 + i); sha_len(8186 + i); }, n("lengths around page multiples")});
    s.push_back({"C18.sha1-splits", (uint64_t)(mc::thorough ? 400 : 260), sha_split, n("length")});
    s.push_back({"C18.sha1-huge", nhuge(), sha_huge, n("huge message")});
    s.push_back({"C18.sort-sequences", 512, sort_seq, n("all short sequences, residue")});
    s.push_back({"C18.sort-lengths", (uint64_t)(mc::thorough ? 3000 : 300), sort_len, n("length")});
    s.push_back({"C18.sort-bits", 512, sort_bits, n("two-valued sequences, residue")});
    s.push_back({"C18.qsort-sequences", 64, qsort_seq, n("all short sequences, residue")});
    s.push_back({"C18.worst-order", 6 * (uint64_t)(mc::thorough ? 8 : 7), killer, n("worst order: length, element size, sort")});
    s.push_back({"C18.big-elements", 8, big_elems, n("element size, sort")});
    if (mc::thorough) s.push_back({"C18.over-2GB", 2, over_2g, n("sort")});
    return mc::main_(c, v, s);
}

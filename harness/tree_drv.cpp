// Drives the two ordered trees directly, next to std::map.  tree_drv --tree s|i
#include "common.hpp"
#include "wormhole/wh.h"
#include "wormhole/wh_int.h"
#include <algorithm>
#include <map>
Shared *g_sh;
using Key = std::string;
enum { MAP = 1, ITER = 2, LIFEK = 4 };

// also: i read in place, w write in place, m merge, u write at an iterator, c empty the tree, k pause and resume
struct Op { char t; Key k, k2; uint32_t v = 0; std::vector<int> steps; };     // p put, d del, g get, b probe, r delr, s seek and step
struct THist { bool in = false; std::vector<Op> ops; int vlen = 16; };

static Key be(uint64_t v) { Key s(8, 0); for (int i = 0; i < 8; i++) s[i] = char(v >> (56 - 8 * i)); return s; }

// The trees hash prefixes and keys; what matters to them is the hash and the tag made of it.  The hash is linear, so
// strings that differ by one of these collide wherever they stand.
static uint32_t hash32(const Key &k) { return kv_crc32c(k.data(), k.size()); }
static Key mix(Key a, const Key &b) { for (size_t i = 0; i < b.size(); i++) a[i] ^= b[i]; return a; }
static const std::vector<Key> &twins() {       // of five bytes, same hash
    static std::vector<Key> d;
    if (d.empty()) {
        Rng R(11); std::map<uint32_t, Key> seen;
        while (d.size() < 6) { Key k = be(R()).substr(0, 5); Key &o = seen[hash32(k)]; if (!o.empty() && o != k) d.push_back(mix(o, k)); o = k; if (seen.size() > 1000000) break; }
    }
    return d;
}
static const std::vector<Key> &tags() {        // of four bytes, same tag
    static std::vector<Key> d;
    if (d.empty()) {
        Rng R(12); auto tag = [](uint32_t h) { return (uint16_t) (h ^ h >> 16); }; uint16_t z = tag(hash32(Key(4, 0)));
        for (long i = 0; i < 20000000 && d.size() < 150; i++) { Key k = be(R()).substr(0, 4); if (tag(hash32(k)) == z) d.push_back(k); }
    }
    return d;
}

struct Gen {
    Rng &R; int fam; bool in; int alpha, maxl; std::vector<Key> stem; uint64_t seq = 0, base; int shift, hz;
    Gen(Rng &R, int fam, bool in) : R(R), fam(fam), in(in) {
        alpha = 2 + R() % 20; maxl = 1 + R() % (in ? 8 : 12); base = R(); shift = R() % 50; hz = 1 + R() % 4;
        for (int i = 0; i < 4; i++) { Key s; int l = R() % (in ? 6 : (R() % 3 ? 40 : 300)); for (int j = 0; j < l; j++) s.push_back(R() % 3 ? 0 : R()); stem.push_back(s); }
    }
    Key cut(Key s) { if (in && s.size() > 8) s.resize(8); return s; }
    Key make(const std::map<Key, uint32_t> &m) {
        Key s; auto any = [&]() -> Key { if (m.empty()) return Key(); auto it = m.lower_bound(be(R())); if (R() % 2 || it == m.end()) { it = m.begin(); std::advance(it, R() % std::min<size_t>(m.size(), 200)); } return it->first; };
        switch (fam) {
            case 0: { int l = R() % (maxl + 1); for (int i = 0; i < l; i++) s.push_back(char(R() % alpha * (R() % 2 ? 1 : 37))); return s; }     // short, small alphabet
            case 1: return be(R());
            case 2: seq += 1 + R() % hz; return be(base + (seq << (shift % 20)));          // rising
            case 3: seq += 1 + R() % hz; return be(base - (seq << (shift % 20)));          // falling
            case 4: { s = stem[R() % stem.size()]; int l = R() % 8; for (int i = 0; i < l; i++) s.push_back(R() % 4 ? (R() % 3 ? 0 : 1) : R()); return cut(s); }   // extensions of few stems, many zero bytes
            case 5: { Key a = any(); int c = R() % 5; if (c == 0 && !a.empty()) a.resize(R() % a.size()); else if (c == 1) a.push_back(0); else if (c == 2) a.append(R() % 20, 0); else if (c == 3 && !a.empty()) a[R() % a.size()] ^= 1 << R() % 8; else { a = Key(); int l = R() % 10; for (int i = 0; i < l; i++) a.push_back(R() % 5 ? R() % 2 : 255); } return cut(a); }   // relatives of what is there
            case 6: return be(((uint64_t) (R() % 3) << 56) + ((R() & 0xff) << (8 * (R() % 7))) + R() % 4);     // byte boundaries
            case 8: { size_t i = m.empty() ? 0 : R() % m.size(); s = Key(R() % (1 + i), 'a'); if (R() % 6 == 0) s.push_back('b'); return cut(s); }   // nested prefixes
            case 9: { s = stem[R() % 2]; if (in) s.resize(std::min<size_t>(s.size(), 4)); return s + mix(be(base).substr(0, 4), tags()[R() % tags().size()]); }      // few tags
            case 10: {      // few hashes
                s = be(base + 0x9e3779b97f4a7c15ull * (R() % (1 + alpha % 3))).substr(0, 5); for (int j = R() % 3; j--;) s = mix(s, twins()[R() % (1 + alpha % 2)]);
                if (!in && base % 2) s = stem[0] + s; for (int l = in ? R() % 4 : 1 + R() % 5; l--;) s.push_back(R() % alpha); return s; }
            default: return be(base ^ (R() >> shift));      // close together, at one scale
        }
    }
};
static THist make(int fam, uint64_t seed, bool in) {
    Rng R(seed * 7919 + fam * 104729 + in * 31 + 5); THist h; h.in = in; h.vlen = in ? 16 : 4 + R() % 60;
    Gen G(R, fam, in); std::map<Key, uint32_t> m; 
    int N = 300 + R() % 2500, plen = 50 + R() % 700; bool ranged = R() % 4 == 0, clears = R() % 3 == 0;
    auto exist = [&]() -> Key { Key k = G.make(m); auto it = m.lower_bound(k); if (it == m.end()) it = R() % 2 ? m.begin() : std::prev(m.end()); return it->first; };
    bool fixed = in && R() % 2;     // half of the histories of the integer tree use keys of full length only
    auto fit = [&](Key k) { if (fixed) k.resize(8, 0); return k; };
    int phase = 0, sweep = R() % 3;
    for (int o = 0; o < N; o++) {
        if (o % plen == plen - 1) { phase = R() % 4; sweep = R() % 3; }
        Op op; int c = R() % 20, dels = phase == 0 ? 1 : phase == 1 ? 9 : 4;
        if (c < 4) { op.t = 's'; op.k = R() % 3 || m.empty() ? fit(G.make(m)) : exist(); if (R() % 8 == 0) op.k = in && fixed ? Key(8, 0) : Key(); int n = R() % 4 ? R() % 6 : R() % 90, dir = R() % 3; for (int i = 0; i < n; i++) op.steps.push_back(dir == 2 ? (R() % 2 ? 1 : -1) : dir ? 1 : -1); if (!in && R() % 6 == 0) op.steps.push_back(2 + R() % 40); }
        else if (c < 6) { op.t = !in && R() % 2 ? 'g' : 'b'; op.k = R() % 2 || m.empty() ? fit(G.make(m)) : exist(); }
        else if (!in && c == 7 && R() % 2) {
            static const char kinds[] = "iwmmmuk"; op.t = kinds[R() % 7]; op.k = R() % 2 || m.empty() ? fit(G.make(m)) : exist(); op.v = R() % 1000000000; op.k2 = Key(1, "nks"[R() % 3]);
            if (op.t == 'w') { auto it = m.find(op.k); if (it != m.end()) it->second = op.v; }
            if (op.t == 'u') { auto it = m.lower_bound(op.k); if (it != m.end()) it->second = op.v; }
            if (op.t == 'm' && op.k2 == "s") m[op.k] = op.v; }
        else if (!in && c == 7 && clears && R() % 300 == 0) { op.t = 'c'; m.clear(); }
        else if (c == 6 && ranged && R() % 10 == 0) { op.t = 'r'; op.k = fit(G.make(m)); op.k2 = fit(G.make(m)); if (op.k > op.k2) std::swap(op.k, op.k2); if (R() % 3) { auto it = m.lower_bound(op.k); for (int i = R() % 60; i && it != m.end(); i--) ++it; if (it != m.end()) op.k2 = it->first; } m.erase(m.lower_bound(op.k), m.lower_bound(op.k2)); }
        else if (R() % 10 < (unsigned) dels && !m.empty()) {
            op.t = 'd'; op.k = sweep == 0 ? m.begin()->first : sweep == 1 && R() % 2 ? std::prev(m.end())->first : exist();
            if (R() % 20 == 0) op.k = fit(G.make(m));
            m.erase(op.k); }
        else { op.t = 'p'; op.k = R() % 8 || m.empty() ? fit(G.make(m)) : exist(); op.v = R() % 1000000000; m[op.k] = op.v; }
        h.ops.push_back(op);
    }
    return h;
}

struct StrTree {
    wormhole *w; wormref *r; StrTree() { life::Call in; w = wh_create(); r = wh_ref(w); }
    bool put(const Key &k, const void *v, int n) { life::Call in; Exact x(k); return wh_put(r, x.u8(), k.size(), v, n); }
    bool del(const Key &k) { life::Call in; Exact x(k); return wh_del(r, x.u8(), k.size()); }
    bool probe(const Key &k) { life::Call in; Exact x(k); return wh_probe(r, x.u8(), k.size()); }
    bool get(const Key &k, void *v, uint32_t n, uint32_t *l) { life::Call in; Exact x(k); return wh_get(r, x.u8(), k.size(), v, n, l); }
    uint64_t delr(const Key &a, const Key &b) { life::Call in; Exact x(a), y(b); return wh_delr(r, x.u8(), a.size(), y.u8(), b.size()); }
    // In place: what is there is copied to seen; with w, the value is replaced by as many bytes of w
    struct Inp { bool found; Key k; std::string v; const char *w; };
    static void inp(struct kv *c, void *p) { Inp &i = *(Inp *) p; i.found = c; if (!c) return; i.k.assign((const char *) c->kv, c->klen); i.v.assign((const char *) c->kv + c->klen, c->vlen); if (i.w) memcpy(c->kv + c->klen, i.w, c->vlen); }
    bool inpr(const Key &k, Inp &i) { life::Call in; Exact x(k); return wh_inpr(r, x.u8(), k.size(), inp, &i); }
    bool inpw(const Key &k, Inp &i) { life::Call in; Exact x(k); return wh_inpw(r, x.u8(), k.size(), inp, &i); }
    struct Mrg { Inp i; char mode; const Key *k; const void *v; int n; };     // n nothing, k keep, s set
    static struct kv *mrg(struct kv *c, void *p) { Mrg &g = *(Mrg *) p; inp(c, &g.i); return g.mode == 'n' ? nullptr : g.mode == 'k' ? c : kv_create(g.k->data(), g.k->size(), g.v, g.n); }
    bool merge(const Key &k, Mrg &g) { life::Call in; Exact x(k); return wh_merge(r, x.u8(), k.size(), mrg, &g); }
    bool iinp(const Key &k, Inp &i) { life::Call in; wormhole_iter *t = wh_iter_create(r); { Exact x(k); wh_iter_seek(t, x.u8(), k.size()); } bool a = wh_iter_inp(t, inp, &i); wh_iter_park(t); wh_iter_destroy(t); return a; }
    bool copy(Key &k, void *v, uint32_t n, uint32_t *vl) { uint32_t kl = 0; std::vector<char> b(65536); bool a = wh_iter_peek(&it, b.data(), b.size(), &kl, v, n, vl); k.assign(b.data(), kl); return a; }
    void pause() { life::Call in; wh_park(r); wh_resume(r); } void clean() { life::Call in; wh_clean(w); }
    wormhole_iter it;
    void seek(const Key &k) { life::Call in; Exact x(k); it.ref = r; it.map = r->map; it.leaf = 0; it.is = 0; wh_iter_seek(&it, x.u8(), k.size()); }
    bool valid() { return wh_iter_valid(&it); }
    void peek(const void **k, uint32_t *kl, void **v, uint32_t *vl) { wh_iter_peek_ref(&it, k, kl, v, vl); }
    void fwd() { wh_iter_skip1(&it); } void back() { wh_iter_skip1_rev(&it); } void skip(int n) { wh_iter_skip(&it, n); }
    void done() { if (it.leaf) wormleaf_unlock_read(it.leaf); }
    void destroy() { life::Call in; wh_unref(r); wh_destroy(w); }
};
struct IntTree {
    wormhole_int *w; wormref_int *r; IntTree() { life::Call in; w = wh_int_create(); r = wh_int_ref(w); }
    bool put(const Key &k, const void *v, int n) { life::Call in; Exact x(k); return wh_int_put(r, x.u8(), k.size(), v, n); }
    bool del(const Key &k) { life::Call in; Exact x(k); return wh_int_del(r, x.u8(), k.size()); }
    bool probe(const Key &k) { life::Call in; Exact x(k); return wh_int_probe(r, x.u8(), k.size()); }
    bool get(const Key &, void *, uint32_t, uint32_t *) { return false; }
    uint64_t delr(const Key &a, const Key &b) { life::Call in; Exact x(a), y(b); return wh_int_delr(r, x.u8(), a.size(), y.u8(), b.size()); }
    typedef StrTree::Inp Inp; typedef StrTree::Mrg Mrg;     // the integer tree does not offer these
    bool inpr(const Key &, Inp &) { return false; } bool inpw(const Key &, Inp &) { return false; } bool merge(const Key &, Mrg &) { return false; } bool iinp(const Key &, Inp &) { return false; } void pause() {} void clean() {}
    bool copy(Key &k, void *v, uint32_t n, uint32_t *vl) { uint32_t kl = 0; char b[64]; bool a = wh_int_iter_peek(&it, b, 64, &kl, v, n, vl); k.assign(b, kl); return a; }
    wormhole_int_iter it;
    void seek(const Key &k) { life::Call in; Exact x(k); it.ref = r; it.map = r->map; it.leaf = 0; it.is = 0; wh_int_iter_seek(&it, x.u8(), k.size()); }
    bool valid() { return wh_int_iter_valid(&it); }
    void peek(const void **k, uint32_t *kl, void **v, uint32_t *vl) { wh_int_iter_peek_ref(&it, k, kl, v, vl); }
    void fwd() { wh_int_iter_skip1(&it); } void back() { wh_int_iter_skip1_rev(&it); } void skip(int n) { wh_int_iter_skip(&it, n); }
    void done() { if (it.leaf) wormleaf_int_unlock_read(it.leaf); }
    void destroy() { life::Call in; wh_int_unref(r); wh_int_destroy(w); }
};
static std::string fill(uint32_t v, int n) { std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = i < 4 ? char(v >> (8 * i)) : char((v * 2654435761u) >> ((i % 4) * 8)) ^ i; return s; }
static long long value(const void *p, uint32_t n, int want) { if ((int) n != want) return -1; uint32_t v; memcpy(&v, p, 4); return fill(v, n) == std::string((const char *) p, n) ? v : -1; }

template <class T> int run(const THist &h, int mask, Json &J) {
    g_sh->op = -1; if (mask & LIFEK) life::arm(); life::reset(); T t; std::map<Key, uint32_t> m; int bad = 0;
    if (J.on()) { J.begin("new"); J.num("int", h.in); J.end(); }
    for (size_t o = 0; o < h.ops.size(); o++) {
        const Op &op = h.ops[o]; g_sh->op = o; auto f = m.find(op.k);
        auto ev = [&](const char *e) { if (J.on()) { J.begin(e); J.raw("k", Json::bytes(op.k)); } };
        switch (op.t) {
            case 'p': { ev("put"); bool a = t.put(op.k, fill(op.v, h.vlen).data(), h.vlen); m[op.k] = op.v; if (!a) bad |= MAP; if (J.on()) { J.num("v", op.v); J.num("a", a); } break; }
            case 'i': case 'w': case 'm': case 'u': {
                static const std::map<char, const char *> names = {{'i', "inpr"}, {'w', "inpw"}, {'m', "merge"}, {'u', "iinp"}};
                ev(names.at(op.t)); std::string nv = fill(op.v, h.vlen); typename T::Mrg g; g.i.found = false; g.i.w = op.t == 'w' || op.t == 'u' ? nv.data() : nullptr; g.mode = op.k2[0]; g.k = &op.k; g.v = nv.data(); g.n = h.vlen;
                auto at = op.t == 'u' ? m.lower_bound(op.k) : f; bool there = at != m.end();
                bool a = op.t == 'i' ? t.inpr(op.k, g.i) : op.t == 'w' ? t.inpw(op.k, g.i) : op.t == 'u' ? t.iinp(op.k, g.i) : t.merge(op.k, g);
                long long v = g.i.found ? value(g.i.v.data(), g.i.v.size(), h.vlen) : -2;
                if (a != (op.t == 'm' || there) || g.i.found != there || (there && (g.i.k != at->first || v != at->second))) bad |= MAP;
                if (J.on()) { J.num("v", op.v); J.num("a", a); J.num("f", g.i.found); J.num("o", v); J.raw("ok", Json::bytes(g.i.k)); if (op.t == 'm') J.raw("md", "\"" + op.k2 + "\""); }
                if (op.t == 'm' && op.k2 == "s") m[op.k] = op.v; else if ((op.t == 'w' || op.t == 'u') && there) at->second = op.v;
                break; }
            case 'c': ev("clean"); t.clean(); m.clear(); break;
            case 'k': ev("pause"); t.pause(); break;
            case 'd': { ev("del"); bool a = t.del(op.k); if (a != (f != m.end())) bad |= MAP; if (f != m.end()) m.erase(f); if (J.on()) J.num("a", a); break; }
            case 'b': { ev("probe"); bool a = t.probe(op.k); if (a != (f != m.end())) bad |= MAP; if (J.on()) J.num("a", a); break; }
            case 'g': { ev("get"); std::vector<char> b(h.vlen); uint32_t l = 0; bool a = t.get(op.k, b.data(), b.size(), &l); long long v = a ? value(b.data(), l, h.vlen) : 0;
                if (a != (f != m.end()) || (a && v != f->second)) bad |= MAP; if (J.on()) { J.num("a", a); J.num("v", v); } break; }
            case 'r': { ev("delr"); uint64_t n = t.delr(op.k, op.k2); auto b = m.lower_bound(op.k), e = m.lower_bound(op.k2); if ((size_t) std::distance(b, e) != n) bad |= MAP; m.erase(b, e); if (J.on()) { J.raw("k2", Json::bytes(op.k2)); J.num("n", n); } break; }
            case 's': {
                if (!(mask & (ITER | LIFEK))) break;
                ev("iter"); t.seek(op.k); auto it = m.lower_bound(op.k); std::string ks = "[", vs = "[", st = "["; bool on = true, first = true;
                for (size_t i = 0;; i++) {
                    bool v = t.valid(); on = it != m.end(); if (v != on) bad |= ITER;
                    if (v) { const void *kp; uint32_t kl; void *vp; uint32_t vl; Key k; long long x;
                        if (i % 3 == 2) { std::vector<char> b(h.vlen); if (!t.copy(k, b.data(), b.size(), &vl)) bad |= ITER; x = value(b.data(), vl, h.vlen); }
                        else { t.peek(&kp, &kl, &vp, &vl); k.assign((const char *) kp, std::min<uint32_t>(kl, 100000)); x = value(vp, vl, h.vlen); }
                        if (on && (k != it->first || x != it->second)) bad |= ITER; if (J.on()) { if (!first) { ks += ","; vs += ","; } ks += Json::bytes(k); vs += std::to_string(x); } }
                    else if (J.on()) { if (!first) { ks += ","; vs += ","; } ks += "[]"; vs += "-2"; }
                    first = false;
                    if (!v || bad || i >= op.steps.size()) break;
                    int s = op.steps[i]; if (J.on()) st += (i ? "," : "") + std::to_string(s);
                    if (s == 1) { t.fwd(); ++it; } else if (s == -1) { t.back(); if (it == m.begin()) it = m.end(); else --it; }
                    else { t.skip(s); for (int q = 0; q < s && it != m.end(); q++) ++it; }
                }
                t.done(); if (J.on()) { J.raw("st", st + "]"); J.raw("ks", ks + "]"); J.raw("vs", vs + "]"); } break; }
        }
        if (J.on() && !J.buf.empty()) J.end();
        if (bad & mask) return bad & mask;
    }
    g_sh->op = h.ops.size();
    t.destroy();
    if (mask & LIFEK) {
        if (J.on()) { J.begin("end"); J.num("blocks", life::blocks); J.num("pages", life::pages); J.end(); }
        if (life::blocks || life::pages) return LIFEK;
    }
    return 0;
}
static int go(const THist &h, int mask, Json &J) { return h.in ? run<IntTree>(h, mask, J) : run<StrTree>(h, mask, J); }
static Outcome isolated(const THist &h, int mask, int cpu, const char *out) {
    Outcome res;
    run_isolated(1, 1, cpu, [&](int) { Json J; if (out) J.f = fopen(out, "a"); int k = go(h, mask, J); if (J.f) fclose(J.f); return k; }, [&](int, Outcome o) { res = o; });
    munmap(g_sh, 4096);
    return res;
}
int main(int argc, char **argv) {
    std::map<std::string, std::string> A; std::string cmd = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, long long d) { return A.count(k) ? atoll(A[k].c_str()) : d; };
    int mask = 0; if (A["--kinds"].find("map") != std::string::npos) mask |= MAP; if (A["--kinds"].find("iter") != std::string::npos) mask |= ITER; if (A["--kinds"].find("life") != std::string::npos) mask |= LIFEK;
    bool in = A["--tree"] == "i"; int cpu = num("--cpu", 20), fam = num("--fam", 0); uint64_t seed = num("--seed", 1), count = num("--count", 100);
    if (fam == 9) tags(); if (fam == 10) twins();
    if (cmd == "scan") {
        double budget = num("--ms", 1 << 30) / 1000.0; timeval t0; gettimeofday(&t0, nullptr); long long done = 0, ops = 0; int flagged = 0, batch = 16;
        for (uint64_t s = seed; s < seed + count; s += batch) {
            timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec + (t.tv_usec - t0.tv_usec) / 1e6 > budget) break;
            run_isolated(batch, batch, cpu, [&](int i) { if (flagged >= 4) return 0; THist h = make(fam, s + i, in); Json J; int k = go(h, mask, J); g_sh->counter[0] += h.ops.size(); return k; },
                         [&](int i, Outcome o) { flagged++; if (o.hung) flagged += 4; printf("FLAG fam=%d seed=%llu kind=%d op=%d sig=%d\n", fam, (unsigned long long) (s + i), o.kind, o.op, o.sig); });
            done += batch; ops += g_sh->counter[0]; munmap(g_sh, 4096); if (flagged >= 4) break;
        }
        printf("DONE fam=%d histories=%lld ops=%lld flagged=%d\n", fam, done, ops, flagged); return 0;
    }
    if (cmd == "trace") {
        THist h = make(fam, seed, in); std::string out = A["--out"]; remove(out.c_str());
        if (A.count("--trunc")) h.ops.resize(std::min<size_t>(h.ops.size(), num("--trunc", 0)));
        Outcome first = isolated(h, mask, cpu, nullptr);
        if (first.kind) {
            if (first.op >= 0 && (size_t) first.op + 1 < h.ops.size()) h.ops.resize(first.op + 1);
            int tries = first.hung ? 12 : 600;
            timeval t0; gettimeofday(&t0, nullptr);        // enough is enough
            auto late = [&] { timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec > 60) tries = 0; return tries <= 0; };
            auto bad = [&](const THist &g) { if (late()) return false; tries--; Outcome o = isolated(g, mask, first.hung ? cpu : 5, nullptr); return o.kind && o.hung == first.hung; };
            for (size_t st = std::max<size_t>(1, h.ops.size() / 2); tries > 0; st = std::max<size_t>(1, st / 2)) {
                bool any = false;
                for (size_t p = 0; p < h.ops.size() && tries > 0;) { THist g = h; g.ops.erase(g.ops.begin() + p, g.ops.begin() + std::min(h.ops.size(), p + st)); if (bad(g)) { h = g; any = true; } else p += st; }
                if (st == 1 && !any) break;
            }
        }
        Outcome o = isolated(h, mask, cpu, out.c_str());
        if (o.kind & (K_CRASH | K_HANG | K_ASAN)) { FILE *f = fopen(out.c_str(), "a"); fprintf(f, "{\"e\":\"%s\",\"sig\":%d,\"op\":%d}\n", o.hung ? "hang" : "crash", o.sig, o.op); fclose(f); }
        printf("TRACE kind=%d op=%d ops=%zu sig=%d\n", o.kind, o.op, h.ops.size(), o.sig); return 0;
    }
    return 2;
}

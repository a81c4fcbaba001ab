// The real filter behind one interface, and histories of operations on it.
#pragma once
#include "diva.hpp"
#include "common.hpp"
#include "model.hpp"
#include <array>
#include <map>
#include <memory>
#include <set>

using model::Key;
inline std::string be(uint64_t v) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = char(v >> (56 - 8 * i)); return s; }
inline uint64_t unbe(const std::string &s) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (i < (int) s.size() ? (uint8_t) s[i] : 0); return v; }

// Friend of the filter: steers the random choice between the two ways to insert.
class DivaTests {
    template <class D> static auto steer(D &d, bool split, int) -> decltype(d.rng_.seed(1u), (void) d.rng_(), true) {
        static uint32_t seeds[2]; static bool have = false;
        if (!have) {
            auto keep = d.rng_; bool got[2] = {false, false};
            for (uint32_t s = 1; !(got[0] && got[1]); s++) {
                d.rng_.seed(s); bool z = d.rng_() % 1024 == 0;
                if (!got[z]) { got[z] = true; seeds[z] = s; }
            }
            d.rng_ = keep; have = true;
        }
        d.rng_.seed(seeds[split]); return true;
    }
    template <class D> static bool steer(D &, bool, long) { return false; }
public:
    template <class D> static auto steerable(int) -> decltype(std::declval<D &>().rng_.seed(1u), (void) std::declval<D &>().rng_(), true) { return true; }
    template <class D> static bool steerable(long) { return false; }
    template <class D> static bool steer(D &d, bool split) { return steer(d, split, 0); }
};

struct Seen { Key key; bool part; int inv; int grade; uint32_t count; std::vector<uint64_t> list; bool ok = true; };

constexpr float LFS[3] = {0.95f, 0.97f, 0.9f};

struct Hist {
    int int_opt = 0, I = 6, lf = 0, route = 2; uint32_t seed = 1;
    std::vector<Key> bulk;
    struct Op { char t; Key k; int n = 0; };      // i simple, s split, I natural insert, d delete, h shrink, r reload, q nothing, z repeated bulk stream
    std::vector<Op> ops;
    std::vector<Key> probes;
    int every = 1, pts = 60, rgs = 20, st_every = 1;
    int overload = 0; bool unfinished = false;
};

struct Any {
    virtual ~Any() {}
    virtual void insert(const Key &, int how, int ov) = 0;   // how: 0 natural 1 simple 2 split
    virtual void del(const Key &, int ov) = 0;
    virtual bool point(const Key &, int ov) const = 0;
    virtual bool range(const Key &, const Key &, int ov) const = 0;
    virtual void shrink(int) = 0;
    virtual uint32_t size() const = 0;
    virtual std::vector<char> serialize(uint32_t &reported) const = 0;
    virtual void reload() = 0;
    virtual bool steerable() const = 0;
};

// Key lengths the fixed-length loader is run with.
static const int FIXED[] = {3, 4, 5, 8, 9, 11, 16, 24, 40, 67}; static const int FIXEDS = 10;
inline bool fixed_length(size_t l) { for (int f : FIXED) if ((size_t) f == l) return true; return false; }

template <bool IO> struct Real : Any {
    std::unique_ptr<Diva<IO>> d;
    template <size_t N> void fixed(const Hist &h) {
        std::vector<std::array<char, N>> v(h.bulk.size());
        for (size_t i = 0; i < v.size(); i++) memcpy(v[i].data(), h.bulk[i].data(), N);
        d.reset(new Diva<IO>(h.I, v.begin(), v.end(), N, h.seed, LFS[h.lf]));
    }
    Real(const Hist &h) {
        life::Call in;
        if (h.route == 0) {
            if constexpr (IO) {
                std::vector<uint64_t> v; for (auto &k : h.bulk) v.push_back(unbe(k));
                d.reset(new Diva<IO>(h.I, v.begin(), v.end(), 8, h.seed, LFS[h.lf]));
            }
            else switch (h.bulk[0].size()) {
                case 3: fixed<3>(h); break; case 4: fixed<4>(h); break; case 5: fixed<5>(h); break; case 8: fixed<8>(h); break; case 9: fixed<9>(h); break;
                case 11: fixed<11>(h); break; case 16: fixed<16>(h); break; case 24: fixed<24>(h); break; case 40: fixed<40>(h); break; case 67: fixed<67>(h); break;
                default: fprintf(stderr, "bad fixed length\n"); _exit(77);
            }
        }
        else if (h.route == 1) d.reset(new Diva<IO>(h.I, h.bulk.begin(), h.bulk.end(), h.seed, LFS[h.lf]));
        else {
            d.reset(new Diva<IO>(h.I, h.seed, LFS[h.lf]));
            int j = 0;
            for (auto &k : h.bulk) {
                Exact x(k);
                if (k.size() == 8 && h.overload && j++ % 3 == 0) d->BulkLoadStreaming(unbe(k));
                else if (h.overload && j % 3 == 1) d->BulkLoadStreaming(x.u8(), k.size());
                else d->BulkLoadStreaming(std::string_view(x));
            }
            if (!h.unfinished) d->BulkLoadStreamingFinish();
        }
    }
    ~Real() { life::Call in; d.reset(); }
    explicit Real(std::vector<char> &buf) { life::Call in; d.reset(new Diva<IO>(buf.data())); }
    void insert(const Key &k, int how, int ov) override {
        if (how) DivaTests::steer(*d, how == 2);
        Exact x(k); life::Call in;
        if (ov == 1 && k.size() == 8) d->Insert(unbe(k));
        else if (ov == 2) d->Insert(x.u8(), k.size());
        else d->Insert(std::string_view(x));
    }
    void del(const Key &k, int ov) override {
        Exact x(k); life::Call in;
        if (ov == 1 && k.size() == 8) d->Delete(unbe(k));
        else if (ov == 2) d->Delete(x.u8(), k.size());
        else d->Delete(std::string_view(x));
    }
    bool point(const Key &k, int ov) const override {
        Exact x(k); life::Call in;
        if (ov == 1 && k.size() == 8) return d->PointQuery(unbe(k));
        if (ov == 2) return d->PointQuery(x.u8(), k.size());
        return d->PointQuery(std::string_view(x));
    }
    bool range(const Key &l, const Key &r, int ov) const override {
        Exact x(l), y(r); life::Call in;
        if (ov == 1 && l.size() == 8 && r.size() == 8) return d->RangeQuery(unbe(l), unbe(r));
        if (ov == 2) return d->RangeQuery(x.u8(), l.size(), y.u8(), r.size());
        return d->RangeQuery(std::string_view(x), std::string_view(y));
    }
    bool steerable() const override { return DivaTests::steerable<Diva<IO>>(0); }
    void shrink(int J) override { life::Call in; d->ShrinkInfixSize(J); }
    uint32_t size() const override { life::Call in; return d->Size(); }
    std::vector<char> serialize(uint32_t &n) const override {
        std::vector<char> b(d->Size() + PAD, (char) 0x5a);
        { life::Call in; n = d->Serialize(b.data()); }
        bool over = n > b.size();
        for (size_t i = n; !over && i < b.size(); i++) if (b[i] != 0x5a) over = true;
        if (over) n = UINT32_MAX;
        else b.resize(n);
        return b;
    }
    void reload() override {
        uint32_t n; std::vector<char> from = serialize(n);
        size_t off = from.size() % 8;       // the buffer may start anywhere
        std::vector<char> *b = new std::vector<char>(off, 0); b->insert(b->end(), from.begin(), from.end()); b->shrink_to_fit();
        std::unique_ptr<Diva<IO>> e; { life::Call in; e.reset(new Diva<IO>(b->data() + off)); }
        memset(b->data(), 0xa5, b->size()); delete b;       // nothing may depend on the buffer
        life::Call in; d = std::move(e);
    }
};
inline std::unique_ptr<Any> make(const Hist &h, int io) {
    if (io) return std::unique_ptr<Any>(new Real<true>(h));
    return std::unique_ptr<Any>(new Real<false>(h));
}

// Reads the content out of the serialised form.
inline uint32_t rd32(const char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
inline bool decode(const std::vector<char> &b, int &I, std::vector<Seen> &out, const model::Tab &tab) {
    size_t p = 33; if (b.size() < 49) return false;
    I = rd32(&b[p]); p = 49; out.clear();
    for (;;) {
        if (p + 4 > b.size()) return false;
        uint32_t len = rd32(&b[p]); p += 4;
        if (len == UINT32_MAX) return p == b.size();
        if (p + (len + 7) / 8 * 8 + 4 > b.size()) return false;
        Seen s; s.key.assign(&b[p], len); p += (len + 7) / 8 * 8;
        uint32_t st = rd32(&b[p]); p += 4;
        s.count = st & 0xfffff; s.grade = st >> 20 & 255; s.inv = st >> 28 & 7; s.part = st >> 31;
        uint64_t slots = tab.sizes[s.grade]; size_t words = 1 + (1024 + slots * (I + 1) + 63) / 64;
        if (p + words * 8 > b.size()) return false;
        const char *w = &b[p];
        auto bit = [&](size_t q) { return (uint8_t) w[q / 8] >> (q % 8) & 1; };
        auto slot = [&](size_t i) { uint64_t v = 0; for (int j = I - 1; j >= 0; j--) v = v << 1 | bit(64 + 1024 + slots + i * I + j); return v; };
        // the i-th occupied cell belongs to the i-th run end
        size_t cell = 0; auto next = [&] { while (cell < 1024 && !bit(64 + cell)) cell++; };
        next(); bool open = false;
        for (size_t i = 0; i < slots; i++) {
            uint64_t v = slot(i);
            if (v) { if (cell >= 1024) s.ok = false; s.list.push_back(((uint64_t) cell << I) | v); open = true; }
            else if (open) s.ok = false;            // a run with a hole
            if (bit(64 + 1024 + i)) { if (!open) s.ok = false; open = false; cell++; next(); }
        }
        if (open || cell < 1024) s.ok = false;
        size_t c0 = 0, c1 = 0;
        for (size_t i = 0; i < 512; i++) { c0 += bit(64 + i); if (i < slots) c1 += bit(64 + 1024 + i); }
        if (rd32(w) != c0 || rd32(w + 4) != c1) s.ok = false;
        if (s.count != s.list.size()) s.ok = false;
        p += words * 8; out.push_back(s);
    }
}

// Reference model of Dataset: rows of features, a sequence size, a label set.
#ifndef VERIF_DATASET_REF_HPP
#define VERIF_DATASET_REF_HPP
#include "data/dataset.hpp"
#include "mc.hpp"
namespace dref {
using namespace EdgeLearning;
template <class T> struct Ref
{
    std::vector<std::vector<T>> rows; std::size_t fs = 0, seq = 1; std::set<SizeType> labels;
    void trim() { seq = std::min(seq, rows.size()); rows.resize(seq ? rows.size() / seq * seq : 0); }
    void clip() { for (auto it = labels.begin(); it != labels.end();) { if (*it >= fs) it = labels.erase(it); else ++it; } }
    static Ref vec(const std::vector<T>& d, std::size_t f, std::size_t s, std::set<SizeType> l)
    {
        Ref r; r.fs = std::min(f, d.size()); r.seq = s; r.labels = std::move(l);
        if (r.fs) for (std::size_t i = 0; (i + 1) * r.fs <= d.size(); ++i) r.rows.emplace_back(d.begin() + long(i * r.fs), d.begin() + long((i + 1) * r.fs));
        r.trim(); r.clip(); return r;
    }
    static Ref mat(const std::vector<std::vector<T>>& m, std::size_t s, std::set<SizeType> l)
    {
        Ref r; r.seq = s; r.labels = std::move(l); r.fs = m.empty() ? 0 : m[0].size();
        for (auto& v: m) r.fs = std::min(r.fs, v.size());
        for (auto& v: m) r.rows.emplace_back(v.begin(), v.begin() + long(r.fs));
        r.trim(); r.clip(); return r;
    }
    static Ref cub(const std::vector<std::vector<std::vector<T>>>& q, std::set<SizeType> l)
    {
        Ref r; r.labels = std::move(l); r.seq = q.at(0).size(); r.fs = q[0].at(0).size();
        for (auto& m: q) { r.seq = std::min(r.seq, m.size()); for (auto& v: m) r.fs = std::min(r.fs, v.size()); }
        for (auto& m: q) for (std::size_t i = 0; i < r.seq; ++i) r.rows.emplace_back(m[i].begin(), m[i].begin() + long(r.fs));
        r.clip(); return r;
    }
    std::vector<SizeType> lab() const { return {labels.begin(), labels.end()}; }
    std::vector<SizeType> inp() const { std::vector<SizeType> v; for (std::size_t i = 0; i < fs; ++i) if (!labels.count(i)) v.push_back(i); return v; }
    std::vector<T> cut(std::size_t a, std::size_t b, const std::vector<SizeType>& cols) const
    { std::vector<T> v; for (std::size_t i = a; i < b && i < rows.size(); ++i) for (auto k: cols) v.push_back(rows[i][k]); return v; }
    std::vector<SizeType> all() const { std::vector<SizeType> v; for (std::size_t i = 0; i < fs; ++i) v.push_back(i); return v; }
    std::vector<T> flat() const { return cut(0, rows.size(), all()); }
    Ref sub(std::size_t a, std::size_t b) const
    { Ref r; r.fs = fs; r.seq = seq; r.labels = labels; r.rows.assign(rows.begin() + long(a), rows.begin() + long(b)); r.trim(); return r; }
};
// shape: also compare the feature size and label set although there are no entries
template <class V> void ck(mc::Ctx& c, const V& got, const V& want, const std::string& w, const char* what, std::size_t i)
{ if (got == want) ++mc::stats().checks; else c.veq(got, want, w + what + std::to_string(i)); }
template <class T> void verify(mc::Ctx& c, const Dataset<T>& d, const Ref<T>& r, const std::string& w, bool shape = true)
{
    const std::size_t n = r.rows.size();
    c.veq(d.data(), r.flat(), w + " data");
    c.eq(d.empty(), n == 0 || r.fs == 0, w + " empty");
    if (r.fs) c.eq(d.size(), n, w + " entries");
    if (n) c.eq(d.sequence_size(), r.seq, w + " sequence size");
    if (n || shape)
    {
        c.eq(d.feature_size(), r.fs, w + " feature size");
        c.veq(d.label_idx(), r.lab(), w + " label indices");
        c.veq(d.input_idx(), r.inp(), w + " input indices");
    }
    if (r.fs == 0) return;
    std::vector<std::size_t> idx; for (std::size_t i = 0; i <= n + 2; ++i) idx.push_back(i);
    idx.push_back(~std::size_t(0)); idx.push_back(std::size_t(1) << 40);
    auto lab = r.lab(), inp = r.inp(), all = r.all(); std::size_t s = r.seq;
    for (auto i: idx)
    {
        bool in = i < n; std::size_t e = in ? i + 1 : i; if (!in) e = i;
        ck(c, d.entry(i), r.cut(i, e, all), w, " entry ", i);
        ck(c, d.input(i), r.cut(i, e, inp), w, " input ", i);
        ck(c, d.label(i), r.cut(i, e, lab), w, " label ", i);
        bool sin = s && i < n / s; std::size_t a = sin ? i * s : 0, b = sin ? a + s : 0;
        ck(c, d.entry_seq(i), r.cut(a, b, all), w, " sequence ", i);
        ck(c, d.inputs_seq(i), r.cut(a, b, inp), w, " input sequence ", i);
        ck(c, d.labels_seq(i), r.cut(a, b, lab), w, " label sequence ", i);
    }
}
template <class T> void verify_parts(mc::Ctx& c, const Dataset<T>& d, const Ref<T>& r, const std::string& w)
{
    if (r.fs == 0) return;
    for (int k = 0; k < 2; ++k)
    {
        auto cols = k ? r.lab() : r.inp(); Ref<T> p; p.fs = cols.size(); p.seq = r.seq;
        if (!cols.empty()) for (auto& row: r.rows) { std::vector<T> v; for (auto x: cols) v.push_back(row[x]); p.rows.push_back(v); }
        verify(c, k ? d.labels() : d.inputs(), p, w + (k ? " labels()" : " inputs()"), false);
    }
}
template <class T> std::vector<T> ramp(std::size_t n, int step = 1, int from = 1) { std::vector<T> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = T(from + step * int(i)); return v; }
inline std::set<SizeType> mask(std::size_t bits) { std::set<SizeType> s; for (std::size_t i = 0; bits >> i; ++i) if (bits >> i & 1) s.insert(i); return s; }
template <class T> mc::Hash h(const Ref<T>& r) { mc::Hash x; x.add(std::uint64_t(r.fs)).add(std::uint64_t(r.seq)).add(std::uint64_t(r.rows.size())); for (auto l: r.labels) x.add(std::uint64_t(l)); for (auto& v: r.rows) for (auto e: v) x.add(double(e)); return x; }
} // namespace dref
#endif

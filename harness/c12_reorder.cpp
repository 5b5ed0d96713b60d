// C12: shuffle, min-max normalisation and concatenation against a row model.
#include "dataset_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using namespace dref;

template <class T> static void do_shuffle(Ctx& c, std::size_t n, std::size_t f, std::size_t s, unsigned seed, bool dup)
{
    auto v = ramp<T>(n * f); if (dup) for (auto& x: v) x = T(int(double(x)) % 3);
    Dataset<T> d(v, f, s, {0}); auto r = Ref<T>::vec(v, f, s, {0});
    RneType g(seed), g0(seed); auto& ref = d.shuffle(g); c.check(&ref == &d, "returns the dataset");
    Ref<T> got = r; got.rows.clear(); for (std::size_t i = 0; i < d.size(); ++i) got.rows.push_back(d.entry(i));
    auto a = got.rows, b = r.rows; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    c.check(a == b, "a shuffle permutes whole entries: got " + Ctx::show(d.data()) + " from " + Ctx::show(r.flat()));
    verify(c, d, got, "shuffled"); verify_parts(c, d, got, "shuffled"); c.outcome(h(got));
    Dataset<T> d2(v, f, s, {0}); d2.shuffle(g0); c.veq(d2.data(), d.data(), "shuffle from the same generator state");
    d.shuffle(RneType(seed + 1)); d2.shuffle(RneType(seed + 1)); c.veq(d2.data(), d.data(), "second shuffle");
    auto e = d.data(); std::vector<T> flat = r.flat(); std::sort(e.begin(), e.end()); std::sort(flat.begin(), flat.end()); c.check(e == flat, "values after two shuffles");
}
static void shuffle(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 7)), f = std::size_t(c.in(1, 3)), s = std::size_t(c.in(1, 3)); unsigned seed = unsigned(c.in(0, mc::thorough() ? 400 : 60)); bool dup = c.flag();
    if (!c.begin()) return;
    do_shuffle<double>(c, n, f, s, seed, dup); if (n > 1) c.nontrivial();
    c.describe(std::to_string(n) + " entries, seed " + std::to_string(seed));
}
static void shuffle_large(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{16, 64, 255, 256, 257, 1000}), f = c.of(std::vector<std::size_t>{1, 3, 11}), s = c.of(std::vector<std::size_t>{1, 4}); unsigned seed = unsigned(c.in(0, 5)); int k = c.in(0, 2);
    if (!c.begin()) return;
    if (k == 0) do_shuffle<double>(c, n, f, s, seed, false); else if (k == 1) do_shuffle<float>(c, n, f, s, seed, false); else do_shuffle<int>(c, n, f, s, seed, true);
    c.nontrivial();
}
// some seed changes the order
static void shuffle_reach(Ctx& c)
{
    std::size_t n = std::size_t(c.in(2, 4));
    if (!c.begin()) return;
    std::set<std::vector<double>> seen;
    for (unsigned s = 0; s < 600; ++s) { Dataset<double> d(ramp<double>(n)); d.shuffle(RneType(s)); seen.insert(d.data()); }
    c.check(seen.size() > 1, "a shuffle reaches many orders: " + std::to_string(seen.size()));
}
static const std::vector<double> VAL{-2.5, 0, 1, 4};
static void verify_norm(Ctx& c, std::size_t n, std::size_t f, const std::vector<double>& v, std::size_t s)
{
    Dataset<double> d(v, f, s, {0}); auto r = Ref<double>::vec(v, f, s, {0});
    if (d.empty()) { d.min_max_normalization(); c.check(d.empty(), "still empty"); return; }
    n = r.rows.size();
    auto& ref = d.min_max_normalization(); c.check(&ref == &d, "returns the dataset");
    for (std::size_t k = 0; k < f; ++k)
    {
        double lo = r.rows[0][k], hi = lo; for (auto& x: r.rows) { lo = std::min(lo, x[k]); hi = std::max(hi, x[k]); }
        for (std::size_t i = 0; i < n; ++i)
        {
            double g = d.data()[i * f + k]; c.check(std::isfinite(g) && g >= 0 && g <= 1, "normalised value in [0,1]: " + std::to_string(g));
            if (hi > lo) c.approx(g, double(((long double) r.rows[i][k] - (long double) lo) / ((long double) hi - (long double) lo)), "normalised column " + std::to_string(k), 1e-12);
            r.rows[i][k] = g;
        }
    }
    verify(c, d, r, "normalised"); c.outcome(h(r));
}
static void normalise(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 4)), f = std::size_t(c.in(1, n >= 4 ? 1 : n == 3 ? 2 : 3)); std::vector<double> v; for (std::size_t i = 0; i < n * f; ++i) v.push_back(c.of(VAL)); std::size_t s = std::size_t(c.in(1, 2));
    if (!c.begin()) return;
    verify_norm(c, n, f, v, s); if (n) c.nontrivial(); c.describe("normalise " + Ctx::show(v) + " in columns of " + std::to_string(f));
}
static void normalise_range(Ctx& c)
{
    static const std::vector<std::pair<double, double>> R{{0, 1}, {0, 255}, {-1, 1}, {5, 2}, {-4, -3.5}, {3, 3}, {0, 0}};
    std::size_t n = std::size_t(c.in(0, 4)), f = std::size_t(c.in(1, 4)); auto rg = c.of(R); std::size_t m = c.pick(1u << f); bool rev = c.flag();
    if (!c.begin()) return;
    auto v = ramp<double>(n * f, 2, -3); Dataset<double> d(v, f, 1, {0}); auto r = Ref<double>::vec(v, f, 1, {0});
    std::vector<SizeType> cols; for (auto k: mask(m)) cols.push_back(k); if (rev) std::reverse(cols.begin(), cols.end());
    if (rg.first == rg.second) { c.throws([&] { d.min_max_normalization(rg.first, rg.second, cols); }, "equal minimum and maximum"); verify(c, d, r, "rejected"); return; }
    d.min_max_normalization(rg.first, rg.second, cols);
    auto eff = m ? mask(m) : mask((1u << f) - 1);
    std::vector<double> want; for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < f; ++k) want.push_back(eff.count(k) ? (r.rows[i][k] - rg.first) / (rg.second - rg.first) : r.rows[i][k]);
    c.vapprox(d.data(), want, "normalised to a given range", 1e-12); if (n) c.nontrivial();
}
static void normalise_large(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{17, 100, 1025}), f = c.of(std::vector<std::size_t>{1, 3, 40}); int pat = c.in(0, 5);
    if (!c.begin()) return;
    std::vector<double> v(n * f); for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < f; ++k)
        v[i * f + k] = pat == 0 ? double(i) : pat == 1 ? -double(i) : pat == 2 ? double((i * 37 + k * 11) % n) : pat == 3 ? 7.0 : pat == 4 ? (i == n - 1 ? 100.0 : double(k)) : (i == 0 ? -100.0 - double(k) : double(i % 3));
    verify_norm(c, n, f, v, 1); c.nontrivial();
}
// more entries than 16 bits count
static void huge(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{65535, 65536, 70001, 131075}), f = c.of(std::vector<std::size_t>{1, 3}); int what = c.in(0, 3); if (!mc::thorough() && n > 100000 && f > 1) return;
    if (!c.begin()) return;
    c.describe(std::to_string(n) + " entries of " + std::to_string(f)); c.nontrivial();
    if (what < 2) { do_shuffle<double>(c, n, f, what ? 4 : 1, 7, false); return; }
    if (what == 2) { std::vector<double> v(n * f); for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < f; ++k) v[i * f + k] = k == 0 ? double(i) : k == 1 ? double((i * 37) % n) - 100 : i == n - 1 ? 50.0 : -double(i % 7); verify_norm(c, n, f, v, 1); return; }
    for (std::size_t axis = 0; axis < 3; ++axis) { std::size_t m = axis == 0 ? 5 : n, s = axis == 1 ? 2 : 1; auto v1 = ramp<double>(n * f), v2 = ramp<double>(m * (axis == 2 ? 2 : f) * s, 1, 1000); Dataset<double> a(v1, f, 1), b(v2, axis == 2 ? 2 : f, s); auto e = Dataset<double>::concatenate(a, b, axis); c.eq(e.size(), axis == 0 ? n + m : axis == 1 ? 3 * n : n, "entries of the concatenation"); std::size_t bad = 0; for (std::size_t i = 0; i < n; ++i) { auto ra = a.entry(i); if (axis == 0) bad += e.entry(i) != ra; else if (axis == 1) bad += e.entry(3 * i) != ra || e.entry(3 * i + 1) != b.entry(2 * i) || e.entry(3 * i + 2) != b.entry(2 * i + 1); else { auto rb = b.entry(i); ra.insert(ra.end(), rb.begin(), rb.end()); bad += e.entry(i) != ra; } } if (axis == 0) for (std::size_t i = 0; i < m; ++i) bad += e.entry(n + i) != b.entry(i); c.eq(bad, std::size_t(0), "wrong entries along axis " + std::to_string(axis)); }
}
// every selection of up to 3 columns, some of which the dataset does not have: refused, nothing changed
static void normalise_outside(Ctx& c)
{
    std::size_t n = std::size_t(c.in(1, 4)), f = std::size_t(c.in(1, 4)), k = std::size_t(c.in(1, 3)); std::vector<SizeType> cols; for (std::size_t i = 0; i < k; ++i) { std::size_t x = c.pick(f + 4); cols.push_back(x == f + 2 ? n * f : x == f + 3 ? SizeType(-1) : x); }
    bool out = false; std::set<SizeType> distinct(cols.begin(), cols.end()); for (auto x: cols) if (x >= f) out = true;
    if (distinct.size() != cols.size() || !c.begin()) return;
    auto v = ramp<double>(n * f, 2, -3); Dataset<double> d(v, f, 1, {0}); auto r = Ref<double>::vec(v, f, 1, {0}); c.describe(std::to_string(n) + " entries of " + std::to_string(f) + ", columns " + Ctx::show(cols));
    if (out) { c.throws([&] { d.min_max_normalization(-2, 6, cols); }, "a column that does not exist"); verify(c, d, r, "rejected"); c.nontrivial(); return; }
    d.min_max_normalization(-2, 6, cols); std::vector<double> want; for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < f; ++j) want.push_back(distinct.count(j) ? (r.rows[i][j] + 2) / 8 : r.rows[i][j]);
    c.vapprox(d.data(), want, "normalised to a given range", 1e-12);
}
// columns of very small, very large and mixed ranges, and columns far from zero
static void normalise_scale(Ctx& c)
{
    static const std::vector<double> SC{4.9e-324, 1e-300, 1e-30, 1e-12, 1e-7, 1, 1e9, 1e40, 1e307, 1.7e308}, OF{0, 1, -1e6};
    std::size_t n = std::size_t(c.in(2, 4)), f = std::size_t(c.in(1, 2)); std::vector<double> sc, of; for (std::size_t k = 0; k < f; ++k) { sc.push_back(c.of(SC)); of.push_back(c.of(OF)); } std::size_t perm = c.pick(3);
    if (!c.begin()) return;
    std::vector<double> v; for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < f; ++k) v.push_back(of[k] + sc[k] * (double((i + perm) % n) - (perm == 2 || sc[k] > 1e308 ? 1.0 : 0.0)));
    for (double x: v) if (!std::isfinite(x)) return;
    verify_norm(c, n, f, v, 1); c.nontrivial(); c.describe("normalise " + Ctx::show(v) + " in columns of " + std::to_string(f));
}
static void concat_case(Ctx& c, std::size_t a1, std::size_t s1, std::size_t f1, std::size_t a2, std::size_t s2, std::size_t f2, std::size_t axis, std::set<SizeType> l1, std::set<SizeType> l2)
{
    auto v1 = ramp<double>(a1 * s1 * f1), v2 = ramp<double>(a2 * s2 * f2, 1, 1000);
    Dataset<double> d1(v1, f1, s1, l1), d2(v2, f2, s2, l2); auto r1 = Ref<double>::vec(v1, f1, s1, l1), r2 = Ref<double>::vec(v2, f2, s2, l2);
    std::size_t A[3]{a1, s1, f1}, B[3]{a2, s2, f2};
    if (d1.empty() || d2.empty()) { if (axis > 2) return; auto e = Dataset<double>::concatenate(d1, d2, axis); c.veq(e.data(), d1.empty() ? d2.data() : d1.data(), "concatenation with an empty dataset"); if (!e.empty()) verify(c, e, d1.empty() ? r2 : r1, "concatenation with an empty dataset"); return; }
    bool ok = axis <= 2; for (std::size_t i = 0; i < 3; ++i) if (i != axis && A[i] != B[i]) ok = false;
    if (axis != 2 && r1.labels != r2.labels) ok = false;
    if (!ok) { c.throws([&] { Dataset<double>::concatenate(d1, d2, axis); }, "incompatible concatenation"); return; }
    auto e = Dataset<double>::concatenate(d1, d2, axis);
    Ref<double> r; r.fs = axis == 2 ? f1 + f2 : f1; r.seq = axis == 1 ? s1 + s2 : s1; if (axis != 2) r.labels = r1.labels;
    if (axis == 0) { r.rows = r1.rows; r.rows.insert(r.rows.end(), r2.rows.begin(), r2.rows.end()); }
    else if (axis == 1) for (std::size_t i = 0; i < a1; ++i) { for (std::size_t t = 0; t < s1; ++t) r.rows.push_back(r1.rows[i * s1 + t]); for (std::size_t t = 0; t < s2; ++t) r.rows.push_back(r2.rows[i * s2 + t]); }
    else for (std::size_t i = 0; i < r1.rows.size(); ++i) { auto row = r1.rows[i]; row.insert(row.end(), r2.rows[i].begin(), r2.rows[i].end()); r.rows.push_back(row); }
    verify(c, e, r, "concatenation along axis " + std::to_string(axis)); verify_parts(c, e, r, "concatenation"); verify(c, d1, r1, "first operand"); verify(c, d2, r2, "second operand");
    c.outcome(h(r)); c.nontrivial();
}
static void concatenate(Ctx& c)
{
    std::size_t x[6]; int hi = mc::thorough() ? 4 : 3; for (auto& k: x) k = std::size_t(c.in(1, hi));
    std::size_t axis = c.pick(4); std::set<SizeType> l1, l2;
    static const std::vector<std::pair<int, int>> L{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 1}}; auto l = c.of(L);
    if (!c.begin()) return;
    concat_case(c, x[0], x[1], x[2], x[3], x[4], x[5], axis, mask(std::size_t(l.first)), mask(std::size_t(l.second)));
    c.describe("concatenate along axis " + std::to_string(axis));
}
static void concatenate_more(Ctx& c)
{
    static const std::vector<std::vector<std::size_t>> S{{0, 1, 2}, {5, 1, 3}, {1, 7, 3}, {5, 4, 1}, {2, 3, 9}, {10, 3, 2}, {33, 2, 2}, {5, 4, 30}, {5, 17, 3}};
    auto a = c.of(S), b = c.of(S); std::size_t axis = c.pick(3); std::size_t other = c.pick(5);
    if (!c.begin()) return;
    if (a[0] && other) b = a; if (a[0] && other) b[axis] = other * 5;   // compatible, of another length
    concat_case(c, a[0], a[1], a[2], b[0], b[1], b[2], axis, {0}, {0});
}
MC_MAIN({"huge", huge}, {"shuffle", shuffle}, {"shuffle_large", shuffle_large}, {"shuffle_reach", shuffle_reach}, {"normalise", normalise}, {"normalise_range", normalise_range}, {"normalise_large", normalise_large}, {"normalise_outside", normalise_outside}, {"normalise_scale", normalise_scale}, {"concatenate", concatenate}, {"concatenate_more", concatenate_more})

// C11: split and sub-ranges of every small dataset, and of parts of parts.
#include "dataset_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using namespace dref;

static void check_range(Ctx& c, const Dataset<double>& d, const Ref<double>& r, std::size_t a, std::size_t b, bool deep)
{
    std::size_t n = r.rows.size(), e = std::min(b, n);
    std::string w = "range " + std::to_string(a) + ".." + std::to_string(b);
    if (a > e) { c.throws([&] { d.subdata(a, b); }, w); return; }
    auto s = d.subdata(a, b); auto rs = r.sub(a, e);
    verify(c, s, rs, w, false);
    c.outcome(h(rs)); c.step();
    if (deep) for (std::size_t x = 0; x <= rs.rows.size(); ++x) for (std::size_t y = x; y <= rs.rows.size(); ++y) { verify(c, s.subdata(x, y), rs.sub(x, y), w + " of it " + std::to_string(x) + ".." + std::to_string(y), false); c.step(); }
}
// percentage k/den of m groups: the whole number of groups at or below it (rounding of exact products accepted both ways)
static bool cut_ok(std::size_t got, double perc, std::size_t groups)
{
    perc = std::min(1.0, std::max(0.0, perc)); double x = perc * double(groups);
    return got == std::size_t(std::floor(x + 1e-9)) || got == std::size_t(std::floor(std::max(0.0, x - 1e-9)));
}
static void check_split(Ctx& c, Dataset<double>& d, const Ref<double>& r, double p)
{
    std::string w = "split at " + std::to_string(p);
    std::size_t n = r.rows.size(), s = r.seq;
    auto sp = d.split(p); c.step();
    std::size_t t = sp.training_set.empty() ? 0 : sp.training_set.size();
    c.check(t <= n, w + " training size");
    if (s) { c.check(t % s == 0, w + " not cut at a sequence boundary"); c.check(cut_ok(t / s, p, n / s), w + ": training set of " + std::to_string(t) + " of " + std::to_string(n) + " entries, sequence size " + std::to_string(s)); }
    else c.eq(t, std::size_t(0), w + " of an empty dataset");
    verify(c, sp.training_set, r.sub(0, t), w + " training", false);
    verify(c, sp.testing_set, r.sub(t, n), w + " testing", false);
    std::vector<double> both = sp.training_set.data(); both.insert(both.end(), sp.testing_set.data().begin(), sp.testing_set.data().end());
    c.veq(both, r.flat(), w + " parts together");
    if (!r.sub(0, t).rows.empty()) verify_parts(c, sp.training_set, r.sub(0, t), w + " training");
    if (!r.sub(t, n).rows.empty()) verify_parts(c, sp.testing_set, r.sub(t, n), w + " testing");
    auto sd = d.subdata(NumType(p)); std::size_t m = 0; bool found = false;
    for (double eps: {1e-9, -1e-9}) { double x = std::min(1.0, std::max(0.0, p)) * double(n); m = std::size_t(std::floor(std::max(0.0, x + eps))); auto q = r.sub(0, m); if (q.flat() == sd.data()) { verify(c, sd, q, w + " subdata", false); found = true; break; } }
    c.check(found, w + ": first part by percentage");
    verify(c, d, r, w + " original");
    c.outcome(mc::Hash().add(std::uint64_t(t)).add(std::uint64_t(n)).add(std::uint64_t(s)));
}
static const std::vector<double>& percs() { static std::vector<double> v = [] { std::vector<double> p{-1, -0.001, 1.001, 2.5, 0.999999, 0.000001, 1e300}; for (int den: {1, 3, 4, 7, 10}) for (int k = 0; k <= den; ++k) p.push_back(double(k) / den); return p; }(); return v; }

static void ranges(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 9)), f = std::size_t(c.in(1, 3)), s = std::size_t(c.in(1, 4)); auto lab = mask(c.pick(8) & ((1u << f) - 1));
    std::size_t a = c.pick(n + 3), b = c.pick(n + 4);
    if (!c.begin()) return;
    auto v = ramp<double>(n * f); Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab);
    check_range(c, d, r, a, b, true); verify(c, d, r, "original"); c.state(h(r)); c.nontrivial();
    c.describe(std::to_string(n) + " entries, sequence " + std::to_string(s) + ", range " + std::to_string(a) + ".." + std::to_string(b));
}
static void splits(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 12)), f = std::size_t(c.in(1, 3)), s = std::size_t(c.in(1, 5)); auto lab = mask(c.pick(8) & ((1u << f) - 1));
    int chg = c.in(0, 3); double p = c.of(percs());
    if (!c.begin()) return;
    auto v = ramp<double>(n * f); Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab);
    if (chg & 1) { d.sequence_size(2); r.seq = 2; r.trim(); }
    if (chg & 2) { d.label_idx({0, 7}); r.labels = {0}; r.clip(); }
    check_split(c, d, r, p); c.state(h(r)); if (n > 1) c.nontrivial();
    c.describe(std::to_string(n) + " entries, sequence " + std::to_string(s) + ", split at " + std::to_string(p));
}
static void nested(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{4, 9, 12}), s = std::size_t(c.in(1, 3)); double p = c.of(percs()), q = c.of(percs()); bool tr = c.flag();
    if (!c.begin()) return;
    auto v = ramp<double>(n * 3); Dataset<double> d(v, 3, s, {1}); auto r = Ref<double>::vec(v, 3, s, {1});
    auto sp = d.split(p); auto& part = tr ? sp.training_set : sp.testing_set; std::size_t t = sp.training_set.empty() ? 0 : sp.training_set.size();
    auto rp = tr ? r.sub(0, t) : r.sub(t, r.rows.size());
    if (!rp.rows.empty()) { check_split(c, part, rp, q); c.nontrivial(); }
    else { auto e = part.split(q); c.check(e.training_set.empty() && e.testing_set.empty(), "parts of an empty part"); }
    verify(c, d, r, "original"); c.state(h(rp));
}
static void large(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{50, 100, 127, 1000, 4096}), f = c.of(std::vector<std::size_t>{1, 5, 17}), s = c.of(std::vector<std::size_t>{1, 2, 7, 10, 33, 64}); double p = c.of(percs());
    if (!c.begin()) return;
    auto v = ramp<double>(n * f); std::set<SizeType> lab{f - 1}; Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab);
    check_split(c, d, r, p); c.nontrivial(); c.state(h(r));
    for (std::size_t a: {std::size_t(0), n / 3, n / 2, n - 1}) for (std::size_t b: {n / 2, n - 1, n, n + 5}) check_range(c, d, r, a, b, false);
}
static void huge(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{65535, 65536, 70001, 131075}), f = c.of(std::vector<std::size_t>{1, 3}), s = c.of(std::vector<std::size_t>{1, 4, 300, 65536}); double p = c.of(std::vector<double>{0.25, 0.5, 0.9, 1}); if (!mc::thorough() && n > 100000 && (f > 1 || s == 4)) return;
    if (!c.begin()) return;
    c.describe(std::to_string(n) + " entries, sequence " + std::to_string(s) + ", split at " + std::to_string(p)); auto v = ramp<double>(n * f); std::set<SizeType> lab{f - 1}; Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab); check_split(c, d, r, p); c.nontrivial(); c.state(h(r));
    if (p == 1) for (std::size_t a: {std::size_t(0), std::size_t(65530), n - 2}) for (std::size_t b: {n - 1, n, n + 5}) check_range(c, d, r, a, b, false);
}
static void degenerate(Ctx& c)
{
    std::size_t k = c.pick(4); double p = c.of(percs());
    if (!c.begin()) return;
    Dataset<double> d = k == 0 ? Dataset<double>() : k == 1 ? Dataset<double>(std::vector<double>{}, 3, 2, {0}) : k == 2 ? Dataset<double>(Dataset<double>::Mat{}) : Dataset<double>(std::vector<double>{1, 2, 3, 4}, 2, 0);
    auto s = d.split(p); c.check(s.training_set.empty() && s.testing_set.empty(), "parts of an empty dataset");
    c.eq(s.training_set.size() + s.testing_set.size(), std::size_t(0), "entries of the parts of an empty dataset");
    c.check(d.subdata(NumType(p)).empty(), "part of an empty dataset"); c.check(d.subdata(0, 5).empty(), "range of an empty dataset");
    c.check(d.inputs().empty() && d.labels().empty(), "views of an empty dataset"); c.nontrivial();
}
MC_MAIN({"huge", huge}, {"ranges", ranges}, {"splits", splits}, {"nested", nested}, {"large", large}, {"degenerate", degenerate})

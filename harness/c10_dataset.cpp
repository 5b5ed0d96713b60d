// C10: constructors of every small shape, then every program of sequence-size
// and label-set changes, against a row model.
#include "dataset_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using namespace dref;
using std::size_t;

template <class T> static void program(Ctx& c, Dataset<T>& d, Ref<T>& r, const std::vector<int>& ops)
{
    verify(c, d, r, "built"); verify_parts(c, d, r, "built"); c.state(h(r));
    for (int o: ops)
    {
        if (o < 7) { d.sequence_size(SizeType(o)); r.seq = std::size_t(o); r.trim(); }
        else { auto s = mask(std::size_t(std::vector<int>{0, 1, 2, 5, 12, 31, 64 + 2}[std::size_t(o - 7)])); d.label_idx(s); r.labels = s; r.clip(); }
        c.step(); c.state(h(r));
        verify(c, d, r, "after change " + std::to_string(o));
        auto copy = d; verify(c, copy, r, "copy");
    }
    verify_parts(c, d, r, "final");
    if (!ops.empty()) { c.nontrivial(); c.trace(); }
    c.outcome(h(r));
}
static std::vector<int> pick_ops(Ctx& c, int depth) { std::vector<int> v; int n = c.in(0, depth); for (int i = 0; i < n; ++i) v.push_back(c.in(0, 13)); return v; }

static void flat(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 13)), f = std::size_t(c.in(0, 5)), s = std::size_t(c.in(0, 5));
    auto lab = mask(std::vector<std::size_t>{0, 1, 2, 3, 6, 9, 31, 66}[c.pick(8)]);
    auto ops = pick_ops(c, mc::thorough() ? 2 : 1);
    if (!c.begin()) return;
    auto v = ramp<double>(n); Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab);
    // a dataset emptied by a zero sequence size or too few values keeps no promise on its shape
    program(c, d, r, ops);
    c.describe("flat " + std::to_string(n) + " values, feature size " + std::to_string(f) + ", sequence " + std::to_string(s));
}
static void flat_history(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{12, 24, 25}), f = std::size_t(c.in(1, 3)), s = std::size_t(c.in(1, 3));
    auto lab = mask(c.of(std::vector<std::size_t>{0, 2, 5}));
    auto ops = pick_ops(c, mc::thorough() ? 4 : 3);
    if (!c.begin()) return;
    auto v = ramp<double>(n); Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab);
    program(c, d, r, ops);
    c.describe("flat " + std::to_string(n) + " values, " + std::to_string(ops.size()) + " changes");
}
static void matrix(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 6)); std::vector<std::vector<double>> m;
    std::size_t w = std::size_t(c.in(0, 4)), shorter = n ? c.pick(n + 1) : 0, by = shorter < n && w ? c.pick(w + 1) : 0;
    std::size_t s = std::size_t(c.in(0, 7)); auto lab = mask(c.of(std::vector<std::size_t>{0, 1, 2, 6, 66}));
    auto ops = pick_ops(c, mc::thorough() ? 2 : 1);
    if (!c.begin()) return;
    for (std::size_t i = 0; i < n; ++i) m.push_back(ramp<double>(i == shorter ? w - by : w, 1, int(10 * i + 1)));
    if (n && Ref<double>::mat(m, s, lab).fs == 0)
    { Dataset<double> d(m, s, lab); c.check(d.data().empty() && d.empty(), "no features: no data"); c.check(d.entry(0).empty() && d.entry_seq(0).empty() && d.label(0).empty() && d.input(0).empty(), "no features: empty entries"); return; }
    Dataset<double> d(m, s, lab); auto r = Ref<double>::mat(m, s, lab);
    program(c, d, r, ops);
    c.describe("matrix of " + std::to_string(n) + " rows of " + std::to_string(w) + ", sequence " + std::to_string(s));
}
static void cube(Ctx& c)
{
    std::size_t a = std::size_t(c.in(1, 4)), b = std::size_t(c.in(1, 3)), f = std::size_t(c.in(1, 3));
    std::size_t sa = c.pick(a + 1), sb = c.pick(b), cut = c.pick(3);
    auto lab = mask(c.of(std::vector<std::size_t>{0, 1, 2, 6, 66}));
    auto ops = pick_ops(c, mc::thorough() ? 2 : 1);
    if (!c.begin()) return;
    std::vector<std::vector<std::vector<double>>> q(a);
    for (std::size_t i = 0; i < a; ++i) for (std::size_t j = 0; j < b; ++j)
    {
        if (i == sa && cut == 1 && j > sb) continue;       // a shorter matrix
        q[i].push_back(ramp<double>(i == sa && j == sb && cut == 2 && f > 1 ? f - 1 : f, 1, int(100 * i + 10 * j + 1)));
    }
    Dataset<double> d(q, lab); auto r = Ref<double>::cub(q, lab);
    program(c, d, r, ops);
    c.describe("cube " + std::to_string(a) + "x" + std::to_string(b) + "x" + std::to_string(f));
}
template <class T> static void other(Ctx& c, std::size_t n, std::size_t f, std::size_t s)
{
    auto v = ramp<T>(n, 3); std::set<SizeType> lab{f - 1}; Dataset<T> d(v, f, s, lab); auto r = Ref<T>::vec(v, f, s, lab);
    program(c, d, r, {3, 8, 2});
    Dataset<T> e; Ref<T> re; re.seq = 0; verify(c, e, re, "default constructed"); c.eq(e.size(), std::size_t(0), "no entries");
}
static void types_and_large(Ctx& c)
{
    std::size_t k = c.pick(3), n = c.of(std::vector<std::size_t>{6, 7, 100, 1000, 1023, 4099}), f = c.of(std::vector<std::size_t>{1, 2, 7, 33, 129}), s = c.of(std::vector<std::size_t>{1, 2, 5, 16, 300});
    if (!c.begin()) return;
    if (k == 0) other<double>(c, n, std::min(f, n), s); else if (k == 1) other<float>(c, n, std::min(f, n), s); else other<int>(c, n, std::min(f, n), s);
    c.nontrivial();
}
// more values than 16 bits count, in any shape
static void huge(Ctx& c)
{
    std::size_t k = c.pick(3), n = c.of(std::vector<std::size_t>{65535, 65536, 65537, 131075}), f = c.of(std::vector<std::size_t>{1, 3, 300, 65536}), s = c.of(std::vector<std::size_t>{1, 4, 65536});
    if (n / std::min(f, n) > 70000 && !mc::thorough() && (k || s == 4)) return;
    if (!c.begin()) return;
    c.describe(std::to_string(n) + " values in rows of " + std::to_string(f) + ", sequences of " + std::to_string(s)); c.nontrivial(); f = std::min(f, n);
    if (k == 0) { auto v = ramp<double>(n); std::set<SizeType> lab{0, f / 2, f - 1}; Dataset<double> d(v, f, s, lab); auto r = Ref<double>::vec(v, f, s, lab); verify(c, d, r, "huge"); d.sequence_size(2); r.seq = 2; r.trim(); verify(c, d, r, "huge, sequences of 2"); d.label_idx({f / 3}); r.labels = {f / 3}; verify(c, d, r, "huge, other labels"); verify_parts(c, d, r, "huge"); }
    else if (k == 1) { std::vector<std::vector<double>> m(n / f); for (std::size_t i = 0; i < m.size(); ++i) m[i] = ramp<double>(f, 1, int(i)); Dataset<double> d(m, s, {0}); auto r = Ref<double>::mat(m, s, {0}); verify(c, d, r, "huge matrix"); }
    else { std::size_t b = std::min(s, n / f); std::vector<std::vector<std::vector<double>>> q(n / f / b); for (std::size_t i = 0; i < q.size(); ++i) for (std::size_t j = 0; j < b; ++j) q[i].push_back(ramp<double>(f, 1, int(i * 7 + j))); Dataset<double> d(q, {f - 1}); auto r = Ref<double>::cub(q, {f - 1}); verify(c, d, r, "huge cube"); }
}
// cubes without entries or features
static void hollow(Ctx& c)
{
    size_t kind = c.pick(5), lab = c.pick(4); auto ops = pick_ops(c, 2);
    if (!c.begin()) return;
    using M = std::vector<std::vector<double>>; std::vector<M> q; if (kind == 1) q = {M{}}; if (kind == 2) q = {M{}, M{{1, 2}}}; if (kind == 3) q = {M{{}}, M{{1}}}; if (kind == 4) q = {M{{1, 2}, {3, 4}}, M{}}; std::ostringstream w; w << "hollow cube " << kind << ", labels " << lab << ':'; for (int o: ops) w << ' ' << o; c.describe(w.str());
    Dataset<double> d(q, mask(lab)); auto hollow = [&](const Dataset<double>& e) { c.check(e.data().empty() && e.empty(), "a cube without values is empty"); for (std::size_t i: {std::size_t(0), std::size_t(1), ~std::size_t(0)}) { c.check(e.entry(i).empty() && e.input(i).empty() && e.label(i).empty(), "entries of an empty dataset"); c.check(e.entry_seq(i).empty() && e.inputs_seq(i).empty() && e.labels_seq(i).empty(), "sequences of an empty dataset"); } c.check(e.inputs().empty() && e.labels().empty(), "parts of an empty dataset"); for (auto i: e.label_idx()) c.check(i < e.feature_size(), "label index"); };
    hollow(d); for (int o: ops) { if (o < 7) d.sequence_size(SizeType(o)); else d.label_idx(mask(std::size_t(o - 7))); hollow(d); auto e = d; hollow(e); c.step(); } c.nontrivial();
}
MC_MAIN({"huge", huge}, {"flat", flat}, {"flat_history", flat_history}, {"matrix", matrix}, {"cube", cube}, {"types_and_large", types_and_large}, {"hollow", hollow})

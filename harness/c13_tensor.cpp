// C13: block moves and matrix products of every small shape, against index
// formulas; buffers have exactly their size (ASan) and guarded contents.
#include "dnn/dlmath.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using S3 = DLMath::Shape3d; using V = std::vector<double>; using Dim = std::vector<SizeType>;
static V ramp(std::size_t n, double from = 1) { V v(n); for (std::size_t i = 0; i < n; ++i) v[i] = from + double(i); return v; }
static std::size_t prod(const Dim& d) { std::size_t p = 1; for (auto x: d) p *= x; return p; }
// exactly sized heap block, so that any access outside is seen
template <class T> struct Buf { std::unique_ptr<T[]> p; std::size_t n; Buf(std::size_t k, T fill) : p(new T[k]), n(k) { std::fill(p.get(), p.get() + k, fill); } Buf(const std::vector<T>& v) : Buf(v.size(), T(0)) { std::copy(v.begin(), v.end(), p.get()); } T* get() { return p.get(); } std::vector<T> vec() const { return {p.get(), p.get() + n}; } };
// offset of a multi-index
static std::size_t off(const Dim& shape, const Dim& i) { std::size_t o = 0; for (std::size_t k = 0; k < shape.size(); ++k) o = o * shape[k] + i[k]; return o; }
template <class F> static void each(const Dim& shape, F f) { Dim i(shape.size(), 0); if (prod(shape) == 0) return; while (true) { f(i); std::size_t k = shape.size(); while (k > 0) { if (++i[k - 1] < shape[k - 1]) break; i[--k] = 0; } if (k == 0) return; } }

static void concat2(Ctx& c)
{
    int hi = mc::thorough() ? 5 : 4; Dim a{SizeType(c.in(0, hi)), SizeType(c.in(0, hi)), SizeType(c.in(0, hi))}; SizeType axis = c.pick(4); SizeType len = SizeType(c.in(0, hi)); std::size_t bad = c.pick(4);
    if (!c.begin()) return;
    Dim b = a; if (axis < 3) b[axis] = len; if (bad < 3 && bad != axis) b[bad] += 1; S3 sa(a[0], a[1], a[2]), sb(b[0], b[1], b[2]);
    Buf<double> x(ramp(prod(a))), y(ramp(prod(b), 1000)); auto x0 = x.vec(), y0 = y.vec();
    bool ok = axis < 3; for (SizeType k = 0; k < 3; ++k) if (k != axis && a[k] != b[k]) ok = false;
    if (!ok)
    {
        Buf<double> d(prod(a) + prod(b) + 200, -7), e(d.n, -7); auto d0 = d.vec();
        c.throws([&] { DLMath::concatenate(d.get(), x.get(), sa, y.get(), sb, axis); }, "concatenate of incompatible shapes or axis");
        c.throws([&] { DLMath::separate(e.get(), sa, e.get(), sb, x.get(), axis); }, "separate into incompatible shapes or axis");
        c.throws([&] { DLMath::concatenate(d.get(), x.get(), std::vector<S3>{sa, sb}, axis); }, "concatenate of incompatible shapes");
        c.throws([&] { DLMath::separate(d.get(), std::vector<S3>{sa, sb}, x.get(), axis); }, "separate into incompatible shapes");
        c.veq(d.vec(), d0, "rejected calls write nothing"); c.veq(e.vec(), d0, "rejected calls write nothing"); return;
    }
    Dim s = a; s[axis] += b[axis]; Buf<double> d(prod(s), -7); V want(prod(s));
    each(a, [&](const Dim& i) { want[off(s, i)] = x0[off(a, i)]; });
    each(b, [&](Dim i) { auto v = y0[off(b, i)]; i[axis] += a[axis]; want[off(s, i)] = v; });
    auto* r = DLMath::concatenate(d.get(), x.get(), sa, y.get(), sb, axis);
    c.check(r == d.get(), "returns the destination"); c.veq(d.vec(), want, "concatenate");
    Buf<double> p(prod(a), -7), q(prod(b), -7); DLMath::separate(p.get(), sa, q.get(), sb, d.get(), axis);
    c.veq(p.vec(), x0, "separate, first part"); c.veq(q.vec(), y0, "separate, second part"); c.veq(x.vec(), x0, "source unchanged"); c.veq(d.vec(), want, "source unchanged");
    if (prod(a) && prod(b)) c.nontrivial(); c.outcome(mc::Hash().add(want)); c.describe("concatenate along axis " + std::to_string(axis));
}
static void concat_n(Ctx& c)
{
    std::size_t k = std::size_t(c.in(1, mc::thorough() ? 5 : 4)); Dim a{SizeType(c.in(1, 3)), SizeType(c.in(1, 3)), SizeType(c.in(1, 3))}; SizeType axis = c.pick(3); Dim len; for (std::size_t i = 0; i < k; ++i) len.push_back(SizeType(c.in(k > 2 ? 1 : 0, k > 3 ? 2 : 3)));
    if (!c.begin()) return;
    std::vector<S3> shapes; V src, flat; Dim total = a; total[axis] = 0; for (auto l: len) total[axis] += l; V want(prod(total)); std::size_t pos = 0, n = 0;
    for (auto l: len) { Dim b = a; b[axis] = l; shapes.emplace_back(b[0], b[1], b[2]); V part = ramp(prod(b), double(1000 * ++n)); src.insert(src.end(), part.begin(), part.end()); each(b, [&](Dim i) { auto v = part[off(b, i)]; i[axis] += pos; want[off(total, i)] = v; }); pos += l; }
    Buf<double> s(src), d(want.size(), -7), back(src.size(), -7);
    DLMath::concatenate(d.get(), s.get(), shapes, axis); c.veq(d.vec(), want, "concatenate of several blocks");
    DLMath::separate(back.get(), shapes, d.get(), axis); c.veq(back.vec(), src, "separate of several blocks"); if (k > 1) c.nontrivial();
    // one block of another size across the axis, wherever it comes
    for (std::size_t j = 0; k > 1 && j < k; ++j) for (std::size_t x = 0; x < 3; ++x)
    {
        if (x == axis) continue;
        auto wrong = shapes; wrong[j][x] += 1; Buf<double> big(src.size() * 4 + 200, -3), out(big.n, -7); auto o0 = out.vec();
        c.throws([&] { DLMath::concatenate(out.get(), big.get(), wrong, axis); }, "concatenate with an incompatible block " + std::to_string(j)); c.throws([&] { DLMath::separate(out.get(), wrong, big.get(), axis); }, "separate with an incompatible block " + std::to_string(j)); c.veq(out.vec(), o0, "rejected calls write nothing");
    }
}
static void append_extract(Ctx& c)
{
    std::size_t nd = std::size_t(c.in(1, 4)); Dim s; for (std::size_t i = 0; i < nd; ++i) s.push_back(SizeType(c.in(1, nd > 3 ? 2 : 3))); SizeType axis = c.pick(nd); SizeType from = c.pick(s[axis] + 1), len = c.pick(s[axis] - from + 1); bool chk = c.flag();
    if (!c.begin()) return;
    Dim b = s; b[axis] = len; Buf<double> d(ramp(prod(s), -500)), x(ramp(prod(b))), out(prod(b), -7); V want = d.vec(), x0 = x.vec();
    each(b, [&](Dim i) { auto v = x0[off(b, i)]; i[axis] += from; want[off(s, i)] = v; });
    if (chk) DLMath::append_check(d.get(), s, x.get(), len, axis, from); else DLMath::append(d.get(), s, x.get(), len, axis, from);
    c.veq(d.vec(), want, "append leaves the rest alone");
    if (chk) DLMath::extract_check(out.get(), b, d.get(), s[axis], axis, from); else DLMath::extract(out.get(), b, d.get(), s[axis], axis, from);
    c.veq(out.vec(), x0, "extract"); c.veq(d.vec(), want, "extract leaves the source alone");
    c.throws([&] { DLMath::append_check(d.get(), s, x.get(), len, nd, from); }, "append on a missing axis"); c.throws([&] { DLMath::extract_check(out.get(), b, d.get(), s[axis], nd + 1, from); }, "extract on a missing axis"); c.veq(d.vec(), want, "rejected calls write nothing"); c.nontrivial();
}
template <class T> static void products(Ctx& c, std::size_t r, std::size_t k)
{
    auto val = [](std::size_t i) { return T(double((i * 7 + 3) % 11) - 5.0); };
    std::vector<T> m(r * k), x(k), b(r), g(r); for (std::size_t i = 0; i < m.size(); ++i) m[i] = val(i); for (std::size_t i = 0; i < k; ++i) x[i] = val(i + 5); for (std::size_t i = 0; i < r; ++i) { b[i] = val(2 * i + 1); g[i] = val(3 * i + 2); }
    Buf<T> mm(m), xx(x), bb(b), gg(g), d(r, T(-7)), d2(r, T(-7)), d3(r, T(99));
    std::vector<T> w(r, T(0)), wd = b, gi(k, T(0)), gw(m.size(), T(2)), gb(r, T(3)); for (std::size_t i = 0; i < r; ++i) { gb[i] += g[i]; for (std::size_t j = 0; j < k; ++j) { w[i] += m[i * k + j] * x[j]; wd[i] += m[i * k + j] * x[j]; gi[j] += g[i] * m[i * k + j]; gw[i * k + j] += g[i] * x[j]; } }
    DLMath::matarr_mul<T>(d.get(), mm.get(), xx.get(), r, k); c.veq(d.vec(), w, "matarr_mul"); DLMath::matarr_mul_no_check<T>(d3.get(), mm.get(), xx.get(), r, k); c.veq(d3.vec(), w, "matarr_mul_no_check");
    DLMath::dense<T>(d2.get(), xx.get(), mm.get(), bb.get(), k, r); c.veq(d2.vec(), wd, "dense");
    Buf<T> I(k, T(5)), W(m.size(), T(2)), B(r, T(3)); DLMath::dense_1<T>(I.get(), W.get(), B.get(), gg.get(), xx.get(), mm.get(), k, r);
    c.veq(I.vec(), gi, "dense_1 input gradients"); c.veq(W.vec(), gw, "dense_1 adds to the weight gradients"); c.veq(B.vec(), gb, "dense_1 adds to the bias gradients");
    c.veq(mm.vec(), m, "matrix unchanged"); c.veq(xx.vec(), x, "vector unchanged"); c.veq(bb.vec(), b, "bias unchanged"); c.veq(gg.vec(), g, "gradient unchanged");
    c.throws([&] { DLMath::matarr_mul<T>(xx.get(), mm.get(), xx.get(), r, k); }, "matarr_mul in place"); c.veq(xx.vec(), x, "rejected product");
    // element-wise, in place or not
    std::size_t n = r * k; std::vector<T> y(n); for (std::size_t i = 0; i < n; ++i) y[i] = val(i * 2 + 1);
    for (int mode = 0; mode < 4; ++mode) for (int op = 0; op < 4; ++op)
    {
        Buf<T> a(m), e(y), o(n, T(-9)); T* dst = mode == 0 ? o.get() : mode == 1 ? a.get() : mode == 2 ? e.get() : a.get(); const T* s1 = a.get(); const T* s2 = mode == 3 ? a.get() : e.get(); std::vector<T> v2 = mode == 3 ? m : y, want(n); T sc = T(3);
        for (std::size_t i = 0; i < n; ++i) want[i] = op == 0 ? m[i] * v2[i] : op == 1 ? m[i] + v2[i] : op == 2 ? m[i] * sc : m[i] + sc;
        T* ret = op == 0 ? DLMath::arr_mul(dst, s1, s2, n) : op == 1 ? DLMath::arr_sum(dst, s1, s2, n) : op == 2 ? DLMath::arr_mul(dst, s1, sc, n) : DLMath::arr_sum(dst, s1, sc, n);
        c.check(ret == dst, "returns the destination"); c.veq(std::vector<T>(dst, dst + n), want, "element-wise operation " + std::to_string(op) + " alias " + std::to_string(mode));
        if (mode == 0) { c.veq(a.vec(), m, "operand unchanged"); c.veq(e.vec(), y, "operand unchanged"); }
    }
    if (n) { Buf<T> e(y); auto mx = *std::max_element(y.begin(), y.end()); std::size_t am = std::size_t(std::max_element(y.begin(), y.end()) - y.begin()); c.check(DLMath::max<T>(e.get(), n) == mx, "max"); c.eq(DLMath::argmax<T>(e.get(), n), am, "argmax is the first maximum"); auto [a, b2] = DLMath::max_and_argmax<T>(e.get(), n); c.check(a == mx && b2 == am, "max_and_argmax");
        for (std::size_t i = 0; i < n; i += (n > 5000 ? n / 97 : 1)) { auto f = std::int64_t(std::find(y.begin(), y.end(), y[i]) - y.begin()); c.eq(DLMath::index_of(y, y[i]), f, "index_of"); } c.eq(DLMath::index_of(y, T(77)), std::int64_t(-1), "index_of a missing value"); }
}
static void matrices(Ctx& c)
{
    std::size_t r = std::size_t(c.in(0, 9)), k = std::size_t(c.in(0, 9)); int t = c.in(0, 2);
    if (!c.begin()) return;
    if (t == 0) products<double>(c, r, k); else if (t == 1) products<float>(c, r, k); else products<int>(c, r, k); if (r && k) c.nontrivial();
}
static void matrices_large(Ctx& c)
{
    static const std::vector<std::size_t> N{1, 15, 16, 17, 33, 64, 100, 129, 256, 513, 1025, 4097, 33000, 70001};
    std::size_t r = c.of(N), k = c.of(N); if (r * k > (mc::thorough() ? 3000000 : 300000)) return;
    if (!c.begin()) return;
    products<double>(c, r, k); c.nontrivial();
    // the place of a value in a long vector, of the largest one, and of one of several
    std::vector<std::size_t> v(r * k); for (std::size_t i = 0; i < v.size(); ++i) v[i] = i * 3 + 1;
    for (std::size_t i: {std::size_t(0), v.size() / 3, v.size() / 2, v.size() - 1}) { c.eq(DLMath::index_of(v, v[i]), std::int64_t(i), "place of a value"); c.eq(DLMath::index_of(v, v[i] + 1), std::int64_t(-1), "place of a missing value");
        V d(v.begin(), v.end()); d[i] = 1e9; d[v.size() - 1] = 1e9; Buf<double> b(d); c.eq(DLMath::argmax<double>(b.get(), d.size()), i, "place of the largest"); c.check(DLMath::max<double>(b.get(), d.size()) == 1e9, "largest"); c.check(std::get<1>(DLMath::max_and_argmax<double>(b.get(), d.size())) == i, "place of the largest"); }
}
// rand orders: values of every vector over a small set for max/argmax/index_of
static void maxima(Ctx& c)
{
    std::size_t n = std::size_t(c.in(1, 5)); V v; for (std::size_t i = 0; i < n; ++i) v.push_back(c.of(V{-3, -1, 0, 2}));
    if (!c.begin()) return;
    auto it = std::max_element(v.begin(), v.end()); Buf<double> b(v);
    c.eq(DLMath::max<double>(b.get(), n), *it, "max"); c.eq(DLMath::argmax<double>(b.get(), n), std::size_t(it - v.begin()), "argmax"); auto [m, a] = DLMath::max_and_argmax<double>(b.get(), n); c.check(m == *it && a == std::size_t(it - v.begin()), "max_and_argmax"); c.nontrivial();
}
static void large(Ctx& c)
{
    static const std::vector<std::size_t> N{1, 7, 16, 65, 300, 2100}; Dim a{c.of(N), c.of(N), c.of(N)}; SizeType axis = c.pick(3); std::size_t l = c.of(N); if (prod(a) > 300000 || prod(a) / a[axis] * l > 300000) return;
    if (!c.begin()) return;
    Dim b = a; b[axis] = l; Dim s = a; s[axis] += l; auto x = ramp(prod(a)), y = ramp(prod(b), 1e6); V want(prod(s)); each(a, [&](const Dim& i) { want[off(s, i)] = x[off(a, i)]; }); each(b, [&](Dim i) { auto v = y[off(b, i)]; i[axis] += a[axis]; want[off(s, i)] = v; });
    Buf<double> d(prod(s), -7), p(prod(a), 0), q(prod(b), 0); S3 sa(a[0], a[1], a[2]), sb(b[0], b[1], b[2]); DLMath::concatenate(d.get(), x.data(), sa, y.data(), sb, axis); c.check(d.vec() == want, "concatenate of large blocks"); DLMath::separate(p.get(), sa, q.get(), sb, d.get(), axis); c.check(p.vec() == x && q.vec() == y, "separate of large blocks"); c.nontrivial();
}
MC_MAIN({"concat2", concat2}, {"concat_n", concat_n}, {"append_extract", append_extract}, {"matrices", matrices}, {"matrices_large", matrices_large}, {"maxima", maxima}, {"large", large})

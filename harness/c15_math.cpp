// C15: element-wise functions, activations, losses: every short vector over a
// value lattice against long-double definitions.
#include "dnn/activation.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "mc.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using LD = long double;
static const V LAT{-0.0, 0.0, 1.0, -1.0, 0.5, -30.0, 30.0, -700.0, 700.0, 1e-8, -2.5};
static LD sgm(LD x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
static std::vector<LD> smax(const V& x) { LD m = *std::max_element(x.begin(), x.end()), s = 0; std::vector<LD> r; for (double v: x) { r.push_back(std::exp(LD(v) - m)); s += r.back(); } for (auto& v: r) v /= s; return r; }
template <class T> static void close(Ctx& c, const T* got, const std::vector<LD>& want, const char* what, double tol)
{
    ++mc::stats().checks;
    for (std::size_t i = 0; i < want.size(); ++i) { double w = double(want[i]), g = double(got[i]); if (!(std::fabs(g - w) <= tol * std::max({std::fabs(w), 1e-12 / tol * 1e-3, 1e-30}) || g == w || std::fabs(g - w) <= tol * 1e-3)) { std::ostringstream o; o << std::setprecision(17) << what << " element " << i << ": got " << g << ", want " << w; c.fail(o.str()); } }
}
template <class T> struct Unary { const char* n; T (*s)(T); T* (*v)(T*, const T*, SizeType); LD (*ref)(LD); };
template <class T> static void unary(Ctx& c, const V& x0, double tol)
{
    static const std::vector<Unary<T>> U{
        {"relu", DLMath::relu<T>, DLMath::relu<T>, [](LD x) -> LD { return x > 0 ? x : 0; }}, {"relu_1", DLMath::relu_1<T>, DLMath::relu_1<T>, [](LD x) -> LD { return x > 0; }},
        {"tanh", DLMath::tanh<T>, DLMath::tanh<T>, [](LD x) -> LD { return std::tanh(x); }}, {"tanh_1", DLMath::tanh_1<T>, DLMath::tanh_1<T>, [](LD x) -> LD { LD h = std::cosh(x); return 1 / (h * h); }},
        {"tanh_1_opt", DLMath::tanh_1_opt<T>, DLMath::tanh_1_opt<T>, [](LD x) -> LD { return 1 - x * x; }}, {"sigmoid", DLMath::sigmoid<T>, DLMath::sigmoid<T>, sgm},
        {"sigmoid_1", DLMath::sigmoid_1<T>, DLMath::sigmoid_1<T>, [](LD x) -> LD { return sgm(x) * sgm(-x); }}, {"sigmoid_1_opt", DLMath::sigmoid_1_opt<T>, DLMath::sigmoid_1_opt<T>, [](LD x) -> LD { return x * (1 - x); }}};
    std::vector<T> x(x0.begin(), x0.end()); std::size_t n = x.size();
    for (auto& u: U)
    {
        std::vector<LD> want; for (auto v: x) want.push_back(u.ref(LD(v)));
        std::vector<T> d(n + 2, T(-7)), in = x, sc; auto* r = u.v(d.data() + 1, in.data(), n); c.check(r == d.data() + 1 && d[0] == T(-7) && d[n + 1] == T(-7) && std::equal(in.begin(), in.end(), x.begin()), std::string(u.n) + " writes its destination only");
        close(c, d.data() + 1, want, u.n, tol); u.v(in.data(), in.data(), n); close(c, in.data(), want, u.n, tol); for (auto v: x) sc.push_back(u.s(v)); close(c, sc.data(), want, u.n, tol);
    }
    for (T al: {T(1), T(0.5), T(0.1), T(2), T(0)})
    {
        std::vector<LD> e, e1, eo; for (auto v: x) { LD z = v; e.push_back(z > 0 ? z : LD(al) * (std::exp(z) - 1)); e1.push_back(z > 0 ? 1 : LD(al) * std::exp(z)); eo.push_back(z > 0 ? 1 : z + LD(al)); }
        std::vector<T> d(n), in = x; DLMath::elu(d.data(), x.data(), n, al); close(c, d.data(), e, "elu", tol); DLMath::elu(in.data(), in.data(), n, al); close(c, in.data(), e, "elu in place", tol); for (std::size_t i = 0; i < n; ++i) d[i] = DLMath::elu(x[i], al); close(c, d.data(), e, "elu", tol);
        DLMath::elu_1(d.data(), x.data(), n, al); close(c, d.data(), e1, "elu_1", tol); in = x; DLMath::elu_1(in.data(), in.data(), n, al); close(c, in.data(), e1, "elu_1 in place", tol); for (std::size_t i = 0; i < n; ++i) d[i] = DLMath::elu_1(x[i], al); close(c, d.data(), e1, "elu_1", tol);
        DLMath::elu_1_opt(d.data(), x.data(), n, al); close(c, d.data(), eo, "elu_1_opt", tol); std::vector<T> y(n); DLMath::elu(y.data(), x.data(), n, al); DLMath::elu_1_opt(y.data(), y.data(), n, al); close(c, y.data(), e1, "elu derivative from the output", std::max(tol, 1e-12));
    }
    if (n == 0) return;
    auto want = smax(V(x.begin(), x.end())); std::vector<T> d(n), in = x; DLMath::stable_softmax(d.data(), x.data(), n); close(c, d.data(), want, "stable_softmax", tol * 10); DLMath::stable_softmax(in.data(), in.data(), n); close(c, in.data(), want, "stable_softmax in place", tol * 10); DLMath::stable_softmax_no_check(d.data(), x.data(), n); close(c, d.data(), want, "stable_softmax_no_check", tol * 10);
    double lim = sizeof(T) == 8 ? 690 : 80; bool plain = true; for (auto v: x) if (std::fabs(double(v)) > lim) plain = false;
    std::vector<T> g(n); for (std::size_t i = 0; i < n; ++i) g[i] = T(double((i * 5 + 2) % 7) - 3);
    std::vector<LD> j(n, 0); for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < n; ++k) j[i] += want[i] * ((i == k) - want[k]) * LD(g[k]);
    DLMath::stable_softmax(d.data(), x.data(), n); std::vector<T> o(n), s = d; DLMath::softmax_1_opt(o.data(), d.data(), g.data(), n); close(c, o.data(), j, "softmax_1_opt", tol * 100); DLMath::softmax_1_opt_no_check(o.data(), d.data(), g.data(), n); close(c, o.data(), j, "softmax_1_opt_no_check", tol * 100); c.check(d == s, "softmax_1_opt leaves its source alone");
    c.throws([&] { DLMath::softmax_1_opt(d.data(), d.data(), g.data(), n); }, "softmax_1_opt in place"); T* null = nullptr; c.throws([&] { DLMath::stable_softmax(d.data(), static_cast<const T*>(null), n); }, "stable_softmax of nothing");
    if (plain) { in = x; DLMath::softmax(d.data(), x.data(), n); close(c, d.data(), want, "softmax", tol * 10); DLMath::softmax(in.data(), in.data(), n); close(c, in.data(), want, "softmax in place", tol * 10); DLMath::softmax_1(o.data(), x.data(), g.data(), n); close(c, o.data(), j, "softmax_1", tol * 100); in = x; DLMath::softmax_1(in.data(), in.data(), g.data(), n); close(c, in.data(), j, "softmax_1 in place", tol * 100); }
}
static void functions(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, mc::thorough() ? 4 : 3)); V x; for (std::size_t i = 0; i < n; ++i) x.push_back(c.of(LAT));
    if (!c.begin()) return;
    c.describe("functions of " + Ctx::show(x)); unary<double>(c, x, 1e-13); unary<float>(c, x, 2e-6); c.outcome(mc::Hash().add(x)); if (n) c.nontrivial();
}
static void functions_wide(Ctx& c)      // a dense grid, long vectors
{
    int k = c.in(-400, 400); std::size_t n = c.of(std::vector<std::size_t>{1, 9, 64, 129});
    if (!c.begin()) return;
    V x; for (std::size_t i = 0; i < n; ++i) x.push_back(double(k) / 16 + double(i * i % 13) / 7 - 0.7); unary<double>(c, x, 1e-13); c.nontrivial();
}
static void functions_scales(Ctx& c)    // arguments of every order of magnitude
{
    int k = c.in(-70, 9); double m = c.of(V{1, 1.37, 1.9}), sg = c.flag() ? 1 : -1; std::size_t n = c.of(std::vector<std::size_t>{1, 2, 5});
    if (!c.begin()) return;
    V x; for (std::size_t i = 0; i < n; ++i) x.push_back(std::ldexp(sg * m * (i % 2 ? -1 : 1), k - int(i) * 3)); c.describe("functions of " + Ctx::show(x)); unary<double>(c, x, 1e-12); unary<float>(c, x, 1e-4); c.nontrivial();
}
template <class L> static void layer(Ctx& c, L& l, const V& x, const std::vector<LD>& want, const char* n)
{
    V in = x, other(x.size(), 0.25); for (int k = 0; k < 2; ++k) { const V& o = k ? l.training_forward(in) : l.forward(in); c.eq(o.size(), x.size(), std::string(n) + " output size"); close(c, o.data(), want, n, 1e-12); c.veq(l.last_output(), o, std::string(n) + " last output"); c.veq(in, x, std::string(n) + " input unchanged"); l.forward(other); }
    c.eq(l.output_size(), x.size(), std::string(n) + " size"); c.eq(l.param_count(), SizeType(0), std::string(n) + " parameters");
}
static void layers(Ctx& c)
{
    std::size_t n = std::size_t(c.in(1, 3)); V x; for (std::size_t i = 0; i < n; ++i) x.push_back(c.of(V{0, 1.5, -1, 40, -800, 1000})); bool resized = c.flag();
    if (!c.begin()) return;
    SizeType s = resized ? 1 : n; std::vector<LD> w[5]; for (double v: x) { w[0].push_back(v > 0 ? v : 0); w[1].push_back(v > 0 ? LD(v) : LD(0.7) * (std::exp(LD(v)) - 1)); w[2].push_back(std::tanh(LD(v))); w[3].push_back(sgm(v)); w[4].push_back(v); }
    ReluLayer r("r", s); EluLayer e("e", s, 0.7); TanhLayer t("t", s); SigmoidLayer g("g", s); LinearLayer l("l", s); SoftmaxLayer m("m", s);
    if (resized) for (Layer* q: std::vector<Layer*>{&r, &e, &t, &g, &l, &m}) q->input_shape(LayerShape(n));
    layer(c, r, x, w[0], "ReLU layer"); layer(c, e, x, w[1], "ELU layer"); layer(c, t, x, w[2], "Tanh layer"); layer(c, g, x, w[3], "Sigmoid layer"); layer(c, l, x, w[4], "Linear layer"); layer(c, m, x, smax(x), "Softmax layer"); c.nontrivial();
}
template <class T> static void loss_functions(Ctx& c, const V& y0, const V& p0, double tol)
{
    std::vector<T> y(y0.begin(), y0.end()), p(p0.begin(), p0.end()); std::size_t n = y.size(); LD ce = 0, se = 0; std::vector<LD> d, d2; LD eps = std::numeric_limits<T>::epsilon(); bool smooth = true;
    for (T nm: {T(1), T(0.25)})
    {
        ce = se = 0; d.clear(); d2.clear(); smooth = true;
        for (std::size_t i = 0; i < n; ++i) { LD q = std::max(LD(p[i]), eps); ce += -LD(y[i]) * std::log(q); se += (LD(y[i]) - p[i]) * (LD(y[i]) - p[i]); if (LD(p[i]) < eps) smooth = false; d.push_back(-LD(nm) * LD(y[i]) / q); d2.push_back(-2 * LD(nm) * (LD(y[i]) - p[i]));
            T v = DLMath::cross_entropy(y[i], p[i]); close(c, &v, {-LD(y[i]) * std::log(q)}, "cross_entropy", tol); v = DLMath::squared_error(y[i], p[i]); close(c, &v, {(LD(y[i]) - p[i]) * (LD(y[i]) - p[i])}, "squared_error", tol);
            v = DLMath::squared_error_1(y[i], p[i], nm); close(c, &v, {d2[i]}, "squared_error_1", tol); v = DLMath::cross_entropy_1(y[i], p[i], nm); c.check(std::isfinite(double(v)), "cross_entropy_1 is finite"); if (LD(p[i]) >= eps) close(c, &v, {d[i]}, "cross_entropy_1", tol); else c.check(LD(v) * LD(y[i]) <= 0, "cross_entropy_1 sign"); }
        std::vector<T> o(n);
        if (n) { T v = DLMath::cross_entropy(y.data(), p.data(), n); close(c, &v, {ce}, "cross_entropy of vectors", tol); v = DLMath::mean_squared_error(y.data(), p.data(), n); close(c, &v, {se / LD(n)}, "mean_squared_error", tol); }
        DLMath::mean_squared_error_1(o.data(), y.data(), p.data(), nm, n); close(c, o.data(), d2, "mean_squared_error_1", tol); auto a = y; DLMath::mean_squared_error_1(a.data(), a.data(), p.data(), nm, n); close(c, a.data(), d2, "mean_squared_error_1 in place", tol);
        DLMath::cross_entropy_1(o.data(), y.data(), p.data(), nm, n); if (smooth) close(c, o.data(), d, "cross_entropy_1 of vectors", tol); for (auto v: o) c.check(std::isfinite(double(v)), "cross_entropy_1 is finite"); a = p; DLMath::cross_entropy_1(a.data(), y.data(), a.data(), nm, n); if (smooth) close(c, a.data(), d, "cross_entropy_1 in place", tol);
    }
}
static void losses(Ctx& c)
{
    static const V Y{0, 1, 0.3}, P{0, 1, 0.5, 1e-20, 0.125, 1e-3}; std::size_t n = std::size_t(c.in(1, 3)); V y, p; for (std::size_t i = 0; i < n; ++i) { y.push_back(c.of(Y)); p.push_back(c.of(P)); }
    if (!c.begin()) return;
    c.describe("losses of target " + Ctx::show(y) + ", output " + Ctx::show(p)); loss_functions<double>(c, y, p, 1e-13); loss_functions<float>(c, y, p, 3e-6);
    V q(n), d(n); double l = 0; for (std::size_t i = 0; i < n; ++i) { q[i] = p[i] * 100 - 40; l += (q[i] - y[i]) * (q[i] - y[i]) / double(n); }
    c.approx(DLMath::mean_squared_error(q.data(), y.data(), n), l, "mean_squared_error of large values", 1e-12); DLMath::mean_squared_error_1(d.data(), q.data(), y.data(), 0.5, n); for (std::size_t i = 0; i < n; ++i) c.approx(d[i], -(q[i] - y[i]), "mean_squared_error_1 of large values", 1e-12);
    c.nontrivial();
}
// loss layers: value, gradient and score over a history of samples and resets
static void loss_layers(Ctx& c)
{
    static const std::vector<V> Y{{1, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 0.5, 0.5}}, P{{0.7, 0.2, 0.1}, {0.1, 0.1, 0.8}, {0.5, 0.5, 0}, {0, 0.50001, 0.5}};
    std::size_t bs = c.of(std::vector<std::size_t>{0, 1, 2, 5}); double tol = c.of(V{0, 0.05, 0.5}); int k = c.in(1, mc::thorough() ? 4 : 3); std::vector<std::size_t> prog; for (int i = 0; i < k; ++i) prog.push_back(c.pick(17));
    if (!c.begin()) return;
    MeanSquaredLossLayer m("m", 3, bs, tol); CategoricalCrossEntropyLossLayer e("e", 3, bs); double sm = 0, se = 0; int cm = 0, ce = 0, n = 0; double inv = 1.0 / double(std::max<std::size_t>(bs, 1));
    c.throws([&] { m.forward(P[0]); }, "loss without target"); c.throws([&] { e.forward(P[0]); }, "loss without target");
    for (auto o: prog)
    {
        c.step();
        if (o == 16) { m.reset_score(); e.reset_score(); sm = se = 0; cm = ce = n = 0; continue; }
        const V& y = Y[o / 4]; const V& p = P[o % 4]; m.set_target(y); e.set_target(y); m.training_forward(p); e.training_forward(p); double l = 0, x = 0; V g1, g2; std::size_t act = 9, am = std::size_t(std::max_element(p.begin(), p.end()) - p.begin());
        for (std::size_t i = 0; i < 3; ++i) { l += (y[i] - p[i]) * (y[i] - p[i]) / 3; x -= y[i] * std::log(std::max(p[i], std::numeric_limits<double>::epsilon())); g1.push_back(-2 * (y[i] - p[i]) * inv); g2.push_back(-y[i] / std::max(p[i], std::numeric_limits<double>::epsilon()) * inv); if (act == 9 && y[i] != 0) act = i; }
        sm += l; se += x; ++n; if (std::fabs(l - tol) > 1e-9 || l == 0) cm += l <= tol; else return; ce += act == am;
        V none; c.vapprox(m.backward(none), g1, "squared loss gradient", 1e-12); c.vapprox(m.last_input_gradient(), g1, "squared loss last gradient", 1e-12);
        V b = e.backward(none); for (std::size_t i = 0; i < 3; ++i) if (p[i] > 0) c.approx(b[i], g2[i], "cross entropy gradient", 1e-12);
        c.approx(m.avg_loss(), sm / n, "average squared loss", 1e-12); c.approx(e.avg_loss(), se / n, "average cross entropy", 1e-12); c.approx(m.accuracy(), double(cm) / n, "squared loss accuracy", 1e-12); c.approx(e.accuracy(), double(ce) / n, "cross entropy accuracy", 1e-12); c.state(mc::Hash().add(sm).add(se).add(n));
    }
    c.nontrivial(); c.trace();
}
// vectors of any length: the same definitions, and the loss layers over them
static void lengths(Ctx& c)
{
    static const std::vector<std::size_t> N{128, 255, 256, 257, 500, 1000, 1001, 1024, 2047, 4097, 70001}; std::size_t n = c.of(N), salt = c.pick(3), what = c.pick(3);
    if (!c.begin()) return;
    c.describe("vectors of " + std::to_string(n) + " values"); V y(n), p(n), x(n); for (std::size_t i = 0; i < n; ++i) { y[i] = salt == 0 ? i == n - 2 : double(i * 7 % 11) / 11; p[i] = 0.01 + double((i * 13 + salt * 5) % 97) / 100; x[i] = double((i * 31 + salt * 7) % 101) / 10 - 5; }
    c.nontrivial(); c.outcome(mc::Hash().add(n).add(salt).add(what));
    if (what == 0) { if (n <= 2047) unary<double>(c, x, 1e-12); else { V d(n); auto want = smax(x); DLMath::stable_softmax(d.data(), x.data(), n); close(c, d.data(), want, "stable_softmax", 1e-11); std::vector<LD> t; for (double v: x) t.push_back(std::tanh(LD(v))); DLMath::tanh(d.data(), x.data(), n); close(c, d.data(), t, "tanh", 1e-13); } return; }
    if (what == 1) { loss_functions<double>(c, y, p, 1e-11); return; }
    double inv = 0.25; MeanSquaredLossLayer m("m", n, 4, 0.5); CategoricalCrossEntropyLossLayer e("e", n, 4); m.set_target(y); e.set_target(y); m.training_forward(p); e.training_forward(p); LD l = 0, ce = 0; V g1, g2, none; for (std::size_t i = 0; i < n; ++i) { l += LD(y[i] - p[i]) * (y[i] - p[i]) / LD(n); ce -= LD(y[i]) * std::log(LD(p[i])); g1.push_back(-2 * (y[i] - p[i]) * inv); g2.push_back(-y[i] / p[i] * inv); }
    c.vapprox(m.backward(none), g1, "squared loss gradient", 1e-11); c.vapprox(e.backward(none), g2, "cross entropy gradient", 1e-11); c.approx(m.avg_loss(), double(l), "squared loss", 1e-11); c.approx(e.avg_loss(), double(ce), "cross entropy", 1e-11); c.approx(m.accuracy(), double(l) <= 0.5 ? 1.0 : 0.0, "squared loss accuracy"); 
    std::size_t am = std::size_t(std::max_element(p.begin(), p.end()) - p.begin()), act = std::size_t(std::find_if(y.begin(), y.end(), [](double v) { return v != 0; }) - y.begin()); c.approx(e.accuracy(), am == act ? 1.0 : 0.0, "cross entropy accuracy");
    // the hit at any place
    for (std::size_t k: {std::size_t(0), n / 2, n - 1}) { V t(n), q(n, 0.001); t[k] = 1; q[k] = 0.9; CategoricalCrossEntropyLossLayer f("f", n, 1); f.set_target(t); f.forward(q); c.approx(f.accuracy(), 1, "accuracy of a hit"); q[k] = 0.0005; f.forward(q); c.approx(f.accuracy(), 0.5, "accuracy of a hit and a miss"); }
}
MC_MAIN({"lengths", lengths}, {"functions", functions}, {"functions_wide", functions_wide}, {"functions_scales", functions_scales}, {"layers", layers}, {"losses", losses}, {"loss_layers", loss_layers})

// C16: every backward pass against central differences of the layer's / model's own forward pass.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using M = std::vector<V>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t;
static const double LINEAR = 0.125, SMOOTH = 1e-4;
static V vals(size_t n, size_t pat, size_t salt)
{
    V v(n); for (size_t i = 0; i < n; ++i) { double k = double((i * 37 + salt * 11 + pat * 7 + 5) % 23) - 11; v[i] = pat == 0 ? k / 8 + 0.0625 : pat == 1 ? -k / 16 - 0.03125 : (k + 0.5) / 32; v[i] += 0.003141592 * std::sin(double(i) * 1.7 + double(salt) + 0.37 * double(pat)); }
    return v;
}
// values all different, at least 1 apart: a maximum keeps its place under a step of LINEAR
static V apart(size_t n, size_t pat)
{
    V v(n); for (size_t i = 0; i < n; ++i) { size_t j = pat == 0 ? i : pat == 1 ? n - 1 - i : pat == 2 ? (i % 2 ? i / 2 : n - 1 - i / 2) : (i * 7 + 3) % n; v[i] = double(j) - double(n) / 3; }
    if (pat == 3 && n % 7 == 0) for (size_t i = 0; i < n; ++i) v[i] = double((i * 5 + 3) % n) - double(n) / 3;
    if (pat == 3 && n % 35 == 0) for (size_t i = 0; i < n; ++i) v[i] = double((i * 3 + 3) % n) - double(n) / 3;
    return v;
}
static void set_params(Layer& l, const V& p) { for (size_t i = 0; i < l.param_count(); ++i) l.param(i) = p[i]; }
static void clear(Layer& l) { for (size_t i = 0; i < l.param_count(); ++i) l.gradient(i) = 0; }
// forward of a snapshot: a clone, so that state a layer draws on (dropout's generator) is the same each time
static V fwd(const Layer& l, const V& x) { auto k = l.clone(); V in = x; return k->training_forward(in); }
struct Jac { M in, par; };   // [output][input], [output][parameter]
static Jac jacobian(Layer& l, const V& x, double h)
{
    Jac j; V y = fwd(l, x); j.in.assign(y.size(), V(x.size())); j.par.assign(y.size(), V(l.param_count())); V z = x;
    for (size_t i = 0; i < x.size(); ++i) { z[i] = x[i] + h; V a = fwd(l, z); z[i] = x[i] - h; V b = fwd(l, z); z[i] = x[i]; for (size_t k = 0; k < y.size(); ++k) j.in[k][i] = (a[k] - b[k]) / (2 * h); }
    for (size_t i = 0; i < l.param_count(); ++i) { double p = l.param(i); l.param(i) = p + h; V a = fwd(l, x); l.param(i) = p - h; V b = fwd(l, x); l.param(i) = p; for (size_t k = 0; k < y.size(); ++k) j.par[k][i] = (a[k] - b[k]) / (2 * h); }
    return j;
}
static V contract(const M& j, const V& g, size_t n) { V r(n); for (size_t k = 0; k < g.size(); ++k) for (size_t i = 0; i < n; ++i) r[i] += g[k] * j[k][i]; return r; }
static V grads(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.gradient(i); return r; }
static V params(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.param(i); return r; }
// every unit gradient and two dense ones; then accumulation over two inputs
static void check_layer(Ctx& c, Layer& l, const V& x, const V& x2, double h, const std::string& name, bool randomised = false)
{
    double tol = h == LINEAR ? 1e-9 : 2e-6; Jac j = jacobian(l, x, h); size_t no = j.in.size(), ni = x.size(), np = l.param_count(); c.eq(no, l.output_size(), name + " output size");
    size_t units = std::min<size_t>(no, 12); V p0 = params(l);
    for (size_t k = 0; k < units + 2; ++k)
    {
        V g(no); if (k < units) g[no <= 12 ? k : k * (no - 1) / 11] = 1; else g = vals(no, k - units, 9); V gi = g, xi = x; auto w = l.clone(); clear(*w);
        w->training_forward(xi); const V& back = w->backward(gi); V want = contract(j.in, g, ni), got(back.begin(), back.end());
        c.vapprox(got, want, name + " input gradient", tol); c.vapprox(w->last_input_gradient(), want, name + " last input gradient", tol);
        c.vapprox(grads(*w), contract(j.par, g, np), name + " parameter gradients", tol); c.veq(gi, g, name + " incoming gradient changed"); c.veq(xi, x, name + " input changed"); c.veq(params(l), p0, name + " parameters changed by a backward pass");
        c.step();
        // a backward pass is linear in the incoming gradient at every magnitude
        if (k >= units) for (int e: {-90, -40, -24, 30, 80})
        {
            auto u = l.clone(); clear(*u); V gs = g, z = x; for (auto& d: gs) d = std::ldexp(d, e); u->training_forward(z); V bs = u->backward(gs), ps = grads(*u), pw = grads(*w); for (auto& d: bs) d = std::ldexp(d, -e); for (auto& d: ps) d = std::ldexp(d, -e);
            c.vapprox(bs, got, name + " input gradient of a gradient times 2^" + std::to_string(e)); c.vapprox(ps, pw, name + " parameter gradients of a gradient times 2^" + std::to_string(e));
            if (h == SMOOTH || randomised) continue;
            // piecewise linear layers: the input gradient is the same for an input of any magnitude, the parameters' one grows with it or does not depend on it
            auto v = l.clone(); clear(*v); V zs = x, g0 = g; for (auto& d: zs) d = std::ldexp(d, e); v->training_forward(zs); c.vapprox(v->backward(g0), got, name + " input gradient of an input times 2^" + std::to_string(e)); V pz = grads(*v);
            for (size_t i = 0; i < np; ++i) if (!Ctx::near(std::ldexp(pz[i], -e), pw[i]) && !Ctx::near(pz[i], pw[i])) c.fail(name + " parameter gradient of an input times 2^" + std::to_string(e) + ": " + std::to_string(pz[i]));
        }
    }
    if (np && !randomised)
    {
        // two samples without clearing: the gradients add up, the input gradient does not
        Jac j2 = jacobian(l, x2, h); V g1 = vals(no, 0, 4), g2 = vals(no, 1, 6), a = x, b = x2; clear(l); l.training_forward(a); l.backward(g1); l.training_forward(b); V in2 = l.backward(g2);
        V s = contract(j.par, g1, np), t = contract(j2.par, g2, np); for (size_t i = 0; i < np; ++i) s[i] += t[i];
        c.vapprox(grads(l), s, name + " accumulated gradients", tol); c.vapprox(in2, contract(j2.in, g2, ni), name + " second input gradient", tol);
        // inference in between changes neither
        V d = x; l.forward(d); c.vapprox(grads(l), s, name + " gradients after an inference", tol);
    }
    if (no > 0 && ni > 0) c.nontrivial();
    c.outcome(mc::Hash().add(name).add(fwd(l, x)));
}
static void dense(Ctx& c)
{
    static const std::vector<std::pair<int, int>> BIG{{9, 2}, {2, 9}, {17, 5}, {8, 8}, {33, 3}, {5, 16}, {64, 2}, {2, 33}}; int a, b; size_t big = c.pick(BIG.size() + 1);
    if (big) { a = BIG[big - 1].first; b = BIG[big - 1].second; } else { a = c.in(1, mc::thorough() ? 7 : 5); b = c.in(1, mc::thorough() ? 7 : 5); } size_t pat = c.pick(3), how = c.pick(2);
    if (!c.begin()) return;
    c.describe("dense " + std::to_string(a) + " -> " + std::to_string(b)); DenseLayer l("d", how ? size_t(a + 2) : size_t(a), size_t(b)); if (how) l.input_shape(LayerShape(size_t(a)));
    set_params(l, vals(l.param_count(), pat, 1)); check_layer(c, l, vals(size_t(a), pat, 2), vals(size_t(a), (pat + 1) % 3, 3), LINEAR, "dense");
}
static std::shared_ptr<Layer> activation(size_t k, size_t n)
{
    switch (k) { case 0: return std::make_shared<ReluLayer>("r", n); case 1: return std::make_shared<EluLayer>("e", n, 1.0); case 2: return std::make_shared<EluLayer>("e", n, 0.3); case 3: return std::make_shared<EluLayer>("e", n, 2.5);
        case 4: return std::make_shared<TanhLayer>("t", n); case 5: return std::make_shared<SigmoidLayer>("s", n); case 6: return std::make_shared<LinearLayer>("l", n); default: return std::make_shared<SoftmaxLayer>("sm", n); }
}
static void activations(Ctx& c)
{
    static const V L{-2.5, -0.75, -0.01, 0.01, 0.6, 1.9, 4.0}; size_t k = c.pick(8), n = size_t(c.in(1, mc::thorough() ? 4 : 3)); V x(n); for (auto& e: x) e = c.of(L);
    if (!c.begin()) return;
    c.describe("activation " + std::to_string(k) + " at " + Ctx::show(x)); auto l = activation(k, n); check_layer(c, *l, x, x, k == 0 || k == 6 ? 1.0 / 256 : SMOOTH, l->type());
}
static void wide_activations(Ctx& c)
{
    size_t k = c.pick(8), n = size_t(c.in(4, 40)), pat = c.pick(3);
    if (!c.begin()) return;
    c.describe("activation " + std::to_string(k) + " of " + std::to_string(n)); auto l = activation(k, n); V x = vals(n, pat, 3); for (auto& e: x) e *= pat == 0 ? 2 : 4; check_layer(c, *l, x, x, k == 0 || k == 6 ? 1.0 / 256 : SMOOTH, l->type());
}
static void pooling(Ctx& c)
{
    int mx = int(c.pick(2)); int t = mc::thorough() ? 6 : 5; size_t h = size_t(c.in(1, t)), w = size_t(c.in(1, t)), ch = size_t(c.in(1, 2)), kh = size_t(c.in(1, 3)), kw = size_t(c.in(1, 3)), sh = size_t(c.in(1, 3)), sw = size_t(c.in(1, 3)), pat = c.pick(mx ? 4 : 1);
    if (kh > h || kw > w) return;
    if (!c.begin()) return;
    std::ostringstream d; d << (mx ? "max" : "avg") << " pool " << h << "x" << w << "x" << ch << " k" << kh << "x" << kw << " s" << sh << "x" << sw; c.describe(d.str());
    V x = apart(h * w * ch, pat); std::shared_ptr<Layer> l; if (mx) l = std::make_shared<MaxPoolingLayer>("p", S3(h, w, ch), S2(kh, kw), S2(sh, sw)); else l = std::make_shared<AveragePoolingLayer>("p", S3(h, w, ch), S2(kh, kw), S2(sh, sw));
    check_layer(c, *l, x, x, LINEAR, d.str());
}
static void conv_case(Ctx& c, size_t h, size_t w, size_t ch, size_t kh, size_t kw, size_t sh, size_t sw, size_t ph, size_t pw, size_t nf, size_t pat)
{
    std::ostringstream d; d << "conv " << h << "x" << w << "x" << ch << " k" << kh << "x" << kw << " s" << sh << "x" << sw << " p" << ph << "x" << pw << " f" << nf; c.describe(d.str());
    ConvolutionalLayer l("c", S3(h, w, ch), S2(kh, kw), nf, S2(sh, sw), S2(ph, pw)); set_params(l, vals(l.param_count(), pat, 1)); check_layer(c, l, vals(h * w * ch, pat, 2), vals(h * w * ch, (pat + 1) % 3, 3), LINEAR, d.str());
}
static void conv(Ctx& c)
{
    size_t h = size_t(c.in(1, 4)), w = size_t(c.in(1, mc::thorough() ? 4 : 3)), ch = size_t(c.in(1, 2)), kh = size_t(c.in(1, 3)), kw = size_t(c.in(1, mc::thorough() ? 3 : 2)), sh = size_t(c.in(1, 2)), sw = size_t(c.in(1, 2)), ph = size_t(c.in(0, 1)), pw = size_t(c.in(0, 1)), nf = size_t(c.in(1, 2));
    if (kh > h + 2 * ph || kw > w + 2 * pw) return;
    if (!c.begin()) return;
    conv_case(c, h, w, ch, kh, kw, sh, sw, ph, pw, nf, (h + w + ch + kh + kw) % 3);
}
static void conv_large(Ctx& c)
{
    struct G { size_t h, w, ch, kh, kw, sh, sw, ph, pw, nf; }; static const std::vector<G> L{{6, 5, 3, 3, 3, 1, 1, 1, 1, 2}, {7, 6, 1, 3, 2, 2, 3, 0, 0, 3}, {5, 7, 2, 5, 1, 1, 2, 2, 0, 1}, {8, 8, 1, 4, 4, 4, 4, 0, 0, 4}, {6, 6, 1, 3, 3, 3, 1, 2, 2, 1}, {3, 9, 2, 1, 4, 1, 3, 0, 3, 2}, {9, 3, 3, 5, 3, 2, 1, 1, 0, 2}, {5, 5, 5, 2, 2, 1, 1, 0, 0, 5}};
    const G& g = c.of(L); size_t pat = c.pick(3);
    if (!c.begin()) return;
    conv_case(c, g.h, g.w, g.ch, g.kh, g.kw, g.sh, g.sw, g.ph, g.pw, g.nf, pat);
}
static void dropout(Ctx& c)
{
    static const V P{0, 0.1, 0.25, 0.5, 0.75, 0.9, 1}; double p = c.of(P); size_t n = c.pick(2) ? size_t(c.in(1, 8)) : 40; unsigned seed = unsigned(c.in(1, 12)), warm = unsigned(c.in(0, 2));
    if (!c.begin()) return;
    c.describe("dropout " + std::to_string(p) + " of " + std::to_string(n)); DropoutLayer l("d", n, p, RneType(seed)); V x = vals(n, 0, seed); for (unsigned i = 0; i < warm; ++i) { V in = x; l.training_forward(in); }
    check_layer(c, l, x, x, 1.0 / 256, "dropout", true);
    V in = x, y = l.training_forward(in); for (size_t i = 0; i < n; ++i) c.check(y[i] == 0 || mc::Ctx::near(y[i], x[i] * (p == 1 ? 1 : 1 / (1 - p))), "a value is dropped or scaled");
    if (p == 0) c.vapprox(y, x, "nothing is dropped at probability 0"); if (p == 1) c.vapprox(y, V(n, 0.0), "everything is dropped at probability 1");
}
// ---- models -----------------------------------------------------------------
// D2 D3 linear maps, activations, and (for images) conv / pools
enum Kind { D2, D3, RELU, ELU, TANH, SIG, LIN, SMX, CONV, CONVP, MAXP, AVGP };
struct Net { Model m{"net"}; std::vector<Layer::SharedPtr> layers; S3 shape{1}; };
static bool add(Net& n, Layer::SharedPtr prev, Kind k, Layer::SharedPtr& out, S3 sh, S3& osh)
{
    auto& m = n.m; size_t s = sh.size(); std::string nm = "l" + std::to_string(n.layers.size()); Layer::SharedPtr l;
    switch (k)
    {
        case D2: l = m.add_layer<DenseLayer>(nm, s, size_t(2)); break; case D3: l = m.add_layer<DenseLayer>(nm, s, size_t(3)); break; case RELU: l = m.add_layer<ReluLayer>(nm, s); break; case ELU: l = m.add_layer<EluLayer>(nm, s, 0.7); break;
        case TANH: l = m.add_layer<TanhLayer>(nm, s); break; case SIG: l = m.add_layer<SigmoidLayer>(nm, s); break; case LIN: l = m.add_layer<LinearLayer>(nm, s); break; case SMX: l = m.add_layer<SoftmaxLayer>(nm, s); break;
        case CONV: if (sh.height() < 2 || sh.width() < 2) return false; l = m.add_layer<ConvolutionalLayer>(nm, sh, S2(2, 2), size_t(2), S2(1, 1), S2(0, 0)); break;
        case CONVP: if (sh.height() < 2 || sh.width() < 2) return false; l = m.add_layer<ConvolutionalLayer>(nm, sh, S2(2, 2), size_t(1), S2(2, 1), S2(1, 1)); break;
        case MAXP: if (sh.height() < 2 || sh.width() < 2) return false; l = m.add_layer<MaxPoolingLayer>(nm, sh, S2(2, 2), S2(1, 1)); break;
        case AVGP: if (sh.height() < 2 || sh.width() < 2) return false; l = m.add_layer<AveragePoolingLayer>(nm, sh, S2(2, 2), S2(1, 2)); break;
    }
    if (prev) m.create_edge(prev, l); n.layers.push_back(l); out = l; osh = k >= CONV ? l->output_shape().shape() : S3(l->output_size());
    set_params(*l, vals(l->param_count(), n.layers.size() % 3, n.layers.size() * 3)); return true;
}
struct Leaf { Layer::SharedPtr out; bool cce; size_t batch; };
static V target(const Leaf& f, int k) { size_t n = f.out->output_size(); V t(n); if (f.cce) t[size_t(k) % n] = 1; else for (size_t i = 0; i < n; ++i) t[i] = double((i * 3 + size_t(k) * 5) % 7) / 4 - 0.7; return t; }
// expected parameter gradients of one step, from predict() alone
static M expected(Net& n, const std::vector<Leaf>& leaves, const V& x, const V& tg, double h)
{
    V in = x; n.m.predict(in); M dy; for (auto& f: leaves)
    {
        V y = f.out->last_output(), d(y.size()); for (size_t i = 0; i < y.size(); ++i) d[i] = (f.cce ? -tg[i] / std::max(y[i], 2.3e-308) : -2 * (tg[i] - y[i])) / double(f.batch);
        dy.push_back(d);
    }
    M r; for (auto& l: n.layers)
    {
        V g(l->param_count());
        for (size_t i = 0; i < g.size(); ++i)
        {
            double p = l->param(i); std::vector<V> hi, lo; l->param(i) = p + h; in = x; n.m.predict(in); for (auto& f: leaves) hi.push_back(f.out->last_output()); l->param(i) = p - h; in = x; n.m.predict(in); for (auto& f: leaves) lo.push_back(f.out->last_output()); l->param(i) = p;
            for (size_t q = 0; q < leaves.size(); ++q) for (size_t k = 0; k < hi[q].size(); ++k) g[i] += dy[q][k] * (hi[q][k] - lo[q][k]) / (2 * h);
        }
        r.push_back(g);
    }
    return r;
}
static void close(Ctx& c, Net& n, const std::vector<Leaf>& leaves) { for (auto& f: leaves) { if (f.cce) { auto l = n.m.add_loss<CategoricalCrossEntropyLossLayer>("cce", f.out->output_size(), f.batch); n.m.create_loss_edge(f.out, l); } else { auto l = n.m.add_loss<MeanSquaredLossLayer>("mse", f.out->output_size(), f.batch); n.m.create_loss_edge(f.out, l); } } }
static void check_model(Ctx& c, Net& n, const std::vector<Leaf>& leaves, const std::vector<V>& xs)
{
    close(c, n, leaves); M sum; for (auto& l: n.layers) sum.push_back(V(l->param_count())); M p0; for (auto& l: n.layers) p0.push_back(params(*l)); int used = 0;
    for (size_t s = 0; s < xs.size(); ++s)
    {
        V tg = target(leaves[0], int(s)); M a = expected(n, leaves, xs[s], tg, 1e-4), b = expected(n, leaves, xs[s], tg, 5e-5); bool smooth = true;
        for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].size(); ++k) if (!Ctx::near(a[i][k], b[i][k], 2e-6)) smooth = false;
        c.count(smooth ? "smooth points" : "points at a kink, skipped"); if (!smooth) continue;
        V in = xs[s], t = tg; n.m.step(in, t); c.veq(in, xs[s], "step changed its input"); c.veq(t, tg, "step changed its target"); ++used; c.step();
        for (size_t i = 0; i < sum.size(); ++i) for (size_t k = 0; k < sum[i].size(); ++k) sum[i][k] += b[i][k];
        for (size_t i = 0; i < n.layers.size(); ++i) { c.vapprox(grads(*n.layers[i]), sum[i], "gradients of layer " + std::to_string(i) + " (" + n.layers[i]->type() + ") after " + std::to_string(used) + " steps", 2e-5); c.veq(params(*n.layers[i]), p0[i], "parameters changed by a step"); }
        V again = xs[s]; n.m.predict(again); for (size_t i = 0; i < n.layers.size(); ++i) c.vapprox(grads(*n.layers[i]), sum[i], "gradients after a prediction", 2e-5);
    }
    bool has = false; for (auto& v: sum) for (double g: v) if (std::fabs(g) > 1e-3) has = true; if (used && has) c.nontrivial(); mc::Hash h; for (auto& v: sum) for (double g: v) h.add(std::round(g * 1e4)); c.outcome(h);
}
static const std::vector<Kind> VEC{D2, D3, RELU, ELU, TANH, SIG, LIN, SMX};
static void chain(Ctx& c)
{
    int len = c.in(1, mc::thorough() ? 5 : 4); std::vector<Kind> ks; for (int i = 0; i < len; ++i) ks.push_back(i == 0 ? VEC[c.pick(2)] : c.of(VEC)); bool cce = (ks.back() == SMX || ks.back() == SIG) && c.flag(); size_t batch = cce ? 2 : len % 2 ? 1 : 4;
    if (!c.begin()) return;
    Net n; Layer::SharedPtr prev; S3 sh(3); std::string d = "chain"; for (auto k: ks) { Layer::SharedPtr o; add(n, prev, k, o, sh, sh); prev = o; d += " " + o->type(); } c.describe(d + (cce ? " CCE" : " MSE"));
    check_model(c, n, {{prev, cce, batch}}, {vals(3, 0, 2), vals(3, 1, 5)});
}
static void image(Ctx& c)
{
    static const std::vector<Kind> IMG{CONV, CONVP, MAXP, AVGP}; int a = c.in(1, mc::thorough() ? 3 : 2), b = c.in(0, 2); std::vector<Kind> ks; for (int i = 0; i < a; ++i) { ks.push_back(c.of(IMG)); if (c.flag()) ks.push_back(c.flag() ? RELU : TANH); } for (int i = 0; i < b; ++i) ks.push_back(c.of(VEC));
    size_t in = 3 + c.pick(2); bool first = c.flag();
    if (!c.begin()) return;
    Net n; Layer::SharedPtr prev; S3 sh(in + 1, in, first ? 2 : 1); S3 s0 = sh; std::string d = "image"; for (auto k: ks) { Layer::SharedPtr o; S3 os = sh; if (!add(n, prev, k, o, sh, os)) return; bool flat = k == D2 || k == D3; if (k >= CONV || flat) sh = os; prev = o; d += " " + o->type(); }
    if (n.layers.size() < 1 || prev->output_size() == 0) return; c.describe(d);
    check_model(c, n, {{prev, false, 1}}, {apart(s0.size(), 3), vals(s0.size(), 1, 5)});
}
// a trunk that branches into two (three) chains of possibly different length, each with its loss; or one output with two losses
static void branches(Ctx& c)
{
    static const std::vector<Kind> K{D2, TANH, SIG, RELU}; int t = c.in(1, 3); std::vector<Kind> trunk; for (int i = 0; i < t; ++i) trunk.push_back(i == 0 ? D3 : c.of(K)); int nb = c.in(1, 3); std::vector<std::vector<Kind>> br;
    for (int b = 0; b < nb; ++b) { int l = c.in(b == 0 && nb == 1 ? 0 : 1, nb == 3 ? 2 : 3); std::vector<Kind> v; for (int i = 0; i < l; ++i) v.push_back(i == 0 ? (b % 2 ? D2 : TANH) : i == 1 ? K[std::size_t(b + i) % 4] : D2); br.push_back(v); } int order = int(c.pick(2)), losses = int(c.pick(2));
    if (!c.begin()) return;
    std::ostringstream d; d << "trunk of " << t << ", branches"; for (auto& b: br) d << " " << b.size(); d << (losses ? ", two losses on the first" : "") << (order ? ", built breadth first" : ""); c.describe(d.str());
    Net n; Layer::SharedPtr prev; S3 sh(3); for (auto k: trunk) { Layer::SharedPtr o; add(n, prev, k, o, sh, sh); prev = o; } std::vector<Layer::SharedPtr> end(br.size(), prev); std::vector<S3> es(br.size(), sh);
    if (order == 0) for (size_t b = 0; b < br.size(); ++b) for (auto k: br[b]) { Layer::SharedPtr o; add(n, end[b], k, o, es[b], es[b]); end[b] = o; }
    else for (size_t i = 0; i < 3; ++i) for (size_t b = br.size(); b-- > 0;) if (i < br[b].size()) { Layer::SharedPtr o; add(n, end[b], br[b][i], o, es[b], es[b]); end[b] = o; }
    // all outputs must have one size to share the target: end every branch in two values
    for (size_t b = 0; b < br.size(); ++b) if (es[b].size() != 2) { Layer::SharedPtr o; add(n, end[b], D2, o, es[b], es[b]); end[b] = o; }
    std::vector<Leaf> leaves; for (size_t b = 0; b < br.size(); ++b) leaves.push_back({end[b], false, b + 1}); if (losses) leaves.push_back({end[0], false, 3});
    check_model(c, n, leaves, {vals(3, 0, 2), vals(3, 1, 5)});
}
// branches of many values: gradients of the branches are summed value by value
static void wide_branches(Ctx& c)
{
    static const std::vector<size_t> N{16, 33, 65, 129, 260}; size_t n = c.of(N), nb = 2 + c.pick(2), kind = c.pick(3), salt = c.pick(2);
    if (!c.begin()) return;
    std::ostringstream d; d << nb << " branches after " << n << " values, kind " << kind; c.describe(d.str()); Model m("wide"); V w = vals(2 * n + n, salt, 3); auto a = m.add_layer<DenseLayer>("a", size_t(2), n); set_params(*a, w); Layer::SharedPtr t = a; if (kind == 1) { t = m.add_layer<TanhLayer>("t", n); m.create_edge(a, t); }
    std::vector<V> bp; std::vector<Layer::SharedPtr> ends; for (size_t b = 0; b < nb; ++b) { Layer::SharedPtr l; if (kind == 2 && b == 1) { auto s = m.add_layer<SigmoidLayer>("s", n); m.create_edge(t, s); l = m.add_layer<DenseLayer>("b", n, size_t(2)); m.create_edge(s, l); } else { l = m.add_layer<DenseLayer>("b", n, size_t(2)); m.create_edge(t, l); } V p = vals(l->param_count(), b, 7 + salt); set_params(*l, p); bp.push_back(p); auto o = m.add_loss<MeanSquaredLossLayer>("l", size_t(2), b + 1); m.create_loss_edge(l, o); ends.push_back(l); }
    for (auto& l: m.layers()) clear(*l);
    V x{0.625, -0.375}, tg{0.25, -0.5}, in = x, tt = tg; m.step(in, tt);
    // by the chain rule
    V h(n), act(n), gt(n); for (size_t i = 0; i < n; ++i) { h[i] = w[i * 2] * x[0] + w[i * 2 + 1] * x[1] + w[2 * n + i]; act[i] = kind == 1 ? std::tanh(h[i]) : h[i]; }
    for (size_t b = 0; b < nb; ++b)
    {
        bool sg = kind == 2 && b == 1; V z(n); for (size_t i = 0; i < n; ++i) z[i] = sg ? 1 / (1 + std::exp(-act[i])) : act[i]; V g, want(bp[b].size()); for (size_t k = 0; k < 2; ++k) { double y = bp[b][2 * n + k]; for (size_t i = 0; i < n; ++i) y += bp[b][k * n + i] * z[i]; g.push_back(-2 * (tg[k] - y) / double(b + 1)); }
        for (size_t k = 0; k < 2; ++k) { for (size_t i = 0; i < n; ++i) { want[k * n + i] = g[k] * z[i]; gt[i] += g[k] * bp[b][k * n + i] * (sg ? z[i] * (1 - z[i]) : 1); } want[2 * n + k] = g[k]; }
        c.vapprox(grads(*ends[b]), want, "gradients of branch " + std::to_string(b), 1e-9);
    }
    V want(3 * n); for (size_t i = 0; i < n; ++i) { double g = gt[i] * (kind == 1 ? 1 - act[i] * act[i] : 1); want[i * 2] = g * x[0]; want[i * 2 + 1] = g * x[1]; want[2 * n + i] = g; }
    c.vapprox(grads(*a), want, "gradients of the trunk", 1e-9); c.nontrivial(); c.outcome(mc::Hash().add(want));
}
MC_MAIN({"wide_branches", wide_branches}, {"branches", branches}, {"conv_large", conv_large}, {"dense", dense}, {"dropout", dropout}, {"wide_activations", wide_activations}, {"activations", activations}, {"pooling", pooling}, {"image", image}, {"conv", conv}, {"chain", chain})

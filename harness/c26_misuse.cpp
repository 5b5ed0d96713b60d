// C26: parameter addressing, initialisation and rejected uses, over every layer, history and generator outputs of choice.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "mc.hpp"
#include <list>
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>; using U = std::uint64_t;
using LI = Layer::InitializationFunction; using PDF = Layer::ProbabilityDensityFunction;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static const size_t KINDS = 14, CFGS = 5;
static const size_t N[] = {1, 2, 3, 5, 12}, OO[] = {1, 3, 2, 4, 7}, HH[] = {1, 2, 3, 1, 4}, TT[] = {1, 2, 3, 1, 2};
struct G { size_t h, w, ch, kh, kw, sh, sw, ph, pw, f; }; static const G GS[] = {{1, 1, 1, 1, 1, 1, 1, 0, 0, 1}, {3, 2, 1, 2, 2, 1, 1, 1, 0, 2}, {2, 4, 2, 1, 3, 1, 2, 0, 1, 1}, {5, 3, 3, 3, 2, 2, 1, 0, 0, 4}, {4, 4, 2, 2, 2, 2, 2, 1, 1, 3}};
static LP make(size_t kind, size_t cfg, const std::string& name = "l")
{
    size_t n = N[cfg], o = OO[cfg]; const G& g = GS[cfg]; using HA = RecurrentLayer::HiddenActivation;
    switch (kind)
    {
        case 0: return std::make_shared<DenseLayer>(name, n, o); case 1: return std::make_shared<ConvolutionalLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), g.f, S2(g.sh, g.sw), S2(g.ph, g.pw)); case 2: return std::make_shared<MaxPoolingLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), S2(g.sh, g.sw)); case 3: return std::make_shared<AveragePoolingLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), S2(g.sh, g.sw));
        case 4: return std::make_shared<DropoutLayer>(name, n, 0.25, RneType(7)); case 5: return std::make_shared<RecurrentLayer>(name, n, o, HH[cfg], TT[cfg], HA::TanH); case 6: return std::make_shared<ReluLayer>(name, n); case 7: return std::make_shared<EluLayer>(name, n, 0.5); case 8: return std::make_shared<SoftmaxLayer>(name, n); case 9: return std::make_shared<TanhLayer>(name, n); case 10: return std::make_shared<SigmoidLayer>(name, n); case 11: return std::make_shared<LinearLayer>(name, n);
        case 12: return std::make_shared<MeanSquaredLossLayer>(name, n, size_t(1)); default: return std::make_shared<CategoricalCrossEntropyLossLayer>(name, n, size_t(1));
    }
}
static bool loss(size_t kind) { return kind >= 12; }
static size_t params_of(size_t kind, size_t cfg, size_t in, const S3& shape) { if (kind == 0) return OO[cfg] * (in + 1); if (kind == 1) return GS[cfg].f * (GS[cfg].kh * GS[cfg].kw * shape.channels() + 1); if (kind == 5) return (in + HH[cfg] + 1) * HH[cfg] + (HH[cfg] + 1) * OO[cfg]; return 0; }
static V params(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.param(i); return r; }
static V grads(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.gradient(i); return r; }
// every index below the count is an element of its own, every other is refused
static void addressing(Ctx& c, Layer& l, size_t want, const std::string& w)
{
    c.eq(l.param_count(), want, w + ": parameter count"); V p0 = params(l), g0 = grads(l); std::set<const double*> seen;
    for (size_t i = 0; i < want; ++i) { c.check(seen.insert(&l.param(i)).second, w + ": two indices address one parameter"); c.check(seen.insert(&l.gradient(i)).second, w + ": two indices address one gradient"); }
    for (size_t i = 0; i < want; ++i) { l.param(i) = double(i) + 0.5; l.gradient(i) = -double(i) - 0.25; }
    for (size_t i = 0; i < want; ++i) { c.eq(l.param(i), double(i) + 0.5, w + ": parameter " + std::to_string(i)); c.eq(l.gradient(i), -double(i) - 0.25, w + ": gradient " + std::to_string(i)); }
    for (size_t i: {want, want + 1, want * 2 + 1, want + 1000, std::numeric_limits<size_t>::max() / 2, std::numeric_limits<size_t>::max() - 1, std::numeric_limits<size_t>::max()}) { if (i < want) continue; c.throws([&] { l.param(i) = 77; }, w + ": parameter index " + std::to_string(i) + " of " + std::to_string(want)); c.throws([&] { l.gradient(i) = 77; }, w + ": gradient index " + std::to_string(i) + " of " + std::to_string(want)); }
    for (size_t i = 0; i < want; ++i) { c.eq(l.param(i), double(i) + 0.5, w + ": a refused index changed a parameter"); c.eq(l.gradient(i), -double(i) - 0.25, w + ": a refused index changed a gradient"); }
    for (size_t i = 0; i < want; ++i) { l.param(i) = p0[i]; l.gradient(i) = g0[i]; }
    for (size_t i: {size_t(1), size_t(2), std::numeric_limits<size_t>::max()}) { c.throws([&] { (void) l.input_size(i); }, w + ": size of an input the layer does not have"); c.throws([&] { (void) l.output_size(i); }, w + ": size of an output the layer does not have"); }
    c.state(mc::Hash().add(w).add(want)); c.outcome(mc::Hash().add(p0).add(g0));
}
static void indices(Ctx& c)
{
    size_t kind = c.pick(KINDS), cfg = c.pick(CFGS); std::vector<size_t> prog(mc::thorough() ? 5 : 4); for (auto& q: prog) q = c.pick(6);
    if (!c.begin()) return;
    std::ostringstream d; d << "layer kind " << kind << " configuration " << cfg << ":"; for (auto q: prog) d << ' ' << q; c.describe(d.str());
    LP l = make(kind, cfg); S3 shape = l->input_shape().shape(); GradientDescentOptimizer o(0.5); size_t cfg2 = cfg; auto in_len = [&] { return l->last_input_gradient().size(); }; std::list<V> keep;
    auto use = [&] { if (loss(kind)) { V t(in_len()), x(in_len(), 0.5); t[0] = 1; auto& q = dynamic_cast<LossLayer&>(*l); q.set_target(t); keep.push_back(x); q.training_forward(keep.back()); q.backward(V()); return; } keep.push_back(vals(l->input_size() * (kind == 5 ? TT[cfg2] : 1), 3)); l->training_forward(keep.back()); V g = vals(l->last_output().size(), 4); l->backward(g); };
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: l->init(LI::KAIMING, PDF::UNIFORM, RneType(5)); break;
            case 1: if (kind >= 1 && kind <= 3) { shape = S3(shape.height() + 1, shape.width() + 2, shape.channels() == 1 ? 2 : 1); } else shape = S3(shape.size() == N[cfg] ? N[cfg] + 2 : N[cfg]); l->input_shape(shape); break;
            case 2: { LP f = make(kind, cfg == 0 ? 1 : cfg, "other"); if (cfg == 0) f = make(kind, 0, "other"); f->load(l->dump()); l = f; break; }
            case 3: l = l->clone(); break;
            case 4: use(); break;
            default: use(); o.train(*l); break;
        }
        c.step(); addressing(c, *l, params_of(kind, cfg, shape.size(), shape), "after operation " + std::to_string(q));
    }
    use();
    // whatever happened to it, the layer is one of its shape: a new layer with the same parameters does the same
    if (!loss(kind) && kind != 4)
    {
        LP f = make(kind, cfg); f->input_shape(shape); c.eq(f->param_count(), l->param_count(), "parameters of a new layer"); for (size_t i = 0; i < f->param_count(); ++i) { f->param(i) = l->param(i); f->gradient(i) = 0; l->gradient(i) = 0; } if (kind == 5) for (auto& q: {l, f}) dynamic_cast<RecurrentLayer&>(*q).reset_hidden_state();
        LP old = l; V x = vals(l->input_size() * (kind == 5 ? TT[cfg] : 1), 8), y = x; V a = old->training_forward(x), b = f->training_forward(y); c.vapprox(a, b, "outputs of the layer and of a new one", 1e-12); V g = vals(b.size(), 5), h = g; old->backward(g); f->backward(h); c.vapprox(V(old->last_input_gradient()), V(f->last_input_gradient()), "input gradients of the layer and of a new one", 1e-12); c.vapprox(grads(*old), grads(*f), "gradients of the layer and of a new one", 1e-12); o.train(*old); o.train(*f); c.vapprox(params(*old), params(*f), "parameters of the layer and of a new one after an update", 1e-12); c.vapprox(grads(*old), V(old->param_count()), "gradients after an update", 1e-12);
    }
    c.nontrivial();
}
// ---- initialisation
// a generator whose next outputs are the given ones
static U untemper(U y)
{
    y ^= y >> 43; { U t = y; t = y ^ ((t << 37) & 0xfff7eee000000000ull); y = t; }
    { U t = y; for (int i = 0; i < 4; ++i) t = y ^ ((t << 17) & 0x71d67fffeda60000ull); y = t; }
    { U t = y; for (int i = 0; i < 3; ++i) t = y ^ ((t >> 29) & 0x5555555555555555ull); y = t; }
    return y;
}
static RneType scripted(const std::vector<U>& out)
{
    std::ostringstream s; for (size_t i = 0; i < 312; ++i) s << untemper(out[i % out.size()]) << ' '; s << 0; RneType r; std::istringstream in(s.str()); in >> r; RneType q = r; for (size_t i = 0; i < std::min<size_t>(out.size(), 312); ++i) if (q() != out[i]) { std::cerr << "harness error: scripted generator\n"; std::_Exit(4); } return r;
}
static double sigma(LI f, size_t n) { return std::sqrt((f == LI::KAIMING ? 2.0 : 1.0) / double(n)); }
// indices of weights by the size that counts for them; the rest are biases
static void weights(size_t kind, size_t cfg, Layer& l, std::vector<std::pair<size_t, size_t>>& w, std::vector<size_t>& b)
{
    size_t n = l.param_count(), in = l.input_size(), o = OO[cfg], h = HH[cfg]; if (kind == 0) { for (size_t i = 0; i < n; ++i) if (i < in * o) w.emplace_back(i, in); else b.push_back(i); } else if (kind == 1) { for (size_t i = 0; i < n; ++i) if (i < n - GS[cfg].f) w.emplace_back(i, in); else b.push_back(i); } else { size_t ih = in * h, hh = h * h; for (size_t i = 0; i < n; ++i) if (i < ih) w.emplace_back(i, in); else if (i < ih + hh) w.emplace_back(i, h); else if (i < ih + hh + h) b.push_back(i); else if (i < ih + hh + h + h * o) w.emplace_back(i, h); else b.push_back(i); }
}
static const size_t LEARN[] = {0, 1, 5};
static void bounds(Ctx& c)
{
    static const std::vector<U> X{0, 1, U(1) << 63, ~U(0) - 1, ~U(0), 0x123456789abcdef0ull}; size_t kind = LEARN[c.pick(3)], cfg = c.pick(CFGS), f = c.pick(2), a = c.pick(X.size()), b = c.pick(X.size()), e = c.pick(X.size()); bool normal = c.flag(); if (normal && e > 1) return;
    if (!c.begin()) return;
    std::ostringstream d; d << "layer kind " << kind << " configuration " << cfg << (f ? ", Kaiming" : ", Xavier") << (normal ? ", normal" : ", uniform") << ", generator outputs " << X[a] << " " << X[b] << " " << X[e]; c.describe(d.str());
    RneType r = scripted({X[a], X[b], X[e]}); LI fn = f ? LI::KAIMING : LI::XAVIER; PDF pdf = normal ? PDF::NORMAL : PDF::UNIFORM; LP l = make(kind, cfg); RneType before = r; if (normal) r = RneType(100 + a * 36 + b * 6 + e), before = r; l->init(fn, pdf, r); c.check(r == before, "init advances the generator it was given by value"); std::vector<std::pair<size_t, size_t>> w; std::vector<size_t> bi; weights(kind, cfg, *l, w, bi);
    for (auto& q: w) { double v = l->param(q.first), s = sigma(fn, q.second); c.check(std::isfinite(v), "an initial parameter is not finite"); if (!normal) c.check(std::fabs(v) <= s / 2 * (1 + 1e-12), "an initial parameter exceeds the bounds of its distribution: " + std::to_string(v) + " of " + std::to_string(s / 2)); }
    if (!normal && a == b && b == e && (a == 0 || a == 4)) for (auto& q: w) c.approx(l->param(q.first), (a == 0 ? -1 : 1) * sigma(fn, q.second) / 2, "the end of the range of the distribution", 1e-12);
    for (auto i: bi) c.eq(l->param(i), l->param(bi[0]), "biases differ");
    // depends on nothing else: other values, another history, a clone, twice
    V want = params(*l); LP m = make(kind, cfg); for (size_t i = 0; i < m->param_count(); ++i) { m->param(i) = grid(i, 7); m->gradient(i) = 3; } m->init(fn, pdf, r); c.veq(params(*m), want, "initial parameters depend on what the layer held"); m->init(f ? LI::XAVIER : LI::KAIMING, PDF::NORMAL, RneType(3)); m->init(fn, pdf, r); c.veq(params(*m), want, "initial parameters depend on an earlier initialisation"); LP k = make(kind, cfg)->clone(); k->init(fn, pdf, r); c.veq(params(*k), want, "initial parameters of a clone"); V x = vals(l->input_size() * (kind == 5 ? TT[cfg] : 1), 2); m->forward(x); m->init(fn, pdf, r); c.veq(params(*m), want, "initial parameters depend on earlier use");
    if (kind == 5) { auto &ml = dynamic_cast<RecurrentLayer&>(*m), &ll = dynamic_cast<RecurrentLayer&>(*l); for (size_t s = 0; s < 2; ++s) { V h = vals(HH[cfg], 5); if (s) { ml.hidden_state(h); ml.init(fn, pdf, r); } c.vapprox(V(ml.forward(x)), V(ll.forward(x)), "an initialised layer starts from no state", 1e-12); ll.reset_hidden_state(); } }
    // the two functions differ by their scale alone
    LP o = make(kind, cfg); LI on = f ? LI::XAVIER : LI::KAIMING; o->init(on, pdf, r); for (auto& q: w) c.approx(o->param(q.first) / sigma(on, q.second), l->param(q.first) / sigma(fn, q.second), "scale of the initialisation", 1e-9 * std::max(1.0, std::fabs(l->param(q.first) / sigma(fn, q.second)))); for (auto i: bi) c.eq(o->param(i), l->param(i), "biases depend on the initialisation function");
    c.nontrivial(); c.outcome(mc::Hash().add(want)); c.state(mc::Hash().add(d.str()));
}
// other sizes, seeds: moments of larger layers, different seeds give different weights
static void scales(Ctx& c)
{
    static const std::vector<size_t> NS{1, 2, 3, 10, 64}; size_t in = c.of(NS), f = c.pick(2), seed = c.pick(8); bool normal = c.flag(), rec = c.flag();
    if (!c.begin()) return;
    std::ostringstream d; d << (rec ? "recurrent" : "dense") << " with " << in << " inputs, " << (f ? "Kaiming" : "Xavier") << (normal ? ", normal" : ", uniform") << ", seed " << seed; c.describe(d.str()); LI fn = f ? LI::KAIMING : LI::XAVIER; PDF pdf = normal ? PDF::NORMAL : PDF::UNIFORM; size_t out = 4096 / in; LP l; if (rec) l = std::make_shared<RecurrentLayer>("r", size_t(1), size_t(1), size_t(64), size_t(1)); else l = std::make_shared<DenseLayer>("d", in, out); l->init(fn, pdf, RneType(seed + 1)); size_t first = rec ? 64 : 0, n = rec ? 64 * 64 : in * out; double s = sigma(fn, rec ? 64 : in), sum = 0, sq = 0; std::set<double> u; for (size_t i = 0; i < n; ++i) { double v = l->param(first + i); sum += v; sq += v * v; u.insert(v); }
    double mean = sum / double(n), sd = std::sqrt(sq / double(n)), want = normal ? s : s / std::sqrt(12.0); c.check(std::fabs(mean) < 6 * want / std::sqrt(double(n)), "mean of the initial weights is " + std::to_string(mean)); c.check(std::fabs(sd / want - 1) < 0.1, "deviation of the initial weights is " + std::to_string(sd) + ", not " + std::to_string(want)); c.check(u.size() > n - n / 100, "initial weights repeat"); LP m = rec ? LP(std::make_shared<RecurrentLayer>("r", size_t(1), size_t(1), size_t(64), size_t(1))) : LP(std::make_shared<DenseLayer>("d", in, out)); m->init(fn, pdf, RneType(seed + 1)); c.veq(params(*m), params(*l), "same generator, other weights"); m->init(fn, pdf, RneType(seed + 2)); c.check(params(*m) != params(*l), "the generator does not matter"); c.nontrivial(); c.outcome(mc::Hash().add(params(*l))); c.state(mc::Hash().add(d.str()));
}
// models: the seed decides, returned when drawn, AUTO follows what a layer feeds
static void model_init(Ctx& c)
{
    static const size_t ACT[] = {6, 7, 8, 9, 10, 11, 0}; size_t a = ACT[c.pick(7)], b = ACT[c.pick(7)], f = c.pick(3), seed = c.pick(3); bool normal = c.flag(), fork = c.flag();
    if (!c.begin()) return;
    static const RneType::result_type S[] = {0, 1, ~RneType::result_type(0)}; std::ostringstream d; d << "dense -> kind " << a << " -> dense -> kind " << b << (fork ? ", first also feeds a head" : "") << ", initialisation " << f << (normal ? ", normal" : ", uniform") << ", seed " << S[seed]; c.describe(d.str());
    auto build = [&](std::vector<LP>& learn) { auto m = std::make_unique<Model>("m"); auto act = [&](size_t k, size_t n) -> LP { switch (k) { case 6: return m->add_layer<ReluLayer>("a", n); case 7: return m->add_layer<EluLayer>("a", n, 0.5); case 8: return m->add_layer<SoftmaxLayer>("a", n); case 9: return m->add_layer<TanhLayer>("a", n); case 10: return m->add_layer<SigmoidLayer>("a", n); case 11: return m->add_layer<LinearLayer>("a", n); default: return m->add_layer<DenseLayer>("a", n, n); } }; LP x = m->add_layer<DenseLayer>("x", size_t(3), size_t(4)); LP p = act(a, 4), y = m->add_layer<DenseLayer>("y", size_t(4), size_t(2)), q = act(b, 2); m->create_edge(x, p); m->create_edge(p, y); m->create_edge(y, q); if (fork) { LP h = m->add_layer<ReluLayer>("h", size_t(4)); m->create_edge(x, h); } learn = {x, y}; return m; };
    std::vector<LP> l1, l2, l3; auto m1 = build(l1), m2 = build(l2); auto fn = f == 0 ? Model::InitializationFunction::XAVIER : f == 1 ? Model::InitializationFunction::KAIMING : Model::InitializationFunction::AUTO; auto pdf = normal ? Model::ProbabilityDensityFunction::NORMAL : Model::ProbabilityDensityFunction::UNIFORM; auto r = m1->init(fn, pdf, S[seed]); if (S[seed]) c.eq(r, S[seed], "the seed that init returns"); for (auto& l: l2) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = 9; auto r2 = m2->init(fn, pdf, r); if (r) { c.eq(r2, r, "the seed that init returns"); for (size_t i = 0; i < 2; ++i) c.veq(params(*l2[i]), params(*l1[i]), "the returned seed does not reproduce the parameters"); }
    // seeds that differ in any bit give other weights
    if (r) { RneType::result_type bit = RneType::result_type(1) << ((a * 7 + b + f * 5 + seed * 11 + 16 * fork) % 64), other = r ^ bit; if (other) { std::vector<LP> l4; auto m4 = build(l4); m4->init(fn, pdf, other); c.check(params(*l4[0]) != params(*l1[0]), "seeds that differ in a bit give the same weights"); } }
    // the weights of each layer have the scale of the function they are due
    for (size_t i = 0; i < 2; ++i) { bool relu = i == 0 ? a == 6 || fork : b == 6; LI due = f == 0 ? LI::XAVIER : f == 1 || relu ? LI::KAIMING : LI::XAVIER; auto m3 = build(l3); m3->init(due == LI::KAIMING ? Model::InitializationFunction::KAIMING : Model::InitializationFunction::XAVIER, pdf, r); if (r) c.veq(params(*l1[i]), params(*l3[i]), "initialisation function of a layer" + std::string(relu ? " feeding a ReLU" : "")); }
    c.nontrivial(); c.state(mc::Hash().add(d.str())); c.outcome(mc::Hash().add(params(*l1[0])).add(params(*l1[1])));
}
// ---- refused uses
static void loads(Ctx& c)
{
    size_t a = c.pick(KINDS), b = c.pick(KINDS), ca = c.pick(CFGS), cb = c.pick(CFGS), how = c.pick(2);
    if (!c.begin()) return;
    std::ostringstream d; d << "kind " << a << " configuration " << ca << " loads what kind " << b << " configuration " << cb << " dumped"; c.describe(d.str()); LP t = make(a, ca, "target"), s = make(b, cb, "source"); for (size_t i = 0; i < t->param_count(); ++i) t->param(i) = grid(i, 1); for (size_t i = 0; i < s->param_count(); ++i) s->param(i) = grid(i, 2); Json j = s->dump(); if (how) { std::stringstream ss; ss << j; Json q; ss >> q; j = q; }
    if (a == b) { t->load(j); c.eq(t->param_count(), s->param_count(), "parameter count after a load"); addressing(c, *t, s->param_count(), "after a load"); c.nontrivial(); return; }
    V p = params(*t); size_t in = t->input_size(), out = loss(a) ? 0 : t->output_size(); c.throws([&] { t->load(j); }, "a document of another layer type"); c.veq(params(*t), p, "a refused document changed the parameters"); c.eq(t->input_size(), in, "a refused document changed the input size"); if (!loss(a)) c.eq(t->output_size(), out, "a refused document changed the output size"); c.eq(t->name(), std::string("target"), "a refused document changed the name"); c.throws([&] { t->load(Json()); }, "an empty document"); c.nontrivial(); c.state(mc::Hash().add(d.str()));
}
static void optimizers(Ctx& c)
{
    size_t a = LEARN[c.pick(3)], b = LEARN[c.pick(3)], ca = c.pick(CFGS), cb = c.pick(CFGS); bool adam = c.flag();
    if (!c.begin()) return;
    std::ostringstream d; d << "kind " << a << "/" << ca << " to kind " << b << "/" << cb << (adam ? ", Adam" : ", gradient descent"); c.describe(d.str()); LP f = make(a, ca), t = make(b, cb); std::shared_ptr<Optimizer> o; if (adam) o = std::make_shared<AdamOptimizer>(0.25); else o = std::make_shared<GradientDescentOptimizer>(0.25); for (size_t i = 0; i < f->param_count(); ++i) { f->param(i) = 1; f->gradient(i) = grid(i, 3) + 2; } for (size_t i = 0; i < t->param_count(); ++i) t->param(i) = 4;
    V p = params(*t), g = grads(*f), fp = params(*f); if (f->param_count() != t->param_count()) { c.throws([&] { o->train_check(*f, *t); }, "layers with different amounts of parameters"); c.veq(params(*t), p, "a refused update changed the parameters"); c.veq(grads(*f), g, "a refused update changed the gradients"); c.veq(params(*f), fp, "a refused update changed the source"); } else { o->train_check(*f, *t); for (size_t i = 0; i < p.size(); ++i) c.check(t->param(i) < 4, "an update did not reach parameter " + std::to_string(i)); c.veq(params(*f), fp, "an update changed the source's parameters"); }
    c.nontrivial(); c.state(mc::Hash().add(d.str()));
}
static void models(Ctx& c)
{
    size_t start = c.pick(4); std::vector<size_t> prog(mc::thorough() ? 4 : 3); for (auto& q: prog) q = c.pick(9);
    if (!c.begin()) return;
    std::ostringstream d; d << "model " << start << ":"; for (auto q: prog) d << ' ' << q; c.describe(d.str());
    Model m("m"), o("o"); LP fa = o.add_layer<DenseLayer>("fa", size_t(2), size_t(2)), lone = std::make_shared<DenseLayer>("lone", size_t(2), size_t(2)); auto fl = o.add_loss<MeanSquaredLossLayer>("fl", size_t(2), size_t(1)); LP x, y; std::shared_ptr<LossLayer> q; size_t outs = 0; if (start >= 1) { x = m.add_layer<DenseLayer>("x", size_t(2), size_t(2)); outs = 1; } if (start >= 2) { y = m.add_layer<TanhLayer>("y", size_t(2)); m.create_edge(x, y); } if (start >= 3) { q = m.add_loss<MeanSquaredLossLayer>("q", size_t(2), size_t(1)); m.create_loss_edge(y, q); } if (x) for (size_t i = 0; i < x->param_count(); ++i) x->param(i) = grid(i, 2); LP last = y ? y : x; V in = vals(2, 3), want; if (outs) want = m.predict(in);
    auto intact = [&](const std::string& w) { size_t n = start == 0 ? 0 : start == 1 ? 1 : start == 2 ? 2 : 3; c.eq(m.layers().size(), n, w + ": layers"); c.eq(m.output_layers().size(), outs, w + ": output layers"); c.eq(m.input_layers().size(), size_t(start >= 1), w + ": input layers"); c.eq(m.loss_layers().size(), size_t(start >= 3), w + ": loss layers"); if (outs) { c.veq(V(m.predict(in)), want, w + ": prediction"); c.eq(m.input_size(), size_t(2), w + ": input size"); c.eq(m.output_size(), size_t(2), w + ": output size"); } for (size_t i: {size_t(1), size_t(7), std::numeric_limits<size_t>::max()}) { c.eq(m.input_size(i), size_t(0), w + ": size of an input layer there is not"); c.eq(m.output_size(i), size_t(0), w + ": size of an output layer there is not"); } if (!outs) { c.eq(m.input_size(), size_t(0), w + ": input size of an empty model"); c.eq(m.output_size(), size_t(0), w + ": output size of an empty model"); } };
    intact("at first"); for (auto k: prog)
    {
        std::string w = "after operation " + std::to_string(k);
        switch (k)
        {
            case 0: if (outs == 0) c.throws([&] { m.predict(in); }, "predict without output layers"); break;
            case 1: if (last) { c.throws([&] { m.create_edge(last, fa); }, "an edge to a layer of another model"); c.throws([&] { m.create_edge(fa, last); }, "an edge from a layer of another model"); } break;
            case 2: if (last) { c.throws([&] { m.create_edge(last, lone); }, "an edge to a layer of no model"); c.throws([&] { m.create_edge(lone, last); }, "an edge from a layer of no model"); } break;
            case 3: if (last) c.throws([&] { m.create_loss_edge(last, fl); }, "an edge to a loss layer of another model"); break;
            case 4: if (last) { c.throws([&] { m.create_front_arc(last, fa); }, "a forward arc to a layer of another model"); c.throws([&] { m.create_front_arc(fa, last); }, "a forward arc from a layer of another model"); } break;
            case 5: if (last) { c.throws([&] { m.create_back_arc(last, fa); }, "a backward arc to a layer of another model"); c.throws([&] { m.create_back_arc(fa, last); }, "a backward arc from a layer of another model"); } break;
            case 6: c.throws([&] { m.create_edge(fa, lone); }, "an edge between strangers"); c.throws([&] { m.create_edge(fa, fa); }, "an edge of a stranger to itself"); break;
            case 7: if (last) { LP none; c.throws([&] { m.create_edge(last, none); }, "an edge to nothing"); c.throws([&] { m.create_edge(none, last); }, "an edge from nothing"); } break;
            default: { MeanSquaredLossLayer e("e", size_t(2), size_t(1)); CategoricalCrossEntropyLossLayer f("f", size_t(2), size_t(1)); c.throws([&] { e.forward(in); }, "a loss without a target"); c.throws([&] { f.forward(in); }, "a loss without a target"); V pos{0.5, 0.5}; f.set_target(V(2)); c.throws([&] { f.forward(pos); }, "a target of no class"); V t{0, 1}; f.set_target(t); f.forward(pos); e.set_target(t); e.forward(pos); c.throws([&] { (void) e.last_output(); }, "the output of a loss layer"); break; }
        }
        intact(w); c.step(); c.state(mc::Hash().add(start).add(k));
    }
    c.nontrivial();
}
// what a layer tells about itself: names, shapes, its last input, what it prints
static void identity(Ctx& c)
{
    size_t kind = c.pick(KINDS), cfg = c.pick(CFGS), hist = c.pick(4); bool named = c.flag();
    if (!c.begin()) return;
    std::ostringstream d; d << "layer kind " << kind << " configuration " << cfg << ", history " << hist << (named ? ", named" : ""); c.describe(d.str()); LP l = make(kind, cfg, named ? "some name" : ""), o = make(kind, cfg, named ? "some name" : "");
    if (named) c.eq(l->name(), std::string("some name"), "name"); else { c.check(!l->name().empty() && !o->name().empty(), "a layer without a name"); c.check(l->name() != o->name(), "two layers given the same name: " + l->name()); std::set<std::string> all; for (size_t k = 0; k < KINDS; ++k) all.insert(make(k, cfg, "")->name()); c.eq(all.size(), KINDS, "names given to layers are distinct"); }
    c.check(l->last_input().empty(), "a layer that was never trained has no last input"); std::list<V> keep; GradientDescentOptimizer gd(0.5);
    auto use = [&](size_t salt) { V x = vals((loss(kind) ? N[cfg] : l->input_size()) * (kind == 5 ? TT[cfg] : 1), salt); for (auto& q: x) q += 1; keep.push_back(x); if (loss(kind)) { V t(N[cfg]); t[0] = 1; dynamic_cast<LossLayer&>(*l).set_target(t); keep.push_back(t); } const V& in = loss(kind) ? *std::prev(keep.end(), 2) : keep.back(); l->training_forward(in); V want(in.begin(), in.begin() + long(l->input_size())); c.veq(l->last_input(), want, "last input"); };
    if (hist == 1) { use(3); use(9); LP k = l->clone(); c.eq(k->name(), l->name(), "name of a clone"); } if (hist == 2) { LP k = l->clone(); use(4); c.check(k->last_input().empty(), "a clone was not trained"); l = k; c.check(l->last_input().empty(), "a clone was not trained"); use(5); }
    if (hist == 3 && !loss(kind)) { S3 s = l->input_shape().shape(); s = kind >= 1 && kind <= 3 ? S3(s.height() + 1, s.width() + 2, s.channels() == 1 ? 2 : 1) : S3(s.size() + 3); l->input_shape(s); c.check(l->input_shape().height() == s.height() && l->input_shape().width() == s.width() && l->input_shape().channels() == s.channels(), "an input shape that was set"); c.eq(l->input_size(), s.size(), "input size"); use(6); }
    c.eq(l->input_layers(), size_t(1), "inputs"); c.eq(l->output_layers(), size_t(1), "outputs"); c.eq(l->input_shapes().size(), size_t(1), "input shapes"); c.eq(l->output_shapes().size(), size_t(1), "output shapes"); c.eq(l->input_shape().amount_shapes(), size_t(1), "amount of input shapes"); c.eq(LayerShape().amount_shapes(), size_t(0), "shapes of no shape");
    for (auto* q: {&l->input_shape(), &l->output_shape()}) { c.eq(q->size(), q->height() * q->width() * q->channels(), "size of a shape"); c.eq(q->size(), q->shape().size(), "size of a shape"); c.eq(q->shapes().at(0).size(), q->size(), "size of a shape"); for (size_t k: {size_t(1), size_t(7), ~size_t(0)}) { c.throws([&] { (void) q->size(k); }, "size of a shape it does not have"); c.throws([&] { (void) q->height(k); }, "height of a shape it does not have"); c.throws([&] { (void) q->width(k); }, "width of a shape it does not have"); c.throws([&] { (void) q->channels(k); }, "channels of a shape it does not have"); c.throws([&] { (void) q->shape(k); }, "a shape it does not have"); } }
    c.eq(l->input_size(), l->input_shape().size(), "input size"); c.eq(l->output_size(), l->output_shape().size(), "output size"); if (!loss(kind)) { V out = l->last_output(); if (hist) c.eq(out.size(), l->output_size() * (kind == 5 ? TT[cfg] : 1), "length of an output"); }
    // numbers printed outside brackets are the parameters, each once
    V p(l->param_count()), g(p.size()); for (size_t i = 0; i < p.size(); ++i) { l->param(i) = p[i] = double(i) - 1.5; l->gradient(i) = g[i] = 1000 + double(i); }
    auto printed = [&](const std::function<void()>& f) { std::ostringstream s; auto* old = std::cout.rdbuf(s.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); std::string t; int deep = 0; for (char q: s.str()) { if (q == '[' || q == '(') ++deep; if (!deep) t += q == ',' ? ' ' : q; if (q == ']' || q == ')') { --deep; t += ' '; } } std::istringstream in(t); V r; std::string w; while (in >> w) { char* e; double v = std::strtod(w.c_str(), &e); if (*e == 0) r.push_back(v); } std::sort(r.begin(), r.end()); return r; };
    if (!loss(kind)) { c.veq(printed([&] { l->print(); }), p, "the parameters a layer prints"); Model m("m"); LP q = m.add_layer<DenseLayer>("q", size_t(2), size_t(1)); for (size_t i = 0; i < 3; ++i) q->param(i) = double(i) * 2; LP z = m.add_layer<TanhLayer>("z", size_t(1)); m.create_edge(q, z); c.veq(printed([&] { m.print(); }), V{0, 2, 4}, "the parameters a model prints"); } else printed([&] { l->print(); });
    c.veq(params(*l), p, "parameters after printing"); c.veq(grads(*l), g, "gradients after printing"); c.nontrivial(); c.state(mc::Hash().add(d.str())); c.outcome(mc::Hash().add(l->output_size()).add(l->type()));
}
// layers of many parameters, each counted and addressed as the small ones are, also after an update of every one
static void many(Ctx& c)
{
    struct S { size_t kind, n, o, h; }; static const std::vector<S> L{{0, 16, 15, 0}, {0, 63, 64, 0}, {0, 64, 64, 0}, {0, 4, 1030, 0}, {0, 1030, 4, 0}, {0, 255, 256, 0}, {0, 300, 220, 0}, {1, 3, 64, 2}, {1, 5, 130, 3}, {1, 11, 260, 9}, {5, 16, 15, 8}, {5, 40, 30, 60}, {5, 5, 300, 70}, {5, 200, 3, 150}, {5, 30, 20, 230}}; S q = c.of(L); size_t how = c.pick(4);
    if (!c.begin()) return;
    std::ostringstream d; d << "layer kind " << q.kind << " of " << q.n << ", " << q.o << ", " << q.h << ", way " << how; c.describe(d.str()); c.nontrivial(); LP l; size_t want; using HA = RecurrentLayer::HiddenActivation;
    if (q.kind == 0) { l = std::make_shared<DenseLayer>("l", q.n, q.o); want = q.o * (q.n + 1); } else if (q.kind == 1) { l = std::make_shared<ConvolutionalLayer>("l", S3(q.n + 1, q.n, q.h), S2(q.n, q.n), q.o, S2(1, 1), S2(0, 0)); want = q.o * (q.n * q.n * q.h + 1); } else { l = std::make_shared<RecurrentLayer>("l", q.n, q.o, q.h, size_t(2), HA::TanH); want = (q.n + q.h + 1) * q.h + (q.h + 1) * q.o; }
    if (how == 1) l = l->clone(); if (how == 2) { RneType r(5); l->init(LI::KAIMING, PDF::NORMAL, r); } if (how == 3) { if (want > 20000) return; LP t = q.kind == 0 ? LP(std::make_shared<DenseLayer>("t", size_t(1), size_t(1))) : q.kind == 1 ? LP(std::make_shared<ConvolutionalLayer>("t", S3(1, 1, 1), S2(1, 1), size_t(1), S2(1, 1), S2(0, 0))) : LP(std::make_shared<RecurrentLayer>("t", size_t(1), size_t(1), size_t(1), size_t(1), HA::TanH)); Json j = l->dump(); t->load(j); l = t; }
    addressing(c, *l, want, d.str());
    for (size_t i = 0; i < want; ++i) { l->param(i) = double(i % 97); l->gradient(i) = 1 + double(i % 5); } GradientDescentOptimizer o(0.5); o.train_check(*l, *l); size_t bad = 0; for (size_t i = 0; i < want; ++i) bad += l->param(i) != double(i % 97) - 0.5 * (1 + double(i % 5)) || l->gradient(i) != 0; c.eq(bad, size_t(0), d.str() + ": parameters an update did not reach");
}
MC_MAIN({"many", many}, {"indices", indices}, {"bounds", bounds}, {"scales", scales}, {"model_init", model_init}, {"loads", loads}, {"optimizers", optimizers}, {"models", models}, {"identity", identity})

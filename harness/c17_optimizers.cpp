// C17: every program of gradient-producing steps, updates and resets against a per-parameter reference of the update rules.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/dropout.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t;
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = (double((i * 37 + salt * 11 + 5) % 23) - 11) / 8 + 0.01 * double(i % 3); return v; }
static V params(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.param(i); return r; }
static V grads(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.gradient(i); return r; }
struct Rule { bool adam; double eta, b1, b2, eps; };
static const std::vector<Rule> RULES{{false, 0.5, 0, 0, 0}, {false, 0.03, 0, 0, 0}, {true, 0.1, 0.9, 0.999, 1e-8}, {true, 0.03, 0.5, 0.9, 1e-3}, {true, 0.25, 0, 0.5, 0.125}};
static std::shared_ptr<Optimizer> make(const Rule& r, bool defaults)
{
    if (!r.adam) return std::make_shared<GradientDescentOptimizer>(r.eta);
    if (defaults) return std::make_shared<AdamOptimizer>(r.eta);
    return std::make_shared<AdamOptimizer>(r.eta, r.b1, r.b2, r.eps);
}
// reference: a parameter block, its gradient and the optimizer's state for it
struct Block { V p, g; V m, v; long t = 0; };
static void update(const Rule& r, Block& to, V& g)
{
    if (!r.adam) { for (size_t i = 0; i < g.size(); ++i) { to.p[i] -= r.eta * g[i]; g[i] = 0; } return; }
    to.m.resize(g.size()); to.v.resize(g.size()); ++to.t;
    for (size_t i = 0; i < g.size(); ++i)
    {
        to.m[i] = r.b1 * to.m[i] + (1 - r.b1) * g[i]; to.v[i] = r.b2 * to.v[i] + (1 - r.b2) * g[i] * g[i];
        double mc = to.m[i] / (1 - std::pow(r.b1, double(to.t))), vc = to.v[i] / (1 - std::pow(r.b2, double(to.t)));
        to.p[i] -= r.eta * mc / (std::sqrt(vc) + r.eps); g[i] = 0;
    }
}
static void forget(Block& b) { b.m.clear(); b.v.clear(); b.t = 0; }
static std::shared_ptr<Layer> layer(size_t kind)
{
    std::shared_ptr<Layer> l;
    switch (kind) { case 0: l = std::make_shared<DenseLayer>("d", size_t(2), size_t(2)); break; case 1: l = std::make_shared<ConvolutionalLayer>("c", S3(3, 3, 1), S2(2, 2), size_t(1), S2(1, 1), S2(0, 0)); break; case 2: l = std::make_shared<DenseLayer>("e", size_t(1), size_t(1)); break; case 3: l = std::make_shared<ReluLayer>("r", size_t(3)); break; case 5: l = std::make_shared<DenseLayer>("w", size_t(65), size_t(33)); break;
        default: l = std::make_shared<RecurrentLayer>("n", size_t(1), size_t(1), size_t(2), size_t(2)); }
    V p = vals(l->param_count(), kind); for (size_t i = 0; i < p.size(); ++i) l->param(i) = p[i]; return l;
}
static void same(Ctx& c, Layer& l, const Block& b, const std::string& w) { c.vapprox(params(l), b.p, w + " parameters", 1e-11); c.vapprox(grads(l), b.g, w + " gradients", 1e-11); }
// gradients of one backward pass, from a fresh clone
static V one(const Layer& l, const V& x, const V& g) { auto k = l.clone(); for (size_t i = 0; i < k->param_count(); ++i) k->gradient(i) = 0; V in = x, gg = g; k->training_forward(in); k->backward(gg); return grads(*k); }
static void layers(Ctx& c)
{
    static const std::vector<std::pair<size_t, size_t>> PAIRS{{0, 2}, {0, 1}, {1, 4}, {3, 0}, {5, 2}};
    size_t rk = c.pick(RULES.size()); bool def = rk == 2; auto [ka, kb] = c.of(PAIRS); int len = c.in(1, ka == 5 ? 3 : mc::thorough() ? 6 : 5); static const int NOPS = 8; std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(int(c.pick(NOPS)));
    if (!c.begin()) return;
    const Rule& r = RULES[rk]; auto o = make(r, def); std::shared_ptr<Layer> l[2] = {layer(ka), layer(kb)}; Block b[2]; std::ostringstream d; d << (r.adam ? "adam" : "gd") << " " << r.eta << " on " << l[0]->type() << "," << l[1]->type() << ":";
    std::shared_ptr<Layer> kid = l[0]->clone(); V kg(kid->param_count()); for (int i = 0; i < 2; ++i) { b[i].p = params(*l[i]); b[i].g.assign(b[i].p.size(), 0.0); } int n = 0; bool trained = false;
    for (int op: ops)
    {
        ++n; d << " " << op;
        switch (op)
        {
            case 0: case 1: { auto& x = *l[op]; V in = vals(x.input_size() * (x.type() == "Recurrent" ? 2 : 1), size_t(n)), g = vals(x.last_output().size(), size_t(n + 3)); if (x.param_count()) { V add = one(x, in, g); for (size_t i = 0; i < add.size(); ++i) b[op].g[i] += add[i]; } V i2 = in; x.training_forward(i2); x.backward(g); break; }
            case 2: { V add = vals(kg.size(), size_t(n + 7)); for (size_t i = 0; i < kg.size(); ++i) { kid->gradient(i) += add[i]; kg[i] += add[i]; } break; }
            case 3: o->train(*l[0]); update(r, b[0], b[0].g); trained = true; break;
            case 4: o->train(*l[1]); update(r, b[1], b[1].g); trained = true; break;
            case 5: o->train(*kid, *l[0]); update(r, b[0], kg); trained = true; break;    // gradients of a clone applied to the original
            case 6: o->reset(); forget(b[0]); forget(b[1]); break;
            case 7:
                if (l[0]->param_count() != l[1]->param_count()) c.throws([&] { o->train_check(*l[0], *l[1]); }, "layers of different size");
                o->train_check(*kid, *kid); update(r, b[0], kg); trained = true; break;   // the clone shares the parameters
        }
        c.describe(d.str()); same(c, *l[0], b[0], "first"); same(c, *l[1], b[1], "second"); c.vapprox(grads(*kid), kg, "clone gradients", 1e-11); c.vapprox(params(*kid), b[0].p, "clone parameters", 1e-11); c.step();
        mc::Hash h; h.add(uint64_t(rk)).add(b[0].p).add(b[1].p).add(b[0].g).add(b[1].g).add(kg).add(b[0].m).add(b[1].m); c.state(h);
    }
    c.trace(); if (trained) c.nontrivial(); mc::Hash h; h.add(b[0].p).add(b[1].p); c.outcome(h);
}
// whole models: steps on the model and on a copy, updates from either
static void models(Ctx& c)
{
    size_t rk = c.pick(RULES.size()), arch = c.pick(3); int len = c.in(1, mc::thorough() ? 7 : 6); std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(int(c.pick(5)));
    if (!c.begin()) return;
    const Rule& r = RULES[rk]; auto o = make(r, rk == 2); Model m("m"); std::vector<Layer::SharedPtr> ls;
    auto add = [&](Layer::SharedPtr l) { if (!ls.empty()) m.create_edge(ls.back(), l); V p = vals(l->param_count(), ls.size() + 3); for (size_t i = 0; i < p.size(); ++i) l->param(i) = p[i] / 2; ls.push_back(l); };
    if (arch == 0) { add(m.add_layer<DenseLayer>("a", size_t(2), size_t(2))); add(m.add_layer<TanhLayer>("b", size_t(2))); add(m.add_layer<DenseLayer>("c", size_t(2), size_t(1))); }
    else if (arch == 1) add(m.add_layer<DenseLayer>("a", size_t(2), size_t(1)));
    else { add(m.add_layer<DenseLayer>("a", size_t(2), size_t(4))); add(m.add_layer<ConvolutionalLayer>("b", S3(2, 2, 1), S2(2, 2), size_t(1), S2(1, 1), S2(0, 0))); add(m.add_layer<SigmoidLayer>("c", size_t(1))); }
    auto loss = m.add_loss<MeanSquaredLossLayer>("l", size_t(1), size_t(2)); m.create_loss_edge(ls.back(), loss);
    Model k(m); std::vector<Block> b; std::vector<V> kg; for (auto& l: ls) { Block x; x.p = params(*l); x.g.assign(x.p.size(), 0.0); b.push_back(x); kg.push_back(x.g); }
    auto fresh = [&](const V& x, const V& t) { Model q(m); std::vector<V> g; for (size_t i = 0; i < ls.size(); ++i) for (size_t j = 0; j < q.layers()[i]->param_count(); ++j) q.layers()[i]->gradient(j) = 0; V a = x, bb = t; q.step(a, bb); for (size_t i = 0; i < ls.size(); ++i) g.push_back(grads(*q.layers()[i])); return g; };
    std::ostringstream d; d << (r.adam ? "adam " : "gd ") << r.eta << " model " << arch << ":"; int n = 0; bool trained = false;
    for (int op: ops)
    {
        ++n; d << " " << op; V x = vals(2, size_t(n)), t = vals(1, size_t(n + 5));
        switch (op)
        {
            case 0: { auto g = fresh(x, t); for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < g[i].size(); ++j) b[i].g[j] += g[i][j]; m.step(x, t); break; }
            case 1: { auto g = fresh(x, t); for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < g[i].size(); ++j) kg[i][j] += g[i][j]; k.step(x, t); break; }
            case 2: m.train(*o); for (auto& e: b) update(r, e, e.g); trained = true; break;
            case 3: m.train(*o, k); for (size_t i = 0; i < b.size(); ++i) update(r, b[i], kg[i]); trained = true; break;
            case 4: m.reset_score(); m.predict(x); o->reset(); for (auto& e: b) forget(e); break;
        }
        c.describe(d.str()); for (size_t i = 0; i < b.size(); ++i) { same(c, *ls[i], b[i], "layer " + std::to_string(i)); c.vapprox(grads(*k.layers()[i]), kg[i], "gradients of the copy", 1e-11); c.vapprox(params(*k.layers()[i]), b[i].p, "parameters of the copy", 1e-11); } c.step();
        mc::Hash h; h.add(uint64_t(rk * 3 + arch)); for (auto& e: b) h.add(e.p).add(e.g).add(e.m); c.state(h);
    }
    c.trace(); if (trained) c.nontrivial();
}
// long histories: the bias correction over many updates, two optimizers side by side
static void long_runs(Ctx& c)
{
    size_t rk = c.pick(RULES.size()), sk = c.pick(RULES.size()); int n = 4 * c.in(1, 40), when = c.in(0, 3);
    if (!c.begin()) return;
    c.describe("rules " + std::to_string(rk) + " and " + std::to_string(sk) + ", " + std::to_string(n) + " updates"); auto o = make(RULES[rk], false), o2 = make(RULES[sk], false); auto l = layer(0), q = layer(0); Block a, b; a.p = params(*l); b.p = params(*q); a.g = b.g = V(a.p.size());
    for (int i = 0; i < n; ++i)
    {
        a.g = vals(a.p.size(), size_t(i)); b.g = vals(a.p.size(), size_t(i * 3 + 1)); if (i % 7 == 3) a.g[0] = 0; for (size_t j = 0; j < a.g.size(); ++j) { l->gradient(j) = a.g[j]; q->gradient(j) = b.g[j]; }
        o->train(*l); update(RULES[rk], a, a.g); if (i % (when + 1) == 0) { o2->train(*q); update(RULES[sk], b, b.g); } if (i == n / 2 && when == 2) { o->reset(); forget(a); }
        same(c, *l, a, "first"); same(c, *q, b, "second"); c.step();
    }
    c.nontrivial(); c.outcome(mc::Hash().add(a.p).add(b.p));
}
// gradients of every order of magnitude, with a rate that makes their updates visible
static void scales(Ctx& c)
{
    size_t rk = c.pick(RULES.size()); int k = 4 * c.in(-30, 30), spread = c.of(std::vector<int>{0, 3, 20}), n = c.in(1, 3);
    if (!c.begin()) return;
    Rule r = RULES[rk]; double g0 = std::ldexp(1.0, k); r.eta = r.adam ? 0.5 * (g0 + r.eps) / g0 : 0.5 / g0; std::ostringstream d; d << (r.adam ? "adam" : "gd") << " rate " << r.eta << ", gradients of about " << g0 << ", spread " << spread << ", " << n << " updates"; c.describe(d.str());
    auto o = make(r, false); auto l = layer(0); Block a; a.p = params(*l);
    for (int i = 0; i < n; ++i) { a.g = vals(a.p.size(), size_t(i)); for (size_t j = 0; j < a.g.size(); ++j) { a.g[j] = std::ldexp(a.g[j], k - int(j) * spread); l->gradient(j) = a.g[j]; } o->train(*l); update(r, a, a.g); same(c, *l, a, "scaled"); c.step(); }
    c.nontrivial(); c.outcome(mc::Hash().add(a.p));
}
// Layers that come after one another in the life of an optimizer: a layer replaced by a new one, and a layer that load() gives another amount of parameters.
// What an optimizer learnt about parameters that no longer exist must not reach the new ones. Memory is reused at once here, as it is outside of a harness.
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }
static void successors(Ctx& c)
{
    size_t rk = c.pick(RULES.size()); static const std::vector<size_t> KINDS{0, 1, 2, 4, 5}; size_t k1 = c.of(KINDS), k2 = c.of(KINDS); int n1 = c.in(0, 3), n2 = c.in(1, 3); size_t how = c.pick(4); // 0 dropped, 1 dropped but a clone lives, 2 assigned over, 3 loaded
    if (!c.begin()) return;
    const Rule& r = RULES[rk]; auto o = make(r, rk == 2); c.describe("rule " + std::to_string(rk) + ", layer kinds " + std::to_string(k1) + " then " + std::to_string(k2) + ", " + std::to_string(n1) + " and " + std::to_string(n2) + " updates, way " + std::to_string(how));
    auto run = [&](Layer& l, Block& b, int n, size_t salt) { for (int i = 0; i < n; ++i) { b.g = vals(b.p.size(), size_t(i) * 5 + salt); for (size_t j = 0; j < b.g.size(); ++j) l.gradient(j) = b.g[j]; o->train(l); update(r, b, b.g); same(c, l, b, "after update " + std::to_string(i) + " of the " + (salt ? "second" : "first")); c.step(); } };
    auto l = layer(k1); Block b; b.p = params(*l); b.g.assign(b.p.size(), 0.0); run(*l, b, n1, 0);
    if (how == 0) { l.reset(); l = layer(k2); }
    else if (how == 1) { auto keep = l->clone(); l.reset(); auto x = layer(k2); Block b2; b2.p = params(*x); b2.g.assign(b2.p.size(), 0.0); run(*x, b2, n2, 9); run(*keep, b, n2, 13); c.nontrivial(); return; }
    else if (how == 2) { l = layer(k2); }
    else
    {
        auto x = layer(k2); if (x->type() != l->type()) { l = x; } else { bool other = x->param_count() != l->param_count(); Json j = x->dump(); l->load(j); for (size_t i = 0; i < l->param_count(); ++i) c.eq(l->gradient(i) * 0, 0.0, "gradient of the loaded layer"); if (!other) forget(b), o->reset(); }
    }
    Block b2; b2.p = params(*l); b2.g.assign(b2.p.size(), 0.0); run(*l, b2, n2, 9); c.nontrivial(); c.outcome(mc::Hash().add(b2.p));
}
MC_MAIN({"successors", successors}, {"layers", layers}, {"models", models}, {"long_runs", long_runs}, {"scales", scales})

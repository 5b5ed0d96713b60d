// C23: what a model or layer computes at inference depends on its weights and the input alone: every history of calls before it.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "middleware/fnn.hpp"
#include "mc.hpp"
#include <list>
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>; using MP = std::unique_ptr<Model>;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static const double P[] = {0.0, 0.25, 0.5, 1.0};
static const size_t ARCHS = 11;
// `drop` false: the same model without its dropout layers
static MP build(size_t arch, bool drop = true)
{
    auto m = std::make_unique<Model>("m"); LP prev; auto next = [&](LP l) { if (prev) m->create_edge(prev, l); prev = l; }; auto mse = [&](size_t n) { auto q = m->add_loss<MeanSquaredLossLayer>("mse", n, size_t(1)); m->create_loss_edge(prev, q); };
    auto dropout = [&](size_t n, double p) { if (drop) next(m->add_layer<DropoutLayer>("o", n, p, RneType(3))); };
    switch (arch)
    {
        case 0: next(m->add_layer<DenseLayer>("d", size_t(2), size_t(3))); next(m->add_layer<TanhLayer>("t", size_t(3))); next(m->add_layer<DenseLayer>("e", size_t(3), size_t(2))); mse(2); break;
        case 1: case 2: case 3: case 4: next(m->add_layer<DenseLayer>("d", size_t(2), size_t(3))); dropout(3, P[arch - 1]); next(m->add_layer<ReluLayer>("t", size_t(3))); next(m->add_layer<DenseLayer>("e", size_t(3), size_t(2))); mse(2); break;
        case 5: next(m->add_layer<ConvolutionalLayer>("c", S3(3, 2, 1), S2(2, 2), size_t(2), S2(1, 1), S2(0, 1))); dropout(12, 0.5); next(m->add_layer<MaxPoolingLayer>("p", S3(2, 3, 2), S2(2, 1), S2(1, 1))); next(m->add_layer<DenseLayer>("d", size_t(6), size_t(3))); next(m->add_layer<SoftmaxLayer>("s", size_t(3))); { auto q = m->add_loss<CategoricalCrossEntropyLossLayer>("cce", size_t(3), size_t(1)); m->create_loss_edge(prev, q); } break;
        case 6: next(m->add_layer<AveragePoolingLayer>("a", S3(3, 2, 1), S2(1, 2), S2(1, 1))); next(m->add_layer<EluLayer>("l", size_t(3), 0.5)); dropout(3, 0.5); next(m->add_layer<DenseLayer>("d", size_t(3), size_t(2))); next(m->add_layer<LinearLayer>("k", size_t(2))); mse(2); break;
        case 7: { next(m->add_layer<DenseLayer>("d", size_t(2), size_t(2))); LP trunk = prev; next(m->add_layer<EluLayer>("e", size_t(2), 0.5)); dropout(2, 0.5); mse(2); prev = trunk; next(m->add_layer<SigmoidLayer>("g", size_t(2))); mse(2); break; }
        case 8: if (drop) dropout(2, 0.5); next(m->add_layer<DenseLayer>("d", size_t(2), size_t(2))); mse(2); break;
        case 9: next(m->add_layer<DenseLayer>("d", size_t(2), size_t(2))); dropout(2, 0.5); mse(2); break;
        default: next(m->add_layer<DenseLayer>("d", size_t(2), size_t(2))); dropout(2, 0.5); dropout(2, 0.25); next(m->add_layer<SoftmaxLayer>("s", size_t(2))); dropout(2, 0.9); mse(2); break;
    }
    return m;
}
static size_t ins(size_t a) { return a == 5 || a == 6 ? 6 : 2; }
static size_t outs(size_t a) { return a == 5 ? 3 : 2; }
static bool is_loss(const LP& l) { return l->is_type<LossLayer>(); }
static V params(Model& m) { V v; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) v.push_back(l->param(i)); return v; }
static V grads(Model& m) { V v; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) v.push_back(l->gradient(i)); return v; }
static void set_par(Model& m, const V& p) { size_t k = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = p[k++]; }
// outputs of every output layer of a new model with these parameters, used once
static std::vector<V> fresh(size_t arch, const V& p, const V& x, bool drop) { MP m = build(arch, drop); set_par(*m, p); m->predict(x); std::vector<V> r; for (auto& l: m->output_layers()) r.push_back(l->last_output()); return r; }
static V input(size_t arch, size_t k) { V x = vals(ins(arch), 3 + k); if (k == 2) for (auto& e: x) e = -e * 3; return x; }
static V target(size_t arch, size_t k) { if (arch == 5) { V t(3); t[k % 3] = 1; return t; } return vals(outs(arch), 9 + k); }
static void models(Ctx& c)
{
    size_t arch = c.pick(ARCHS), depth = mc::thorough() ? 5 : 4; std::vector<size_t> prog(depth); for (auto& q: prog) q = c.pick(9);
    if (prog[depth - 1] >= 3) return;   // a prediction at the end
    if (!c.begin()) return;
    std::ostringstream d; d << "architecture " << arch << ":"; for (auto q: prog) d << ' ' << q; c.describe(d.str());
    MP m = build(arch); V p; { size_t n = 0; for (auto& l: m->layers()) n += l->param_count(); p = vals(n, 1); } set_par(*m, p); GradientDescentOptimizer gd(0.25); AdamOptimizer adam(0.0625); MP other;
    auto predict = [&](Model& q, const V& x, const char* w) {
        V g = grads(q), par = params(q); auto want = fresh(arch, par, x, true), plain = fresh(arch, par, x, false); V got; { auto in = std::make_unique<V>(x); const V& r = q.predict(*in); got = r; in.reset(); c.veq(r, got, "the result of predict depends on the input vector after the call"); }
        c.veq(got, want[0], std::string(w) + ": prediction depends on what happened before"); auto& o = q.output_layers(); c.eq(o.size(), want.size(), "output layers"); for (size_t i = 0; i < o.size(); ++i) c.veq(o[i]->last_output(), want[i], "output of head " + std::to_string(i) + " depends on what happened before");
        c.vapprox(got, plain[0], std::string(w) + ": dropout is not the identity at inference", 1e-12); c.veq(params(q), par, "predict changed the parameters"); c.veq(grads(q), g, "predict changed the gradients"); c.outcome(mc::Hash().add(got)); };
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: case 1: case 2: predict(*m, input(arch, q), "model"); break;
            case 3: case 4: { V par = params(*m); V x = input(arch, q - 3), t = target(arch, q); m->step(x, t); c.veq(params(*m), par, "a training step changed the parameters"); break; }
            case 5: m->step(input(arch, 2), target(arch, 1)); m->train(gd); break;
            case 6: m->reset_score(); for (auto& l: m->layers()) if (!is_loss(l) && l->param_count()) l->gradient(0) = l->gradient(0) + 1; break;
            case 7: other = std::make_unique<Model>(*m); predict(*other, input(arch, 1), "copy"); other->step(input(arch, 0), target(arch, 2)); break;
            default: m->step(input(arch, 1), target(arch, 0)); m->train(adam); break;
        }
        c.step(); c.state(mc::Hash().add(arch).add(params(*m)).add(grads(*m)).add(m->output_layers().front()->last_output()));
    }
    predict(*m, input(arch, 1), "model"); predict(*m, input(arch, 1), "model"); c.nontrivial();
}
// single layers
static const size_t KINDS = 14;
static LP layer(size_t k)
{
    switch (k)
    {
        case 0: return std::make_shared<DenseLayer>("l", size_t(4), size_t(3)); case 1: return std::make_shared<ReluLayer>("l", size_t(4)); case 2: return std::make_shared<EluLayer>("l", size_t(4), 0.5); case 3: return std::make_shared<LinearLayer>("l", size_t(4));
        case 4: return std::make_shared<TanhLayer>("l", size_t(4)); case 5: return std::make_shared<SigmoidLayer>("l", size_t(4)); case 6: return std::make_shared<SoftmaxLayer>("l", size_t(4)); case 7: return std::make_shared<ConvolutionalLayer>("l", S3(2, 2, 1), S2(2, 1), size_t(2), S2(1, 1), S2(1, 0));
        case 8: return std::make_shared<MaxPoolingLayer>("l", S3(2, 2, 1), S2(1, 2), S2(1, 1)); case 9: return std::make_shared<AveragePoolingLayer>("l", S3(2, 2, 1), S2(2, 1), S2(1, 1)); case 10: return std::make_shared<DropoutLayer>("l", size_t(4), 0.5, RneType(2)); case 11: return std::make_shared<DropoutLayer>("l", size_t(4), 1.0, RneType(2));
        case 12: return std::make_shared<DropoutLayer>("l", size_t(4), 0.0, RneType(2)); default: return std::make_shared<MaxPoolingLayer>("l", S3(2, 2, 1), S2(1, 1), S2(2, 1));
    }
}
static void layers(Ctx& c)
{
    size_t kind = c.pick(KINDS), depth = mc::thorough() ? 6 : 5; std::vector<size_t> prog(depth); for (auto& q: prog) q = c.pick(7);
    if (!c.begin()) return;
    std::ostringstream d; d << "layer kind " << kind << ":"; for (auto q: prog) d << ' ' << q; c.describe(d.str());
    LP l = layer(kind), other; auto pars = [](LP x) { V v; for (size_t i = 0; i < x->param_count(); ++i) v.push_back(x->param(i)); return v; }; auto grds = [](LP x) { V v; for (size_t i = 0; i < x->param_count(); ++i) v.push_back(x->gradient(i)); return v; };
    for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = grid(i, 5);
    std::list<V> in; auto keep = [&](size_t k) -> const V& { in.push_back(vals(4, 6 + k)); return in.back(); }; bool trained = false;
    auto fw = [&](LP x, size_t k, const char* w) { LP f = layer(kind); for (size_t i = 0; i < f->param_count(); ++i) f->param(i) = x->param(i); V want = f->forward(keep(k)), par = pars(x), g = grds(x); V got = x->forward(keep(k)); c.veq(got, want, std::string(w) + ": output depends on what happened before"); c.veq(x->last_output(), want, std::string(w) + ": the last output is not that of the last call"); if (kind >= 10 && kind <= 12) c.veq(got, keep(k), "dropout is not the identity at inference"); c.veq(pars(x), par, "forward changed the parameters"); c.veq(grds(x), g, "forward changed the gradients"); };
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: case 1: fw(l, q, "layer"); break;
            case 2: case 3: l->training_forward(keep(q)); trained = true; break;
            case 4: if (trained) { V g = vals(l->output_size(), 3); l->backward(g); } break;
            case 5: other = l->clone(); fw(other, 1, "clone"); other->training_forward(keep(0)); { V g = vals(l->output_size(), 8); other->backward(g); } break;
            default: if (l->param_count()) l->param(l->param_count() - 1) = l->param(l->param_count() - 1) * -0.5 + 0.25; if (other) fw(other, 0, "clone"); break;
        }
        c.step();
    }
    fw(l, 0, "layer"); fw(l, 1, "layer"); c.nontrivial(); c.state(mc::Hash().add(kind).add(pars(l)).add(grds(l)).add(trained));
}
// networks: each row of a prediction is that of its entry, whatever the order, the company and earlier calls
static void networks(Ctx& c)
{
    using Net = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, ParallelizationLevel::SEQUENTIAL, double>;
    size_t arch = c.pick(4), n = size_t(c.in(1, 4)); std::vector<size_t> prog(mc::thorough() ? 4 : 3); for (auto& q: prog) q = c.pick(5);
    if (!c.begin()) return;
    NeuralNetworkDescriptor d{Input("i", arch == 2 ? S3(2, 2, 1) : S3(4))};
    if (arch == 0) d.push_back(Dense("d", size_t(3), ActivationType::TanH)); if (arch == 1) { d.push_back(Dense("d", size_t(3), ActivationType::ReLU)); d.push_back(Dropout("o", 0.5)); d.push_back(Dense("e", size_t(2), ActivationType::Softmax)); } if (arch == 2) { d.push_back(Conv("c", {size_t(2), S2(2, 1)}, ActivationType::ELU)); d.push_back(MaxPool("p", {S2(1, 2)}, ActivationType::Linear)); d.push_back(Dense("e", size_t(2), ActivationType::Sigmoid)); } if (arch == 3) { d.push_back(Dropout("o", 1.0, ActivationType::None)); d.push_back(Dense("e", size_t(3), ActivationType::Linear)); }
    std::ostringstream w; w << "network " << arch << " on " << n << " entries:"; for (auto q: prog) w << ' ' << q; c.describe(w.str());
    Net net(d, "n"); size_t o = arch == 0 || arch == 3 ? 3 : 2; std::vector<V> rows, train; for (size_t i = 0; i < n; ++i) { rows.push_back(vals(4, 20 + i)); V r = rows.back(), t = vals(o, 30 + i); r.insert(r.end(), t.begin(), t.end()); train.push_back(r); }
    std::set<SizeType> lab; for (size_t i = 0; i < o; ++i) lab.insert(4 + i); auto predict = [&](const std::vector<V>& r) { Dataset<double> ds(r); auto p = net.predict(ds); std::vector<V> q; c.eq(p.size(), r.size(), "rows of a prediction"); for (size_t i = 0; i < p.size(); ++i) { q.push_back(p.entry(i)); c.eq(q.back().size(), o, "width of a prediction"); } return q; };
    { Dataset<double> ds(train, 1, lab); net.fit(ds, OptimizerType::GRADIENT_DESCENT, 1, 2, 0.1, 7); }
    std::vector<V> base; for (auto& r: rows) base.push_back(predict({r})[0]);
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: { auto g = predict(rows); for (size_t i = 0; i < n; ++i) c.veq(g[i], base[i], "prediction of an entry among others"); break; }
            case 1: { auto r = rows; std::reverse(r.begin(), r.end()); auto g = predict(r); for (size_t i = 0; i < n; ++i) c.veq(g[i], base[n - 1 - i], "prediction of an entry in another order"); break; }
            case 2: { auto r = rows; for (auto& e: rows) r.push_back(e); auto g = predict(r); for (size_t i = 0; i < n; ++i) c.veq(g[n + i], base[i], "prediction of a repeated entry"); break; }
            case 3: { Dataset<double> ds(train, 1, lab); auto e1 = net.evaluate(ds), e2 = net.evaluate(ds); c.eq(e1.loss, e2.loss, "evaluation depends on what happened before"); c.eq(e1.accuracy, e2.accuracy, "evaluated accuracy depends on what happened before"); break; }
            default: { auto g = predict({rows[n - 1]}); c.veq(g[0], base[n - 1], "prediction of a single entry"); break; }
        }
        c.step();
    }
    c.nontrivial(); mc::Hash h; h.add(arch); for (auto& b: base) h.add(b); c.state(h);
}
// wide and deep models after long histories
static MP big(size_t depth, size_t width, int kind, bool drop)
{
    auto m = std::make_unique<Model>("m"); LP prev; auto next = [&](LP l) { if (prev) m->create_edge(prev, l); prev = l; }; size_t n = width;
    if (kind == 2) { next(m->add_layer<ConvolutionalLayer>("c", S3(width, 5, 2), S2(3, 2), size_t(3), S2(1, 2), S2(1, 0))); n = width * 2 * 3; next(m->add_layer<MaxPoolingLayer>("p", S3(width, 2, 3), S2(1, 2), S2(1, 1))); n = width * 3; }
    for (size_t i = 0; i < depth; ++i)
        switch (kind == 1 ? (i * 5) % 7 : i % 4)
        {
            case 0: next(m->add_layer<DenseLayer>("d", n, n)); break; case 1: if (drop) next(m->add_layer<DropoutLayer>("o", n, 0.5, RneType(unsigned(i + 1)))); break; case 2: next(m->add_layer<TanhLayer>("t", n)); break; case 3: next(m->add_layer<EluLayer>("e", n, 0.5)); break;
            case 4: next(m->add_layer<SigmoidLayer>("g", n)); break; case 5: next(m->add_layer<SoftmaxLayer>("s", n)); break; default: next(m->add_layer<ReluLayer>("r", n)); break;
        }
    next(m->add_layer<LinearLayer>("k", n)); auto q = m->add_loss<MeanSquaredLossLayer>("mse", n, size_t(1)); m->create_loss_edge(prev, q); return m;
}
static void large(Ctx& c)
{
    static const std::vector<size_t> D{1, 6, 20, 70}, W{3, 17, 90, 300}; size_t depth = c.of(D), width = c.of(W), ops = c.of(std::vector<size_t>{3, 25, 120}); int kind = c.in(0, 2); size_t salt = c.pick(2); if (depth * width * width * (kind == 2 ? 9 : 1) * ops > (mc::thorough() ? 200000000u : 20000000u)) return;
    if (!c.begin()) return;
    std::ostringstream d; d << "model of kind " << kind << " with " << depth << " levels of " << width << " after " << ops << " operations"; c.describe(d.str());
    MP m = big(depth, width, kind, true); size_t n = kind == 2 ? width * 10 : width, no = m->output_size(), np = 0; for (auto& l: m->layers()) np += l->param_count(); V p = vals(np, 1); for (auto& e: p) e /= double(width); set_par(*m, p); GradientDescentOptimizer gd(1e-4 / double(width));
    auto predict = [&](size_t k) { V x = vals(n, 5 + k % 7), par = params(*m), g = grads(*m); V got = m->predict(x); MP f = big(depth, width, kind, true), q = big(depth, width, kind, false); set_par(*f, par); set_par(*q, par); V a = x, b = x; c.veq(got, f->predict(a), "prediction depends on what happened before"); c.veq(got, q->predict(b), "dropout is not the identity at inference"); c.veq(params(*m), par, "predict changed the parameters"); c.veq(grads(*m), g, "predict changed the gradients"); c.outcome(mc::Hash().add(got)); };
    for (size_t i = 0; i < ops; ++i) { size_t k = (i * 11 + salt * 5 + i / 7) % 9; if (k < 5) { V x = vals(n, k), t = vals(no, k + 2); m->step(x, t); } else if (k == 5) m->train(gd); else if (k == 6) m->reset_score(); else if (k == 7) { V x = vals(n, i); m->predict(x); } else predict(i); c.step(); }
    predict(3); predict(4); predict(3); c.nontrivial();
}
MC_MAIN({"models", models}, {"layers", layers}, {"networks", networks}, {"large", large})

// C24: network training, prediction and evaluation against the same thing done by hand on a model.
#include "middleware/fnn.hpp"
#include "mc.hpp"
#include <list>
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>; using MP = std::unique_ptr<Model>;
using PL = ParallelizationLevel; using E = LossType; using I = InitType; using O = OptimizerType;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static const size_t ARCHS = 11;
struct Arch { size_t in, out; NeuralNetworkDescriptor d; };
// the descriptor, and the same layers put together by hand
static Arch arch(size_t k)
{
    using AT = ActivationType;
    switch (k)
    {
        case 0: return {2, 1, {Input("i", S3(2)), Dense("d", size_t(1))}};
        case 1: return {2, 2, {Input("i", S3(2)), Dense("d", size_t(3), AT::TanH), Dense("e", size_t(2), AT::Softmax)}};
        case 2: return {3, 2, {Input("i", S3(3)), Dense("d", size_t(2), AT::ReLU), Dense("e", size_t(3), AT::Sigmoid), Dense("f", size_t(2), AT::Linear)}};
        case 3: return {8, 2, {Input("i", S3(4, 2, 1)), Conv("c", {size_t(2), S2(2, 2), S2(1, 1), S2(0, 1)}, AT::ELU), MaxPool("p", {S2(2, 2), S2(1, 1)}, AT::None), Dense("e", size_t(2), AT::TanH)}};
        case 4: return {6, 3, {Input("i", S3(3, 2, 1)), AvgPool("p", {S2(2, 1), S2(1, 1)}), Dense("e", size_t(3), AT::Softmax)}};
        case 5: return {6, 2, {Input("i", S3(1, 3, 2)), Conv("c", {size_t(1), S2(1, 2)}, AT::ReLU), Dense("e", size_t(2), AT::ELU)}};
        case 6: return {1, 1, {Input("i", S3(1)), Dense("d", size_t(1), AT::None)}};
        case 7: return {2, 2, {Input("i", S3(2)), Dense("d", size_t(2), AT::ReLU), Dense("e", size_t(2), AT::ReLU)}};
        case 9: return {2, 3, {Input("i", S3(2)), Dense("d", size_t(3), AT::None)}};
        case 10: return {6, 2, {Input("i", S3(3, 2, 1)), Dense("d", size_t(4), AT::TanH), MaxPool("p", {S2(2, 1), S2(2, 1)}, AT::None)}};
        default: return {4, 2, {Input("i", LayerShape(size_t(4))), Dense("d", size_t(4), AT::ELU), Dense("e", size_t(2), AT::Sigmoid)}};
    }
}
static MP by_hand(size_t k, E loss, size_t bs)
{
    auto m = std::make_unique<Model>("h"); LP prev; auto next = [&](LP l) { if (prev) m->create_edge(prev, l); prev = l; };
    auto dense = [&](size_t i, size_t o) { next(m->add_layer<DenseLayer>("d", i, o)); }; auto relu = [&](size_t n) { next(m->add_layer<ReluLayer>("a", n)); }; auto elu = [&](size_t n) { next(m->add_layer<EluLayer>("a", n)); }; auto tanh = [&](size_t n) { next(m->add_layer<TanhLayer>("a", n)); }; auto sigm = [&](size_t n) { next(m->add_layer<SigmoidLayer>("a", n)); }; auto soft = [&](size_t n) { next(m->add_layer<SoftmaxLayer>("a", n)); };
    switch (k)
    {
        case 0: dense(2, 1); break;
        case 1: dense(2, 3); tanh(3); dense(3, 2); soft(2); break;
        case 2: dense(3, 2); relu(2); dense(2, 3); sigm(3); dense(3, 2); break;
        case 3: next(m->add_layer<ConvolutionalLayer>("c", S3(4, 2, 1), S2(2, 2), size_t(2), S2(1, 1), S2(0, 1))); elu(prev->output_size()); next(m->add_layer<MaxPoolingLayer>("p", S3(3, 3, 2), S2(2, 2), S2(1, 1))); dense(8, 2); tanh(2); break;
        case 4: next(m->add_layer<AveragePoolingLayer>("p", S3(3, 2, 1), S2(2, 1), S2(1, 1))); dense(4, 3); soft(3); break;
        case 5: next(m->add_layer<ConvolutionalLayer>("c", S3(1, 3, 2), S2(1, 2), size_t(1), S2(1, 1), S2(0, 0))); relu(2); dense(2, 2); elu(2); break;
        case 6: dense(1, 1); break;
        case 7: dense(2, 2); relu(2); dense(2, 2); relu(2); break;
        case 9: dense(2, 3); break;
        case 10: dense(6, 4); tanh(4); next(m->add_layer<MaxPoolingLayer>("p", S3(4, 1, 1), S2(2, 1), S2(2, 1))); break;
        default: dense(4, 4); elu(4); dense(4, 2); sigm(2); break;
    }
    if (loss == E::CCE) { auto q = m->add_loss<CategoricalCrossEntropyLossLayer>("q", prev->output_size(), bs); m->create_loss_edge(prev, q); } else { auto q = m->add_loss<MeanSquaredLossLayer>("q", prev->output_size(), bs); m->create_loss_edge(prev, q); }
    return m;
}
struct Data { std::vector<V> rows, x, t; std::set<SizeType> lab; size_t seq = 1; };
// labels at the end, at the front or in between
static Data data(size_t k, size_t n, size_t where, bool onehot, size_t salt, size_t seq = 1)
{
    Arch a = arch(k); Data d; d.seq = seq; size_t w = a.in + a.out; for (size_t i = 0; i < a.out; ++i) d.lab.insert(where == 0 ? a.in + i : where == 1 ? i : (2 * i + 1 < w ? 2 * i + 1 : a.in + i)); if (d.lab.size() != a.out) { d.lab.clear(); for (size_t i = 0; i < a.out; ++i) d.lab.insert(i); }
    for (size_t i = 0; i < n; ++i) { V x = vals(a.in, salt + 3 * i), t = vals(a.out, salt + 50 + i), r; if (onehot) { t.assign(a.out, 0); t[(i + salt) % a.out] = 1; } size_t p = 0, q = 0; for (size_t j = 0; j < w; ++j) r.push_back(d.lab.count(j) ? t[q++] : x[p++]); d.rows.push_back(r); d.x.push_back(x); d.t.push_back(t); }
    return d;
}
static Dataset<double> set(const Data& d) { return Dataset<double>(d.rows, d.seq, d.lab); }
struct Fit { O opt; size_t epochs, bs; double lr; RneType::result_type seed; };
static Model::InitializationFunction fn(I i) { return i == I::HE_INIT ? Model::InitializationFunction::KAIMING : i == I::XAVIER_INIT ? Model::InitializationFunction::XAVIER : Model::InitializationFunction::AUTO; }
static V pars(Model& m) { V v; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) v.push_back(l->param(i)); return v; }
static void set_pars(Model& m, const V& p) { size_t k = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = p[k++]; }
// one step per sample in order, one update per batch (per share, for the parallel policies)
static MP train(size_t k, E loss, I init, PL pl, size_t conc, const Data& d, const Fit& f)
{
    MP m = by_hand(k, loss, f.bs); m->init(fn(init), Model::ProbabilityDensityFunction::NORMAL, f.seed); std::shared_ptr<Optimizer> o; if (f.opt == O::ADAM) o = std::make_shared<AdamOptimizer>(f.lr); else o = std::make_shared<GradientDescentOptimizer>(f.lr); size_t n = d.rows.size();
    for (size_t e = 0; e < f.epochs; ++e) for (size_t i = 0; i < n;)
    {
        if (pl == PL::SEQUENTIAL) { for (size_t b = 0; b < f.bs && i < n; ++b, ++i) m->step(d.x[i], d.t[i]); m->train(*o); continue; }
        size_t tasks = pl == PL::THREAD_PARALLELISM_ON_DATA_ENTRY ? f.bs : conc, share = pl == PL::THREAD_PARALLELISM_ON_DATA_ENTRY ? 1 : f.bs; V p = pars(*m); std::vector<MP> g;
        for (size_t t = 0; t < tasks && i < n; ++t) { g.push_back(by_hand(k, loss, f.bs)); set_pars(*g.back(), p); for (size_t b = 0; b < share && i < n; ++b, ++i) g.back()->step(d.x[i], d.t[i]); }
        for (auto& q: g) { for (size_t l = 0; l < m->layers().size(); ++l) for (size_t j = 0; j < m->layers()[l]->param_count(); ++j) m->layers()[l]->gradient(j) = q->layers()[l]->gradient(j); m->train(*o); }
    }
    return m;
}
static std::vector<V> probes(size_t k) { Arch a = arch(k); std::vector<V> r; r.push_back(V(a.in)); for (size_t i = 0; i < a.in; ++i) { V v(a.in); v[i] = 1; r.push_back(v); } r.push_back(vals(a.in, 77)); r.push_back(V(a.in, -0.75)); return r; }
template <class N> static void compare(Ctx& c, N& net, size_t k, Model& h, const std::string& w, double tol = 1e-10)
{
    Dataset<double> in(probes(k)); auto got = net.predict(in); auto p = probes(k); c.eq(got.size(), p.size(), w + ": one row per entry"); c.eq(got.feature_size(), arch(k).out, w + ": width of a prediction"); for (size_t i = 0; i < p.size(); ++i) c.vapprox(got.entry(i), h.predict(p[i]), w + ": prediction " + std::to_string(i), tol);
}
// a dataset with labels is predicted from its input part
template <class N> static void labelled(Ctx& c, N&& predict, const Data& d, Model& h, const std::string& w) { auto ds = set(d); Dataset<double> got = predict(ds); c.eq(got.size(), d.x.size(), w + ": one row per labelled entry"); for (size_t i = 0; i < d.x.size(); ++i) c.vapprox(got.entry(i), h.predict(d.x[i]), w + ": prediction of labelled entry " + std::to_string(i), 1e-10); for (size_t i = 0; i < d.rows.size(); ++i) c.veq(ds.entry(i), d.rows[i], "predict changed the dataset"); }
template <class R> static void metrics(Ctx& c, const R& r, E loss, const Data& d, Model& h, const std::string& w)
{
    double sum = 0; size_t ok = 0, n = d.rows.size(); for (size_t i = 0; i < n; ++i) { V y = h.predict(d.x[i]); long double l = 0; if (loss == E::MSE) { for (size_t j = 0; j < y.size(); ++j) l += (d.t[i][j] - y[j]) * (d.t[i][j] - y[j]); l /= y.size(); ok += l <= 0.1L; } else { for (size_t j = 0; j < y.size(); ++j) l -= d.t[i][j] * std::log(std::max(y[j], 2.2250738585072014e-308)); ok += size_t(std::max_element(y.begin(), y.end()) - y.begin()) == size_t(std::find_if(d.t[i].begin(), d.t[i].end(), [](double e) { return e != 0; }) - d.t[i].begin()); } sum += double(l); }
    if (n == 0) return;
    double acc = double(ok) / double(n); c.approx(r.loss, sum / double(n), w + ": average loss", 1e-9 + 1e-9 * std::fabs(sum)); c.approx(r.accuracy, acc, w + ": accuracy", 1e-12); c.approx(r.accuracy_perc, acc * 100, w + ": accuracy in percent", 1e-9); c.approx(r.error_rate, 1 - acc, w + ": error rate", 1e-12); c.approx(r.error_rate_perc, (1 - acc) * 100, w + ": error rate in percent", 1e-9);
}
template <E L, I N, PL P> static void one(Ctx& c, size_t k, const Data& d, const Fit& f, size_t conc, const std::string& w)
{
    BetterThreads::forced_concurrency() = conc; Data before = d; FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, L, N, P, double> net(arch(k).d, "net"); auto ds = set(d); net.fit(ds, f.opt, f.epochs, f.bs, f.lr, f.seed); MP h = train(k, L, N, P, conc, d, f); compare(c, net, k, *h, w); metrics(c, net.evaluate(ds), L, d, *h, w); compare(c, net, k, *h, w + " after evaluation"); labelled(c, [&](Dataset<double>& x) { return net.predict(x); }, d, *h, w);
    c.eq(ds.size(), d.rows.size(), "fit changed the dataset"); for (size_t i = 0; i < d.rows.size(); ++i) c.veq(ds.entry(i), d.rows[i], "fit changed the dataset"); mc::Hash s; s.add(k).add(pars(*h)); c.state(s); c.outcome(mc::Hash().add(h->predict(probes(k)[0])));
}
template <E L, I N> static void policy(Ctx& c, size_t p, size_t k, const Data& d, const Fit& f, size_t conc, const std::string& w) { if (p == 0) one<L, N, PL::SEQUENTIAL>(c, k, d, f, conc, w); else if (p == 1) one<L, N, PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, k, d, f, conc, w); else one<L, N, PL::THREAD_PARALLELISM_ON_DATA_BATCH>(c, k, d, f, conc, w); }
static bool classes(size_t k) { return k == 1 || k == 4; }
static std::string describe(size_t k, size_t n, const Fit& f, size_t p, size_t conc, size_t where) { std::ostringstream w; w << "network " << k << ", " << n << " entries (labels " << where << "), " << f.epochs << " epochs, batches of " << f.bs << ", " << (f.opt == O::ADAM ? "Adam" : "gradient descent") << " " << f.lr << ", seed " << f.seed << ", policy " << p << ", concurrency " << conc; return w.str(); }
static void fits(Ctx& c)
{
    size_t k = c.pick(ARCHS), p = c.pick(3), n = size_t(c.in(1, mc::thorough() ? 6 : 5)), bs = size_t(c.in(1, mc::thorough() ? 7 : 6)), ep = size_t(c.in(0, 3)), conc = p == 2 ? size_t(c.in(1, 3)) : 2; bool adam = c.flag(), cce = classes(k) && c.flag();
    if (bs > n + 1 || (p == 2 && k > 2 && k != 9 && conc == 3)) return;
    if (!c.begin()) return;
    size_t where = (n + bs + ep + k) % 3; Fit f{adam ? O::ADAM : O::GRADIENT_DESCENT, ep, bs, adam ? 0.0625 : 0.25, RneType::result_type(1 + k + n)}; std::string w = describe(k, n, f, p, conc, where) + (cce ? ", cross entropy" : ""); c.describe(w); Data d = data(k, n, where, classes(k), 4);
    if (cce) policy<E::CCE, I::AUTO>(c, p, k, d, f, conc, w); else policy<E::MSE, I::AUTO>(c, p, k, d, f, conc, w);
    c.step(ep * n); if (n > 1 && ep) c.nontrivial();
}
// initialisations, seeds, rates, label places, sequences, the empty dataset
static void settings(Ctx& c)
{
    size_t k = c.pick(ARCHS), in = c.pick(3), seed = c.pick(3), rate = c.pick(2), where = c.pick(3), n = c.pick(3) * 2, seq = size_t(c.in(1, 2)); bool adam = c.flag(), cce = classes(k) && c.flag();
    if (n == 0 && (where || seq > 1)) return;
    if (!c.begin()) return;
    static const RneType::result_type S[] = {1, 2, 4294967295u}; Fit f{adam ? O::ADAM : O::GRADIENT_DESCENT, 2, 3, rate ? 0.03 : 0.5, S[seed]}; std::string w = describe(k, n, f, 0, 1, where) + (cce ? ", cross entropy" : "") + ", initialisation " + std::to_string(in) + ", sequences of " + std::to_string(seq); c.describe(w); Data d = data(k, n, where, classes(k), 9, seq);
    if (cce) { if (in == 0) one<E::CCE, I::AUTO, PL::SEQUENTIAL>(c, k, d, f, 1, w); else if (in == 1) one<E::CCE, I::HE_INIT, PL::SEQUENTIAL>(c, k, d, f, 1, w); else one<E::CCE, I::XAVIER_INIT, PL::SEQUENTIAL>(c, k, d, f, 1, w); }
    else { if (in == 0) one<E::MSE, I::AUTO, PL::SEQUENTIAL>(c, k, d, f, 1, w); else if (in == 1) one<E::MSE, I::HE_INIT, PL::SEQUENTIAL>(c, k, d, f, 1, w); else one<E::MSE, I::XAVIER_INIT, PL::SEQUENTIAL>(c, k, d, f, 1, w); }
    if (n) c.nontrivial();
}
// histories of one network: each fit starts over from its seed, whatever came before
static void histories(Ctx& c)
{
    static const size_t K[] = {0, 1, 3, 7}; size_t k = K[c.pick(4)], p = c.pick(3); std::vector<size_t> prog(mc::thorough() ? 4 : 3); for (auto& q: prog) q = c.pick(6);
    if (!c.begin()) return;
    std::ostringstream w; w << "network " << k << ", policy " << p << ":"; for (auto q: prog) w << ' ' << q; c.describe(w.str()); BetterThreads::forced_concurrency() = 2;
    static const Fit F[] = {{O::GRADIENT_DESCENT, 1, 2, 0.25, 3}, {O::ADAM, 2, 1, 0.0625, 3}, {O::GRADIENT_DESCENT, 2, 4, 0.125, 8}}; Data small = data(k, 3, 0, classes(k), 2), big = data(k, 5, 1, classes(k), 6);
    auto go = [&](auto& net, PL pl) { MP h; for (auto q: prog) { switch (q) { case 0: case 1: case 2: { auto& d = q == 2 ? big : small; auto ds = set(d); net.fit(ds, F[q].opt, F[q].epochs, F[q].bs, F[q].lr, F[q].seed); h = train(k, E::MSE, I::AUTO, pl, 2, d, F[q]); break; } case 3: { auto ds = set(small); auto r = net.evaluate(ds); if (h) metrics(c, r, E::MSE, small, *h, "evaluation"); break; } case 4: { auto ds = set(big); auto r = net.evaluate(ds); if (h) metrics(c, r, E::MSE, big, *h, "evaluation"); break; } default: { Dataset<double> in(big.x); auto r = net.predict(in); c.eq(r.size(), big.x.size(), "rows of a prediction"); if (h) labelled(c, [&](Dataset<double>& x) { return net.predict(x); }, big, *h, "labelled"); } } if (h) compare(c, net, k, *h, "after operation " + std::to_string(q)); c.step(); if (h) c.state(mc::Hash().add(k).add(p).add(pars(*h))); } };
    if (p == 0) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, E::MSE, I::AUTO, PL::SEQUENTIAL, double> n(arch(k).d, "n"); go(n, PL::SEQUENTIAL); } else if (p == 1) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, E::MSE, I::AUTO, PL::THREAD_PARALLELISM_ON_DATA_ENTRY, double> n(arch(k).d, "n"); go(n, PL::THREAD_PARALLELISM_ON_DATA_ENTRY); } else { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, E::MSE, I::AUTO, PL::THREAD_PARALLELISM_ON_DATA_BATCH, double> n(arch(k).d, "n"); go(n, PL::THREAD_PARALLELISM_ON_DATA_BATCH); }
    c.nontrivial();
}
// the network whose loss, optimizer and initialisation are chosen at run time
template <PL P> static void dynamic(Ctx& c, const std::vector<size_t>& prog, size_t k, bool keyed)
{
    DynamicFeedforwardNeuralNetwork<P, double> n(arch(k).d, "n"); const Framework F = Framework::EDGE_LEARNING; MP h; bool compiled = false, fitted = false; E loss = E::MSE; O opt = O::ADAM; I init = I::AUTO; Data d = data(k, 4, 0, classes(k), 3); auto ds = set(d);
    struct View { DynamicFeedforwardNeuralNetwork<P, double>& n; bool keyed; Dataset<double> predict(Dataset<double>& x) { if (keyed) return n.predict(Framework::EDGE_LEARNING, x); auto m = n.predict(x); if (m.size() != 1) throw std::logic_error("predictions of " + std::to_string(m.size()) + " frameworks"); return m.begin()->second; } } v{n, keyed};
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: case 1: case 2: loss = q == 1 && classes(k) ? E::CCE : E::MSE; opt = q == 2 ? O::ADAM : O::GRADIENT_DESCENT; init = q == 0 ? I::AUTO : q == 1 ? I::HE_INIT : I::XAVIER_INIT; if (keyed) n.compile(F, loss, opt, init); else n.compile(loss, opt, init); compiled = true; fitted = false; h.reset(); break;
            case 3: case 4: { Fit f{opt, q == 3 ? 1u : 2u, q == 3 ? 2u : 3u, 0.125, q == 3 ? 5u : 6u}; if (!compiled) { c.throws([&] { if (keyed) n.fit(F, ds, f.epochs, f.bs, f.lr, f.seed); else n.fit(ds, f.epochs, f.bs, f.lr, f.seed); }, "fit before compile"); break; } if (keyed) n.fit(F, ds, f.epochs, f.bs, f.lr, f.seed); else n.fit(ds, f.epochs, f.bs, f.lr, f.seed); h = train(k, loss, init, P, 2, d, f); fitted = true; break; }
            case 5: if (!compiled) { c.throws([&] { if (keyed) n.evaluate(F, ds); else n.evaluate(ds); }, "evaluate before compile"); break; } if (fitted) { if (keyed) metrics(c, n.evaluate(F, ds), loss, d, *h, "evaluation"); else { auto m = n.evaluate(ds); c.eq(m.size(), size_t(1), "evaluations"); metrics(c, m.begin()->second, loss, d, *h, "evaluation"); } } break;
            default: { Dataset<double> in(d.x); auto r = v.predict(in); c.eq(r.size(), d.x.size(), "rows of a prediction"); if (!compiled) { compiled = true; loss = E::MSE; opt = O::ADAM; init = I::AUTO; } break; }
        }
        if (fitted) compare(c, v, k, *h, "after operation " + std::to_string(q)); c.step(); c.state(mc::Hash().add(k).add(std::uint64_t(P)).add(compiled).add(fitted).add(h ? pars(*h) : V()));
    }
}
static void dynamics(Ctx& c)
{
    static const size_t K[] = {0, 1, 5}; size_t k = K[c.pick(3)], p = c.pick(3); std::vector<size_t> prog(mc::thorough() ? 5 : 4); for (auto& q: prog) q = c.pick(7); bool keyed = c.flag(); if (p && !mc::thorough() && keyed) return;
    if (!c.begin()) return;
    std::ostringstream w; w << "dynamic network " << k << ", policy " << p << (keyed ? ", by framework" : "") << ":"; for (auto q: prog) w << ' ' << q; c.describe(w.str()); BetterThreads::forced_concurrency() = 2;
    if (p == 0) dynamic<PL::SEQUENTIAL>(c, prog, k, keyed); else if (p == 1) dynamic<PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, prog, k, keyed); else dynamic<PL::THREAD_PARALLELISM_ON_DATA_BATCH>(c, prog, k, keyed);
    c.nontrivial();
}
// building networks layer by layer, misuse
static void building(Ctx& c)
{
    size_t k = c.pick(ARCHS), upto = c.pick(5); bool twice = c.flag();
    if (!c.begin()) return;
    std::ostringstream w; w << "network " << k << " up to layer " << upto << (twice ? ", second input" : ""); c.describe(w.str());
    Arch a = arch(k); EdgeFeedforwardNeuralNetwork<E::MSE, I::AUTO, PL::SEQUENTIAL, double> n("n"); Data d = data(k, 2, 0, classes(k), 1); auto ds = set(d); size_t m = std::min(upto, a.d.size()); for (size_t i = 0; i < m; ++i) n.add(a.d[i]);
    if (m <= 1) { c.throws([&] { n.fit(ds, O::ADAM, 1, 1, 0.1, 2); }, "fit without layers"); c.eq(n.output_size(), size_t(0), "output size without layers"); } else { c.eq(n.input_size(), a.in, "input size"); if (m == a.d.size()) { c.eq(n.output_size(), a.out, "output size"); Fit f{O::GRADIENT_DESCENT, 1, 1, 0.25, 4}; n.fit(ds, f.opt, f.epochs, f.bs, f.lr, f.seed); MP h = train(k, E::MSE, I::AUTO, PL::SEQUENTIAL, 1, d, f); compare(c, n, k, *h, "built by hand"); auto r = n.evaluate(ds, E::MSE); metrics(c, r, E::MSE, d, *h, "evaluation"); if (classes(k)) metrics(c, n.evaluate(ds, E::CCE), E::CCE, d, *h, "evaluation"); } }
    if (twice && m >= 1) c.throws([&] { n.add(a.d[0]); }, "a second input layer"); c.nontrivial();
}
// more entries, larger batches, more epochs
static void large(Ctx& c)
{
    static const size_t N[] = {40, 64, 130, 300}, B[] = {1, 7, 32, 64, 100, 256, 1000}, KS[] = {0, 1, 2, 4, 7}, EP[] = {1, 3, 12}; size_t k = KS[c.pick(5)], p = c.pick(3), n = N[c.pick(4)], bs = B[c.pick(7)], ep = EP[c.pick(3)]; size_t conc = p == 2 ? (c.flag() ? 7 : 3) : 2; bool adam = c.flag();
    if (n * ep > (mc::thorough() ? 2000u : p ? 500u : 1000u)) return;
    if (p && !mc::thorough() && (n + bs + ep + k) % 3) return;
    if (!c.begin()) return;
    bool cce = classes(k) && (n + ep) % 2; Fit f{adam ? O::ADAM : O::GRADIENT_DESCENT, ep, bs, adam ? 1.0 / 256 : 1.0 / 128, 7}; std::string w = describe(k, n, f, p, conc, 1) + (cce ? ", cross entropy" : ""); c.describe(w); Data d = data(k, n, 1, classes(k), 4);
    if (cce) policy<E::CCE, I::AUTO>(c, p, k, d, f, conc, w); else policy<E::MSE, I::AUTO>(c, p, k, d, f, conc, w);
    c.step(ep * n); c.nontrivial();
}
// more entries than 16 bits count
static void huge(Ctx& c)
{
    size_t n = c.pick(2) ? 65537 : 70001, bs = c.of(std::vector<size_t>{1, 256, 65536, 100000}); bool adam = c.flag(); if (!mc::thorough() && (n == 70001) == (bs == 65536)) return;
    if (!c.begin()) return;
    Fit f{adam ? O::ADAM : O::GRADIENT_DESCENT, 1, bs, 1.0 / 1024, 7}; std::string w = describe(0, n, f, 0, 1, 1); c.describe(w); Data d = data(0, n, 1, classes(0), 4); policy<E::MSE, I::AUTO>(c, 0, 0, d, f, 1, w); c.step(n); c.nontrivial();
}
// scores of models with several losses: sums over the steps since the last reset, averaged over the losses
static void scores(Ctx& c)
{
    size_t heads = size_t(c.in(1, 3)), mix = c.pick(size_t(1) << heads); std::vector<size_t> prog(mc::thorough() ? 5 : 4); for (auto& q: prog) q = c.pick(5);
    if (!c.begin()) return;
    std::ostringstream w; w << heads << " losses (cross entropy: " << mix << "):"; for (auto q: prog) w << ' ' << q; c.describe(w.str()); Model m("s"); LP root = m.add_layer<DenseLayer>("r", size_t(2), size_t(3)), hd[3]; std::shared_ptr<LossLayer> ls[3]; for (size_t i = 0; i < heads; ++i) { bool ce = mix >> i & 1; LP k; if (ce) k = m.add_layer<SoftmaxLayer>("h", size_t(3)); else k = m.add_layer<DenseLayer>("h", size_t(3), size_t(3)); m.create_edge(root, k); if (ce) ls[i] = m.add_loss<CategoricalCrossEntropyLossLayer>("l", size_t(3), size_t(2)); else ls[i] = m.add_loss<MeanSquaredLossLayer>("l", size_t(3), size_t(2), i == 0 ? 0.5 : 0.02); m.create_loss_edge(k, ls[i]); hd[i] = k; for (size_t j = 0; j < k->param_count(); ++j) k->param(j) = grid(j, 9 + i); }
    for (size_t j = 0; j < root->param_count(); ++j) root->param(j) = grid(j, 4); double sum[3] = {0, 0, 0}; size_t good[3] = {0, 0, 0}, n[3] = {0, 0, 0}; V row(12); for (size_t i = 0; i < row.size(); ++i) row[i] = grid(i, 30) * 2; GradientDescentOptimizer o(0.125);
    auto score = [&](size_t i, const V& y, const V& t) { long double l = 0; if (mix >> i & 1) { for (size_t j = 0; j < 3; ++j) l -= t[j] * std::log(std::max(y[j], 2.2250738585072014e-308)); good[i] += size_t(std::max_element(y.begin(), y.end()) - y.begin()) == size_t(std::max_element(t.begin(), t.end()) - t.begin()); } else { for (size_t j = 0; j < 3; ++j) l += (t[j] - y[j]) * (t[j] - y[j]); l /= 3; good[i] += l <= (i == 0 ? 0.5L : 0.02L); } sum[i] += double(l); ++n[i]; };
    auto verify = [&](const std::string& where) { double a = 0, b = 0; bool all = true; for (size_t i = 0; i < heads; ++i) { all &= n[i] > 0; if (!n[i]) continue; a += sum[i] / double(n[i]); b += double(good[i]) / double(n[i]); c.approx(ls[i]->avg_loss(), sum[i] / double(n[i]), where + ": average of loss " + std::to_string(i)); c.approx(ls[i]->accuracy(), double(good[i]) / double(n[i]), where + ": accuracy of loss " + std::to_string(i)); } if (all) { c.approx(m.avg_loss(), a / double(heads), where + ": average loss of the model"); c.approx(m.accuracy(), b / double(heads), where + ": accuracy of the model"); } };
    size_t k = 0; for (auto q: prog) { ++k; std::string where = "after operation " + std::to_string(k); switch (q) { case 0: case 1: { V x = vals(2, 5 + k * 3 + q), t(3); t[(k + q) % 3] = 1; m.step(x, t); for (size_t i = 0; i < heads; ++i) score(i, hd[i]->last_output(), t); break; } case 2: m.reset_score(); for (size_t i = 0; i < heads; ++i) { sum[i] = 0; good[i] = n[i] = 0; } break; case 3: m.train(o); break; default: { size_t i = k % heads; V t(3); t[k % 3] = 1; V y = vals(3, k); for (auto& e: y) e = 0.1 + std::fabs(e); ls[i]->set_target(t); ls[i]->forward(y); score(i, y, t); } } verify(where); c.step(); mc::Hash h; h.add(heads).add(mix); for (size_t i = 0; i < heads; ++i) h.add(n[i]).add(good[i]).add(sum[i]); c.state(h); }
    c.nontrivial(); c.outcome(mc::Hash().add(sum[0]).add(good[0]).add(n[0]));
}
MC_MAIN({"huge", huge}, {"fits", fits}, {"settings", settings}, {"histories", histories}, {"dynamics", dynamics}, {"building", building}, {"large", large}, {"scores", scores})

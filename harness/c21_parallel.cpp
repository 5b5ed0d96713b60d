// C21: thread-parallel training under every schedule of its tasks, with a happens-before detector on every access.
#include "race.hpp"
#include "middleware/fnn.hpp"
#include "dnn/recurrent.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static const size_t ARCHS = 6;
static void build(Model& m, size_t arch, size_t bs)
{
    LP prev; auto next = [&](LP l) { if (prev) m.create_edge(prev, l); prev = l; }; auto mse = [&](size_t n) { auto q = m.add_loss<MeanSquaredLossLayer>("mse", n, bs); m.create_loss_edge(prev, q); };
    switch (arch)
    {
        case 0: next(m.add_layer<DenseLayer>("d", size_t(2), size_t(1))); mse(1); break;
        case 1: next(m.add_layer<DenseLayer>("d", size_t(2), size_t(3))); next(m.add_layer<TanhLayer>("t", size_t(3))); next(m.add_layer<DenseLayer>("e", size_t(3), size_t(2))); next(m.add_layer<SoftmaxLayer>("s", size_t(2))); { auto q = m.add_loss<CategoricalCrossEntropyLossLayer>("cce", size_t(2), bs); m.create_loss_edge(prev, q); } break;
        case 2: next(m.add_layer<ConvolutionalLayer>("c", S3(2, 2, 1), S2(2, 1), size_t(2))); next(m.add_layer<ReluLayer>("r", size_t(4))); next(m.add_layer<MaxPoolingLayer>("p", S3(1, 2, 2), S2(1, 2), S2(1, 1))); next(m.add_layer<DenseLayer>("d", size_t(2), size_t(1))); mse(1); break;
        case 3: { next(m.add_layer<DenseLayer>("d", size_t(2), size_t(2))); LP trunk = prev; next(m.add_layer<EluLayer>("e", size_t(2), 0.5)); mse(2); prev = trunk; next(m.add_layer<SigmoidLayer>("g", size_t(2))); mse(2); break; }
        case 4: next(m.add_layer<AveragePoolingLayer>("a", S3(2, 2, 1), S2(1, 2), S2(1, 1))); next(m.add_layer<DenseLayer>("d", size_t(2), size_t(2))); next(m.add_layer<LinearLayer>("l", size_t(2))); mse(2); break;
        default: next(m.add_layer<DenseLayer>("d", size_t(2), size_t(2))); next(m.add_layer<DropoutLayer>("o", size_t(2), 0.5, RneType(5))); mse(2); break;
    }
    size_t k = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = grid(k++, 3);
}
static size_t ins(size_t arch) { return arch == 2 || arch == 4 ? 4 : 2; }
static size_t outs(size_t arch) { return arch == 0 || arch == 2 ? 1 : 2; }
static std::vector<V> rows(size_t arch, size_t n) { std::vector<V> r; for (size_t i = 0; i < n; ++i) { V v = vals(ins(arch), 7 + i); V t = vals(outs(arch), 40 + i); if (arch == 1) { t = V(2); t[i % 2] = 1; } v.insert(v.end(), t.begin(), t.end()); r.push_back(v); } return r; }
static std::set<SizeType> labels(size_t arch) { std::set<SizeType> s; for (size_t i = 0; i < outs(arch); ++i) s.insert(ins(arch) + i); return s; }
static V params(const Model& m) { V v; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) v.push_back(l->param(i)); return v; }
static std::shared_ptr<Optimizer> optimizer(size_t o) { if (o) return std::make_shared<AdamOptimizer>(0.0625); return std::make_shared<GradientDescentOptimizer>(0.25); }
// the policy, one task after the other: gradients of each share from the parameters before the round, then the updates in order
static V reference(size_t arch, const std::vector<V>& data, size_t bs, size_t epochs, size_t opt, bool entry, size_t conc)
{
    Model u("u"); build(u, arch, bs); auto o = optimizer(opt); size_t n = data.size();
    for (size_t e = 0; e < epochs; ++e) for (size_t i = 0; i < n;)
    {
        V p = params(u); std::vector<V> gs; size_t tasks = entry ? bs : conc, share = entry ? 1 : bs;
        for (size_t t = 0; t < tasks && i < n; ++t) { Model g("g"); build(g, arch, bs); size_t k = 0; for (auto& l: g.layers()) for (size_t q = 0; q < l->param_count(); ++q) l->param(q) = p[k++]; for (size_t b = 0; b < share && i < n; ++b, ++i) { V x(data[i].begin(), data[i].begin() + long(ins(arch))), y(data[i].begin() + long(ins(arch)), data[i].end()); g.step(x, y); } V gr; for (auto& l: g.layers()) for (size_t q = 0; q < l->param_count(); ++q) gr.push_back(l->gradient(q)); gs.push_back(gr); }
        for (auto& gr: gs) { size_t k = 0; for (auto& l: u.layers()) for (size_t q = 0; q < l->param_count(); ++q) l->gradient(q) = gr[k++]; u.train(*o); }
    }
    return params(u);
}
template <ParallelizationLevel PL> static void train(Model& m, Dataset<double>& d, Optimizer& o, size_t e, size_t bs) { Training<PL, double>::run(m, d, o, e, bs); }
struct Cfg { size_t arch, n, bs, epochs, opt, conc; bool entry; };
static void run(Ctx& c, const Cfg& k, unsigned bound, unsigned level)
{
    std::ostringstream w; w << (k.entry ? "entry" : "batch") << " policy, architecture " << k.arch << ", " << k.n << " entries, batches of " << k.bs << ", " << k.epochs << " epochs, " << (k.opt ? "Adam" : "gradient descent") << ", concurrency " << k.conc; c.describe(w.str());
    auto data = rows(k.arch, k.n); auto lab = labels(k.arch); BetterThreads::forced_concurrency() = k.conc; V got, first; double loss = 0; size_t stray = 0;
    auto body = [&] {
        Dataset<double> d(data, 1, lab); Model m("m"); build(m, k.arch, k.bs); auto o = optimizer(k.opt);
        if (k.entry) train<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY>(m, d, *o, k.epochs, k.bs); else train<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH>(m, d, *o, k.epochs, k.bs);
        rt::Pause p; got = params(m); (void) loss; stray = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) stray += l->gradient(i) != 0;
    };
    V want = k.arch == 5 ? V() : reference(k.arch, data, k.bs, k.epochs, k.opt, k.entry, k.conc); std::set<std::string> traces;
    std::uint64_t n = race::explore(c, bound, level, w.str(), body, [&](const std::string& t) {
        if (first.empty()) first = got; c.veq(got, first, "parameters depend on the schedule" + t); if (!want.empty()) c.vapprox(got, want, "parameters after the schedule" + t, 1e-11); mc::Hash h; h.add(w.str()).add(t); c.state(h); c.outcome(mc::Hash().add(got)); });
    if (n > 1) c.nontrivial(); c.count("most schedules of a configuration: " + std::string(n > 1000 ? ">1000" : n > 100 ? ">100" : "<=100"));
}
// every order of the tasks, no preemption
static void orders(Ctx& c)
{
    Cfg k; k.entry = c.flag(); k.arch = c.pick(ARCHS); k.n = size_t(c.in(1, 5)); k.bs = size_t(c.in(1, 4)); k.epochs = size_t(c.in(1, 2)); k.opt = c.pick(2); k.conc = k.entry ? 2 : size_t(c.in(1, 4));
    // number of tasks per round
    size_t per = k.entry ? k.bs : k.conc, share = k.entry ? 1 : k.bs, total = (k.n + share - 1) / share, rounds = (total + per - 1) / per; double sched = 1; size_t left = total; for (size_t r = 0; r < rounds; ++r) { size_t t = std::min(per, left); left -= t; static const double S[] = {1, 1, 3, 13, 75, 541}; sched *= S[t]; } if (k.epochs == 2) sched *= sched; if (sched > (mc::thorough() ? 20000 : 180)) return;
    if (!c.begin()) return;
    run(c, k, 0, 0);
}
// any number of preemptions at every synchronisation (start of a task, wait, atomic, lock): all there is in code without races
static void schedules(Ctx& c)
{
    Cfg k; k.entry = c.flag(); k.arch = c.pick(ARCHS); k.n = size_t(c.in(1, 4)); k.bs = size_t(c.in(1, 3)); k.epochs = size_t(c.in(1, 2)); k.opt = c.pick(2); k.conc = k.entry ? 2 : size_t(c.in(1, 3)); if (k.epochs == 2 && (k.n > 2 || k.arch > 1)) return;
    if (!c.begin()) return;
    run(c, k, 100, 1);
}
// one preemption (two: thorough) at every access to memory that two threads touch, ordered or not
static void preempted(Ctx& c)
{
    static const std::vector<Cfg> L{{0, 2, 2, 1, 0, 2, true}, {0, 2, 1, 1, 0, 2, false}, {0, 2, 2, 1, 1, 2, true}, {0, 2, 1, 1, 1, 2, false}, {3, 2, 2, 1, 0, 2, true}, {3, 2, 1, 1, 0, 2, false}, {4, 2, 2, 1, 0, 2, true}, {4, 2, 1, 1, 0, 2, false}, {2, 2, 2, 1, 0, 2, true}, {1, 2, 1, 1, 1, 2, false}};
    size_t i = c.pick(L.size()); Cfg k = L[i]; unsigned bound = 1 + unsigned(c.pick(2)); if (!mc::thorough() && (bound == 2 || i >= 4)) return; if (bound == 2 && i >= 4) return;
    if (!c.begin()) return;
    run(c, k, bound, 3);
}
// through the public network classes
template <ParallelizationLevel PL> using Net = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, PL, double>;
template <ParallelizationLevel PL> static V fit(const NeuralNetworkDescriptor& d, const std::vector<V>& data, const std::set<SizeType>& lab, OptimizerType o, size_t e, size_t bs)
{ Dataset<double> ds(data, 1, lab); Net<PL> n(d, "n"); n.fit(ds, o, e, bs, 0.125, 11); Dataset<double> in = ds.inputs(); auto r = n.predict(in); rt::Pause p; V v; for (size_t i = 0; i < r.size(); ++i) { auto x = r.entry(i); v.insert(v.end(), x.begin(), x.end()); } return v; }
static void networks(Ctx& c)
{
    size_t arch = c.pick(3), n = size_t(c.in(1, 4)), bs = size_t(c.in(1, 3)), conc = size_t(c.in(1, 2)); bool entry = c.flag(), adam = c.flag();
    if (!c.begin()) return;
    NeuralNetworkDescriptor d{Input("i", arch == 2 ? S3(2, 2, 1) : S3(2))}; if (arch == 0) d.push_back(Dense("d", size_t(2), ActivationType::TanH)); if (arch == 1) { d.push_back(Dense("d", size_t(3), ActivationType::ReLU)); d.push_back(Dense("e", size_t(2), ActivationType::Sigmoid)); } if (arch == 2) { d.push_back(Conv("c", {size_t(2), S2(2, 1)}, ActivationType::ELU)); d.push_back(Dense("e", size_t(2), ActivationType::Linear)); }
    std::ostringstream w; w << "network " << arch << ", " << n << " entries, batches of " << bs << (entry ? ", entry" : ", batch") << (adam ? ", Adam" : "") << ", concurrency " << conc; c.describe(w.str()); auto data = rows(arch == 2 ? 4 : 5, n); auto lab = labels(arch == 2 ? 4 : 5); BetterThreads::forced_concurrency() = conc; auto o = adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; V got, first;
    V seq = fit<ParallelizationLevel::SEQUENTIAL>(d, data, lab, o, 1, bs);
    race::explore(c, 0, 1, w.str(), [&] { V r = entry ? fit<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY>(d, data, lab, o, 1, bs) : fit<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH>(d, data, lab, o, 1, bs); rt::Pause p; got.assign(r.begin(), r.end()); }, [&](const std::string& t) {
        if (first.empty()) first = got; c.veq(got, first, "predictions depend on the schedule" + t);
        // one share at a time, or a rule linear in the gradient: the sequential policy
        if ((entry && (!adam || bs == 1)) || (!entry && conc == 1)) c.vapprox(got, seq, "predictions differ from sequential training" + t, 1e-10); });
    c.nontrivial();
}
MC_MAIN({"orders", orders}, {"schedules", schedules}, {"preempted", preempted}, {"networks", networks})

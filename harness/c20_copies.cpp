// C20: every program over copies of models: shared parameters, private gradients, activations and scores.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>; using MP = std::unique_ptr<Model>;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static const size_t ARCHS = 5;
static MP build(size_t arch)
{
    auto m = std::make_unique<Model>("m"); LP prev; auto next = [&](LP l) { if (prev) m->create_edge(prev, l); prev = l; }; auto mse = [&](size_t n) { auto q = m->add_loss<MeanSquaredLossLayer>("mse", n, size_t(1)); m->create_loss_edge(prev, q); };
    switch (arch)
    {
        case 0: next(m->add_layer<DenseLayer>("d", size_t(2), size_t(3))); next(m->add_layer<TanhLayer>("t", size_t(3))); next(m->add_layer<DenseLayer>("e", size_t(3), size_t(2))); mse(2); break;
        case 1: { next(m->add_layer<ConvolutionalLayer>("c", S3(3, 2, 1), S2(2, 2), size_t(2), S2(1, 1), S2(0, 1))); next(m->add_layer<MaxPoolingLayer>("p", S3(2, 3, 2), S2(2, 1), S2(1, 1))); next(m->add_layer<DenseLayer>("d", size_t(6), size_t(3))); next(m->add_layer<SoftmaxLayer>("s", size_t(3))); auto q = m->add_loss<CategoricalCrossEntropyLossLayer>("cce", size_t(3), size_t(1)); m->create_loss_edge(prev, q); break; }
        case 2: next(m->add_layer<RecurrentLayer>("r", size_t(2), size_t(2), size_t(3), size_t(1))); next(m->add_layer<DenseLayer>("d", size_t(2), size_t(1))); mse(1); break;
        case 3: { next(m->add_layer<DenseLayer>("d", size_t(2), size_t(2))); LP trunk = prev; next(m->add_layer<EluLayer>("e", size_t(2), 0.5)); next(m->add_layer<DenseLayer>("f", size_t(2), size_t(2))); mse(2); prev = trunk; next(m->add_layer<SigmoidLayer>("g", size_t(2))); mse(2); break; }
        default: next(m->add_layer<DenseLayer>("d", size_t(1), size_t(1))); mse(1); break;
    }
    return m;
}
struct Snap { V par, grad, out, in, score; };
static bool is_loss(const LP& l) { return l->is_type<LossLayer>(); }
static void put(V& v, const V& w) { v.insert(v.end(), w.begin(), w.end()); }
static Snap snap(Model& m)
{
    Snap s; for (auto& l: m.layers()) { for (size_t i = 0; i < l->param_count(); ++i) { s.par.push_back(l->param(i)); s.grad.push_back(l->gradient(i)); } if (!is_loss(l)) put(s.out, l->last_output()); put(s.in, l->last_input_gradient()); }
    for (auto& l: m.loss_layers()) { s.score.push_back(l->accuracy()); s.score.push_back(l->avg_loss()); } return s;
}
static void set(Model& m, const V& par, const V& grad) { size_t k = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i, ++k) { l->param(i) = par[k]; l->gradient(i) = grad[k]; } }
static void set_par(Model& m, const V& par) { size_t k = 0; for (auto& l: m.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = par[k++]; }
static void unstate(Model& m) { for (auto& l: m.layers()) if (auto r = std::dynamic_pointer_cast<RecurrentLayer>(l)) r->reset_hidden_state(); }
static V input(size_t arch, size_t salt) { return vals(arch == 1 ? 6 : arch == 4 ? 1 : 2, salt + 3); }
static V target(size_t arch, size_t salt) { size_t n = arch == 1 ? 3 : arch == 2 || arch == 4 ? 1 : 2; if (arch == 1) { V t(n); t[salt % n] = 1; return t; } return vals(n, salt + 9); }
// reference of one model: a group of shared parameters, and what is its own
struct Ref { std::shared_ptr<V> par; V grad, out, in, score; std::vector<std::pair<V, V>> seen; bool clean = true; size_t arch; };
static void same(Ctx& c, Model& m, const Ref& r, const std::string& w)
{
    Snap s = snap(m); c.veq(s.par, *r.par, w + ": parameters"); c.veq(s.grad, r.grad, w + ": gradients"); c.veq(s.out, r.out, w + ": activations"); c.veq(s.in, r.in, w + ": input gradients"); c.vapprox(s.score, r.score, w + ": loss score", 1e-12);
}
// the operation on a model of its own, never copied
static void step(Ref& r, const V& x, const V& t) { MP f = build(r.arch); set(*f, *r.par, r.grad); V a = x, b = t; f->step(a, b); Snap s = snap(*f); r.grad = s.grad; r.out = s.out; r.in = s.in; r.seen.emplace_back(x, t); }
static void score(Ref& r, const std::vector<std::pair<std::pair<V, V>, V>>& hist) { MP f = build(r.arch); V z(r.grad.size()); for (auto& h: hist) { set(*f, h.second, z); unstate(*f); V a = h.first.first, b = h.first.second; f->step(a, b); } r.score = snap(*f).score; }
static void predict(Ref& r, const V& x) { MP f = build(r.arch); set(*f, *r.par, r.grad); V a = x; f->predict(a); r.out = snap(*f).out; }
struct World
{
    Ctx& c; size_t arch; MP m[3]; Ref r[3]; std::vector<std::pair<std::pair<V, V>, V>> hist[3]; std::ostringstream d;
    World(Ctx& cc, size_t a) : c(cc), arch(a) { d << "architecture " << a << ":"; make(0, 1); make(1, 2); }
    void make(size_t i, size_t salt) { m[i] = build(arch); size_t n = snap(*m[i]).par.size(); set_par(*m[i], vals(n, salt)); Snap s = snap(*m[i]); r[i].par = std::make_shared<V>(s.par); r[i].grad = s.grad; r[i].out = s.out; r[i].in = s.in; r[i].score = s.score; r[i].arch = arch; hist[i].clear(); }
    void all() { for (size_t i = 0; i < 3; ++i) if (m[i]) same(c, *m[i], r[i], "model " + std::to_string(i)); }
    void take(size_t i, size_t j) { if (i == j) return; r[i] = r[j]; hist[i] = hist[j]; }
    void do_step(size_t i, size_t salt) { V x = input(arch, salt), t = target(arch, salt); unstate(*m[i]); m[i]->step(x, t); hist[i].push_back({{x, t}, *r[i].par}); step(r[i], x, t); score(r[i], hist[i]); }
    void apply(V& p, const V& g, double lr) { for (size_t k = 0; k < p.size(); ++k) p[k] -= lr * g[k]; }
};
static const size_t OPS = 24;
static const char* NAME[] = {"1=0", "2=0", "0=1", "2=1", "0=2", "1=2", "0=0", "step0", "step1", "step2", "train0", "train1", "train2", "predict0", "predict2", "destroy0", "destroy1", "destroy2", "set0", "set2", "swap01", "0=move(2)", "train0from2", "rebuild0"};
// is there something to do?
static bool applies(size_t op, unsigned& occ)
{
    auto has = [&](unsigned i) { return (occ >> i & 1) != 0; };
    switch (op)
    {
        case 0: if (!has(0)) return false; occ |= 2; return true; case 1: if (!has(0)) return false; occ |= 4; return true; case 2: if (!has(1)) return false; occ |= 1; return true; case 3: if (!has(1)) return false; occ |= 4; return true; case 4: if (!has(2)) return false; occ |= 1; return true; case 5: if (!has(2)) return false; occ |= 2; return true; case 6: return has(0);
        case 7: case 10: case 13: case 18: return has(0); case 8: case 11: return has(1); case 9: case 12: case 14: case 19: return has(2); case 15: if (!has(0) || occ == 1) return false; occ &= ~1u; return true; case 16: if (!has(1) || occ == 2) return false; occ &= ~2u; return true; case 17: if (!has(2) || occ == 4) return false; occ &= ~4u; return true;
        case 20: return has(0) && has(1); case 21: if (!has(0) || !has(2)) return false; occ &= ~4u; return true; case 22: return has(0) && has(2); default: occ |= 1; return true;
    }
}
static void programs(Ctx& c)
{
    size_t arch = c.pick(ARCHS); int len = c.in(1, (arch == 4 ? 4 : 3) + (mc::thorough() ? 1 : 0)); std::vector<size_t> ops; unsigned occ = 3; for (int i = 0; i < len; ++i) { ops.push_back(c.pick(OPS)); if (!applies(ops.back(), occ)) return; }
    if (!c.begin()) return;
    World w(c, arch); size_t salt = 1; GradientDescentOptimizer o(0.25); auto put_ = [&](size_t i, size_t j) { if (w.m[i]) *w.m[i] = *w.m[j]; else w.m[i] = std::make_unique<Model>(*w.m[j]); w.take(i, j); }; bool shared = false;
    w.do_step(0, 0); w.do_step(1, 20);
    for (size_t op: ops)
    {
        w.d << " " << NAME[op]; c.describe(w.d.str()); ++salt;
        switch (op)
        {
            case 0: put_(1, 0); shared = true; break; case 1: put_(2, 0); shared = true; break; case 2: put_(0, 1); shared = true; break; case 3: put_(2, 1); shared = true; break; case 4: put_(0, 2); shared = true; break; case 5: put_(1, 2); shared = true; break; case 6: put_(0, 0); break;
            case 7: case 8: case 9: w.do_step(op - 7, salt); break;
            case 10: case 11: case 12: { size_t i = op - 10; w.m[i]->train(o); w.apply(*w.r[i].par, w.r[i].grad, 0.25); std::fill(w.r[i].grad.begin(), w.r[i].grad.end(), 0); break; }
            case 13: case 14: { size_t i = op == 13 ? 0 : 2; V x = input(arch, salt); unstate(*w.m[i]); V y = w.m[i]->predict(x); predict(w.r[i], x); break; }
            case 15: case 16: case 17: w.m[op - 15].reset(); break;
            case 18: case 19: { size_t i = op == 18 ? 0 : 2; *w.r[i].par = vals(w.r[i].par->size(), salt + 30); set_par(*w.m[i], *w.r[i].par); break; }
            case 20: { swap(*w.m[0], *w.m[1]); std::swap(w.r[0], w.r[1]); std::swap(w.hist[0], w.hist[1]); break; }
            case 21: *w.m[0] = std::move(*w.m[2]); w.take(0, 2); w.m[2].reset(); break;
            case 22: { w.m[0]->train(o, *w.m[2]); w.apply(*w.r[2].par, w.r[2].grad, 0.25); std::fill(w.r[2].grad.begin(), w.r[2].grad.end(), 0); break; }
            default: w.make(0, salt + 40); break;
        }
        c.step();
    }
    w.all(); c.state([&] { mc::Hash h; for (size_t i = 0; i < 3; ++i) if (w.m[i]) { h.add(int(i)).add(*w.r[i].par).add(w.r[i].grad).add(w.r[i].score); for (size_t j = 0; j < i; ++j) h.add(w.m[j] && w.r[j].par == w.r[i].par); } return h; }()); if (shared) c.nontrivial(); c.trace();
    // every survivor is still usable, alone and with its relatives
    for (size_t i = 0; i < 3; ++i) if (w.m[i]) { w.do_step(i, 50 + i); w.all(); V x = input(arch, 60); unstate(*w.m[i]); w.m[i]->predict(x); predict(w.r[i], x); w.all(); w.m[i]->reset_score(); w.hist[i].clear(); score(w.r[i], w.hist[i]); w.all(); }
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) if (w.m[i] && w.m[j]) { bool sh = w.m[i]->layers()[0]->param_count() && &w.m[i]->layers()[0]->param(0) == &w.m[j]->layers()[0]->param(0); c.eq(sh, w.r[i].par == w.r[j].par, "parameters are shared exactly between copies"); for (auto& a: w.m[i]->layers()) for (auto& b: w.m[j]->layers()) c.check(a != b, "copies have layers of their own"); }
}
// single layers: a clone and its source in every interleaving of two training programs
static LP layer(size_t k)
{
    switch (k) { case 0: return std::make_shared<DenseLayer>("l", size_t(2), size_t(2)); case 1: return std::make_shared<ConvolutionalLayer>("l", S3(2, 2, 1), S2(2, 1), size_t(2)); case 2: return std::make_shared<MaxPoolingLayer>("l", S3(2, 2, 2), S2(2, 1), S2(1, 1)); case 3: return std::make_shared<AveragePoolingLayer>("l", S3(2, 2, 2), S2(1, 2), S2(1, 1)); case 4: return std::make_shared<ReluLayer>("l", size_t(3)); case 5: return std::make_shared<EluLayer>("l", size_t(3), 0.5); case 6: return std::make_shared<TanhLayer>("l", size_t(3)); case 7: return std::make_shared<SigmoidLayer>("l", size_t(3)); case 8: return std::make_shared<SoftmaxLayer>("l", size_t(3)); case 9: return std::make_shared<LinearLayer>("l", size_t(3)); case 10: return std::make_shared<RecurrentLayer>("l", size_t(2), size_t(2), size_t(2), size_t(2)); case 11: return std::make_shared<MeanSquaredLossLayer>("l", size_t(3)); default: return std::make_shared<CategoricalCrossEntropyLossLayer>("l", size_t(3)); }
}
static void interleavings(Ctx& c)
{
    size_t kind = c.pick(13), when = c.pick(3); static const int P = 4; std::vector<int> order; int a = 0, b = 0; while (a < P || b < P) { bool second = a == P ? true : b == P ? false : c.flag(); order.push_back(second); (second ? b : a)++; }
    if (!c.begin()) return;
    auto init = [&](LP l) { V v = vals(l->param_count(), 3); for (size_t i = 0; i < v.size(); ++i) l->param(i) = v[i]; return l; };
    struct Own { V grad, out, in; double loss; }; auto own = [](LP l) { Own o; for (size_t i = 0; i < l->param_count(); ++i) o.grad.push_back(l->gradient(i)); if (!is_loss(l)) o.out = l->last_output(); o.in = l->last_input_gradient(); o.loss = is_loss(l) ? std::dynamic_pointer_cast<LossLayer>(l)->avg_loss() : 0; return o; };
    std::map<const Layer*, V> kept; V hold[64]; size_t used = 0;
    auto act = [&](LP l, int who, int k) -> void {   // step k of the program of `who`
        size_t n = l->last_input_gradient().size(); V& x = hold[used++ % 64]; x = vals(n, size_t(who * 10 + k / 2)); auto q = std::dynamic_pointer_cast<LossLayer>(l);
        if (k % 2 == 0) { if (q) { for (auto& e: x) e = std::fabs(e) + 0.1; V t(n); t[size_t(who + k) % n] = 1; q->set_target(t); } l->training_forward(x); } else { size_t no = is_loss(l) ? n : l->last_output().size(); V g = q ? V() : vals(no, size_t(who * 7 + k)); l->backward(g); } };
    LP src = init(layer(kind)); if (when == 1) { act(src, 5, 0); act(src, 5, 1); } LP cl = src->clone(); if (when == 2) cl = cl->clone(); LP who[2] = {src, cl};
    LP alone[2]; for (int i = 0; i < 2; ++i) { alone[i] = init(layer(kind)); if (when == 1) { act(alone[i], 5, 0); act(alone[i], 5, 1); } } std::ostringstream d; d << src->type() << " interleaved"; for (int o: order) d << " " << o; c.describe(d.str()); int pos[2] = {0, 0};
    for (int o: order) { Own before = own(who[1 - o]); act(who[o], o, pos[o]); act(alone[o], o, pos[o]); ++pos[o]; Own after = own(who[1 - o]), got = own(who[o]), want = own(alone[o]); c.veq(after.grad, before.grad, "gradients of the other copy"); c.veq(after.out, before.out, "activations of the other copy"); c.veq(after.in, before.in, "input gradients of the other copy"); c.approx(after.loss, before.loss, "loss of the other copy"); c.veq(got.grad, want.grad, "gradients"); c.veq(got.out, want.out, "activations"); c.veq(got.in, want.in, "input gradients"); c.approx(got.loss, want.loss, "loss"); c.step(); }
    if (src->param_count()) { cl->param(0) = 9; c.eq(src->param(0), 9., "parameter set through the clone"); src->param(src->param_count() - 1) = 8; c.eq(cl->param(src->param_count() - 1), 8., "parameter set through the source"); }
    src.reset(); who[0].reset(); V x = vals(cl->last_input_gradient().size(), 2); if (!is_loss(cl)) cl->forward(x); c.trace(); c.nontrivial(); mc::Hash h; h.add(int(kind)).add(int(when)); for (int o: order) h.add(o); c.state(h);
}
// wide and deep models, many copies of them (of the first, of each other, or assigned over other models), several rounds
static MP big(size_t depth, size_t width, int kind)
{
    auto m = std::make_unique<Model>("m"); LP prev; auto next = [&](LP l) { if (prev) m->create_edge(prev, l); prev = l; }; size_t n = kind == 2 ? width * 4 : width;
    for (size_t i = 0; i < depth; ++i)
    {
        if (kind == 1 && i % 2) { LP trunk = prev; LP x = m->add_layer<TanhLayer>("t", n), y = m->add_layer<SigmoidLayer>("s", n); m->create_edge(trunk, x); m->create_edge(trunk, y); prev = i % 4 == 1 ? x : y; auto q = m->add_loss<MeanSquaredLossLayer>("side", n, size_t(1)); m->create_loss_edge(i % 4 == 1 ? y : x, q); continue; }
        if (kind == 2 && i == 0) { next(m->add_layer<ConvolutionalLayer>("c", S3(width, 4, 1), S2(3, 3), size_t(1), S2(1, 1), S2(1, 1))); continue; }
        if (i % 3 == 2) next(m->add_layer<ReluLayer>("r", n)); else next(m->add_layer<DenseLayer>("d", n, n));
    }
    auto q = m->add_loss<MeanSquaredLossLayer>("mse", n, size_t(1)); m->create_loss_edge(prev, q); return m;
}
static void large(Ctx& c)
{
    static const std::vector<size_t> D{1, 5, 14, 40}, W{3, 17, 70, 260}, K{2, 5, 17, 70}; size_t depth = c.of(D), width = c.of(W), k = c.of(K); int kind = c.in(0, 2), how = c.in(0, 3); if (depth * width * width * k > (mc::thorough() ? 8000000u : 700000u) || depth * depth * k > (mc::thorough() ? 28000u : 8000u)) return;
    if (!c.begin()) return;
    std::ostringstream d; d << k << " copies, way " << how << ", of a model of kind " << kind << " with " << depth << " levels of " << width; c.describe(d.str()); size_t n = kind == 2 ? width * 4 : width;
    std::vector<MP> m; m.push_back(big(depth, width, kind)); V par; for (auto& l: m[0]->layers()) for (size_t i = 0; i < l->param_count(); ++i) par.push_back(grid(i, par.size() % 11) / double(width)); set_par(*m[0], par); Snap zero = snap(*m[0]);
    for (size_t i = 1; i < k; ++i) { size_t from = how == 0 ? 0 : how == 1 ? i - 1 : (i * 7) % i; if (how == 3) { m.push_back(big(i % 2 ? depth : 1, width, i % 2 ? kind : 0)); *m.back() = *m[from]; } else m.push_back(std::make_unique<Model>(*m[from])); }
    MP alone = big(depth, width, kind); GradientDescentOptimizer o(0.5); std::vector<Snap> want(k, zero); V now = par;
    for (size_t round = 0; round < 3; ++round)
    {
        for (size_t i = 0; i < k; ++i) { if ((i + round) % 3 == 2) continue; V x = vals(n, i + round), t = vals(n, i * 2 + round); set(*alone, now, want[i].grad); V a = x, b = t; alone->step(a, b); want[i] = snap(*alone); m[i]->step(x, t); c.step(); }
        for (size_t i = 0; i < k; ++i) { Snap s = snap(*m[i]); std::string w = "copy " + std::to_string(i) + ", round " + std::to_string(round); c.veq(s.par, now, w + ": parameters"); c.veq(s.grad, want[i].grad, w + ": gradients"); c.veq(s.out, want[i].out, w + ": activations"); c.veq(s.in, want[i].in, w + ": input gradients"); }
        size_t by = (round * 5 + 1) % k; m[by]->train(o); for (size_t j = 0; j < now.size(); ++j) now[j] -= 0.5 * want[by].grad[j]; std::fill(want[by].grad.begin(), want[by].grad.end(), 0.0);
        if (round == 1) { m[0].reset(); m[0] = std::make_unique<Model>(*m[k - 1]); want[0] = want[k - 1]; }
    }
    for (size_t i = 0; i < k; ++i) { V x = vals(n, i); set_par(*alone, now); V a = x, r = alone->predict(a), g = m[i]->predict(x); c.veq(g, r, "prediction of copy " + std::to_string(i)); } c.trace(); c.nontrivial();
}
MC_MAIN({"programs", programs}, {"interleavings", interleavings}, {"large", large})

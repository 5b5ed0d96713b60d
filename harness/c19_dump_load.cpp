// C19: dump/load of every layer configuration and small model through objects, text and files; every single-field damage.
#include "json_ref.hpp"
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>;
// k / 64: six decimals hold it exactly
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64 + ((i + salt) % 9 == 0 ? 2 : 0); }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
static double decimals(double x) { char b[512]; std::snprintf(b, sizeof b, "%f", x); return std::strtod(b, nullptr); }
static V params(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.param(i); return r; }
static V grads(Layer& l) { V r(l.param_count()); for (size_t i = 0; i < r.size(); ++i) r[i] = l.gradient(i); return r; }
static void set_params(Layer& l, size_t salt) { V v = vals(l.param_count(), salt); for (size_t i = 0; i < v.size(); ++i) l.param(i) = v[i]; }
static const char* KIND[] = {"dense", "conv", "max pool", "avg pool", "dropout", "recurrent", "relu", "elu", "softmax", "tanh", "sigmoid", "linear", "mse", "cce"};
static const size_t KINDS = 14, CFGS = 6;
using HA = RecurrentLayer::HiddenActivation;
static LP make(size_t kind, size_t cfg, const std::string& name)
{
    if (cfg == 0) switch (kind) { case 0: return std::make_shared<DenseLayer>(name); case 1: return std::make_shared<ConvolutionalLayer>(name); case 2: return std::make_shared<MaxPoolingLayer>(name); case 3: return std::make_shared<AveragePoolingLayer>(name); case 4: return std::make_shared<DropoutLayer>(name); case 5: return std::make_shared<RecurrentLayer>(name); case 6: return std::make_shared<ReluLayer>(name); case 7: return std::make_shared<EluLayer>(name); case 8: return std::make_shared<SoftmaxLayer>(name); case 9: return std::make_shared<TanhLayer>(name); case 10: return std::make_shared<SigmoidLayer>(name); case 11: return std::make_shared<LinearLayer>(name); case 12: return std::make_shared<MeanSquaredLossLayer>(name); default: return std::make_shared<CategoricalCrossEntropyLossLayer>(name); }
    static const size_t N[] = {0, 1, 2, 3, 5, 12}, O[] = {0, 1, 3, 2, 4, 11}, H[] = {0, 1, 2, 3, 1, 4}, T[] = {0, 1, 2, 3, 1, 2}; size_t n = N[cfg], o = O[cfg];
    struct G { size_t h, w, ch, kh, kw, sh, sw, ph, pw, f; }; static const G GS[] = {{}, {1, 1, 1, 1, 1, 1, 1, 0, 0, 1}, {3, 2, 1, 2, 2, 1, 1, 1, 0, 2}, {2, 4, 2, 1, 3, 1, 2, 0, 1, 1}, {5, 3, 3, 3, 2, 2, 1, 0, 0, 4}, {4, 4, 2, 2, 2, 2, 2, 1, 1, 3}}; const G& g = GS[cfg];
    static const double P[] = {0, 0, 0.25, 0.5, 0.875, 0.3}, A[] = {1, 1, 0.25, 2.5, 0, 1.75};
    switch (kind)
    {
        case 0: return std::make_shared<DenseLayer>(name, n, o); case 1: return std::make_shared<ConvolutionalLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), g.f, S2(g.sh, g.sw), S2(g.ph, g.pw)); case 2: return std::make_shared<MaxPoolingLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), S2(g.sh, g.sw)); case 3: return std::make_shared<AveragePoolingLayer>(name, S3(g.h, g.w, g.ch), S2(g.kh, g.kw), S2(g.sh, g.sw));
        case 4: return std::make_shared<DropoutLayer>(name, n * 4, P[cfg], RneType(7)); case 5: return std::make_shared<RecurrentLayer>(name, n, o, H[cfg], T[cfg], cfg % 3 == 0 ? HA::ReLU : cfg % 3 == 1 ? HA::TanH : HA::Linear);
        case 6: return std::make_shared<ReluLayer>(name, n); case 7: return std::make_shared<EluLayer>(name, n, A[cfg]); case 8: return std::make_shared<SoftmaxLayer>(name, n); case 9: return std::make_shared<TanhLayer>(name, n); case 10: return std::make_shared<SigmoidLayer>(name, n); case 11: return std::make_shared<LinearLayer>(name, n);
        case 12: return std::make_shared<MeanSquaredLossLayer>(name, n, size_t(1)); default: return std::make_shared<CategoricalCrossEntropyLossLayer>(name, n, size_t(1));
    }
}
static size_t in_len(Layer& l) { return l.last_input_gradient().size(); }
static void reset(Layer& l) { if (auto* r = dynamic_cast<RecurrentLayer*>(&l)) r->reset_hidden_state(); }
static std::string text(const Json& j) { std::ostringstream o; o << j; return o.str(); }
static std::vector<size_t> dims(const LayerShape& s) { std::vector<size_t> r; for (auto& e: s.shapes()) { r.push_back(e.height()); r.push_back(e.width()); r.push_back(e.channels()); } return r; }
static V run(Layer& l, const V& x) { reset(l); V i = x; return l.forward(i); }
// same layer, as far as its interface tells
static void same(Ctx& c, Layer& got, Layer& want, const std::string& w)
{
    c.eq(got.type(), want.type(), w + ": type"); c.eq(got.name(), want.name(), w + ": name"); c.veq(dims(got.input_shape()), dims(want.input_shape()), w + ": input shape"); c.veq(dims(got.output_shape()), dims(want.output_shape()), w + ": output shape");
    c.eq(got.input_size(), want.input_size(), w + ": input size"); c.eq(got.output_size(), want.output_size(), w + ": output size"); c.eq(got.param_count(), want.param_count(), w + ": parameter count"); c.veq(params(got), params(want), w + ": parameters");
}
static void same_behaviour(Ctx& c, Layer& got, Layer& want, bool fresh, const std::string& w)
{
    auto* lg = dynamic_cast<LossLayer*>(&got); auto* lw = dynamic_cast<LossLayer*>(&want); size_t n = in_len(want); c.eq(in_len(got), n, w + ": input length");
    for (size_t s = 0; s < 2; ++s)
    {
        V x = vals(n, s + 2), y = x;
        if (lg) { V t(n); if (n) t[s % n] = 1; for (auto& e: x) e = std::fabs(e) / 4 + 0.125; for (auto* q: {lg, lw}) { q->reset_score(); q->set_target(t); q->training_forward(x); q->backward(V()); } c.veq(V(lg->last_input_gradient()), V(lw->last_input_gradient()), w + ": loss gradient"); c.eq(lg->avg_loss(), lw->avg_loss(), w + ": loss"); continue; }
        c.veq(run(got, x), run(want, y), w + ": output");
        if (auto* d = dynamic_cast<DropoutLayer*>(&want)) { (void) d; V z(n, 1), a = got.training_forward(z), b = want.training_forward(z); double sa = 0, sb = 0; for (double e: a) sa = std::max(sa, e); for (double e: b) sb = std::max(sb, e); if (sa > 0 && sb > 0) c.eq(sa, sb, w + ": dropout scale"); continue; }
        reset(got); reset(want); V xa = x, xb = x; V ga = got.training_forward(xa), gb = want.training_forward(xb); c.veq(ga, gb, w + ": training output"); V g = vals(ga.size(), s + 5), h = g; V ia = got.backward(g), ib = want.backward(h); c.veq(ia, ib, w + ": input gradient"); if (fresh) c.veq(grads(got), grads(want), w + ": parameter gradients");
    }
}
static const std::vector<std::string> NAMES{"layer", "a b", "1.50", "true", "[x],{y:z}", "\xc3\xa9\t'"};
static Json through(const Json& j, size_t how, Ctx& c)
{
    if (how == 0) return j;
    Json r; if (how == 1) { std::stringstream ss(text(j)); ss >> r; } else { std::string p = mc::scratch_file("l.json"); { std::ofstream o(p); o << j; } std::ifstream i(p); i >> r; } c.check(text(r) == text(j), "text of a read document"); return r;
}
static void layers(Ctx& c)
{
    size_t kind = c.pick(KINDS), cfg = 1 + c.pick(CFGS - 1), into = c.pick(CFGS), how = c.pick(3), used = c.pick(2), salt = c.pick(2);
    if (!c.begin()) return;
    c.describe(std::string(KIND[kind]) + " configuration " + std::to_string(cfg) + " into " + std::to_string(into) + (used ? " used" : "") + " way " + std::to_string(how)); LP a = make(kind, cfg, NAMES[(cfg + kind + salt) % NAMES.size()]), b = make(kind, into, "other"); set_params(*a, salt); set_params(*b, 7);
    if (used && into) { V x = vals(in_len(*b), 1); if (auto* l = dynamic_cast<LossLayer*>(b.get())) { V t(x.size(), 0.5); l->set_target(t); } b->training_forward(x); V g = vals(b->output_size() ? (kind == 5 ? b->last_output().size() : b->output_size()) : 0, 3); b->backward(g); if (auto* l = dynamic_cast<LossLayer*>(b.get())) l->reset_score(); }
    V before = params(*a); Json j = through(a->dump(), how, c); c.veq(params(*a), before, "parameters after a dump"); b->load(j); same(c, *b, *a, "loaded layer"); c.eq(text(b->dump()), text(a->dump()), "document of the loaded layer"); same_behaviour(c, *b, *a, !used || into == 0, "loaded layer");
    auto k = b->clone(); same(c, *k, *a, "clone of the loaded layer"); c.veq(dims(k->input_shape()), dims(a->input_shape()), "clone shape"); if (a->param_count()) c.nontrivial(); c.state(mc::Hash().add(text(j))); c.step(2); c.trace(); c.outcome(mc::Hash().add(params(*b)));
}
// layers with more than one input shape
static void shapes(Ctx& c)
{
    size_t kind = c.pick(KINDS), cfg = 1 + c.pick(CFGS - 1), into = c.pick(CFGS), how = c.pick(3), n = 1 + c.pick(3), salt = c.pick(2);
    if (!c.begin()) return;
    LP a = make(kind, cfg, "a"), b = make(kind, into, "b"); set_params(*a, salt); if (a->input_layers() == 0) return; std::vector<DLMath::Shape3d> sh{a->input_shape().shape()}; for (size_t i = 0; i < n; ++i) sh.emplace_back(i + 1 + salt, 5 - i, 2 * i + 3);
    c.describe(std::string(KIND[kind]) + " configuration " + std::to_string(cfg) + " with " + std::to_string(n + 1) + " input shapes into " + std::to_string(into) + " way " + std::to_string(how));
    a->input_shape(LayerShape(sh)); Json j = through(a->dump(), how, c); b->load(j); same(c, *b, *a, "layer of several shapes"); c.eq(text(b->dump()), text(a->dump()), "document of the loaded layer"); c.nontrivial(); c.state(mc::Hash().add(text(j))); c.trace();
}
static void values(Ctx& c)
{
    static const V L{0, 1, 0.5, 1e-6, 4e-7, 6e-7, 1e-7, 1e-12, 1e-300, 1.0 / 3, 2.0 / 3, 0.1, 0.999999, 0.9999995, 0.9999994, 9.999999999, 10, 123456.789, 1234567.891, 4294967296.25, 2147483648., 1e15, 9007199254740993., 1e20, 1.7976931348623157e308, 3.141592653589793, 99.9999999, 0.000001499, 0.0000015, 7e5, 1e6, 1e7 };
    double a = c.of(L) * (c.flag() ? -1 : 1), b = L[c.pick(L.size())]; size_t kind = c.pick(3), how = c.pick(3);
    if (!c.begin()) return;
    c.describe("values " + Ctx::show(V{a, b}) + " in a " + KIND[kind == 2 ? 5 : kind]); LP l = make(kind == 2 ? 5 : kind, 1, "v"), m = make(kind == 2 ? 5 : kind, 1, "w"); for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = i % 2 ? a : b;
    m->load(through(l->dump(), how, c)); for (size_t i = 0; i < l->param_count(); ++i) { double w = l->param(i), g = m->param(i); c.check(std::fabs(g - w) <= 5.1e-7 + std::fabs(w) * 4.5e-16, "parameter " + std::to_string(i) + ": got " + std::to_string(g) + ", want " + std::to_string(w)); if (w != 0) c.nontrivial(); }
    LP k = make(kind == 2 ? 5 : kind, 1, "x"); k->load(through(m->dump(), how, c)); c.veq(params(*k), params(*m), "second round trip");
}
// chains of layers
struct Net { std::shared_ptr<Model> m; S3 in{1}; };
static const size_t MK = 9;
static LP add(Model& m, size_t k, S3& s, size_t var, const std::string& name)
{
    size_t n = s.size(); LP l;
    switch (k)
    {
        case 0: { size_t o = 2 + var; l = m.add_layer<DenseLayer>(name, n, o); s = S3(o); break; } case 1: { S2 k2(std::min<size_t>(s.height(), 2), 1); size_t f = 1 + var; auto q = m.add_layer<ConvolutionalLayer>(name, s, k2, f, S2(1, 1), S2(0, var)); s = q->output_shape().shape(); l = q; break; } case 2: { S2 k2(std::min<size_t>(s.height(), 2), 1); auto q = m.add_layer<MaxPoolingLayer>(name, s, k2, S2(1 + var, 1)); s = q->output_shape().shape(); l = q; break; } case 3: { S2 k2(std::min<size_t>(s.height(), 2), 1); auto q = m.add_layer<AveragePoolingLayer>(name, s, k2, S2(1, 1 + var)); s = q->output_shape().shape(); l = q; break; }
        case 4: l = m.add_layer<ReluLayer>(name, n); s = S3(n); break; case 5: l = m.add_layer<EluLayer>(name, n, 0.5 + double(var)); s = S3(n); break; case 6: l = m.add_layer<TanhLayer>(name, n); s = S3(n); break; case 7: { size_t o = 1 + var; l = m.add_layer<RecurrentLayer>(name, n, o, 2 + var, size_t(1), var ? HA::Linear : HA::TanH); s = S3(o); break; } default: l = m.add_layer<SoftmaxLayer>(name, n); s = S3(n); break;
    }
    return l;
}
static std::shared_ptr<Model> net(const std::vector<size_t>& ks, size_t var, size_t branch, size_t salt, const std::string& name, size_t naming = 0)
{
    // naming: 0 distinct names, 1 one name for all the layers, 2 the names of other positions
    auto nm = [&](size_t i) { return naming == 1 ? std::string("layer") : naming == 2 ? "l/" + std::to_string((salt == 1 ? i : ks.size() - 1 - i)) : name + "/" + std::to_string(i); };
    auto m = std::make_shared<Model>(name); S3 s = var ? S3(3, 2, 1) : S3(4, 2, 2); LP prev; S3 first = s; LP trunk; for (size_t i = 0; i < ks.size(); ++i) { LP l = add(*m, ks[i], s, var, nm(i)); if (prev) m->create_edge(prev, l); if (i == 0) { trunk = l; first = s; } prev = l; }
    auto q = m->add_loss<MeanSquaredLossLayer>(naming == 1 ? std::string("layer") : name + "/loss", s.size(), size_t(1)); m->create_loss_edge(prev, q);
    if (branch) { S3 t = first; LP l = add(*m, branch - 1, t, var, naming == 1 ? std::string("layer") : name + "/side"); m->create_edge(trunk, l); auto r = m->add_loss<MeanSquaredLossLayer>(naming == 1 ? std::string("layer") : name + "/loss2", t.size(), size_t(1)); m->create_loss_edge(l, r); }
    for (auto& l: m->layers()) set_params(*l, salt); return m;
}
static void reset(Model& m) { for (auto& l: m.layers()) reset(*l); }
static void dump(Model& m, const std::string& p) { std::ofstream o(p); m.dump(o); }
static void load(Model& m, const std::string& p) { std::ifstream i(p); m.load(i); }
static void models(Ctx& c)
{
    size_t len = size_t(c.in(1, mc::thorough() ? 4 : 3)); std::vector<size_t> ks; for (size_t i = 0; i < len; ++i) ks.push_back(c.pick(MK)); size_t var = c.pick(2), into = c.pick(2), branch = len <= 2 ? c.pick(MK + 1) : 0;
    size_t mix = var + into; for (size_t k: ks) mix += k; size_t naming = len <= 2 ? c.pick(3) : mix % 3;
    if (!c.begin()) return;
    std::ostringstream d; d << "model"; for (size_t k: ks) d << " " << k; d << (var ? " small" : " large") << " into " << (into ? "small" : "large"); if (branch) d << ", branch " << branch - 1; d << ", naming " << naming; c.describe(d.str());
    auto a = net(ks, var, branch, 1, "first", naming), b = net(ks, into, branch, 4, "second", naming); std::string p = mc::scratch_file("m.json"); dump(*a, p); std::string t = mc::read_file(p); Doc doc; c.check(Strict::parse(t, doc), "the file is JSON"); c.eq(doc.map.at("layers").list.size(), a->layers().size(), "layers in the file");
    load(*b, p); c.eq(b->name(), a->name(), "model name"); c.eq(b->layers().size(), a->layers().size(), "layers"); for (size_t i = 0; i < a->layers().size(); ++i) same(c, *b->layers()[i], *a->layers()[i], "layer " + std::to_string(i)); c.eq(b->input_size(), a->input_size(), "input size"); c.eq(b->output_size(), a->output_size(), "output size");
    V x = vals(a->input_size(), 3), y = x; reset(*a); reset(*b); c.veq(V(b->predict(y)), V(a->predict(x)), "prediction"); for (size_t i = 0; i + 1 < a->layers().size(); ++i) if (!a->layers()[i]->is_type<LossLayer>()) c.veq(V(b->layers()[i]->last_output()), V(a->layers()[i]->last_output()), "output of layer " + std::to_string(i));
    size_t mx = 0; for (auto& l: a->loss_layers()) mx = std::max(mx, l->input_size()); V g = vals(mx, 6); reset(*a); reset(*b); a->step(x, g); b->step(y, g); c.eq(b->avg_loss(), a->avg_loss(), "loss"); for (size_t i = 0; i < a->layers().size(); ++i) { c.veq(grads(*b->layers()[i]), grads(*a->layers()[i]), "gradients of layer " + std::to_string(i)); c.veq(V(b->layers()[i]->last_input_gradient()), V(a->layers()[i]->last_input_gradient()), "input gradient of layer " + std::to_string(i)); }
    std::string q = mc::scratch_file("n.json"); dump(*b, q); c.eq(mc::read_file(q), t, "file of the loaded model"); c.nontrivial(); c.step(3); c.trace(); c.state(mc::Hash().add(t));
}
// histories of dumps, loads, training and copies over two files
static void programs(Ctx& c)
{
    int len = c.in(1, mc::thorough() ? 5 : 4); std::vector<size_t> ops; for (int i = 0; i < len; ++i) ops.push_back(c.pick(8)); size_t arch = c.pick(2);
    if (!c.begin()) return;
    std::ostringstream d; d << "architecture " << arch << ":"; auto m = net(arch ? std::vector<size_t>{1, 4, 0} : std::vector<size_t>{0, 6}, 1, 0, 1, "p"); Model cp; bool has = false; std::string f[2] = {mc::scratch_file("p0.json"), mc::scratch_file("p1.json")}; V saved[2]; bool there[2] = {}; size_t salt = 10;
    auto all = [](Model& k) { V v; for (auto& l: k.layers()) { V p = params(*l); v.insert(v.end(), p.begin(), p.end()); } return v; }; V ref = all(*m); GradientDescentOptimizer o(0.0625);
    for (size_t op: ops)
    {
        static const char* N[] = {" dump0", " dump1", " load0", " load1", " train", " set", " copy", " load0-into-copy"}; d << N[op]; c.describe(d.str());
        if (op < 2) { dump(*m, f[op]); saved[op].clear(); for (double e: ref) saved[op].push_back(decimals(e)); there[op] = true; } else if (op < 4) { if (there[op - 2]) { load(*m, f[op - 2]); ref = saved[op - 2]; } }
        else if (op == 4) { V x = vals(m->input_size(), salt), t = vals(m->output_size(), salt + 1); m->step(x, t); m->train(o); V now = all(*m); ref = now; ++salt; } else if (op == 5) { for (auto& l: m->layers()) set_params(*l, salt); ++salt; ref = all(*m); for (size_t i = 0; i < ref.size(); ++i) c.check(ref[i] == decimals(ref[i]), "harness values"); }
        else if (op == 6) { cp = *m; has = true; } else if (has && there[0]) { load(cp, f[0]); ref = saved[0]; }   // a copy shares its parameters
        V now = all(*m); c.veq(now, ref, "parameters"); if (has) c.veq(all(cp), ref, "parameters of the copy"); c.step(); c.state(mc::Hash().add(ref).add(saved[0]).add(saved[1]));
    }
    auto fresh = net(arch ? std::vector<size_t>{1, 4, 0} : std::vector<size_t>{0, 6}, 0, 0, 2, "q"); for (int i = 0; i < 2; ++i) if (there[i]) { load(*fresh, f[i]); c.veq(all(*fresh), saved[i], "parameters in file " + std::to_string(i)); c.nontrivial(); } c.trace();
}
// models of many layers and layers of many parameters
static void large(Ctx& c)
{
    static const std::vector<size_t> N{12, 41, 42, 64, 65, 130}; size_t what = c.pick(3), n = c.of(N), salt = c.pick(2);
    if (!c.begin()) return;
    std::ostringstream d; d << (what == 0 ? "chain of " : what == 1 ? "dense layer of side " : "branches, ") << n; c.describe(d.str());
    auto build = [&](size_t sa, const std::string& nm) { auto m = std::make_shared<Model>(nm); LP prev, first; if (what == 0) for (size_t i = 0; i < n; ++i) { LP l; size_t k = (i + salt) % 4; if (i == 0 || k == 0) l = m->add_layer<DenseLayer>(nm + std::to_string(i), size_t(2), size_t(2)); else if (k == 1) l = m->add_layer<TanhLayer>(nm + std::to_string(i), size_t(2)); else if (k == 2) l = m->add_layer<EluLayer>(nm + std::to_string(i), size_t(2), 0.5 + double(sa)); else l = m->add_layer<SigmoidLayer>(nm + std::to_string(i), size_t(2)); if (prev) m->create_edge(prev, l); prev = l; }
        else if (what == 1) { prev = m->add_layer<DenseLayer>(nm + "a", n, n + 3); LP b = m->add_layer<RecurrentLayer>(nm + "r", n + 3, size_t(2), std::min<size_t>(n, 40), size_t(1), HA::TanH); m->create_edge(prev, b); prev = b; }
        else { first = m->add_layer<DenseLayer>(nm + "a", size_t(2), size_t(2)); for (size_t i = 0; i < n; ++i) { prev = m->add_layer<DenseLayer>(nm + std::to_string(i), size_t(2), size_t(2)); m->create_edge(first, prev); if (i + 1 < n) { auto q = m->add_loss<MeanSquaredLossLayer>(nm + "q" + std::to_string(i), size_t(2), size_t(1)); m->create_loss_edge(prev, q); } } }
        auto q = m->add_loss<MeanSquaredLossLayer>(nm + "q", prev->output_size(), size_t(1)); m->create_loss_edge(prev, q); for (size_t i = 0; i < m->layers().size(); ++i) set_params(*m->layers()[i], sa + i); return m; };
    auto a = build(1, "first"), b = build(4, "second"); std::string p = mc::scratch_file("big.json"); dump(*a, p); std::string t = mc::read_file(p); load(*b, p); c.eq(b->layers().size(), a->layers().size(), "layers"); for (size_t i = 0; i < a->layers().size(); ++i) same(c, *b->layers()[i], *a->layers()[i], "layer " + std::to_string(i));
    V x = vals(a->input_size(), 3), y = x; reset(*a); reset(*b); c.veq(V(b->predict(y)), V(a->predict(x)), "prediction"); V g = vals(2, 6); reset(*a); reset(*b); a->step(x, g); b->step(y, g); c.eq(b->avg_loss(), a->avg_loss(), "loss"); for (size_t i = 0; i < a->layers().size(); ++i) c.veq(grads(*b->layers()[i]), grads(*a->layers()[i]), "gradients of layer " + std::to_string(i)); std::string q = mc::scratch_file("big2.json"); dump(*b, q); c.check(mc::read_file(q) == t, "file of the loaded model"); c.nontrivial(); c.step(3); c.state(mc::Hash().add(t)); c.outcome(mc::Hash().add(what).add(n));
}
// a recurrent layer with any number of time steps, used after the load with any other
static void steps(Ctx& c)
{
    size_t t0 = c.pick(5), t1 = c.pick(4), t2 = c.pick(5), hid = 1 + c.pick(3), act = c.pick(3), given = c.pick(3); int how = int(c.pick(2));
    if (!c.begin()) return;
    std::ostringstream d; d << "recurrent layer of " << t0 << " steps into one of " << t1 << ", then " << t2 << ", " << hid << " hidden, state " << given; c.describe(d.str()); static const HA AA[] = {HA::TanH, HA::ReLU, HA::Linear}; RecurrentLayer a("a", size_t(2), size_t(2), hid, t0, AA[act]), b("b", size_t(1), size_t(1), size_t(2), t1, HA::Linear); set_params(a, 2); set_params(b, 5); if (given == 2 && t1) { V x = vals(t1, 9); b.forward(x); }
    b.load(through(a.dump(), size_t(how), c)); same(c, b, a, "loaded layer"); c.eq(b.time_steps(), a.time_steps(), "time steps"); for (auto* l: {&a, &b}) { if (t2 < 4) l->time_steps(t2); l->reset_hidden_state(); if (given == 1) l->hidden_state(vals(hid, 4)); } size_t T = t2 < 4 ? t2 : t0;
    for (int k = 0; k < 2; ++k) { V x = vals(2 * T, 7 + size_t(k)), y = x; V o = a.training_forward(x), q = b.training_forward(y); c.veq(q, o, "outputs"); V g = vals(o.size(), 3), h = g; a.backward(g); b.backward(h); c.veq(V(b.last_input_gradient()), V(a.last_input_gradient()), "input gradient"); } c.eq(b.time_steps(), a.time_steps(), "time steps"); c.nontrivial(); c.state(mc::Hash().add(d.str())); c.step();
}
// damage
struct Damage { std::string what; Doc doc; };
static void damage(const Doc& root, const std::function<Doc&(Doc&)>& at, const std::string& path, std::vector<Damage>& out)
{
    Doc copy = root; Doc here = at(copy);
    if (here.kind == JT::DICT) for (auto& e: here.map)
    {
        Doc d = root; at(d).map.erase(e.first); out.push_back({path + " without " + e.first, d}); d = root; Doc v = at(d).map[e.first]; at(d).map.erase(e.first); at(d).map["x" + e.first] = v; out.push_back({path + " with " + e.first + " renamed", d}); std::string k = e.first;
        if (v.kind == JT::LEAF && k == "type") for (const char* t: {"Dense", "Convolutional", "MaxPooling", "AvgPooling", "Dropout", "Recurrent", "Relu", "Elu", "Softmax", "Tanh", "Sigmoid", "Linear", "MSE", "CCE", "None", "Input", "Loss", "", "dense"}) if (v.val != t) { d = root; at(d).map[k].val = t; out.push_back({path + " of type " + t, d}); }
        damage(root, [at, k](Doc& r) -> Doc& { return at(r).map[k]; }, path + "/" + k, out);
    }
    if (here.kind == JT::LIST && !here.list.empty())
    {
        Doc d = root; at(d).list.pop_back(); out.push_back({path + " one item short", d}); d = root; at(d).list.clear(); out.push_back({path + " empty", d});
        for (size_t i = 0; i < here.list.size(); i = i + 1) damage(root, [at, i](Doc& r) -> Doc& { return at(r).list[i]; }, path + "/" + std::to_string(i), out);
    }
    if (here.kind == JT::LEAF && here.type != VT::STRING) { Doc d = root; at(d) = Doc::lst({Doc::leaf("1", VT::INT)}); out.push_back({path + " a list instead of a number", d}); d = root; at(d) = Doc::dict({{"k", Doc::leaf("1", VT::INT)}}); out.push_back({path + " an object instead of a number", d});}
    if (here.kind == JT::LIST) { Doc d = root; at(d) = Doc::leaf("1", VT::INT); out.push_back({path + " a number instead of a list", d}); }
}
static void damaged_layers(Ctx& c)
{
    size_t kind = c.pick(KINDS), cfg = 1 + c.pick(CFGS - 1), into = c.pick(2); LP a = make(kind, cfg, "n"); set_params(*a, 3); static size_t key = 0; static Doc doc; static std::vector<Damage> all;
    if (key != kind * CFGS + cfg) { all.clear(); if (!Strict::parse(text(a->dump()), doc)) c.fail("the document is not JSON"); damage(doc, [](Doc& r) -> Doc& { return r; }, "document", all); key = kind * CFGS + cfg; }
    const Damage& d = all[c.pick(all.size())];
    if (!c.begin()) return;
    c.describe(std::string(KIND[kind]) + " " + std::to_string(cfg) + ": " + d.what + ": " + d.doc.text()); LP b = make(kind, into ? cfg : 0, "m"); Json j; { std::stringstream ss(d.doc.text()); ss >> j; } c.throws([&] { b->load(j); }, "loading a layer " + d.what); LP ok = make(kind, into ? cfg : 0, "m"); { std::stringstream ss(doc.text()); Json k; ss >> k; ok->load(k); } same(c, *ok, *a, "loaded layer"); c.nontrivial(); c.count(KIND[kind]);
}
static void damaged_models(Ctx& c)
{
    size_t arch = c.pick(2); static size_t key = 9; static Doc doc; static std::vector<Damage> all; static std::string t; auto a = net(arch ? std::vector<size_t>{1, 5, 7} : std::vector<size_t>{0, 3}, 1, 0, 2, "dm"); std::string p = mc::scratch_file("d" + std::to_string(arch) + ".json");
    if (key != arch) { dump(*a, p); t = mc::read_file(p); all.clear(); if (!Strict::parse(t, doc)) c.fail("the file is not JSON"); damage(doc, [](Doc& r) -> Doc& { return r; }, "document", all); key = arch; }
    size_t k = c.pick(all.size() + t.size() + 3);
    if (!c.begin()) return;
    std::string w, body; if (k < all.size()) { w = all[k].what; body = all[k].doc.text(); } else if (k < all.size() + t.size()) { w = "cut after " + std::to_string(k - all.size()) + " bytes"; body = t.substr(0, k - all.size()); } else { size_t e = k - all.size() - t.size(); w = e == 0 ? "a list" : e == 1 ? "an empty object" : "a missing file"; body = e == 0 ? "[1]" : "{}"; if (e == 2) { std::remove(p.c_str()); c.describe(w); auto b = net(arch ? std::vector<size_t>{1, 5, 7} : std::vector<size_t>{0, 3}, 1, 0, 5, "dn"); c.throws([&] { load(*b, p); }, "loading " + w); return; } }
    c.describe("model " + std::to_string(arch) + ": " + w); mc::write_file(p, body); auto b = net(arch ? std::vector<size_t>{1, 5, 7} : std::vector<size_t>{0, 3}, 1, 0, 5, "dn"); c.throws([&] { load(*b, p); }, "loading a file " + w); c.nontrivial(); mc::write_file(p, t); load(*b, p); for (size_t i = 0; i < a->layers().size(); ++i) same(c, *b->layers()[i], *a->layers()[i], "layer after a failed and a good load");
}
MC_MAIN({"shapes", shapes}, {"layers", layers}, {"values", values}, {"models", models}, {"programs", programs}, {"large", large}, {"steps", steps}, {"damaged_layers", damaged_layers}, {"damaged_models", damaged_models})

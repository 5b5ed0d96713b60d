// C25: recurrent layers against the recurrence written out, its differences for the gradients, and every program over the hidden state.
#include "dnn/recurrent.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/model.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/gd_optimizer.hpp"
#include "mc.hpp"
#include <list>
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using std::size_t; using A = RecurrentLayer::HiddenActivation; using R = long double; using VR = std::vector<R>;
static const A ACT[] = {A::TanH, A::ReLU, A::Linear}; static const char* NAME[] = {"tanh", "relu", "linear"};
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
struct Dim { size_t in, hid, out, T, act; size_t params() const { return (in + hid + 1) * hid + (hid + 1) * out; } };
// p: input-to-hidden, hidden-to-hidden, hidden bias, hidden-to-output, output bias
struct Run { VR out, state; bool kink = false; };
static Run unroll(const Dim& d, const VR& p, const VR& x, const VR& h0, R near = 1e-3L)
{
    const R *wi = p.data(), *wh = wi + d.hid * d.in, *bh = wh + d.hid * d.hid, *wo = bh + d.hid, *bo = wo + d.out * d.hid; Run r; VR h = h0;
    for (size_t t = 0; t < d.T; ++t)
    {
        VR n(d.hid); for (size_t i = 0; i < d.hid; ++i) { R s = bh[i]; for (size_t j = 0; j < d.in; ++j) s += wi[i * d.in + j] * x[t * d.in + j]; for (size_t j = 0; j < d.hid; ++j) s += wh[i * d.hid + j] * h[j]; if (d.act == 0) s = std::tanh(s); else if (d.act == 1) { if (std::fabs(s) < near) r.kink = true; s = s > 0 ? s : 0; } n[i] = s; }
        h = n; for (size_t i = 0; i < d.out; ++i) { R s = bo[i]; for (size_t j = 0; j < d.hid; ++j) s += wo[i * d.hid + j] * h[j]; r.out.push_back(s); }
    }
    r.state = h; return r;
}
static V dbl(const VR& v) { return V(v.begin(), v.end()); }
static VR lng(const V& v) { return VR(v.begin(), v.end()); }
// gradient of sum(g * out) with respect to the parameters and the input
static void differences(const Dim& d, const VR& p, const VR& x, const VR& h0, const V& g, V& gp, V& gx)
{
    auto f = [&](const VR& pp, const VR& xx) { VR o = unroll(d, pp, xx, h0).out; R s = 0; for (size_t i = 0; i < o.size(); ++i) s += o[i] * g[i]; return s; }; const R e = 1e-5L; gp.clear(); gx.clear();
    for (size_t i = 0; i < p.size(); ++i) { VR a = p, b = p; a[i] += e; b[i] -= e; gp.push_back(double((f(a, x) - f(b, x)) / (2 * e))); }
    for (size_t i = 0; i < x.size(); ++i) { VR a = x, b = x; a[i] += e; b[i] -= e; gx.push_back(double((f(p, a) - f(p, b)) / (2 * e))); }
}
static void load(RecurrentLayer& l, const V& p) { for (size_t i = 0; i < p.size(); ++i) l.param(i) = p[i]; }
static V grads(RecurrentLayer& l) { V v; for (size_t i = 0; i < l.param_count(); ++i) v.push_back(l.gradient(i)); return v; }
static V par(RecurrentLayer& l) { V v; for (size_t i = 0; i < l.param_count(); ++i) v.push_back(l.param(i)); return v; }
// one sequence from a given state, then a second one from where it ended
static void sequence(Ctx& c, const Dim& d, const V& p, const V& x, const V& h0, const V& g, bool given)
{
    RecurrentLayer l("r", d.in, d.out, d.hid, d.T, ACT[d.act]); c.eq(l.param_count(), d.params(), "parameter count"); load(l, p); if (given) l.hidden_state(h0); V gz = grads(l); c.veq(gz, V(p.size()), "gradients of a new layer");
    VR h = lng(h0), P = lng(p), X = lng(x); V sum(p.size()), gp, gx; bool kink = false;
    for (size_t k = 0; k < 2; ++k)
    {
        Run r = unroll(d, P, X, h); kink = kink || r.kink; V xi = x, gi = g; const V& o = k == 0 ? l.training_forward(xi) : l.training_forward(xi); c.vapprox(o, dbl(r.out), "outputs of sequence " + std::to_string(k), 1e-10); c.vapprox(l.last_output(), dbl(r.out), "last output", 1e-10);
        l.backward(gi); differences(d, P, X, h, g, gp, gx); for (size_t i = 0; i < gp.size(); ++i) sum[i] += gp[i];
        if (!kink) { c.vapprox(l.last_input_gradient(), gx, "input gradient of sequence " + std::to_string(k), 2e-6); c.vapprox(grads(l), sum, "parameter gradients after sequence " + std::to_string(k), 2e-6); }
        c.veq(par(l), p, "parameters are changed by training steps"); h = r.state; c.outcome(mc::Hash().add(l.last_output())); c.step();
    }
    Run r = unroll(d, P, X, h); c.vapprox(l.forward(x), dbl(r.out), "inference continues from the hidden state", 1e-10);
}
static void shapes(Ctx& c)
{
    Dim d; size_t m = mc::thorough() ? 4 : 3; d.in = size_t(c.in(1, int(m))); d.hid = size_t(c.in(1, int(m))); d.out = size_t(c.in(1, int(m))); d.T = size_t(c.in(1, int(m) + 2)); d.act = c.pick(3); size_t start = c.pick(3), salt = c.pick(2);
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[d.act] << " " << d.in << "-" << d.hid << "-" << d.out << ", " << d.T << " steps, start " << start << ", values " << salt; c.describe(w.str());
    V h0(d.hid); if (start == 1) h0 = vals(d.hid, 11 + salt); if (start == 2) h0[0] = 0.75; V p = vals(d.params(), 1 + 7 * salt); if (salt) for (auto& e: p) e *= 2; sequence(c, d, p, vals(d.in * d.T, 2 + salt), h0, vals(d.out * d.T, 5 + salt), start != 0); c.nontrivial(); c.state(mc::Hash().add(w.str()));
}
static void larger(Ctx& c)
{
    Dim d; static const std::vector<size_t> N{1, 2, 5, 8, 16}; d.in = c.of(N); d.hid = c.of(N); d.out = c.of(N); static const std::vector<size_t> TS{1, 2, 9, 17}; d.T = c.of(TS); d.act = c.pick(3); bool st = c.flag(); if (d.params() * d.T > (mc::thorough() ? 20000u : 1500u)) return;
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[d.act] << " " << d.in << "-" << d.hid << "-" << d.out << ", " << d.T << " steps, start " << st; c.describe(w.str()); V p = vals(d.params(), 3); for (auto& e: p) e /= double(d.hid); V h0 = st ? vals(d.hid, 9) : V(d.hid); sequence(c, d, p, vals(d.in * d.T, 4), h0, vals(d.out * d.T, 6), st); c.nontrivial(); c.state(mc::Hash().add(w.str()));
}
// back propagation through time written out, for sizes that differences cannot reach
struct Back { VR gp, gx; };
static Back unrolled_gradient(const Dim& d, const VR& p, const VR& x, const VR& h0, const V& g)
{
    size_t I = d.in, H = d.hid, O = d.out; size_t oh = H * I, ob = oh + H * H, oo = ob + H, oc = oo + O * H; std::vector<VR> h{h0}, z; for (size_t t = 0; t < d.T; ++t) { VR n(H), s(H); for (size_t i = 0; i < H; ++i) { R q = p[ob + i]; for (size_t j = 0; j < I; ++j) q += p[i * I + j] * x[t * I + j]; for (size_t j = 0; j < H; ++j) q += p[oh + i * H + j] * h[t][j]; s[i] = q; n[i] = d.act == 0 ? std::tanh(q) : d.act == 1 ? (q > 0 ? q : 0) : q; } z.push_back(s); h.push_back(n); }
    Back r; r.gp.assign(p.size(), 0); r.gx.assign(x.size(), 0); VR carry(H, 0);
    for (size_t t = d.T; t-- > 0;)
    {
        VR dh = carry; for (size_t k = 0; k < O; ++k) { R e = g[t * O + k]; r.gp[oc + k] += e; for (size_t j = 0; j < H; ++j) { r.gp[oo + k * H + j] += e * h[t + 1][j]; dh[j] += e * p[oo + k * H + j]; } }
        carry.assign(H, 0); for (size_t i = 0; i < H; ++i) { R f = d.act == 0 ? 1 - h[t + 1][i] * h[t + 1][i] : d.act == 1 ? R(z[t][i] > 0) : 1; R e = dh[i] * f; r.gp[ob + i] += e; for (size_t j = 0; j < I; ++j) { r.gp[i * I + j] += e * x[t * I + j]; r.gx[t * I + j] += e * p[i * I + j]; } for (size_t j = 0; j < H; ++j) { r.gp[oh + i * H + j] += e * h[t][j]; carry[j] += e * p[oh + i * H + j]; } }
    }
    return r;
}
static void wide(Ctx& c)
{
    static const std::vector<size_t> IN{1, 17, 40}, HID{3, 17, 33, 64, 100}, OUT{1, 19, 40}, TS{1, 3, 33, 100}; Dim d; d.in = c.of(IN); d.hid = c.of(HID); d.out = c.of(OUT); d.T = c.of(TS); d.act = c.pick(3); bool st = c.flag(); if (d.params() * d.T > (mc::thorough() ? 2000000u : 400000u)) return;
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[d.act] << " " << d.in << "-" << d.hid << "-" << d.out << ", " << d.T << " steps, start " << st; c.describe(w.str()); V p = vals(d.params(), 3); size_t k = 0; for (auto& e: p) { if (d.act == 1 && k >= d.hid * d.in && k < d.hid * (d.in + d.hid)) e = std::fabs(e); e /= std::sqrt(double(d.hid)) * 2; ++k; } V h0 = st ? vals(d.hid, 9) : V(d.hid), x = vals(d.in * d.T, 4), g = vals(d.out * d.T, 6);
    RecurrentLayer l("r", d.in, d.out, d.hid, d.T, ACT[d.act]); load(l, p); if (st) l.hidden_state(h0); VR h = lng(h0); VR sum(p.size(), 0); bool kink = false;
    for (size_t s = 0; s < 2; ++s) { Run r = unroll(d, lng(p), lng(x), h, 1e-11L); kink = kink || r.kink; V xi = x, gi = g; c.vapprox(l.training_forward(xi), dbl(r.out), "outputs of sequence " + std::to_string(s), 1e-9); l.backward(gi); Back b = unrolled_gradient(d, lng(p), lng(x), h, g); for (size_t i = 0; i < sum.size(); ++i) sum[i] += b.gp[i]; if (!kink) { c.vapprox(l.last_input_gradient(), dbl(b.gx), "input gradient", 1e-8); c.vapprox(grads(l), dbl(sum), "parameter gradients", 1e-8); c.nontrivial(); } h = r.state; c.step(); }
    if (kink) c.count("runs at a kink, gradients skipped"); c.outcome(mc::Hash().add(l.last_output())); c.state(mc::Hash().add(w.str()));
}
// every assignment of a value lattice to the smallest layers
static void lattice(Ctx& c)
{
    static const double L[] = {-1.5, 0.0, 0.5, 1.0}; size_t act = c.pick(3), hid = 1; Dim d{1, hid, 1, 2 + c.pick(2), act}; V p(d.params()), x(d.T), h(1), g(d.T, 1.0);
    for (auto& e: p) e = L[c.pick(mc::thorough() ? 4 : 3)]; for (auto& e: x) e = L[c.pick(2) * 2]; h[0] = L[c.pick(3)]; bool last = c.flag(); if (last) std::fill(g.begin(), g.end() - 1, 0.0);
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[act] << " 1-1-1, " << d.T << " steps, parameters"; for (double e: p) w << ' ' << e; w << ", inputs"; for (double e: x) w << ' ' << e; w << ", start " << h[0]; c.describe(w.str()); sequence(c, d, p, x, h, g, true); c.nontrivial();
}
// programs over the hidden state
static void programs(Ctx& c)
{
    static const std::vector<Dim> D{{1, 1, 1, 1, 0}, {2, 2, 1, 2, 0}, {1, 2, 2, 3, 1}, {2, 3, 1, 1, 2}, {1, 2, 1, 2, 1}, {1, 1, 2, 4, 0}};
    size_t di = c.pick(D.size()); Dim d = D[di]; size_t depth = (mc::thorough() ? 5 : 4) + (di == 1 ? 1 : 0); std::vector<size_t> prog(depth); for (auto& q: prog) q = c.pick(10);
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[d.act] << " " << d.in << "-" << d.hid << "-" << d.out << ", " << d.T << " steps:"; for (auto q: prog) w << ' ' << q; c.describe(w.str());
    struct One { std::shared_ptr<RecurrentLayer> l; Dim d; VR h, h0, x; V g; bool fwd = false, kink = false; }; V p = vals(d.params(), 1); One a, b; a.l = std::make_shared<RecurrentLayer>("r", d.in, d.out, d.hid, d.T, ACT[d.act]); load(*a.l, p); a.d = d; a.h = VR(d.hid); a.g = V(p.size()); std::list<V> in; auto keep = [&](const V& v) -> const V& { in.push_back(v); return in.back(); };
    auto forward = [&](One& o, size_t salt, bool train) { V x = vals(o.d.in * o.d.T, salt); Run r = unroll(o.d, lng(p), lng(x), o.h); V out = train ? o.l->training_forward(keep(x)) : o.l->forward(keep(x)); c.vapprox(out, dbl(r.out), "outputs", 1e-10); o.h0 = o.h; o.h = r.state; if (train) { o.x = lng(x); o.fwd = true; o.kink = r.kink; } else o.fwd = false; };
    auto backward = [&](One& o) { if (!o.fwd) return; V g = vals(o.d.out * o.d.T, 8), gp, gx; o.l->backward(keep(g)); differences(o.d, lng(p), o.x, o.h0, g, gp, gx); if (o.kink) { o.g = grads(*o.l); return; } for (size_t i = 0; i < gp.size(); ++i) o.g[i] += gp[i]; c.vapprox(o.l->last_input_gradient(), gx, "input gradient", 5e-6); };
    for (auto q: prog)
    {
        switch (q)
        {
            case 0: forward(a, 3, false); break;
            case 1: forward(a, 4, true); break;
            case 2: backward(a); break;
            case 3: { V h = vals(d.hid, 12); a.l->hidden_state(h); a.h = lng(h); a.fwd = false; break; }
            case 4: { V h(1, -0.25); a.l->hidden_state(h); a.h[0] = -0.25L; a.fwd = false; break; }
            case 5: a.l->reset_hidden_state(); a.h = VR(d.hid); a.fwd = false; break;
            case 6: a.d.T = a.d.T == d.T ? d.T + 1 : d.T; a.l->time_steps(a.d.T); c.eq(a.l->time_steps(), a.d.T, "time steps"); a.fwd = false; break;
            case 7: if (a.d.T > 1) { a.d.T = 1; a.l->time_steps(1); a.fwd = false; } break;
            case 8: b = a; b.l = std::dynamic_pointer_cast<RecurrentLayer>(a.l->clone()); c.check(bool(b.l), "a clone has another type"); b.fwd = false; c.vapprox(grads(*b.l), b.g, "gradients of a clone", 5e-6); break;
            default: if (b.l) { forward(b, 6, true); backward(b); } else forward(a, 6, true); break;
        }
        c.vapprox(grads(*a.l), a.g, "gradients", 5e-6); if (b.l) c.vapprox(grads(*b.l), b.g, "gradients of the clone", 5e-6);
        c.step(); mc::Hash h; h.add(di).add(a.d.T).add(dbl(a.h)).add(b.l ? 1 : 0); for (double e: a.g) h.add(std::uint64_t(std::llround(e * 1e4))); c.state(h);
    }
    forward(a, 5, false); if (b.l) forward(b, 5, false); c.veq(par(*a.l), p, "parameters"); c.nontrivial();
    V too(d.hid + 1, 0.5); c.throws([&] { a.l->hidden_state(too); }, "a hidden state longer than the hidden size"); forward(a, 2, false);
}
// in a model: r -> dense -> loss, one step at a time or whole sequences; updates follow the gradient of the unrolled network
static void models(Ctx& c)
{
    Dim d; d.in = size_t(c.in(1, 2)); d.hid = size_t(c.in(1, 2)); d.out = size_t(c.in(1, 2)); d.T = 1; d.act = c.pick(3); std::vector<size_t> prog(mc::thorough() ? 5 : 4); for (auto& q: prog) q = c.pick(5);
    if (!c.begin()) return;
    std::ostringstream w; w << NAME[d.act] << " " << d.in << "-" << d.hid << "-" << d.out << " in a model:"; for (auto q: prog) w << ' ' << q; c.describe(w.str());
    Model m("m"); auto r = m.add_layer<RecurrentLayer>("r", d.in, d.out, d.hid, size_t(1), ACT[d.act]); auto q = m.add_loss<MeanSquaredLossLayer>("q", d.out, size_t(1)); m.create_loss_edge(r, q); V p = vals(d.params(), 2); load(*r, p); GradientDescentOptimizer o(0.125); VR h(d.hid); V gsum(p.size()); bool kink = false;
    for (auto k: prog)
    {
        switch (k)
        {
            case 0: case 1: { V x = vals(d.in, 3 + k), t = vals(d.out, 9 + k); Run u = unroll(d, lng(p), lng(x), h); kink = kink || u.kink; V g, gp, gx; for (size_t i = 0; i < d.out; ++i) g.push_back(double(2 * (u.out[i] - R(t[i])))); differences(d, lng(p), lng(x), h, g, gp, gx); m.step(x, t); if (!kink) { for (size_t i = 0; i < gp.size(); ++i) gsum[i] += gp[i]; } h = u.state; c.vapprox(r->last_output(), dbl(u.out), "output in a step", 1e-9); break; }
            case 2: { if (kink) { gsum = grads(*r); } m.train(o); for (size_t i = 0; i < p.size(); ++i) p[i] -= 0.125 * gsum[i]; c.vapprox(par(*r), p, "parameters after an update", 5e-6); p = par(*r); gsum.assign(p.size(), 0.0); kink = false; break; }
            case 3: r->reset_hidden_state(); h.assign(d.hid, 0); break;
            default: { V x = vals(d.in, 7); Run u = unroll(d, lng(p), lng(x), h); V got = m.predict(x); c.vapprox(got, dbl(u.out), "prediction", 1e-9); h = u.state; break; }
        }
        if (!kink) c.vapprox(grads(*r), gsum, "gradients in a model", 5e-6); c.step();
    }
    c.nontrivial(); c.state(mc::Hash().add(w.str()));
}
MC_MAIN({"shapes", shapes}, {"larger", larger}, {"wide", wide}, {"lattice", lattice}, {"programs", programs}, {"models", models})

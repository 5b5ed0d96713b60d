// C18: every arc-insertion program and every small digraph against a reference graph; execution of every small forest.
#include "dnn/model.hpp"
#include "dnn/dlgraph.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/mse_loss.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using std::size_t; using LP = std::shared_ptr<Layer>; using Lo = std::shared_ptr<LossLayer>;
using Set = std::set<std::pair<size_t, size_t>>;
struct Ref
{
    std::vector<LP> nodes; std::vector<size_t> losses; Set f, t, b;
    long at(const LP& l) const { for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i] == l) return long(i); return -1; }
    bool loss(size_t i) const { return std::find(losses.begin(), losses.end(), i) != losses.end(); }
    std::vector<size_t> ends(bool in) const { std::vector<size_t> r; for (size_t i = 0; i < nodes.size(); ++i) { bool has = false; for (auto& e: f) has |= (in ? e.second : e.first) == i; if (!has && !loss(i)) r.push_back(i); } return r; }
};
static std::set<size_t> next(const Set& s, size_t i, bool pred) { std::set<size_t> r; for (auto& e: s) if ((pred ? e.second : e.first) == i) r.insert(pred ? e.first : e.second); return r; }
static std::vector<std::int64_t> matrix(const Set& s, size_t n) { std::vector<std::int64_t> r(n * n); for (auto& e: s) r[e.first * n + e.second] = 1; return r; }
static void run(Ctx& c, const std::vector<DLGraph::Arc>& arcs, const std::vector<LP>& nodes, const Set& s, const std::vector<size_t>& roots, const std::string& w)
{
    std::set<size_t> reach(roots.begin(), roots.end()); std::vector<size_t> todo(roots); while (!todo.empty()) { size_t u = todo.back(); todo.pop_back(); for (size_t v: next(s, u, false)) if (reach.insert(v).second) todo.push_back(v); }
    Set want; for (auto& e: s) if (reach.count(e.first)) want.insert(e); std::vector<std::pair<size_t, size_t>> got;
    for (auto& a: arcs) { size_t i = size_t(std::find(nodes.begin(), nodes.end(), a.from) - nodes.begin()), j = size_t(std::find(nodes.begin(), nodes.end(), a.to) - nodes.begin()); c.check(i < nodes.size() && j < nodes.size(), w + " names a layer of the graph"); got.emplace_back(i, j); }
    c.check(got.size() == want.size(), w + " has " + std::to_string(got.size()) + " arcs, want " + std::to_string(want.size())); c.check(Set(got.begin(), got.end()) == want, w + " has the arcs from the reached layers");
    // acyclic: Kahn
    std::map<size_t, size_t> deg; for (auto& e: want) ++deg[e.second]; std::vector<size_t> q; for (size_t u: reach) if (!deg[u]) q.push_back(u); size_t seen = 0; while (!q.empty()) { size_t u = q.back(); q.pop_back(); ++seen; for (auto& e: want) if (e.first == u && --deg[e.second] == 0) q.push_back(e.second); }
    bool acyclic = seen == reach.size(); c.count(acyclic ? "acyclic runs" : "cyclic runs");
    if (acyclic) for (size_t i = 0; i < got.size(); ++i) for (size_t j = i + 1; j < got.size(); ++j) c.check(got[j].second != got[i].first, w + " uses layer " + std::to_string(got[i].first) + " before it is computed");
}
static void compare(Ctx& c, DLGraph& g, const Ref& r)
{
    size_t n = r.nodes.size(); c.eq(g.size(), n, "size"); c.check(g.layers() == r.nodes, "layers"); c.veq(g.loss_layers_idx(), r.losses, "loss layers"); c.veq(g.input_layers_idx(), r.ends(true), "input layers"); c.veq(g.output_layers_idx(), r.ends(false), "output layers");
    std::vector<size_t> all, fwd; for (size_t i = 0; i < n; ++i) { all.push_back(i); if (!r.loss(i)) fwd.push_back(i); }
    c.veq(g.layers_idx(), all, "layer indices"); c.veq(g.forward_layers_idx(), fwd, "forward layer indices"); c.veq(g.training_forward_layers_idx(), all, "training layers"); c.veq(g.backward_layers_idx(), all, "backward layers");
    auto pick = [&](const std::vector<size_t>& v) { std::vector<LP> l; for (size_t i: v) l.push_back(r.nodes[i]); return l; };
    c.check(g.input_layers() == pick(r.ends(true)) && g.output_layers() == pick(r.ends(false)) && g.forward_layers() == pick(fwd), "layer lists"); c.check(g.training_forward_layers() == r.nodes && g.backward_layers() == r.nodes, "layers of a training run"); auto ll = g.loss_layers(); c.eq(ll.size(), r.losses.size(), "loss list"); for (size_t i = 0; i < ll.size(); ++i) c.check(ll[i] == r.nodes[r.losses[i]], "loss list");
    for (size_t i = 0; i < n + 1; ++i)
    {
        if (i < n) { c.check(g.layer(i) == r.nodes[i] && g[i] == r.nodes[i], "layer by index"); c.eq(g.index_of(*r.nodes[i]), std::int64_t(i), "index of a layer"); }
        c.check(g.forward(i) == next(r.f, i, false) && g.forward_predecessors(i) == next(r.f, i, true) && g.has_forward(i) == !next(r.f, i, false).empty() && g.has_forward_predecessors(i) == !next(r.f, i, true).empty(), "forward neighbours");
        c.check(g.training_forward(i) == next(r.t, i, false) && g.training_forward_predecessors(i) == next(r.t, i, true) && g.has_training_forward(i) == !next(r.t, i, false).empty() && g.has_training_forward_predecessors(i) == !next(r.t, i, true).empty(), "training forward neighbours");
        c.check(g.backward(i) == next(r.b, i, false) && g.backward_predecessors(i) == next(r.b, i, true) && g.has_backward(i) == !next(r.b, i, false).empty() && g.has_backward_predecessors(i) == !next(r.b, i, true).empty(), "backward neighbours");
    }
    c.veq(g.forward_adjacent_matrix(), matrix(r.f, n), "forward matrix"); c.veq(g.training_forward_adjacent_matrix(), matrix(r.t, n), "training matrix"); c.veq(g.backward_adjacent_matrix(), matrix(r.b, n), "backward matrix");
    run(c, g.forward_run(), r.nodes, r.f, r.ends(true), "forward run"); run(c, g.training_forward_run(), r.nodes, r.t, r.ends(true), "training run"); run(c, g.backward_run(), r.nodes, r.b, r.losses, "backward run");
}
static void state(Ctx& c, const Ref& r) { mc::Hash h; h.add(uint64_t(r.nodes.size())).add(r.losses); for (auto* s: {&r.f, &r.t, &r.b}) { h.add(uint64_t(s->size())); for (auto& e: *s) h.add(uint64_t(e.first * 64 + e.second)); } for (size_t i: r.losses) h.add(uint64_t(i)); c.state(h); c.step(); }
static void copies(Ctx& c, DLGraph& g, const Ref& r)
{
    for (int how = 0; how < 2; ++how)
    {
        DLGraph k; if (how) { k.add_node(std::make_shared<LinearLayer>("old", size_t(1))); k = g; } else { DLGraph q(g); Ref rq = r; rq.nodes = q.layers(); compare(c, q, rq); k = q; }
        Ref rk = r; rk.nodes = k.layers(); c.eq(k.size(), r.nodes.size(), "size of a copy"); compare(c, k, rk); for (size_t i = 0; i < r.nodes.size(); ++i) { c.check(k.layers()[i] != r.nodes[i], "a copy has its own layers"); c.eq(k.layers()[i]->name(), r.nodes[i]->name(), "layer of a copy"); c.eq(g.index_of(*k.layers()[i]), std::int64_t(-1), "a layer of the copy is not in the original"); }
        if (r.nodes.size() >= 2 && !rk.loss(0) && !rk.loss(1)) { k.add_edge(k.layers()[1], k.layers()[0]); rk.f.insert({1, 0}); rk.t.insert({1, 0}); rk.b.insert({0, 1}); compare(c, k, rk); }
    }
    compare(c, g, r); { DLGraph& self = g; g = self; compare(c, g, r); }
}
struct World
{
    DLGraph g; Ref r; std::vector<LP> n; std::vector<Lo> l;
    // same: layers do not need names of their own
    World(size_t nn, size_t nl, bool same) { for (size_t i = 0; i < nn; ++i) n.push_back(std::make_shared<LinearLayer>(same ? std::string("layer") : "n" + std::to_string(i), size_t(1))); for (size_t i = 0; i < nl; ++i) l.push_back(std::make_shared<MeanSquaredLossLayer>(same ? std::string("layer") : "l" + std::to_string(i), size_t(1))); }
    void node(LP x) { g.add_node(x); if (r.at(x) < 0) r.nodes.push_back(x); }
    void loss(Lo x) { g.add_loss(x); if (r.at(x) < 0) { r.nodes.push_back(x); r.losses.push_back(r.nodes.size() - 1); } }
};
static const int F = 1, T = 2, B = 4;
// insert an arc by one of the overloads; expected to throw when a node is missing
static void arc(Ctx& c, World& w, LP a, LP b, int kind)
{
    long i = w.r.at(a), j = w.r.at(b);
    auto go = [&] { if (kind == (F | T | B)) w.g.add_edge(a, b); else if (kind == (F | T)) w.g.add_arc_forward(a, b); else w.g.add_arc_backward(b, a); };
    if (i < 0 || j < 0) { c.throws(go, "an arc with an unknown layer"); return; }
    go(); auto p = std::make_pair(size_t(i), size_t(j)); if (kind & F) w.r.f.insert(p); if (kind & T) w.r.t.insert(p); if (kind & B) w.r.b.insert({p.second, p.first});
}
static void arc_loss(Ctx& c, World& w, LP a, Lo b, int kind)
{
    long i = w.r.at(a), j = w.r.at(b); auto go = [&] { if (kind == (T | B)) w.g.add_edge(a, b); else w.g.add_arc_forward(a, b); };
    if (i < 0 || j < 0) { c.throws(go, "an arc with an unknown layer"); return; }
    go(); auto p = std::make_pair(size_t(i), size_t(j)); w.r.t.insert(p); if (kind & B) w.r.b.insert({p.second, p.first});
}
static void programs(Ctx& c)
{
    static const int NOPS = 19; int pre = c.in(0, 3), len = c.in(1, mc::thorough() ? 5 : 4); std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(int(c.pick(NOPS)));
    int mix = 0; for (int o: ops) mix += o; bool same = len <= 3 ? c.pick(2) : mix % 2;
    if (!c.begin()) return;
    World w(4, 2, same); std::ostringstream d; d << (same ? "one name, " : "") << "start " << pre << ":"; if (pre) for (int i = 0; i < 3; ++i) w.node(w.n[size_t(i)]); if (pre >= 2) { w.loss(w.l[0]); } if (pre == 3) { arc(c, w, w.n[0], w.n[1], F | T | B); arc(c, w, w.n[1], w.n[2], F | T | B); arc_loss(c, w, w.n[2], w.l[0], T | B); }
    auto known = [&](std::initializer_list<LP> v) { for (auto& x: v) if (w.r.at(x) < 0) return false; return true; };
    // every prefix is a program of its own, so the comparison after the last step suffices
    for (int op: ops)
    {
        auto& n = w.n; auto& l = w.l; d << " " << op; c.describe(d.str());
        switch (op)
        {
            case 0: w.node(n[0]); break; case 1: w.node(n[1]); break; case 2: w.node(n[2]); break; case 3: w.loss(l[0]); break; case 4: w.loss(l[1]); break; case 5: arc(c, w, n[0], n[1], F | T | B); break; case 6: arc(c, w, n[1], n[2], F | T | B); break; case 7: arc(c, w, n[0], n[2], F | T | B); break; case 8: arc(c, w, n[2], n[0], F | T | B); break;
            case 9: arc(c, w, n[1], n[1], F | T | B); break; case 10: arc_loss(c, w, n[1], l[0], T | B); break; case 11: arc_loss(c, w, n[2], l[1], T | B); break; case 12: arc_loss(c, w, n[0], l[0], T); break; case 13: arc(c, w, n[1], n[0], F | T); break; case 14: arc(c, w, n[0], n[2], B); break;
            case 15: if (known({n[0], n[1], n[2]})) { w.g.add_edge(n[0], std::vector<LP>{n[1], n[2]}); for (size_t k: {size_t(1), size_t(2)}) { auto p = std::make_pair(size_t(w.r.at(n[0])), size_t(w.r.at(n[k]))); w.r.f.insert(p); w.r.t.insert(p); w.r.b.insert({p.second, p.first}); } } break;
            case 16: if (known({n[0], n[1], n[2]})) { w.g.add_edge(std::vector<LP>{n[2], n[1]}, n[0]); for (size_t k: {size_t(1), size_t(2)}) { auto p = std::make_pair(size_t(w.r.at(n[k])), size_t(w.r.at(n[0]))); w.r.f.insert(p); w.r.t.insert(p); w.r.b.insert({p.second, p.first}); } } break;
            case 17: if (known({n[0], n[2], l[0]})) { w.g.add_edge(std::vector<LP>{n[0], n[2]}, l[0]); for (size_t k: {size_t(0), size_t(2)}) { auto p = std::make_pair(size_t(w.r.at(n[k])), size_t(w.r.at(l[0]))); w.r.t.insert(p); w.r.b.insert({p.second, p.first}); } } break;
            case 18: arc(c, w, n[3], n[0], F | T | B); arc(c, w, n[0], n[3], F | T); arc(c, w, n[3], n[3], B); break;   // never added
        }
        state(c, w.r);
    }
    compare(c, w.g, w.r); if (len < 4 || mc::thorough()) copies(c, w.g, w.r); c.trace(); if (!w.r.f.empty()) c.nontrivial();
}
// every digraph (self arcs included) on 3 nodes, every loop-free digraph on 4, every acyclic one on 5; losses on a subset; two insertion orders
static void digraphs(Ctx& c)
{
    int n = c.in(1, 5); std::vector<std::pair<size_t, size_t>> cand; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (n <= 3 || (n == 4 && i != j) || (n == 5 && i < j)) cand.emplace_back(size_t(i), size_t(j));
    size_t bits = c.pick(size_t(1) << cand.size()), perm = c.pick(n == 5 ? 3 : 2), ends = c.pick(n >= 4 ? 3 : size_t(1) << n), how = c.pick(2);
    if (!c.begin()) return;
    World w{static_cast<size_t>(n), static_cast<size_t>(n), (perm + how + bits) % 2 == 1}; std::vector<size_t> id; for (size_t i = 0; i < size_t(n); ++i) id.push_back(i); if (perm == 1) std::reverse(id.begin(), id.end()); if (perm == 2) for (size_t i = 0; i < size_t(n); ++i) id[i] = (i * 2 + 1) % size_t(n);
    std::ostringstream d; d << n << " nodes, arcs"; for (size_t i = 0; i < size_t(n); ++i) w.node(w.n[i]); std::vector<std::pair<size_t, size_t>> es; for (size_t k = 0; k < cand.size(); ++k) if (bits >> k & 1) es.emplace_back(id[cand[k].first], id[cand[k].second]); if (how) std::reverse(es.begin(), es.end());
    for (auto& e: es) { d << " " << e.first << ">" << e.second; arc(c, w, w.n[e.first], w.n[e.second], F | T | B); }
    for (size_t i = 0; i < size_t(n); ++i) { bool out = true; for (auto& e: es) out &= e.first != i; if (n >= 4 ? (ends == 0 ? out : ends == 1 ? i == 0 : i % 2 == 1) : ends >> i & 1) { w.loss(w.l[i]); arc_loss(c, w, w.n[i], w.l[i], T | B); d << " " << i << ">loss"; } }
    c.describe(d.str()); compare(c, w.g, w.r); state(c, w.r); if (how == 0 && (n < 4 || bits % 7 == 0)) copies(c, w.g, w.r); if (!es.empty()) c.nontrivial();
}
// models: every forest (each layer at most one source); outputs and gradients by hand
static void forests(Ctx& c)
{
    int n = c.in(1, mc::thorough() ? 6 : 5); std::vector<int> par; for (int i = 0; i < n; ++i) par.push_back(c.in(-1, n - 1)); for (int i = 0; i < n; ++i) { int k = i, s = 0; while (k >= 0 && s <= n) { k = par[size_t(k)]; ++s; } if (s > n) return; }
    int order = c.in(0, 2), lossy = c.in(0, 1), calls = c.in(0, 2);   // calls: whole edges; forward arcs then backward arcs; backward then forward
    if (!c.begin()) return;
    Model m("f"); std::vector<LP> l; size_t N = size_t(n); std::ostringstream d; d << "forest"; V wt(N), bs(N);
    for (size_t i = 0; i < N; ++i) { l.push_back(m.add_layer<DenseLayer>(order == 1 ? std::string("layer") : "d" + std::to_string(i), size_t(1), size_t(1))); wt[i] = 0.5 + 0.25 * double(i) * (i % 2 ? -1 : 1); bs[i] = double(i) / 8 - 0.25; l[i]->param(0) = wt[i]; l[i]->param(1) = bs[i]; d << " " << par[i]; }
    std::vector<size_t> seq; for (size_t i = 0; i < N; ++i) seq.push_back(order == 0 ? i : order == 1 ? N - 1 - i : (i % 2 ? N - 1 - i / 2 : i / 2)); auto connect = [&](bool front, bool back) { for (size_t i: seq) if (par[i] >= 0) { auto& p = l[size_t(par[i])]; if (front && back) m.create_edge(p, l[i]); else if (front) m.create_front_arc(p, l[i]); else m.create_back_arc(p, l[i]); } };
    if (calls == 0) connect(true, true); else if (calls == 2) { connect(false, true); connect(true, false); }
    struct Last { std::function<void()> f; } last; std::vector<std::pair<LP, Lo>> ends; if (calls == 1) last.f = [&] { connect(true, false); for (auto& e: ends) m.create_front_arc(e.first, std::shared_ptr<LossLayer>(e.second)); for (auto& e: ends) m.create_back_arc(e.first, e.second); connect(false, true); };
    std::vector<bool> leaf(N, true); for (int p: par) if (p >= 0) leaf[size_t(p)] = false; std::vector<bool> has(N); for (size_t i = 0; i < N; ++i) has[i] = leaf[i] || (lossy && i % 2 == 0);
    for (size_t k = 0; k < N; ++k) { size_t i = order == 1 ? k : N - 1 - k; if (has[i]) { auto q = m.add_loss<MeanSquaredLossLayer>(order == 1 ? std::string("layer") : "l" + std::to_string(i), size_t(1), size_t(1)); if (calls == 0) m.create_loss_edge(l[i], q); else if (calls == 1) ends.emplace_back(l[i], q); else { m.create_back_arc(l[i], q); m.create_front_arc(l[i], std::shared_ptr<LossLayer>(q)); } } }
    if (last.f) last.f();
    d << (lossy ? ", losses inside" : "") << ", order " << order << ", calls " << calls; c.describe(d.str()); std::vector<LP> in, out; for (size_t i = 0; i < N; ++i) { if (par[i] < 0) in.push_back(l[i]); if (leaf[i]) out.push_back(l[i]); } c.check(m.input_layers() == in && m.output_layers() == out, "input and output layers of the model"); c.eq(m.loss_layers().size(), size_t(std::count(has.begin(), has.end(), true)), "loss layers"); c.eq(m.layers().size(), N + m.loss_layers().size(), "layers");
    std::function<double(size_t, double)> val = [&](size_t i, double x) { return wt[i] * (par[i] < 0 ? x : val(size_t(par[i]), x)) + bs[i]; };
    V gw(N), gb(N); for (double x: {0.75, -1.5})
    {
        V xi{x}, t{0.3}; const V& y = m.predict(xi); c.approx(y.at(0), val(size_t(std::find(leaf.begin(), leaf.end(), true) - leaf.begin()), x), "prediction"); for (size_t i = 0; i < N; ++i) c.approx(l[i]->last_output()[0], val(i, x), "output of layer " + std::to_string(i));
        m.step(xi, t); std::function<double(size_t)> grad = [&](size_t i) { double g = has[i] ? -2 * (t[0] - val(i, x)) : 0; for (size_t k = 0; k < N; ++k) if (par[k] == int(i)) g += grad(k) * wt[k]; return g; };
        for (size_t i = 0; i < N; ++i) { gb[i] += grad(i); gw[i] += grad(i) * (par[i] < 0 ? x : val(size_t(par[i]), x)); }
        for (size_t i = 0; i < N; ++i) { c.approx(l[i]->last_output()[0], val(i, x), "training output of layer " + std::to_string(i)); c.approx(l[i]->gradient(0), gw[i], "weight gradient of layer " + std::to_string(i)); c.approx(l[i]->gradient(1), gb[i], "bias gradient of layer " + std::to_string(i)); } c.step();
    }
    c.trace(); c.nontrivial(); c.outcome(mc::Hash().add(gw).add(gb));
}
// sizes of the inputs and outputs of every forest of layers of different widths
static void widths(Ctx& c)
{
    int n = c.in(1, 4); std::vector<int> par; for (int i = 0; i < n; ++i) par.push_back(c.in(-1, n - 1)); for (int i = 0; i < n; ++i) { int k = i, s = 0; while (k >= 0 && s <= n) { k = par[size_t(k)]; ++s; } if (s > n) return; }
    size_t salt = c.pick(3); bool copy = c.flag(); if (!c.begin()) return;
    size_t N = size_t(n); std::ostringstream d; d << "forest"; for (int q: par) d << ' ' << q; d << ", widths " << salt << (copy ? ", a copy" : ""); c.describe(d.str()); auto out = [&](size_t i) { return salt == 0 ? i + 1 : salt == 1 ? 2 + (i * 5 + 3) % 7 : 6 - i; }; auto in = [&](size_t i) { return par[i] >= 0 ? out(size_t(par[i])) : salt + 2; };
    Model m0("w"); std::vector<LP> l; for (size_t i = 0; i < N; ++i) l.push_back(m0.add_layer<DenseLayer>("d", in(i), out(i))); for (size_t i = 0; i < N; ++i) if (par[i] >= 0) m0.create_edge(l[size_t(par[i])], l[i]);
    for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < l[i]->param_count(); ++k) l[i]->param(k) = (double((k * 7 + i * 5) % 11) - 5) / 8;
    Model m1("other"); if (copy) { m1 = m0; m0.predict(V(salt + 2, 9)); } Model& m = copy ? m1 : m0; auto par_of = [&](size_t i, size_t k) { return (double((k * 7 + i * 5) % 11) - 5) / 8; };
    std::vector<size_t> ins, outs; for (size_t i = 0; i < N; ++i) { if (par[i] < 0) ins.push_back(i); bool leaf = true; for (int q: par) leaf &= q != int(i); if (leaf) outs.push_back(i); }
    for (size_t k = 0; k < N + 2; ++k) { c.eq(m.input_size(k), k < ins.size() ? in(ins[k]) : size_t(0), "input size " + std::to_string(k)); c.eq(m.output_size(k), k < outs.size() ? out(outs[k]) : size_t(0), "output size " + std::to_string(k)); }
    V x(salt + 2); for (size_t i = 0; i < x.size(); ++i) x[i] = double(i) / 4 - 0.5; std::vector<V> val(N); std::function<const V&(size_t)> f = [&](size_t i) -> const V& { if (val[i].empty()) { const V from = par[i] < 0 ? x : f(size_t(par[i])); V y(out(i)); for (size_t r = 0; r < y.size(); ++r) { y[r] = par_of(i, y.size() * from.size() + r); for (size_t k = 0; k < from.size(); ++k) y[r] += par_of(i, r * from.size() + k) * from[k]; } val[i] = y; } return val[i]; };
    c.vapprox(m.predict(x), f(outs[0]), "prediction"); c.eq(m.layers().size(), N, "layers"); for (size_t i = 0; i < N; ++i) c.vapprox(m.layers()[i]->last_output(), f(i), "output of layer " + std::to_string(i)); c.trace(); c.nontrivial(); c.outcome(mc::Hash().add(f(outs[0])));
}
// graphs of many layers: chains, stars, trees, ladders, layered nets, in four orders of insertion
static void graph_of(Ctx& c, size_t n, size_t kind, size_t order, size_t lossy, bool same)
{
    std::ostringstream d; d << n << " layers, kind " << kind << ", order " << order << ", losses " << lossy << (same ? ", one name" : ""); c.describe(d.str()); World w(n, n, same); std::vector<size_t> id(n), seq; for (size_t i = 0; i < n; ++i) id[i] = order == 1 ? n - 1 - i : order == 2 ? (n % 5 ? i * 5 % n : i) : order == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : i;
    for (size_t i = 0; i < n; ++i) w.node(w.n[i]);
    std::vector<std::pair<size_t, size_t>> e; for (size_t i = 1; i < n; ++i) switch (kind) { case 0: e.emplace_back(i - 1, i); break; case 1: e.emplace_back(0, i); break; case 2: e.emplace_back((i - 1) / 2, i); break; case 3: e.emplace_back(i - 1, i); if (i >= 2) e.emplace_back(i - 2, i); break; case 4: for (size_t k = (i / 4) * 4; i >= 4 && k-- > (i / 4 - 1) * 4;) e.emplace_back(k, i); break; default: e.emplace_back(i, i % 7 == 0 ? i - 1 : 0); }
    if (order == 3) std::reverse(e.begin(), e.end()); if (order == 2) std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.second % 3 < b.second % 3; });
    for (auto& q: e) arc(c, w, w.n[id[q.first]], w.n[id[q.second]], F | T | B);
    std::vector<bool> src(n); for (auto& q: e) src[id[q.first]] = true; for (size_t k = 0; k < n; ++k) { size_t i = order == 1 ? n - 1 - k : k; if (lossy == 0 ? !src[i] : lossy == 1 ? i + 1 == n : i % 3 == 0) { w.loss(w.l[i]); arc_loss(c, w, w.n[i], w.l[i], T | B); } }
    compare(c, w.g, w.r); state(c, w.r); if (n <= 33) copies(c, w.g, w.r); c.nontrivial();
}
static void many(Ctx& c)
{
    static const size_t N[] = {9, 17, 33, 64, 65, 130}; size_t n = N[c.pick(mc::thorough() ? 6 : 5)], kind = c.pick(6), order = c.pick(4), lossy = c.pick(3); bool same = c.flag();
    if (!c.begin()) return;
    graph_of(c, n, kind, order, lossy, same);
}
static void more(Ctx& c)
{
    static const size_t N[] = {101, 130, 258}; size_t n = N[c.pick(3)], kind = c.pick(3), order = c.pick(2);
    if (!c.begin()) return;
    graph_of(c, n, kind, order, 0, false);
}
// layers are told apart by identity: any mixture of kinds, sizes and names
static void names(Ctx& c)
{
    size_t n = 3, what[3]; for (auto& q: what) q = c.pick(32); bool dup = c.flag();
    if (!c.begin()) return;
    Model m("m"); std::vector<std::shared_ptr<Layer>> l; std::ostringstream d;
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = what[i] % 8, z = what[i] / 8 % 2 ? 3 : 2; std::string nm = what[i] / 16 ? "b" : "a"; d << ' ' << k << '/' << z << nm;
        switch (k) { case 0: l.push_back(m.add_layer<DenseLayer>(nm, z, z)); break; case 1: l.push_back(m.add_layer<ReluLayer>(nm, z)); break; case 2: l.push_back(m.add_layer<TanhLayer>(nm, z)); break; case 3: l.push_back(m.add_layer<LinearLayer>(nm, z)); break; case 4: l.push_back(m.add_layer<SigmoidLayer>(nm, z)); break; case 5: l.push_back(m.add_layer<SoftmaxLayer>(nm, z)); break; case 6: l.push_back(m.add_layer<DenseLayer>(nm, size_t(2), z)); break; default: l.push_back(m.add_layer<EluLayer>(nm, z)); }
    }
    c.describe("layers" + d.str()); auto three = [&](const std::string& w) { c.eq(m.layers().size(), n, w + ": layers of the model"); if (m.layers().size() == n) for (size_t i = 0; i < n; ++i) c.check(m.layers()[i] == l[i], w + ": layer " + std::to_string(i)); };
    three("after the insertions"); c.eq(m.input_layers().size(), n, "unconnected layers are inputs"); c.eq(m.output_layers().size(), n, "unconnected layers are outputs");
    size_t edges = 0; for (size_t i = 0; i + 1 < n; ++i) if (l[i]->output_size() == l[i + 1]->input_size()) { m.create_edge(l[i], l[i + 1]); if (dup) m.create_edge(l[i], l[i + 1]); ++edges; }
    three("after the edges"); c.eq(m.input_layers().size(), n - edges, "inputs"); c.eq(m.output_layers().size(), n - edges, "outputs"); c.nontrivial(); c.state(mc::Hash().add(d.str()));
    if (edges != n - 1) return;
    for (auto& q: l) for (size_t i = 0; i < q->param_count(); ++i) q->param(i) = 0.25 * double(i % 5) - 0.5; std::vector<double> x(l[0]->input_size(), 0.5); x[0] = -1; std::vector<double> want = x; for (auto& q: l) { auto k = q->clone(); std::vector<double> in = want; want = k->forward(in); } c.vapprox(m.predict(x), want, "prediction of the chain");
}
MC_MAIN({"names", names}, {"more", more}, {"programs", programs}, {"digraphs", digraphs}, {"forests", forests}, {"widths", widths}, {"many", many})

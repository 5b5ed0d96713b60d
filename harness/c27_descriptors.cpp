// C27: a network built from layer descriptors is exactly the layers they list.
#include "middleware/fnn.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t; using LP = std::shared_ptr<Layer>;
using AT = ActivationType; using PL = ParallelizationLevel; using EL = LossType; using IT = InitType; using OT = OptimizerType; using LT = LayerType;
static double grid(size_t i, size_t salt) { return (double((i * 37 + salt * 23 + 5) % 83) - 41) / 64; }
static V vals(size_t n, size_t salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = grid(i, salt); return v; }
// ---- the description, as plain numbers ----
struct Sh { size_t h, w, c; size_t n() const { return h * w * c; } };
struct Spec { LT t; size_t units = 0, nf = 0, kh = 0, kw = 0, sh = 1, sw = 1, ph = 0, pw = 0; double p = 0; AT a = AT::Linear; };
static const Spec KINDS[] = {
    {LT::Dense, 2}, {LT::Dense, 3},
    {LT::Conv, 0, 2, 2, 1}, {LT::Conv, 0, 1, 1, 2, 1, 1, 1, 0}, {LT::Conv, 0, 3, 2, 2, 2, 1, 1, 1},
    {LT::MaxPool, 0, 0, 1, 2}, {LT::MaxPool, 0, 0, 2, 1, 1, 1}, {LT::AvgPool, 0, 0, 2, 2, 1, 1}, {LT::AvgPool, 0, 0, 2, 1, 2, 1},
    {LT::Dropout, 0, 0, 0, 0, 1, 1, 0, 0, 0.0}, {LT::Dropout, 0, 0, 0, 0, 1, 1, 0, 0, 1.0}};
static const size_t NK = sizeof KINDS / sizeof *KINDS;
static const AT ACTS[] = {AT::ReLU, AT::ELU, AT::Softmax, AT::TanH, AT::Sigmoid, AT::Linear, AT::None};
static const char* AN[] = {"relu", "elu", "softmax", "tanh", "sigmoid", "linear", "none"};
static std::string name(const Spec& s)
{
    std::ostringstream o; switch (s.t) { case LT::Dense: o << "dense " << s.units; break; case LT::Conv: o << "conv " << s.nf << " filters"; break; case LT::MaxPool: o << "max pool"; break; case LT::AvgPool: o << "average pool"; break; case LT::Dropout: o << "dropout " << s.p; break; default: o << "input"; }
    if (s.kh) o << " kernel " << s.kh << "x" << s.kw << " stride " << s.sh << "x" << s.sw << " padding " << s.ph << "x" << s.pw; for (size_t i = 0; i < 7; ++i) if (ACTS[i] == s.a) o << " " << AN[i]; return o.str();
}
static bool out_shape(Sh in, const Spec& s, Sh& o)
{
    switch (s.t)
    {
        case LT::Dense: o = {s.units, 1, 1}; return true; case LT::Dropout: o = in; return true;
        case LT::Conv: if (in.h + 2 * s.ph < s.kh || in.w + 2 * s.pw < s.kw) return false; o = {(in.h + 2 * s.ph - s.kh) / s.sh + 1, (in.w + 2 * s.pw - s.kw) / s.sw + 1, s.nf}; return true;
        default: if (in.h < s.kh || in.w < s.kw) return false; o = {(in.h - s.kh) / s.sh + 1, (in.w - s.kw) / s.sw + 1, in.c}; return true;
    }
}
static LayerDescriptor descriptor(const Spec& s, const std::string& n)
{
    switch (s.t)
    {
        case LT::Dense: return s.a == AT::Linear ? Dense(n, s.units) : Dense(n, s.units, s.a);
        case LT::Conv: if (s.ph || s.pw) return Conv(n, {s.nf, S2(s.kh, s.kw), S2(s.sh, s.sw), S2(s.ph, s.pw)}, s.a); if (s.sh != 1 || s.sw != 1) return Conv(n, {s.nf, S2(s.kh, s.kw), S2(s.sh, s.sw)}, s.a); return Conv(n, {s.nf, S2(s.kh, s.kw)}, s.a);
        case LT::MaxPool: if (s.sh == 1 && s.sw == 1) return MaxPool(n, {S2(s.kh, s.kw)}, s.a); return MaxPool(n, {S2(s.kh, s.kw), S2(s.sh, s.sw)}, s.a);
        case LT::AvgPool: if (s.sh == 1 && s.sw == 1) return AvgPool(n, {S2(s.kh, s.kw)}, s.a); return AvgPool(n, {S2(s.kh, s.kw), S2(s.sh, s.sw)}, s.a);
        default: return Dropout(n, s.p, s.a);
    }
}
// ---- the reference: the layers' mathematics in plain loops, parameters as the library draws them ----
struct Ref
{
    struct L { Spec s; Sh in, out; V w, b; };
    std::vector<L> ls; Sh in;
    void add(const Spec& s) { L l; l.s = s; l.in = ls.empty() ? in : ls.back().out; out_shape(l.in, s, l.out); if (s.t == LT::Dense) { l.w.assign(l.in.n() * s.units, 0); l.b.assign(s.units, 0); } if (s.t == LT::Conv) { l.w.assign(s.kh * s.kw * l.in.c * s.nf, 0); l.b.assign(s.nf, 0); } ls.push_back(l); }
    size_t out() const { return ls.back().out.n(); }
    // the same layers, made one by one, draw the same parameters from the same seed
    void draw(IT it, RneType::result_type seed)
    {
        Model m("d"); std::vector<LP> made; LP prev; auto next = [&](LP l) { if (prev) m.create_edge(prev, l); prev = l; };
        for (auto& l: ls)
        {
            if (l.s.t == LT::Dense) { next(m.add_layer<DenseLayer>("x", l.in.n(), l.s.units)); made.push_back(prev); }
            else if (l.s.t == LT::Conv) { next(m.add_layer<ConvolutionalLayer>("x", S3(l.in.h, l.in.w, l.in.c), S2(l.s.kh, l.s.kw), l.s.nf, S2(l.s.sh, l.s.sw), S2(l.s.ph, l.s.pw))); made.push_back(prev); }
            else made.push_back(nullptr);
            size_t n = l.out.n(); switch (l.s.a) { case AT::ReLU: next(m.add_layer<ReluLayer>("a", n)); break; case AT::ELU: next(m.add_layer<EluLayer>("a", n)); break; case AT::Softmax: next(m.add_layer<SoftmaxLayer>("a", n)); break; case AT::TanH: next(m.add_layer<TanhLayer>("a", n)); break; case AT::Sigmoid: next(m.add_layer<SigmoidLayer>("a", n)); break; default: next(m.add_layer<LinearLayer>("a", n)); }
        }
        m.init(it == IT::HE_INIT ? Model::InitializationFunction::KAIMING : it == IT::XAVIER_INIT ? Model::InitializationFunction::XAVIER : Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, seed);
        for (size_t k = 0; k < ls.size(); ++k) if (made[k]) { L& l = ls[k]; for (size_t i = 0; i < l.w.size(); ++i) l.w[i] = made[k]->param(i); for (size_t i = 0; i < l.b.size(); ++i) l.b[i] = made[k]->param(l.w.size() + i); }
    }
    V eval(V x) const
    {
        for (auto& l: ls)
        {
            V y(l.out.n()); const Spec& s = l.s;
            if (s.t == LT::Dropout) y = x;
            else if (s.t == LT::Dense) for (size_t o = 0; o < s.units; ++o) { long double a = l.b[o]; for (size_t i = 0; i < x.size(); ++i) a += (long double)l.w[o * x.size() + i] * x[i]; y[o] = double(a); }
            else for (size_t r = 0; r < l.out.h; ++r) for (size_t c = 0; c < l.out.w; ++c) for (size_t f = 0; f < l.out.c; ++f)
            {
                long double a = s.t == LT::Conv ? l.b[f] : s.t == LT::MaxPool ? -1e300L : 0;
                for (size_t i = 0; i < s.kh; ++i) for (size_t j = 0; j < s.kw; ++j)
                {
                    long R = long(r * s.sh + i) - long(s.ph), C = long(c * s.sw + j) - long(s.pw); if (R < 0 || C < 0 || R >= long(l.in.h) || C >= long(l.in.w)) continue; size_t at = (size_t(R) * l.in.w + size_t(C)) * l.in.c;
                    if (s.t == LT::Conv) for (size_t q = 0; q < l.in.c; ++q) a += (long double)l.w[((i * s.kw + j) * l.in.c + q) * s.nf + f] * x[at + q]; else if (s.t == LT::MaxPool) a = std::max<long double>(a, x[at + f]); else a += x[at + f];
                }
                if (s.t == LT::AvgPool) a /= s.kh * s.kw; y[(r * l.out.w + c) * l.out.c + f] = double(a);
            }
            if (s.a == AT::Softmax) { long double m = -1e300L, z = 0; for (double v: y) m = std::max<long double>(m, v); for (double v: y) z += std::exp(v - m); for (double& v: y) v = double(std::exp(v - m) / z); }
            else for (double& v: y) switch (s.a) { case AT::ReLU: v = v > 0 ? v : 0; break; case AT::ELU: v = v > 0 ? v : std::expm1(v); break; case AT::TanH: v = std::tanh(v); break; case AT::Sigmoid: v = 1 / (1 + std::exp(-v)); break; default: break; }
            x = y;
        }
        return x;
    }
};
static const Sh INPUTS[] = {{3, 3, 1}, {2, 3, 2}, {4, 1, 1}, {1, 4, 2}};
static std::vector<V> probes(size_t n) { std::vector<V> r; r.push_back(V(n)); for (size_t i = 0; i < n; i += 1 + n / 6) { V v(n); v[i] = 1; r.push_back(v); } r.push_back(vals(n, 77)); r.push_back(vals(n, 31)); return r; }
template <class F> static void compare(Ctx& c, F&& predict, const Ref& r, const std::string& w)
{
    auto p = probes(r.in.n()); Dataset<double> in(p); Dataset<double> got = predict(in); c.eq(got.size(), p.size(), w + ": one row per entry"); c.eq(got.feature_size(), r.out(), w + ": width of a prediction"); for (size_t i = 0; i < p.size(); ++i) c.vapprox(got.entry(i), r.eval(p[i]), w + ": prediction " + std::to_string(i), 1e-9);
}
static std::string describe(const Sh& in, const std::vector<Spec>& s) { std::ostringstream o; o << "input " << in.h << "x" << in.w << "x" << in.c; for (auto& e: s) o << ", " << name(e); return o.str(); }
template <EL L, IT I> static void build(Ctx& c, const Sh& in, const std::vector<Spec>& s, bool flat, const std::string& w)
{
    Ref r; r.in = in; for (auto& e: s) r.add(e); r.draw(I, 7); NeuralNetworkDescriptor d; if (flat) d.push_back(Input("i", in.n())); else d.push_back(Input("i", S3(in.h, in.w, in.c))); for (size_t i = 0; i < s.size(); ++i) d.push_back(descriptor(s[i], "l" + std::to_string(i)));
    V row = vals(in.n() + r.out(), 3); std::set<SizeType> lab; for (size_t i = 0; i < r.out(); ++i) lab.insert(in.n() + i); Dataset<double> data(std::vector<V>{row}, 1, lab);
    { EdgeFeedforwardNeuralNetwork<L, I, PL::SEQUENTIAL, double> net("n"); for (auto& e: d) net.add(e); c.eq(net.input_size(), in.n(), w + ": input size"); c.eq(net.output_size(), r.out(), w + ": output size"); net.fit(data, OT::GRADIENT_DESCENT, 0, 1, 0.1, 7); compare(c, [&](Dataset<double>& x) { return net.predict(x); }, r, w); c.eq(net.input_size(), in.n(), w + ": input size after fit"); c.eq(net.output_size(), r.out(), w + ": output size after fit"); }
    { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, L, I, PL::SEQUENTIAL, double> net(d, "n"); net.fit(data, OT::ADAM, 0, 2, 0.1, 7); compare(c, [&](Dataset<double>& x) { return net.predict(x); }, r, w + " (static)"); }
    { DynamicFeedforwardNeuralNetwork<PL::SEQUENTIAL, double> net(d, "n"); net.compile(L, OT::ADAM, I); net.fit(data, 0, 1, 0.1, 7); compare(c, [&](Dataset<double>& x) { return net.predict(Framework::EDGE_LEARNING, x); }, r, w + " (run-time)"); }
    mc::Hash h; h.add(w); c.state(h); c.outcome(mc::Hash().add(r.eval(vals(in.n(), 77)))); c.step(s.size());
}
template <EL L> static void build(Ctx& c, size_t i, const Sh& in, const std::vector<Spec>& s, bool flat, const std::string& w) { if (i == 0) build<L, IT::AUTO>(c, in, s, flat, w); else if (i == 1) build<L, IT::HE_INIT>(c, in, s, flat, w); else build<L, IT::XAVIER_INIT>(c, in, s, flat, w); }
// every chain of layer kinds
static void chains(Ctx& c)
{
    size_t in = c.pick(4), n = 1 + c.pick(mc::thorough() ? 4 : 3); std::vector<Spec> s; Sh sh = INPUTS[in], o; size_t code = in; for (size_t i = 0; i < n; ++i) { size_t k = c.pick(NK); s.push_back(KINDS[k]); code = code * 13 + k; s.back().a = ACTS[(code + i) % 7]; if (!out_shape(sh, s.back(), o)) return; sh = o; }
    if (!c.begin()) return;
    std::string w = describe(INPUTS[in], s); c.describe(w); if (code % 2) build<EL::MSE>(c, code % 3, INPUTS[in], s, false, w); else build<EL::CCE>(c, code % 3, INPUTS[in], s, false, w); if (n > 1) c.nontrivial();
}
// every activation after every kind, twice
static void activations(Ctx& c)
{
    size_t a = c.pick(7), b = c.pick(7), k = c.pick(NK), q = c.pick(3), init = c.pick(3); bool cce = c.flag(), flat = c.flag(); size_t in = k == 0 && q == 0 ? 1 : 0; std::vector<Spec> s{KINDS[k], KINDS[q == 0 ? 0 : q == 1 ? 2 : 9]}; s[0].a = ACTS[a]; s[1].a = ACTS[b]; Sh sh = INPUTS[in], o; if (flat) sh = {sh.n(), 1, 1}; Sh first = sh; for (auto& e: s) { if (!out_shape(sh, e, o)) return; sh = o; }
    if (!c.begin()) return;
    std::string w = describe(first, s) + (cce ? ", cross entropy" : "") + ", initialisation " + std::to_string(init) + (flat ? ", flat" : ""); c.describe(w); if (cce) build<EL::CCE>(c, init, first, s, flat, w); else build<EL::MSE>(c, init, first, s, flat, w); c.nontrivial();
}
// settings and descriptors hold what was put into them last
struct Rec { size_t units[4]; size_t nf = 0, k[2] = {0, 0}, s[2] = {0, 0}, p[2] = {0, 0}; double dp = 0; };
static void same(Ctx& c, const LayerSetting& l, const Rec& r, const std::string& w)
{
    c.eq(l.units().size(), r.units[3], w + ": units"); c.eq(l.units().height(), r.units[0], w + ": units height"); c.eq(l.units().width(), r.units[1], w + ": units width"); c.eq(l.units().channels(), r.units[2], w + ": units channels"); c.eq(l.n_filters(), r.nf, w + ": filters"); c.eq(l.drop_probability(), r.dp, w + ": drop probability");
    c.check(l.kernel_shape().height() == r.k[0] && l.kernel_shape().width() == r.k[1], w + ": kernel"); c.check(l.stride().height() == r.s[0] && l.stride().width() == r.s[1], w + ": stride"); c.check(l.padding().height() == r.p[0] && l.padding().width() == r.p[1], w + ": padding");
}
static void put(LayerSetting& l, Rec& r, size_t op)
{
    auto two = [](size_t (&d)[2], size_t a, size_t b) { d[0] = a; d[1] = b; };
    switch (op)
    {
        case 0: l.units(S3(2, 3, 4)); r.units[0] = 2; r.units[1] = 3; r.units[2] = 4; r.units[3] = 24; break; case 1: l.units(size_t(5)); r.units[0] = 5; r.units[1] = r.units[2] = 1; r.units[3] = 5; break; case 2: l.n_filters(6); r.nf = 6; break; case 3: l.kernel_shape(S2(2, 3)); two(r.k, 2, 3); break;
        case 4: l.stride(S2(4, 5)); two(r.s, 4, 5); break; case 5: l.padding(S2(7, 8)); two(r.p, 7, 8); break; case 6: { double v = r.dp == 0.25 ? 1 : r.dp == 1 ? 0 : 0.25; l.drop_probability(v); r.dp = v; break; } default: l.kernel_shape(S2(9)); two(r.k, 9, 9); break;
    }
}
static void settings(Ctx& c)
{
    size_t ctor = c.pick(6), n = c.pick(mc::thorough() ? 6 : 5); std::vector<size_t> ops; for (size_t i = 0; i < n; ++i) ops.push_back(c.pick(9));
    if (!c.begin()) return;
    std::ostringstream w; w << "setting made by constructor " << ctor << ", changes"; for (size_t o: ops) w << " " << o; c.describe(w.str());
    Rec r{}; LayerSetting l; auto two = [](size_t (&d)[2], size_t a, size_t b) { d[0] = a; d[1] = b; }; auto un = [&](size_t h, size_t q, size_t ch) { r.units[0] = h; r.units[1] = q; r.units[2] = ch; r.units[3] = h * q * ch; };
    // "always 0 if the setting is not of that layer"
    switch (ctor) { case 0: un(0, 1, 1); break; case 1: l = LayerSetting(LayerShape(S3(1, 2, 3))); un(1, 2, 3); break; case 2: l = LayerSetting(LayerShape(size_t(4))); un(4, 1, 1); break; case 3: l = LayerSetting(3, S2(1, 2), S2(3, 4), S2(5, 6)); un(0, 1, 1); r.nf = 3; two(r.k, 1, 2); two(r.s, 3, 4); two(r.p, 5, 6); break; case 4: l = LayerSetting(S2(1, 2), S2(3, 4)); un(0, 1, 1); two(r.k, 1, 2); two(r.s, 3, 4); break; default: l = LayerSetting(0.75); un(0, 1, 1); r.dp = 0.75; }
    if (r.units[3] == 0) { r.units[0] = l.units().height(); r.units[1] = l.units().width(); r.units[2] = l.units().channels(); }
    same(c, l, r, "new setting"); LayerSetting other; Rec ro{}; { Rec z{}; z.units[0] = other.units().height(); z.units[1] = other.units().width(); z.units[2] = other.units().channels(); ro = z; } LayerDescriptor d("first", LT::Conv, l, AT::ELU);
    for (size_t o: ops) { if (o == 8) { std::swap(l, other); std::swap(r, ro); } else { put(l, r, o); } same(c, l, r, w.str()); same(c, other, ro, w.str() + " (the other)"); }
    c.eq(d.name(), std::string("first"), "descriptor name"); c.check(d.type() == LT::Conv && d.activation_type() == AT::ELU, "descriptor type"); d.setting(l); d.type(LT::AvgPool); d.activation_type(AT::Softmax); d.name("second"); put(l, r, 6); LayerDescriptor e(d); d.name("third"); d.setting(other);
    same(c, d.setting(), ro, "descriptor setting"); c.eq(d.name(), std::string("third"), "descriptor name"); c.eq(e.name(), std::string("second"), "copied descriptor name"); c.check(e.type() == LT::AvgPool && e.activation_type() == AT::Softmax, "copied descriptor type"); mc::Hash h; h.add(ctor); for (size_t o: ops) h.add(o); c.state(h); c.step(n); if (n) c.nontrivial();
}
// a network from a descriptor changed after its construction, and networks made layer by layer with refused uses in between
static void edited(Ctx& c)
{
    size_t from = c.pick(NK), to = c.pick(NK), a = c.pick(7), bad = c.pick(4); Sh sh = INPUTS[1], o; Spec s = KINDS[to]; s.a = ACTS[a]; if (!out_shape(sh, s, o)) return;
    if (!c.begin()) return;
    std::string w = name(KINDS[from]) + " changed into " + name(s) + ", refused use " + std::to_string(bad); c.describe(w); LayerDescriptor d = descriptor(KINDS[from], "x"); LayerSetting set; set.units(s.units); set.n_filters(s.nf); set.kernel_shape(S2(s.kh, s.kw)); set.stride(S2(s.sh, s.sw)); set.padding(S2(s.ph, s.pw)); set.drop_probability(s.p); d.type(s.t); d.setting(set); d.activation_type(s.a); d.name("y");
    Ref r; r.in = sh; r.add(s); Spec last = KINDS[1]; last.a = AT::TanH; r.add(last); r.draw(IT::AUTO, 9); V row = vals(sh.n() + r.out(), 3); std::set<SizeType> lab; for (size_t i = 0; i < r.out(); ++i) lab.insert(sh.n() + i); Dataset<double> data(std::vector<V>{row}, 1, lab);
    EdgeFeedforwardNeuralNetwork<EL::MSE, IT::AUTO, PL::SEQUENTIAL, double> net("n"); auto refused = [&](const std::string& q) { c.throws([&] { net.add(Input("again", S3(5, 5, 5))); }, q + ": an input layer that is not the first"); };
    if (bad == 1) c.throws([&] { net.fit(data, OT::ADAM, 1, 1, 0.1, 9); }, "a network without layers was trained");
    net.add(Input("i", S3(sh.h, sh.w, sh.c))); if (bad == 2) { refused(w); c.throws([&] { net.fit(data, OT::ADAM, 1, 1, 0.1, 9); }, "a network without layers was trained"); } net.add(d); if (bad == 3) refused(w); net.add(descriptor(last, "z")); if (bad == 3) refused(w);
    c.eq(net.input_size(), sh.n(), w + ": input size"); c.eq(net.output_size(), r.out(), w + ": output size"); net.fit(data, OT::GRADIENT_DESCENT, 0, 1, 0.1, 9); compare(c, [&](Dataset<double>& x) { return net.predict(x); }, r, w); mc::Hash h; h.add(w); c.state(h); c.step(4); c.nontrivial();
}
// run-time networks refuse to be trained or evaluated before they are compiled
static void uncompiled(Ctx& c)
{
    std::vector<size_t> ops; size_t n = c.pick(4); for (size_t i = 0; i < n; ++i) ops.push_back(c.pick(5));
    if (!c.begin()) return;
    std::ostringstream w; w << "run-time network, operations"; for (size_t o: ops) w << " " << o; c.describe(w.str()); Spec s = KINDS[0]; s.a = AT::TanH; Ref r; r.in = {2, 2, 1}; r.add(s); V row = vals(6, 3); Dataset<double> data(std::vector<V>{row}, 1, {4, 5}); NeuralNetworkDescriptor d{Input("i", S3(2, 2, 1)), descriptor(s, "x")}; DynamicFeedforwardNeuralNetwork<PL::SEQUENTIAL, double> net(d, "n"); bool compiled = false, drawn = false;
    for (size_t o: ops) switch (o)
    {
        case 0: if (compiled) { net.fit(data, 0, 1, 0.1, 3); if (!drawn) r.draw(IT::AUTO, 3); drawn = true; } else c.throws([&] { net.fit(data, 0, 1, 0.1, 3); }, w.str() + ": trained without being compiled"); break;
        case 1: if (compiled) { auto e = net.evaluate(data); V y = r.eval(data.input(0)), t = data.label(0); double l = 0; for (size_t i = 0; i < 2; ++i) l += (y[i] - t[i]) * (y[i] - t[i]) / 2; c.approx(e.at(Framework::EDGE_LEARNING).loss, l, w.str() + ": loss", 1e-9); } else c.throws([&] { net.evaluate(data); }, w.str() + ": evaluated without being compiled"); break;
        case 2: net.compile(); compiled = true; drawn = false; r.ls.clear(); r.add(s); break;
        case 3: net.compile(Framework::EDGE_LEARNING, EL::MSE, OT::GRADIENT_DESCENT, IT::AUTO); compiled = true; drawn = false; r.ls.clear(); r.add(s); break;
        default: compare(c, [&](Dataset<double>& x) { return net.predict(x).at(Framework::EDGE_LEARNING); }, r, w.str()); compiled = true; break;
    }
    mc::Hash h; for (size_t o: ops) h.add(o); c.state(h); c.step(n); if (n > 1) c.nontrivial();
}
// a run-time network whose description is not valid refuses every call, whatever was tried before
static void misplaced(Ctx& c)
{
    size_t before = c.in(1, 3), after = c.pick(3), kind = c.pick(3); std::vector<size_t> ops; size_t n = c.in(1, 4); for (size_t i = 0; i < n; ++i) ops.push_back(c.pick(6));
    if (!c.begin()) return;
    std::ostringstream w; w << "run-time network with an input layer at " << before << ", " << after << " layers behind, operations"; for (size_t o: ops) w << " " << o; c.describe(w.str());
    NeuralNetworkDescriptor d; if (kind == 1) d.push_back(descriptor(KINDS[0], "first")); else d.push_back(Input("i", S3(2, 2, 1))); Spec s = KINDS[0]; s.a = AT::TanH; for (size_t i = 1; i < before; ++i) d.push_back(descriptor(s, "x")); d.push_back(Input("again", kind == 2 ? S3(1, 1, s.units) : S3(2, 2, 1))); for (size_t i = 0; i < after; ++i) d.push_back(descriptor(s, "y"));
    V row = vals(6, 3); Dataset<double> data(std::vector<V>{row}, 1, {4, 5}), in(V{1, 2, 3, 4}, 4); DynamicFeedforwardNeuralNetwork<PL::SEQUENTIAL, double> net(d, "n");
    for (size_t o: ops) switch (o)
    {
        case 0: c.throws([&] { net.compile(); }, w.str() + ": compiled"); break;
        case 1: c.throws([&] { net.compile(Framework::EDGE_LEARNING, EL::CCE, OT::GRADIENT_DESCENT, IT::HE_INIT); }, w.str() + ": compiled for one framework"); break;
        case 2: c.throws([&] { net.fit(data, 1, 1, 0.1, 3); }, w.str() + ": trained"); break;
        case 3: c.throws([&] { net.evaluate(data); }, w.str() + ": evaluated"); break;
        case 4: c.throws([&] { net.predict(in); }, w.str() + ": predicted"); break;
        default: c.throws([&] { net.predict(Framework::EDGE_LEARNING, in); }, w.str() + ": predicted with one framework"); break;
    }
    mc::Hash h; h.add(before); h.add(after); for (size_t o: ops) h.add(o); c.state(h); c.step(n); c.nontrivial();
}
// long and wide descriptions
static void large(Ctx& c)
{
    size_t what = c.pick(3), salt = c.pick(4), init = c.pick(3); size_t n = 0; static const std::vector<size_t> LEN{5, 8, 9, 11, 12, 16, 33, 65}, WID{16, 33, 65, 128, 257}; n = c.of(what == 0 ? LEN : what == 1 ? WID : std::vector<size_t>{8, 12, 17, 28});
    if (!c.begin()) return;
    std::vector<Spec> s; Sh in{4, 4, 2}; Sh sh = in, o; auto put = [&](Spec e, AT a) { e.a = a; if (!out_shape(sh, e, o)) return; sh = o; s.push_back(e); };
    if (what == 0) { for (size_t i = 0; i < n; ++i) { Spec e = KINDS[(i * 7 + salt * 3 + i / 3) % NK]; if (i % 4 == 3) { e = KINDS[i % 2]; e.units = 3 + (i + salt) % 4; } if (sh.c > 8 && e.t == LT::Conv) e.nf = 1; if (!out_shape(sh, e, o)) { e = KINDS[9]; } put(e, ACTS[(i + salt) % 2 ? 3 : (i + salt) % 7]); } }
    else if (what == 1) { Spec e = KINDS[0]; e.units = n; put(e, ACTS[salt]); e.units = n / 2 + salt; put(e, AT::TanH); e.units = 3; put(e, AT::Softmax); }
    else { in = {n, n + salt, 1 + salt % 2}; sh = in; Spec e{LT::Conv, 0, 3 + salt * 4, 3, 4, 1, 2, 1, 2}; put(e, AT::ReLU); Spec q{salt % 2 ? LT::AvgPool : LT::MaxPool, 0, 0, 2, 3, 2, 2}; put(q, AT::TanH); Spec f{LT::Conv, 0, 2, 2, 2, 1, 1}; put(f, AT::ELU); Spec g = KINDS[0]; g.units = 10; put(g, AT::Sigmoid); }
    std::string w = describe(in, s); if (w.size() > 300) w = w.substr(0, 300) + "... " + std::to_string(s.size()) + " layers"; c.describe(w); if (salt % 2) build<EL::MSE>(c, init, in, s, false, w); else build<EL::CCE>(c, init, in, s, false, w); c.nontrivial();
}
MC_MAIN({"large", large}, {"chains", chains}, {"activations", activations}, {"settings", settings}, {"edited", edited}, {"uncompiled", uncompiled}, {"misplaced", misplaced})

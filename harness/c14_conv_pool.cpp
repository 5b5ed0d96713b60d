// C14: convolution and pooling of every small geometry against the definition.
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "mc.hpp"
#include <memory>
using namespace EdgeLearning;
using mc::Ctx;
using V = std::vector<double>; using S2 = DLMath::Shape2d; using S3 = DLMath::Shape3d; using std::size_t;
struct Geo { size_t h, w, ch, kh, kw, sh, sw, ph, pw, nf; size_t oh() const { return (h + 2 * ph - kh) / sh + 1; } size_t ow() const { return (w + 2 * pw - kw) / sw + 1; } };
static V vals(size_t n, int pat, size_t salt)
{
    V v(n); for (size_t i = 0; i < n; ++i) v[i] = pat == 0 ? double(i + 1) : pat == 1 ? -double(n - i) - 0.5 : pat == 2 ? double((i * 37 + salt * 11 + 5) % 23) - 11 : -double((i * 29 + salt) % 19) - 1;
    return v;
}
static V ref_conv(const Geo& g, const V& x, const V& w, const V& b)
{
    V o(g.oh() * g.ow() * g.nf);
    for (size_t r = 0; r < g.oh(); ++r) for (size_t q = 0; q < g.ow(); ++q) for (size_t f = 0; f < g.nf; ++f)
    {
        double s = b.empty() ? 0 : b[f];
        for (size_t a = 0; a < g.kh; ++a) for (size_t d = 0; d < g.kw; ++d)
        {
            long y = long(r * g.sh + a) - long(g.ph), z = long(q * g.sw + d) - long(g.pw); if (y < 0 || z < 0 || y >= long(g.h) || z >= long(g.w)) continue;
            for (size_t e = 0; e < g.ch; ++e) s += x[(size_t(y) * g.w + size_t(z)) * g.ch + e] * w[((a * g.kw + d) * g.ch + e) * g.nf + f];
        }
        o[(r * g.ow() + q) * g.nf + f] = s;
    }
    return o;
}
static V ref_pool(const Geo& g, const V& x, bool mx)
{
    V o(g.oh() * g.ow() * g.ch);
    for (size_t r = 0; r < g.oh(); ++r) for (size_t q = 0; q < g.ow(); ++q) for (size_t e = 0; e < g.ch; ++e)
    {
        double s = mx ? -1e300 : 0; for (size_t a = 0; a < g.kh; ++a) for (size_t d = 0; d < g.kw; ++d) { double v = x[((r * g.sh + a) * g.w + q * g.sw + d) * g.ch + e]; if (mx) s = std::max(s, v); else s += v; }
        o[(r * g.ow() + q) * g.ch + e] = mx ? s : s / double(g.kh * g.kw);
    }
    return o;
}
struct Block { std::unique_ptr<double[]> p; size_t n; explicit Block(const V& v) : p(new double[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p.get()); } V vec() const { return {p.get(), p.get() + n}; } };
static void drive(Ctx& c, Layer& l, const Geo& g, const V& x, const V& want, size_t och, const V& params, const std::string& name)
{
    c.eq(l.input_size(), g.h * g.w * g.ch, name + " input size"); c.eq(l.output_size(), want.size(), name + " output size");
    c.eq(l.output_shape().height(), g.oh(), name + " output height"); c.eq(l.output_shape().width(), g.ow(), name + " output width"); c.eq(l.output_shape().channels(), och, name + " output channels");
    V in = x; V other = vals(x.size(), 2, 77);
    for (int k = 0; k < 2; ++k)
    {
        c.vapprox(k ? l.training_forward(in) : l.forward(in), want, name + (k ? " training forward" : " forward")); c.vapprox(l.last_output(), want, name + " last output"); c.veq(in, x, name + " input unchanged");
        l.forward(other);
    }
    c.vapprox(l.forward(in), want, name + " forward after another input");
    for (size_t i = 0; i < params.size(); ++i) if (l.param(i) != params[i]) c.fail(name + " parameter changed by forward");
}
static void check_conv(Ctx& c, const Geo& g, int pat, bool resized)
{
    size_t kn = g.kh * g.kw * g.ch * g.nf; V x = vals(g.h * g.w * g.ch, pat, 1), w = vals(kn, 2, 3), b = vals(g.nf, 2, 8), p = w; p.insert(p.end(), b.begin(), b.end());
    auto sh = ConvolutionalLayer::calculate_output_shape(S3(g.h, g.w, g.ch), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw), g.nf);
    c.check(sh.height() == g.oh() && sh.width() == g.ow() && sh.channels() == g.nf, "calculate_output_shape of the convolution");
    S3 in(g.h, g.w, g.ch); ConvolutionalLayer l("conv", resized ? S3(g.kh, g.kw, 1) : in, S2(g.kh, g.kw), g.nf, S2(g.sh, g.sw), S2(g.ph, g.pw)); if (resized) l.input_shape(LayerShape(in));
    c.eq(l.param_count(), p.size(), "convolution parameter count"); if (l.param_count() == p.size()) for (size_t i = 0; i < p.size(); ++i) l.param(i) = p[i];
    drive(c, l, g, x, ref_conv(g, x, w, b), g.nf, p, "convolution");
    Block bx(x), bw(w), out(V(g.oh() * g.ow() * g.nf, -7)); auto want = ref_conv(g, x, w, {});
    DLMath::cross_correlation<double>(out.p.get(), bx.p.get(), in, bw.p.get(), S2(g.kh, g.kw), g.nf, S2(g.sh, g.sw), S2(g.ph, g.pw)); c.vapprox(out.vec(), want, "cross_correlation");
    if (g.nf == 1) { Block o2(V(out.n, -7)); DLMath::cross_correlation<double>(o2.p.get(), bx.p.get(), in, bw.p.get(), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw)); c.vapprox(o2.vec(), want, "cross_correlation of one filter");
        if (g.ch == 1) { Block o3(V(out.n, -7)); DLMath::cross_correlation<double>(o3.p.get(), bx.p.get(), S2(g.h, g.w), bw.p.get(), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw)); c.vapprox(o3.vec(), want, "cross_correlation of a matrix"); } }
    c.veq(bx.vec(), x, "source unchanged"); c.veq(bw.vec(), w, "kernel unchanged"); c.outcome(mc::Hash().add(want));
}
static void check_pool(Ctx& c, Geo g, int pat, bool resized)
{
    g.ph = g.pw = 0; g.nf = g.ch; V x = vals(g.h * g.w * g.ch, pat, 1); S3 in(g.h, g.w, g.ch), first = resized ? S3(g.kh, g.kw, 1) : in; S2 k(g.kh, g.kw), s(g.sh, g.sw);
    auto sh = MaxPoolingLayer::calculate_output_shape(in, k, s); c.check(sh.height() == g.oh() && sh.width() == g.ow() && sh.channels() == g.ch, "calculate_output_shape of the pooling");
    auto wm = ref_pool(g, x, true), wa = ref_pool(g, x, false);
    MaxPoolingLayer m("max", first, k, s); AveragePoolingLayer a("avg", first, k, s); if (resized) { m.input_shape(LayerShape(in)); a.input_shape(LayerShape(in)); }
    drive(c, m, g, x, wm, g.ch, {}, "max pooling"); drive(c, a, g, x, wa, g.ch, {}, "average pooling");
    Block bx(x), o(V(wm.size(), -7)), q(V(wm.size(), -7)); DLMath::max_pool<double>(o.p.get(), bx.p.get(), in, k, s); c.vapprox(o.vec(), wm, "max_pool"); DLMath::avg_pool<double>(q.p.get(), bx.p.get(), in, k, s); c.vapprox(q.vec(), wa, "avg_pool"); c.veq(bx.vec(), x, "source unchanged"); c.outcome(mc::Hash().add(wm));
}
static Geo geo(Ctx& c, int side, int chn, int ker, int str, int pad, int fil)
{
    Geo g; g.h = size_t(c.in(1, side)); g.w = size_t(c.in(1, side)); g.ch = size_t(c.in(1, chn)); g.ph = size_t(c.in(0, pad)); g.pw = size_t(c.in(0, pad));
    g.kh = size_t(c.in(1, std::min(ker, int(g.h + 2 * g.ph)))); g.kw = size_t(c.in(1, std::min(ker, int(g.w + 2 * g.pw)))); g.sh = size_t(c.in(1, str)); g.sw = size_t(c.in(1, str)); g.nf = size_t(c.in(1, fil)); return g;
}
static std::string show(const Geo& g) { std::ostringstream o; o << g.h << "x" << g.w << "x" << g.ch << " kernel " << g.kh << "x" << g.kw << " stride " << g.sh << "x" << g.sw << " padding " << g.ph << "x" << g.pw << " filters " << g.nf; return o.str(); }
static void conv(Ctx& c)
{
    bool t = mc::thorough(); Geo g = geo(c, t ? 5 : 4, 2, 3, t ? 3 : 2, t ? 2 : 1, 2); bool rs = c.flag(); int pat = t ? c.in(0, 3) : 2;
    if (!c.begin()) return;
    c.describe("convolution " + show(g)); check_conv(c, g, pat, rs); if (g.h * g.w > 1) c.nontrivial();
}
static void conv_wide(Ctx& c)      // larger values of each dimension
{
    static const std::vector<size_t> SD{1, 2, 5, 7, 8}, KS{1, 2, 4, 5}, ST{1, 3, 5}, PD{0, 1, 2, 3};
    Geo g; g.h = c.of(SD); g.w = c.of(SD); g.ch = c.of(std::vector<size_t>{1, 3}); g.ph = c.of(PD); g.pw = c.of(PD); g.kh = c.of(KS); g.kw = c.of(KS); g.sh = c.of(ST); g.sw = c.of(ST); g.nf = c.of(std::vector<size_t>{1, 3});
    if (g.kh > g.h + 2 * g.ph || g.kw > g.w + 2 * g.pw) return;
    if (!c.begin()) return;
    c.describe("convolution " + show(g)); check_conv(c, g, 2, false); c.nontrivial();
}
static void pool(Ctx& c)
{
    bool t = mc::thorough(); Geo g = geo(c, t ? 7 : 6, 3, t ? 5 : 4, 3, 0, 1); bool rs = c.flag(); int pat = c.in(0, 3);
    if (!c.begin()) return;
    c.describe("pooling " + show(g)); check_pool(c, g, pat, rs); if (g.h * g.w > 1) c.nontrivial();
}
// every assignment of a few values to small inputs (ties, negatives, zeros)
static void pool_values(Ctx& c)
{
    static const std::vector<std::vector<size_t>> G{{1, 2, 1, 1, 2, 1, 1}, {2, 2, 1, 2, 2, 1, 1}, {2, 3, 1, 2, 2, 1, 1}, {1, 3, 2, 1, 2, 1, 1}, {3, 2, 1, 2, 2, 1, 2}};
    auto q = c.of(G); Geo g{q[0], q[1], q[2], q[3], q[4], q[5], q[6], 0, 0, q[2]}; V x; for (size_t i = 0; i < g.h * g.w * g.ch; ++i) x.push_back(c.of(V{-2, 0, 3, -0.5}));
    if (!c.begin()) return;
    S3 in(g.h, g.w, g.ch); MaxPoolingLayer m("m", in, S2(g.kh, g.kw), S2(g.sh, g.sw)); AveragePoolingLayer a("a", in, S2(g.kh, g.kw), S2(g.sh, g.sw)); c.vapprox(m.forward(x), ref_pool(g, x, true), "max pooling of " + Ctx::show(x)); c.vapprox(a.forward(x), ref_pool(g, x, false), "average pooling of " + Ctx::show(x)); c.nontrivial();
}
static void large(Ctx& c)
{
    static const std::vector<size_t> SD{16, 28, 33}, KS{2, 3, 7, 11}, ST{1, 2, 4}, CH{1, 3, 8}; Geo g; g.h = c.of(SD); g.w = c.of(SD); g.ch = c.of(CH); g.kh = c.of(KS); g.kw = c.of(KS); g.sh = c.of(ST); g.sw = g.sh; g.ph = c.pick(2) * 2; g.pw = g.ph; g.nf = c.of(std::vector<size_t>{1, 6}); int k = c.in(0, 1);
    if (!mc::thorough() && g.ch == 8 && g.nf == 6 && g.kh * g.kw > 30) return;
    if (k && (g.ph || g.nf > 1)) return;
    if (!c.begin()) return;
    c.describe(show(g)); if (k) check_pool(c, g, 2, false); else check_conv(c, g, 2, false); c.nontrivial();
}
// one or two dimensions much larger than the others
static void strips(Ctx& c)
{
    static const std::vector<size_t> BIG[10] = {{70, 300}, {65, 257}, {17, 64, 130}, {9, 40}, {8, 30}, {9, 64}, {7, 33}, {5, 20}, {6, 17}, {16, 65, 129}};
    size_t d[10] = {5, 4, 2, 2, 3, 1, 2, 1, 0, 3}, a = c.pick(10), b = c.pick(10); if (b < a) return;
    bool pooled = c.flag(); if (pooled && (a >= 7 || b >= 7)) return; d[a] = c.of(BIG[a]); if (a != b) d[b] = c.of(BIG[b]); if (pooled) d[7] = d[8] = 0;
    Geo g{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]}; if (g.kh > g.h + 2 * g.ph || g.kw > g.w + 2 * g.pw) return;
    if (!c.begin()) return;
    c.describe((pooled ? "pooling " : "convolution ") + show(g)); if (pooled) check_pool(c, g, 2, false); else check_conv(c, g, 2, false); c.nontrivial();
}
// the same results at every magnitude of the input (and of the biases), negative maxima included
static void scales(Ctx& c)
{
    static const std::vector<std::vector<size_t>> G{{4, 4, 1, 2, 2, 1, 1}, {4, 6, 2, 2, 3, 2, 3}, {3, 3, 3, 3, 3, 1, 1}, {5, 4, 1, 1, 2, 2, 1}, {6, 6, 2, 2, 2, 2, 2}, {1, 5, 1, 1, 1, 1, 1}};
    auto q = c.of(G); int pat = c.in(0, 3); int e = c.of(std::vector<int>{-300, -120, -60, -40, -30, -20, -10, 10, 20, 24, 30, 40, 60, 120, 300}); size_t pad = c.pick(2);
    if (!c.begin()) return;
    Geo g{q[0], q[1], q[2], q[3], q[4], q[5], q[6], pad, pad, 2}; S3 in(g.h, g.w, g.ch); S2 k(g.kh, g.kw), s(g.sh, g.sw); c.describe(show(g) + " of values times 2^" + std::to_string(e)); c.nontrivial();
    auto up = [e](V v) { for (auto& z: v) z = std::ldexp(z, e); return v; }; auto down = [e](V v) { for (auto& z: v) z = std::ldexp(z, -e); return v; };
    V x = vals(g.h * g.w * g.ch, pat, 1), w = vals(g.kh * g.kw * g.ch * g.nf, 2, 3), b = vals(g.nf, 2, 8), bs = up(b), xs = up(x);
    for (int weights = 0; weights < 2; ++weights)
    {
        V ws = weights ? up(w) : w, xx = weights ? x : xs; ConvolutionalLayer l("conv", in, k, g.nf, s, S2(pad, pad)); for (size_t i = 0; i < w.size(); ++i) l.param(i) = ws[i]; for (size_t i = 0; i < b.size(); ++i) l.param(w.size() + i) = bs[i];
        c.vapprox(down(l.forward(xx)), ref_conv(g, x, w, b), weights ? "convolution with scaled weights" : "convolution of scaled inputs"); c.vapprox(down(l.training_forward(xx)), ref_conv(g, x, w, b), "training forward of the convolution");
        Block bx(xx), bw(ws), out(V(g.oh() * g.ow() * g.nf, -7)); DLMath::cross_correlation<double>(out.p.get(), bx.p.get(), in, bw.p.get(), k, g.nf, s, S2(pad, pad)); c.vapprox(down(out.vec()), ref_conv(g, x, w, {}), "cross_correlation");
    }
    if (pad) return;
    g.nf = g.ch; MaxPoolingLayer m("max", in, k, s); AveragePoolingLayer a("avg", in, k, s); auto wm = ref_pool(g, x, true), wa = ref_pool(g, x, false);
    c.vapprox(down(m.forward(xs)), wm, "max pooling"); c.vapprox(down(a.forward(xs)), wa, "average pooling"); c.vapprox(down(m.training_forward(xs)), wm, "max pooling in training"); c.vapprox(down(a.training_forward(xs)), wa, "average pooling in training");
    Block bx(xs), o(V(wm.size(), -7)), r(V(wm.size(), -7)); DLMath::max_pool<double>(o.p.get(), bx.p.get(), in, k, s); c.vapprox(down(o.vec()), wm, "max_pool"); DLMath::avg_pool<double>(r.p.get(), bx.p.get(), in, k, s); c.vapprox(down(r.vec()), wa, "avg_pool");
}
MC_MAIN({"scales", scales}, {"conv", conv}, {"conv_wide", conv_wide}, {"pool", pool}, {"pool_values", pool_values}, {"large", large}, {"strips", strips})

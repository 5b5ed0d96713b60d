// C22: the task-parallel dense kernels under every schedule of their tasks, against the sequential kernels and the definition.
#include "race.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/dense.hpp"
using namespace EdgeLearning;
using mc::Ctx; using std::size_t;
template <class T> static T grid(size_t i, size_t salt) { return T((double((i * 37 + salt * 23 + 5) % 83) - 41) / 16); }
template <class T> static std::vector<T> vals(size_t n, size_t salt) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = grid<T>(i, salt); return v; }
template <class T> struct Data { std::vector<T> dst, src, w, b, ig, wg, bg, g; };
template <class T> static Data<T> make(size_t in, size_t out, size_t fill)
{
    // one element of room around each result
    Data<T> d; d.src = vals<T>(in, 1); d.w = vals<T>(in * out, 2); d.b = vals<T>(out, 3); d.g = vals<T>(out, 4);
    T f = T(fill == 0 ? 0 : 77); d.dst.assign(out + 2, f); d.ig.assign(in + 2, f); d.wg = vals<T>(in * out + 2, fill == 0 ? 5 : 6); d.bg = vals<T>(out + 2, fill == 0 ? 8 : 9); if (fill == 0) { d.wg.assign(in * out + 2, T(0)); d.bg.assign(out + 2, T(0)); } return d;
}
template <class T> static void definition(Data<T>& d, size_t in, size_t out, bool back, size_t calls)
{
    for (size_t c = 0; c < calls; ++c)
    {
        if (!back) for (size_t i = 0; i < out; ++i) { long double s = d.b[i]; for (size_t j = 0; j < in; ++j) s += (long double) d.w[i * in + j] * d.src[j]; d.dst[i + 1] = T(s); }
        else
        {
            for (size_t j = 0; j < in; ++j) { long double s = 0; for (size_t i = 0; i < out; ++i) s += (long double) d.g[i] * d.w[i * in + j]; d.ig[j + 1] = T(s); }
            for (size_t i = 0; i < out; ++i) { d.bg[i + 1] += d.g[i]; for (size_t j = 0; j < in; ++j) d.wg[1 + i * in + j] += d.g[i] * d.src[j]; }
        }
    }
}
template <class T> static std::vector<double> flat(const Data<T>& d) { std::vector<double> v; for (auto* x: {&d.dst, &d.src, &d.w, &d.b, &d.ig, &d.wg, &d.bg, &d.g}) v.insert(v.end(), x->begin(), x->end()); return v; }
template <class T> static void kernel(Data<T>& d, size_t in, size_t out, bool back, bool tasks, size_t calls, bool& ret)
{
    ret = true;
    for (size_t c = 0; c < calls; ++c)
        if (!back) { T* r = tasks ? DLMath::dense_thread_opt<T>(d.dst.data() + 1, d.src.data(), d.w.data(), d.b.data(), in, out) : DLMath::dense<T>(d.dst.data() + 1, d.src.data(), d.w.data(), d.b.data(), in, out); ret = ret && r == d.dst.data() + 1; }
        else { T* r = tasks ? DLMath::dense_1_thread_opt<T>(d.ig.data() + 1, d.wg.data() + 1, d.bg.data() + 1, d.g.data(), d.src.data(), d.w.data(), in, out) : DLMath::dense_1<T>(d.ig.data() + 1, d.wg.data() + 1, d.bg.data() + 1, d.g.data(), d.src.data(), d.w.data(), in, out); ret = ret && r == d.ig.data() + 1; }
}
template <class T> static void run(Ctx& c, bool back, size_t in, size_t out, size_t fill, size_t calls, size_t conc, unsigned bound, unsigned level)
{
    std::ostringstream w; w << (sizeof(T) == 4 ? "float" : "double") << (back ? " gradients " : " outputs ") << in << " inputs " << out << " outputs, fill " << fill << ", " << calls << " calls, concurrency " << conc << ", " << bound << " preemptions at level " << level; c.describe(w.str());
    BetterThreads::forced_concurrency() = conc; Data<T> ref = make<T>(in, out, fill), seq = ref; definition(ref, in, out, back, calls); bool ok = true; kernel(seq, in, out, back, false, calls, ok);
    auto want = flat(ref); c.check(ok, "the sequential kernel does not return its result"); c.vapprox(flat(seq), want, "sequential kernel", sizeof(T) == 4 ? 1e-4 : 1e-11);
    std::vector<double> got; bool ret = true;
    auto n = race::explore(c, bound, level, w.str(), [&] { Data<T> d = make<T>(in, out, fill); bool r = true; kernel(d, in, out, back, true, calls, r); rt::Pause p; auto f = flat(d); got.assign(f.begin(), f.end()); ret = r; },
        [&](const std::string& t) { c.check(ret, "the kernel does not return its result" + t); c.vapprox(got, want, "results after schedule" + t, sizeof(T) == 4 ? 1e-4 : 1e-11); c.state(mc::Hash().add(w.str()).add(t)); c.outcome(mc::Hash().add(got)); });
    if (n > 1) c.nontrivial();
}
template <class T> static void schedules_(Ctx& c, bool back, size_t in, size_t out, size_t fill, size_t calls, size_t conc, unsigned bound, unsigned level) { run<T>(c, back, in, out, fill, calls, conc, bound, level); }
// every schedule
static void schedules(Ctx& c)
{
    bool flt = c.flag(), back = c.flag(); size_t in = size_t(c.in(1, 5)), out = size_t(c.in(1, 5)), fill = c.pick(2), calls = size_t(c.in(1, 2)), conc = size_t(c.in(1, 2));
    size_t tasks = back ? in + out : out, most = mc::thorough() ? 6 : 5; if (calls == 2) most = most == 6 ? 4 : 3; if (bool(fill) != (conc == 2) && tasks == most) return; if (tasks > most) return; if (conc == 2 && tasks > 4) return;
    if (!c.begin()) return;
    if (flt) run<float>(c, back, in, out, fill, calls, conc, 100, 1); else run<double>(c, back, in, out, fill, calls, conc, 100, 1);
}
// preemptions at every access to memory two threads touch
static void preempted(Ctx& c)
{
    bool flt = c.flag(), back = c.flag(); size_t in = size_t(c.in(1, 3)), out = size_t(c.in(1, 3)), fill = c.pick(2); unsigned bound = unsigned(c.in(1, 2)); size_t work = in * out * (back ? 2 : 1); if (work > (bound == 1 ? back ? 8u : 12u : mc::thorough() ? 6u : 2u)) return;
    if (!c.begin()) return;
    if (flt) run<float>(c, back, in, out, fill, 1, 2, bound, 3); else run<double>(c, back, in, out, fill, 1, 2, bound, 3);
}
// sizes at which the work may be split differently: one order of the tasks, the detector on every access
static void sized(Ctx& c, const std::vector<size_t>& N, size_t most, size_t work)
{
    bool flt = c.flag(), back = c.flag(); size_t in = c.of(N), out = c.of(N), fill = c.pick(2), conc = 1 + c.pick(3) * 3; if ((back ? in + out : out) > most || in * out > work) return;
    if (!c.begin()) return;
    std::ostringstream w; w << "sizes " << flt << back << in << " " << out << " " << fill << " " << conc; c.describe(w.str()); BetterThreads::forced_concurrency() = conc;
    auto go = [&](auto t) { using T = decltype(t); Data<T> ref = make<T>(in, out, fill); definition(ref, in, out, back, 1); auto want = flat(ref); std::vector<double> got; bool ret = true; race::one(c, w.str(), [&] { Data<T> d = make<T>(in, out, fill); bool r = true; kernel(d, in, out, back, true, 1, r); rt::Pause p; auto f = flat(d); got.assign(f.begin(), f.end()); ret = r; }); c.check(ret, "the kernel does not return its result"); c.vapprox(got, want, "results", sizeof(T) == 4 ? 1e-3 : 1e-11); };
    if (flt) go(float(0)); else go(double(0)); c.nontrivial();
}
static void sizes(Ctx& c) { sized(c, {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31}, 60, 10000); }
static void large(Ctx& c) { sized(c, {1, 3, 32, 33, 63, 64, 65, 100, 127, 129, 257, 300}, 560, mc::thorough() ? 40000 : 9000); }
MC_MAIN({"schedules", schedules}, {"preempted", preempted}, {"sizes", sizes}, {"large", large})

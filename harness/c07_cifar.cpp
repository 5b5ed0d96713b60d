// C07: CIFAR reads.
#include "image_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
struct Conf { std::size_t n, lab; bool rcc; int pat; long cut; };
static std::vector<Conf> confs()
{
    std::vector<Conf> v;
    for (std::size_t lab: {1, 2}) for (bool rcc: {false, true}) { v.push_back({3, lab, rcc, 0, 0}); v.push_back({3, lab, rcc, 1, 0}); v.push_back({3, lab, rcc, 0, -1000}); }
    return v;
}
static const std::vector<Conf> CONFS = confs();
static Cifar open(const std::string& b, const std::string& m, const Conf& f)
{
    return Cifar(b, m, f.rcc ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL, f.lab == 2 ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, f.lab == 2 ? fs::path(m) : fs::path());
}
static U8 reorder(const U8& w, bool rcc)
{
    if (!rcc) return w;
    U8 q(w.size()); for (std::size_t p = 0; p < 1024; ++p) for (std::size_t ch = 0; ch < 3; ++ch) q[p * 3 + ch] = w[ch * 1024 + p];
    return q;
}
static void program(Ctx& c)
{
    static const std::vector<std::size_t> IDX{0, 1, 2, 3, 9999, 10000, 10001, 20002};
    const Conf& f = c.of(CONFS); const int depth = c.in(1, mc::thorough() ? 4 : 3); std::vector<std::size_t> prog; const std::size_t NI = depth >= 3 ? 6 : IDX.size(); for (int i = 0; i < depth; ++i) prog.push_back(c.pick(NI * 4));
    if (!c.begin()) return;
    Bytes b = cifar_file(f.n, f.pat, f.lab); b.resize(std::size_t(long(b.size()) + f.cut)); std::string fb = mc::scratch_file("b"), fm = mc::scratch_file("m"); static const Conf* last = nullptr;
    if (last != &f) { mc::write_file(fb, b); mc::write_file(fm, "x\ny\n"); last = &f; }
    Cifar x = open(fb, fm, f); std::vector<std::pair<CifarImage, U8>> kept; mc::Hash h; h.add(std::uint64_t(&f - CONFS.data()));
    std::string d = "labels " + std::to_string(f.lab) + (f.rcc ? " row-col-chn" : " chn-row-col") + " pattern " + std::to_string(f.pat) + " cut " + std::to_string(f.cut) + ":";
    for (auto op: prog)
    {
        c.step(); std::size_t i = IDX[op % NI], r = i % 10000, o = r * (f.lab + 3072); int k = int(op / NI);
        static const char* K[]{"image", "label", "item", "entry"}; std::string w = std::string(K[k]) + "(" + std::to_string(i) + ")"; d += " " + w; c.describe(d);
        bool hl = b.size() >= o + f.lab, hi = b.size() >= o + f.lab + 3072, want = k == 1 ? hl : hi, ok = true;
        U8 pi = hi ? reorder(slice(b, o + f.lab, 3072), f.rcc) : U8{}; int co = hl ? std::uint8_t(b[o]) : 0, fi = hl && f.lab == 2 ? std::uint8_t(b[o + 1]) : 0;
        auto lab = [&](const CifarLabel& l) { c.eq(int(l.data()), co, w + " label"); c.eq(int(l.coarse_label()), co, w + " coarse label"); c.eq(int(l.fine_label()), fi, w + " fine label"); c.eq(l.idx(), r, w + " idx");
            c.eq(std::string(l), f.lab == 2 ? "(" + std::to_string(co) + "," + std::to_string(fi) + ")" : std::to_string(co), w + " label text"); };
        try
        {
            if (k == 0) { auto im = x.image(i); if (hi) { same(c, im.data(), pi, w); c.eq(im.idx(), r, w + " idx"); kept.emplace_back(im, pi); } }
            else if (k == 1) { auto l = x.label(i); if (hl) lab(l); }
            else if (k == 2) { auto it = x[i]; if (hi) { same(c, it.image.data(), pi, w); lab(it.label); } }
            else { auto e = x.entry(i); if (hi) { std::vector<NumType> q(pi.begin(), pi.end()); q.push_back(f.lab == 2 ? fi : co); c.veq(e, q, w); } }
        }
        catch (const mc::Violation&) { throw; }
        catch (const std::exception&) { ok = false; }
        c.eq(ok, want, w + " succeeds"); h.add(std::uint64_t(r)).add(k).add(ok); c.state(h);
    }
    for (auto& kp: kept) same(c, kp.first.data(), kp.second, "image kept from earlier");
    c.trace(); c.nontrivial();
}
// a full-size file: every pair of reads around the powers of two and the ends
static void many(Ctx& c)
{
    static const std::vector<std::size_t> AT{0, 1, 20, 21, 22, 127, 128, 255, 256, 257, 341, 1023, 1024, 4096, 5000, 9998, 9999, 10000, 10021, 19999, 30256, 3000022}; std::size_t lab = std::size_t(c.in(1, 2)), a = c.of(AT), b = c.of(AT); bool rcc = c.flag();
    if (!c.begin()) return;
    std::string fb = mc::scratch_file(lab == 2 ? "full2" : "full1"), fm = mc::scratch_file("fullm"); std::size_t rec = 3072 + lab; auto record = [&](std::size_t r) { Bytes x; x += char(r % 10); if (lab == 2) x += char(r % 100 + 3); for (std::size_t p = 0; p < 3072; ++p) x += char(pix(r, p, int(r % 2)) + r / 256); return x; };
    static bool made[3] = {}; if (!made[lab]) { made[lab] = true; mc::write_file(fm, "x\n"); std::ofstream o(fb, std::ios::binary); for (std::size_t i: AT) { o.seekp(long(i % 10000 * rec)); Bytes x = record(i % 10000); o.write(x.data(), long(x.size())); } o.seekp(long(9999 * rec)); Bytes x = record(9999); o.write(x.data(), long(x.size())); }
    c.describe("full file, " + std::to_string(lab) + " labels" + (rcc ? ", row-col-chn" : "") + ": read " + std::to_string(a) + " then " + std::to_string(b)); Conf f{10000, lab, rcc, 0, 0}; Cifar x = open(fb, fm, f);
    for (std::size_t i: {a, b, a})
    {
        std::size_t r = i % 10000; Bytes w = record(r); U8 pi = reorder(slice(w, lab, 3072), rcc); c.step(); int co = std::uint8_t(w[0]), fi = lab == 2 ? std::uint8_t(w[1]) : 0;
        auto im = x.image(i); same(c, im.data(), pi, "image"); c.eq(im.idx(), r, "image index"); auto l = x.label(i); c.eq(int(l.coarse_label()), co, "label"); c.eq(int(l.fine_label()), fi, "fine label"); c.eq(l.idx(), r, "label index");
        auto it = x[i]; same(c, it.image.data(), pi, "item image"); c.eq(int(it.label.data()), co, "item label"); auto e = x.entry(i); std::vector<NumType> q(pi.begin(), pi.end()); q.push_back(lab == 2 ? fi : co); c.veq(e, q, "entry");
    }
    c.trace(); c.nontrivial(); c.state(mc::Hash().add(std::uint64_t(lab)).add(std::uint64_t(a)).add(std::uint64_t(b)));
}
// shape, names and every label value
static void meta(Ctx& c)
{
    static const std::vector<std::string> N{"", "a", "a\n", "a\nb", "a\n\nb c\n", "\n\nx\ny\nz\n\n"}; std::string co = c.of(N), fi = c.of(N); bool cifar100 = c.flag(), fine = c.flag(), rcc = c.flag(); int v = c.in(0, 31);
    if (!c.begin()) return;
    c.describe("names " + Ctx::quote(co) + " / " + Ctx::quote(fi) + (cifar100 ? " 100" : " 10") + (fine ? " fine" : "")); c.trace(); c.step();
    std::string fb = mc::scratch_file("b3"), fc = mc::scratch_file("c3"), ff = mc::scratch_file("f3"); mc::write_file(fc, co); mc::write_file(ff, fi); bool two = cifar100 && fine;
    U8 vals; for (int k = 0; k < 8; ++k) vals.push_back(std::uint8_t(v * 8 + k));
    Bytes b; for (auto x: vals) { b += char(x); if (two) b += char(255 - x); b += Bytes(3072, char(x ^ 85)); }
    static std::string lastb; if (lastb != b) { mc::write_file(fb, b); lastb = b; }
    auto ref = [](const std::string& t) { std::vector<std::string> o; std::stringstream ss(t); std::string l; while (std::getline(ss, l)) if (!l.empty()) o.push_back(l); return o; };
    Cifar x(fb, fc, rcc ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL, cifar100 ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, fine ? fs::path(ff) : fs::path());
    c.veq(x.label_names(), ref(co), "label names"); c.veq(x.coarse_label_names(), ref(co), "coarse names"); c.veq(x.fine_label_names(), two ? ref(fi) : std::vector<std::string>{}, "fine names");
    auto s = x.shape(); std::vector<std::size_t> sh{std::get<0>(s), std::get<1>(s), std::get<2>(s)}; c.veq(sh, rcc ? std::vector<std::size_t>{32, 32, 3} : std::vector<std::size_t>{3, 32, 32}, "shape");
    c.eq(x.feature_size(), SizeType(3073), "feature size"); c.check(x.labels_idx() == std::set<SizeType>{3072}, "label index"); c.eq(x.entries_amount(), SizeType(x.size()), "entries");
    for (std::size_t i = 0; i < vals.size(); ++i) { auto l = x.label(i); c.eq(int(l.coarse_label()), int(vals[i]), "label"); c.eq(int(l.fine_label()), two ? 255 - int(vals[i]) : 0, "fine label"); c.state(mc::Hash().add(int(l.data())).add(two)); }
}
// perceived brightness through the text rendering: every colour renders as the
// grey of its brightness (rounded either way)
static void brightness(Ctx& c)
{
    int rr = c.in(0, mc::thorough() ? 255 : 51), gg = c.in(0, mc::thorough() ? 255 : 51); if (!mc::thorough()) { rr *= 5; gg *= 5; }
    if (!c.begin()) return;
    c.describe("red " + std::to_string(rr) + " green " + std::to_string(gg)); c.trace(); c.step();
    static std::string grey; std::string f = mc::scratch_file("g");
    if (grey.empty())
    {
        Bytes g; for (int ch = 0; ch < 3; ++ch) for (int p = 0; p < 1024; ++p) g += char(p & 255);
        mc::write_file(f, g); std::ifstream s(f); std::string t{CifarImage(s, 0)}; c.eq(t.size(), std::size_t(1 + 32 * 65 + 1), "rendered size");
        for (int p = 0; p < 256; ++p) { grey += t[std::size_t(1 + p / 32 * 65 + p % 32 * 2)]; c.check(grey.back() >= ' ' && grey.back() < 127, "grey " + std::to_string(p) + " is not rendered as a printable character"); }
    }
    Bytes b; for (int ch = 0; ch < 3; ++ch) for (int p = 0; p < 1024; ++p) b += char(ch == 0 ? rr : ch == 1 ? gg : p & 255);
    mc::write_file(f, b); std::ifstream s(f); std::string t{CifarImage(s, 0)}; c.eq(t.size(), std::size_t(1 + 32 * 65 + 1), "rendered size");
    for (int p = 0; p < 1024; ++p)
    {
        double e = rr * 0.21 + gg * 0.72 + (p & 255) * 0.07; bool ok = false; std::size_t o = std::size_t(1 + p / 32 * 65 + p % 32 * 2);
        for (int g = int(e) - 1; g <= int(e) + 2; ++g) if (g >= 0 && g < 256 && t[o] == grey[std::size_t(g)]) ok = true;
        if (!ok || t[o] != t[o + 1]) c.fail("blue " + std::to_string(p & 255) + ": rendered as '" + t.substr(o, 2) + "', brightness " + std::to_string(e));
    }
    c.state(mc::Hash().add(t));
}
MC_MAIN({"meta", meta}, {"brightness", brightness}, {"many", many}, {"program", program})

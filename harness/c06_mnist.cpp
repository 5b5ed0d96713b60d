// C06: MNIST reads are exact and history independent.
#include "image_ref.hpp"
#include "data/dataset.hpp"
using namespace EdgeLearning;
using mc::Ctx;
struct File { std::size_t n; int pat; long cut_i, cut_l; };
static const std::vector<File> FILES{{3, 0, 0, 0}, {3, 1, 0, 0}, {1, 0, 0, 0}, {3, 0, -500, 0}, {3, 1, 0, -1}, {2, 0, -784, -1}};
static void program(Ctx& c)
{
    const File& f = c.of(FILES); const int depth = c.in(1, mc::thorough() ? 4 : 3);
    const std::size_t NI = f.n + 2, NOP = NI * 4; std::vector<std::size_t> prog; for (int i = 0; i < depth; ++i) prog.push_back(c.pick(NOP));
    if (!c.begin()) return;
    Bytes im = mnist_images(f.n, f.pat), la = mnist_labels(f.n, f.pat); im.resize(std::size_t(long(im.size()) + f.cut_i)); la.resize(std::size_t(long(la.size()) + f.cut_l));
    std::string fi = mc::scratch_file("im"), fl = mc::scratch_file("la"); static const File* last = nullptr;
    if (last != &f) { mc::write_file(fi, im); mc::write_file(fl, la); last = &f; }
    Mnist m(fi, fl); mc::Hash h; h.add(std::uint64_t(&f - FILES.data()));
    std::vector<std::pair<MnistImage, std::size_t>> kept;
    std::string d = "n=" + std::to_string(f.n) + " pattern " + std::to_string(f.pat) + " cut " + std::to_string(f.cut_i) + "," + std::to_string(f.cut_l) + ":";
    for (auto op: prog)
    {
        c.step(); std::size_t i = op % NI, r = i % f.n; int k = int(op / NI);
        static const char* K[]{"image", "label", "item", "entry"}; std::string w = std::string(K[k]) + "(" + std::to_string(i) + ")"; d += " " + w; c.describe(d);
        bool hi = im.size() >= 16 + (r + 1) * 784, hl = la.size() >= 8 + r + 1; bool want_ok = k == 0 ? hi : k == 1 ? hl : hi && hl;
        U8 pi = hi ? slice(im, 16 + r * 784, 784) : U8{}; int pl = hl ? std::uint8_t(la[8 + r]) : 0; bool ok = true;
        try
        {
            if (k == 0) { auto x = m.image(i); if (hi) { same(c, x.data(), pi, w); c.eq(x.idx(), r, w + " idx"); kept.emplace_back(x, r); auto y = x; y.data()[0] ^= 255; same(c, x.data(), pi, w + " after changing a copy"); } }
            else if (k == 1) { auto x = m.label(i); if (hl) { c.eq(int(x.data()), pl, w); c.eq(x.idx(), r, w + " idx"); c.eq(std::string(x), std::to_string(pl), w + " text"); } }
            else if (k == 2) { auto x = m[i]; if (hi && hl) { same(c, x.image.data(), pi, w); c.eq(int(x.label.data()), pl, w); c.eq(x.image.idx(), r, w + " idx"); c.eq(x.label.idx(), r, w + " idx"); } }
            else { auto x = m.entry(i); if (hi && hl) { std::vector<NumType> e(pi.begin(), pi.end()); e.push_back(pl); c.veq(x, e, w); } }
        }
        catch (const mc::Violation&) { throw; }
        catch (const std::exception&) { ok = false; }
        c.eq(ok, want_ok, w + " succeeds"); h.add(std::uint64_t(r)).add(k).add(ok); c.state(h);
        c.eq(m.size(), f.n, "size");
    }
    for (auto& kpt: kept) same(c, kpt.first.data(), slice(im, 16 + kpt.second * 784, 784), "image kept from earlier");
    c.trace(); c.nontrivial();
}
// many records: every pair of reads around the powers of two and the ends
static void many(Ctx& c)
{
    static const std::vector<std::size_t> N{70, 300, 1030}; std::size_t n = c.of(N); std::vector<std::size_t> at; for (std::size_t k: {std::size_t(0), std::size_t(1), std::size_t(63), std::size_t(64), std::size_t(65), std::size_t(127), std::size_t(128), std::size_t(255), std::size_t(256), std::size_t(257), std::size_t(1023), std::size_t(1024)}) if (k + 1 < n) at.push_back(k);
    for (std::size_t k: {n - 1, n, n + 1, 2 * n, 3 * n + 2, 300 * n + 5}) at.push_back(k);
    std::size_t a = c.of(at), b = c.of(at); int ka = c.in(0, 3);
    if (!c.begin()) return;
    static std::size_t last = 0; static Bytes im, la; std::string fi = mc::scratch_file("im3"), fl = mc::scratch_file("la3");
    if (last != n) { im = mnist_images(n, 0); la = mnist_labels(n, 1); for (std::size_t i = 0; i < n; ++i) { im[16 + i * 784] = char(i); im[16 + i * 784 + 783] = char(i / 256 + 3); } mc::write_file(fi, im); mc::write_file(fl, la); last = n; }
    c.describe(std::to_string(n) + " records, read " + std::to_string(a) + " then " + std::to_string(b) + ", kind " + std::to_string(ka)); Mnist m(fi, fl); c.eq(m.size(), n, "size"); c.eq(m.entries_amount(), n, "entries");
    for (int rep = 0; rep < 2; ++rep) for (std::size_t i: {a, b})
    {
        std::size_t r = i % n; U8 pi = slice(im, 16 + r * 784, 784); int pl = std::uint8_t(la[8 + r]); int k = (ka + rep * 2 + int(i == b)) % 4; c.step();
        if (k == 0) { auto x = m.image(i); same(c, x.data(), pi, "image"); c.eq(x.idx(), r, "image index"); } else if (k == 1) { auto x = m.label(i); c.eq(int(x.data()), pl, "label"); c.eq(x.idx(), r, "label index"); }
        else if (k == 2) { auto x = m[i]; same(c, x.image.data(), pi, "item image"); c.eq(int(x.label.data()), pl, "item label"); } else { auto x = m.entry(i); std::vector<NumType> e(pi.begin(), pi.end()); e.push_back(pl); c.veq(x, e, "entry"); }
    }
    c.trace(); c.nontrivial(); c.state(mc::Hash().add(std::uint64_t(n)).add(std::uint64_t(a)).add(std::uint64_t(b)).add(ka));
}
// files with holes: record counts and byte offsets beyond 16, 31 and 32 bits
static void sparse(Ctx& c)
{
    static const std::vector<std::size_t> N{65535, 65536, 70000, 2739138, 5478275, 5500001}; std::size_t n = c.of(N); static const std::vector<std::size_t> AT{0, 1, 32767, 32768, 65534, 65535, 65536, 69999, 2739136, 2739137, 5478273, 5478274, 5500000};
    std::size_t a = c.of(AT), b = c.of(AT); bool wrap = c.flag(); if (a >= n || b >= n) return;
    if (!c.begin()) return;
    std::string fi = mc::scratch_file("im4"), fl = mc::scratch_file("la4"); static std::size_t last = 0; auto lab = [](std::size_t r) { return char(r * 7 % 251); };
    if (last != n)
    {
        ::unlink(fi.c_str()); ::unlink(fl.c_str()); std::ofstream i(fi, std::ios::binary), l(fl, std::ios::binary); Bytes hi = mnist_images(0, 0), hl = mnist_labels(0, 0); hi.replace(4, 4, be32(std::uint32_t(n))); hl.replace(4, 4, be32(std::uint32_t(n))); i.write(hi.data(), 16); l.write(hl.data(), 8);
        std::vector<std::size_t> at(AT); at.push_back(n - 1); for (auto r: at) if (r < n) { Bytes x; for (std::size_t p = 0; p < 784; ++p) x += char(pix(r, p, 0) + r / 256); i.seekp(long(16 + r * 784)); i.write(x.data(), 784); l.seekp(long(8 + r)); l.put(lab(r)); }
        last = n;
    }
    c.describe(std::to_string(n) + " records, read " + std::to_string(a) + " then " + std::to_string(b) + (wrap ? " wrapped" : "")); Mnist m(fi, fl); c.eq(m.size(), n, "size"); c.eq(m.entries_amount(), SizeType(n), "entries");
    for (std::size_t r: {a, b, n - 1, a})
    {
        std::size_t i = wrap ? r + n * 3 : r; U8 pi; for (std::size_t p = 0; p < 784; ++p) pi.push_back(std::uint8_t(pix(r, p, 0) + r / 256)); int pl = std::uint8_t(lab(r)); c.step();
        auto x = m[i]; same(c, x.image.data(), pi, "item image"); c.eq(int(x.label.data()), pl, "item label"); c.eq(x.image.idx(), r, "image index"); c.eq(x.label.idx(), r, "label index");
        auto e = m.entry(i); std::vector<NumType> want(pi.begin(), pi.end()); want.push_back(pl); c.veq(e, want, "entry");
    }
    c.trace(); c.nontrivial(); c.state(mc::Hash().add(std::uint64_t(n)).add(std::uint64_t(a)).add(std::uint64_t(b)));
}
// the whole file as a dataset
static void dataset(Ctx& c)
{
    std::size_t n = std::size_t(c.in(1, 4)); int pat = int(c.pick(2)); bool oh = c.flag(); std::size_t seq = std::size_t(c.in(1, 3));
    if (!c.begin()) return;
    Bytes im = mnist_images(n, pat), la = mnist_labels(n, pat); std::string fi = mc::scratch_file("im2"), fl = mc::scratch_file("la2"); mc::write_file(fi, im); mc::write_file(fl, la);
    c.describe("dataset n=" + std::to_string(n)); c.trace();
    Mnist m(fi, fl); auto ds = Dataset<double>::parse(m, oh ? DatasetParser::LabelEncoding::ONE_HOT_ENCODING : DatasetParser::LabelEncoding::DEFAULT_ENCODING, seq);
    std::size_t s = std::min(seq, n), cnt = n / s * s; std::set<int> cls; for (std::size_t r = 0; r < n; ++r) cls.insert(std::uint8_t(la[8 + r]));
    c.eq(ds.size(), cnt, "entries"); c.eq(ds.feature_size(), 784 + (oh ? cls.size() : 1), "feature size");
    for (std::size_t r = 0; r < cnt; ++r)
    {
        c.step(); std::vector<double> in, lb; for (std::size_t p = 0; p < 784; ++p) in.push_back(std::uint8_t(im[16 + r * 784 + p]));
        int v = std::uint8_t(la[8 + r]); if (oh) for (int k: cls) lb.push_back(k == v); else lb.push_back(v);
        c.veq(ds.input(r), in, "input"); c.veq(ds.label(r), lb, "label"); c.state(mc::Hash().add(in).add(lb));
    }
}
// the text rendering: one line per pixel row, two equal characters per pixel,
// which depend on the pixel value only
static void render(Ctx& c)
{
    int v = c.in(0, 255); std::size_t at = std::size_t(c.in(0, 15)) * 52 % 784;
    if (!c.begin()) return;
    c.describe("render value " + std::to_string(v)); c.trace(); c.step();
    Bytes a(784, char(v)), b(784, char(255 - v)); b[at] = char(v); std::string f = mc::scratch_file("r"); mc::write_file(f, a + b);
    std::ifstream s(f); MnistImage x(s, 0), y(s, 1); std::string tx(x), ty(y), tz; std::ostringstream os; os << x; c.eq(os.str(), tx, "printed");
    c.eq(tx.size(), std::size_t(1 + 28 * 57 + 1), "rendered size"); char ch = tx[1]; tz = "\n"; for (int r = 0; r < 28; ++r) tz += std::string(56, ch) + "\n"; tz += "\n"; c.eq(tx, tz, "uniform image"); c.check(ch > ' ' - 1 && ch < 127, "a printable character");
    std::size_t o = 1 + at / 28 * 57 + at % 28 * 2; c.eq(ty[o], ch, "pixel character"); c.eq(ty[o + 1], ch, "pixel character"); c.state(mc::Hash().add(tx));
}
MC_MAIN({"render", render}, {"dataset", dataset}, {"many", many}, {"sparse", sparse}, {"program", program})

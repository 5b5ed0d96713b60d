// C05: damaged MNIST/CIFAR files.  Every truncation point and every one-byte
// header corruption of small files; the oracle is computed from the bytes.
#include "image_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
// What the bytes say: is the pair acceptable, and which records exist.
struct Oracle
{
    Bytes im, la; bool ok; std::uint32_t n = 0;
    Oracle(Bytes i, Bytes l) : im(std::move(i)), la(std::move(l))
    {
        ok = im.size() >= 16 && la.size() >= 8 && rd32(im, 0) == 0x803 && rd32(la, 0) == 0x801 && rd32(im, 4) == rd32(la, 4) && rd32(im, 8) == 28 && rd32(im, 12) == 28;
        if (ok) n = rd32(im, 4);
    }
    bool has_image(std::size_t i) const { return n && im.size() >= 16 + (i % n + 1) * 784; }
    bool has_label(std::size_t i) const { return n && la.size() >= 8 + (i % n + 1); }
};
static void mnist(Ctx& c, const Bytes& im, const Bytes& la, std::size_t upto)
{
    Oracle o(im, la);
    std::string fi = mc::scratch_file("im"), fl = mc::scratch_file("la"); mc::write_file(fi, im); mc::write_file(fl, la);
    std::unique_ptr<Mnist> m;
    try { m = std::make_unique<Mnist>(fi, fl); } catch (const std::exception&) { }
    c.count(o.ok ? "acceptable pairs" : "rejected pairs");
    if (!o.ok) { c.check(!m, "a pair with a bad header must be rejected"); c.nontrivial(); return; }
    c.check(bool(m), "an undamaged header must be accepted");
    c.eq(m->size(), std::size_t(o.n), "size"); c.eq(m->entries_amount(), SizeType(o.n), "entries"); c.eq(m->feature_size(), SizeType(785), "feature size");
    c.veq(std::vector<std::size_t>{m->side(), m->height(), m->width(), std::get<0>(m->shape()), std::get<1>(m->shape())}, std::vector<std::size_t>{28, 28, 28, 28, 28}, "image shape");
    auto li = m->labels_idx(); c.check(li == std::set<SizeType>{784}, "label index");
    std::vector<std::size_t> idx; for (int pass = 0; pass < 2; ++pass) for (std::size_t i = 0; i < upto; ++i) idx.push_back(pass ? upto - 1 - i : i);
    for (auto i: idx)
    {
        std::string w = "record " + std::to_string(i);
        bool hi = o.has_image(i), hl = o.has_label(i);
        if (!hi || !hl) { c.nontrivial(); c.count("records not in the file"); }
        U8 pi = hi ? slice(im, 16 + i % o.n * 784, 784) : U8{}; std::uint8_t pl = hl ? std::uint8_t(la[8 + i % o.n]) : 0;
        auto gi = attempt([&] { return m->image(i).data(); });
        c.eq(gi.first, hi, w + ": image readable"); if (hi) same(c, gi.second, pi, w + " image");
        auto gl = attempt([&] { return int(m->label(i).data()); });
        c.eq(gl.first, hl, w + ": label readable"); if (hl) c.eq(gl.second, int(pl), w + " label");
        auto gx = attempt([&] { auto x = (*m)[i]; auto r = x.image.data(); r.push_back(x.label.data()); return r; });
        c.eq(gx.first, hi && hl, w + ": item readable"); auto both = pi; both.push_back(pl); if (hi && hl) same(c, gx.second, both, w + " item");
        auto ge = attempt([&] { return m->entry(i); });
        c.eq(ge.first, hi && hl, w + ": entry readable"); if (hi && hl) c.veq(ge.second, std::vector<NumType>(both.begin(), both.end()), w + " entry");
    }
    c.outcome(mc::Hash().add(o.ok).add(std::uint64_t(o.n)).add(o.has_image(0)).add(o.has_image(1)).add(o.has_label(0)).add(o.has_label(1)));
}
// lengths: all inside the header, then around every record boundary
static std::vector<std::size_t> lengths(std::size_t head, std::size_t rec, std::size_t n)
{
    std::set<std::size_t> s; for (std::size_t i = 0; i <= head; ++i) s.insert(i);
    for (std::size_t r = 0; r <= n; ++r) for (long d: {-2L, -1L, 0L, 1L, 2L, long(rec / 2)}) { long v = long(head + r * rec) + d; if (v >= 0 && v <= long(head + n * rec)) s.insert(std::size_t(v)); }
    if (mc::thorough()) for (std::size_t i = 0; i <= head + n * rec; i += 37) s.insert(i);
    return {s.begin(), s.end()};
}
static void truncations(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 3)); auto L = lengths(16, 784, n), M = lengths(8, 1, n);
    std::size_t a = L[L.size() - 1 - c.pick(L.size())], b = M[M.size() - 1 - c.pick(M.size())];
    if (!c.begin()) return;
    c.describe("n=" + std::to_string(n) + " image file cut at " + std::to_string(a) + ", label file at " + std::to_string(b));
    mnist(c, mnist_images(n, 0).substr(0, a), mnist_labels(n, 0).substr(0, b), n + 2);
}
static void header_bytes(Ctx& c)
{
    std::size_t n = std::size_t(c.in(1, 2)), at = c.pick(24), v = 1 + c.pick(255);
    if (!c.begin()) return;
    Bytes i = mnist_images(n, 1), l = mnist_labels(n, 1); char& x = at < 16 ? i[at] : l[at - 16]; x = char(x ^ char(v));
    c.describe("n=" + std::to_string(n) + " header byte " + std::to_string(at) + " xor " + std::to_string(v));
    mnist(c, i, l, n + 2);
}
// both files declare the same wrong number of entries
static void counts(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 2));
    static const std::vector<std::uint32_t> V{0, 1, 2, 3, 4, 255, 256, 10000, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
    std::uint32_t v = c.of(V), w = c.of(V);
    if (!c.begin()) return;
    Bytes i = mnist_images(n, 0), l = mnist_labels(n, 0); i.replace(4, 4, be32(v)); l.replace(4, 4, be32(w));
    c.describe("n=" + std::to_string(n) + " declared " + std::to_string(v) + "/" + std::to_string(w)); mnist(c, i, l, n + 3);
}
// wrong shapes, swapped files, foreign files
static void shapes(Ctx& c)
{
    static const std::vector<std::uint32_t> V{28, 0, 1, 27, 29, 56, 784, 28u << 24, 0xffffffffu};
    std::uint32_t r = c.of(V), k = c.of(V); int swap = int(c.pick(4));
    if (!c.begin()) return;
    Bytes i = mnist_images(2, 0), l = mnist_labels(2, 0); i.replace(8, 4, be32(r)); i.replace(12, 4, be32(k));
    c.describe("shape " + std::to_string(r) + "x" + std::to_string(k) + " files " + std::to_string(swap));
    if (swap == 0) mnist(c, i, l, 3); else if (swap == 1) mnist(c, l, i, 3); else if (swap == 2) mnist(c, i, i, 3); else mnist(c, l, l, 3);
}
static void missing(Ctx& c)
{
    int which = int(c.pick(4));
    if (!c.begin()) return;
    std::string fi = mc::scratch_file("im"), fl = mc::scratch_file("la"), no = mc::scratch_file("none/x"); mc::write_file(fi, mnist_images(1, 0)); mc::write_file(fl, mnist_labels(1, 0));
    c.describe("missing " + std::to_string(which)); c.nontrivial();
    if (which == 0) c.throws([&] { Mnist m(no, fl); }, "missing image file");
    if (which == 1) c.throws([&] { Mnist m(fi, no); }, "missing label file");
    if (which == 2) c.throws([&] { Mnist m(no, no); }, "missing files");
    if (which == 3)
        for (int f = 0; f < 2; ++f) for (std::size_t i: {0, 1, 9999})
            c.throws([&] { Cifar x(no, fl, CifarShapeOrder::CHN_ROW_COL, f ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, f ? fl : ""); x.image(i); }, "reading from a missing CIFAR file");
}
static void cifar(Ctx& c)
{
    std::size_t n = std::size_t(c.in(0, 2)), lab = std::size_t(c.in(1, 2)); bool rcc = c.flag(); auto L = lengths(0, lab + 3072, n);
    for (std::size_t r = 0; r < n; ++r) for (std::size_t k = 0; k < 4; ++k) L.push_back(r * (lab + 3072) + k);
    std::size_t len = L[c.pick(L.size())];
    if (!c.begin()) return;
    Bytes b = cifar_file(n, 0, lab).substr(0, len);
    c.describe("CIFAR n=" + std::to_string(n) + " labels " + std::to_string(lab) + " cut at " + std::to_string(len));
    std::string fb = mc::scratch_file("cb"), fm = mc::scratch_file("cm"); mc::write_file(fb, b); mc::write_file(fm, "a\nb\n");
    Cifar x(fb, fm, rcc ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL, lab == 2 ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, lab == 2 ? fs::path(fm) : fs::path());
    std::vector<std::size_t> idx{0, 1, 2, 9999, 1, 0, 2, 10000, 10001, 0};
    for (auto i: idx)
    {
        std::size_t o = i % 10000 * (lab + 3072); std::string w = "record " + std::to_string(i);
        bool hl = b.size() >= o + lab, hi = b.size() >= o + lab + 3072; if (!hi) c.nontrivial();
        auto gl = attempt([&] { auto l = x.label(i); return U8{l.coarse_label(), l.fine_label(), l.data()}; });
        c.eq(gl.first, hl, w + ": label readable");
        if (hl) same(c, gl.second, {std::uint8_t(b[o]), std::uint8_t(lab == 2 ? b[o + 1] : 0), std::uint8_t(b[o])}, w + " label");
        auto gi = attempt([&] { return x.image(i).data(); });
        c.eq(gi.first, hi, w + ": image readable");
        if (hi)
        {
            U8 want = slice(b, o + lab, 3072), q = want;
            if (rcc) for (std::size_t p = 0; p < 1024; ++p) for (std::size_t ch = 0; ch < 3; ++ch) q[p * 3 + ch] = want[ch * 1024 + p];
            same(c, gi.second, q, w + " image");
        }
        auto ge = attempt([&] { return x.entry(i).size(); });
        c.eq(ge.first, hi, w + ": entry readable"); if (hi) c.eq(ge.second, std::size_t(3073), w + " entry size");
    }
}
MC_MAIN({"missing", missing}, {"truncations", truncations}, {"header_bytes", header_bytes}, {"counts", counts}, {"shapes", shapes}, {"cifar", cifar})

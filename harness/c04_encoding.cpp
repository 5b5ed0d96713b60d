// C04: label encodings.  Every small table, every label column subset, every
// assignment of classes, against a column-by-column reference.
#include "parser/csv.hpp"
#include "data/dataset.hpp"
#include "mc.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using Enc = DatasetParser::LabelEncoding;
using Table = std::vector<std::vector<double>>;

struct TableParser : DatasetParser
{
    Table t; std::size_t cols; std::set<SizeType> labels;
    TableParser(Table a, std::size_t c, std::set<SizeType> l) : t(std::move(a)), cols(c), labels(std::move(l)) { }
    std::vector<NumType> entry(SizeType i) override { return t.at(i); }
    SizeType entries_amount() const override { return t.size(); }
    SizeType feature_size() const override { return cols; }
    std::set<SizeType> labels_idx() const override { return labels; }
};
static void verify(Ctx& c, DatasetParser& p, const Table& t, std::size_t cols, const std::set<SizeType>& lab, std::size_t seq)
{
    // reference
    std::vector<std::set<double>> classes(cols); std::size_t width = cols - lab.size();
    for (auto l: lab) { for (auto& r: t) classes[l].insert(r[l]); width += classes[l].size(); }
    std::vector<double> plain, onehot;
    for (auto& r: t)
    {
        plain.insert(plain.end(), r.begin(), r.end());
        for (std::size_t k = 0; k < cols; ++k) if (!lab.count(k)) onehot.push_back(r[k]);
        for (auto l: lab) for (double v: classes[l]) onehot.push_back(v == r[l] ? 1 : 0);
    }
    std::vector<SizeType> lab_oh; for (std::size_t i = cols - lab.size(); i < width; ++i) lab_oh.push_back(i);
    std::vector<SizeType> lab_pl(lab.begin(), lab.end());
    for (std::size_t k = 0; k < cols; ++k)
    {
        std::set<double> u; for (auto& r: t) u.insert(r[k]);
        auto got = p.unique(k);
        c.check(std::set<double>(got.begin(), got.end()) == u, "unique values of column " + std::to_string(k));
        auto m = p.unique_map(k); c.eq(m.size(), u.size(), "classes of column " + std::to_string(k));
        std::set<std::size_t> idx; for (auto& e: m) { c.check(u.count(e.first) == 1, "class value"); c.check(e.second < u.size(), "class index in range"); idx.insert(e.second); }
        c.eq(idx.size(), u.size(), "class indices are distinct");
    }
    for (int rep = 0; rep < 2; ++rep)
    {
        c.veq(p.data_to_encoding(Enc::ONE_HOT_ENCODING), onehot, "one-hot data");
        c.eq(p.encoding_feature_size(Enc::ONE_HOT_ENCODING), width, "one-hot feature size");
        auto li = p.encoding_labels_idx(Enc::ONE_HOT_ENCODING); c.veq(std::vector<SizeType>(li.begin(), li.end()), lab_oh, "one-hot label indices");
        c.veq(p.data_to_encoding(), plain, "default data");
        c.veq(p.data_to_encoding(Enc::DEFAULT_ENCODING), plain, "default data");
        c.eq(p.encoding_feature_size(), cols, "default feature size");
        auto ld = p.encoding_labels_idx(); c.veq(std::vector<SizeType>(ld.begin(), ld.end()), lab_pl, "default label indices");
    }
    // the dataset built from it
    for (int e = 0; e < 2 && !t.empty(); ++e)
    {
        auto ds = Dataset<double>::parse(p, e ? Enc::ONE_HOT_ENCODING : Enc::DEFAULT_ENCODING, seq);
        std::size_t s = std::min(seq, t.size()), n = t.size() / s * s, w = e ? width : cols;
        const auto& all = e ? onehot : plain; const auto& li = e ? lab_oh : lab_pl;
        c.eq(ds.size(), n, "dataset entries"); c.eq(ds.feature_size(), w, "dataset feature size"); c.eq(ds.sequence_size(), s, "dataset sequence size");
        c.veq(ds.data(), std::vector<double>(all.begin(), all.begin() + long(n * w)), "dataset data");
        c.veq(ds.label_idx(), li, "dataset label indices");
        for (std::size_t r = 0; r < n; ++r)
        {
            std::vector<double> in, la;
            for (std::size_t k = 0; k < w; ++k) (std::count(li.begin(), li.end(), k) ? la : in).push_back(all[r * w + k]);
            c.veq(ds.label(r), la, "label part"); c.veq(ds.input(r), in, "input part");
        }
    }
    mc::Hash h; h.add(onehot).add(std::uint64_t(width)); c.outcome(h);
}
static const std::vector<double> CLS{3, -0.1, 0, 16777217};
static Table make(Ctx& c, std::size_t rows, std::size_t cols, const std::set<SizeType>& lab, std::size_t ncls)
{
    Table t(rows, std::vector<double>(cols));
    for (std::size_t r = 0; r < rows; ++r) for (std::size_t k = 0; k < cols; ++k)
        t[r][k] = lab.count(k) ? CLS[c.pick(ncls)] : 100 * double(k + 1) + double(r);
    return t;
}
static std::set<SizeType> subset(Ctx& c, std::size_t cols)
{
    std::set<SizeType> s; for (std::size_t k = 0; k < cols; ++k) if (c.flag()) s.insert(k); return s;
}
static void tables(Ctx& c)
{
    std::size_t cols = std::size_t(c.in(1, 4)); auto lab = subset(c, cols);
    int maxr = lab.size() >= 3 ? 2 : lab.size() == 2 ? 3 : 4; if (mc::thorough() && lab.size() <= 3) ++maxr;
    std::size_t rows = std::size_t(c.in(0, maxr)), seq = std::size_t(c.in(1, 2));
    auto t = make(c, rows, cols, lab, lab.size() >= 3 ? 3 : 4);
    if (!c.begin()) return;
    std::ostringstream d; d << "table " << rows << "x" << cols << " labels " << lab.size() << ":"; for (auto& r: t) d << " " << Ctx::show(r); for (auto l: lab) d << " L" << l; c.describe(d.str());
    if (!lab.empty() && rows > 0) c.nontrivial();
    TableParser p(t, cols, lab); verify(c, p, t, cols, lab, seq);
}
// inputs that repeat or equal class values, and wider tables
static void wide(Ctx& c)
{
    std::size_t cols = std::size_t(c.in(5, mc::thorough() ? 8 : 7)); auto lab = subset(c, cols); std::size_t rows = std::size_t(c.in(1, 3)) * 3 - 1; std::size_t m = std::size_t(c.in(1, 5));
    if (!c.begin()) return;
    Table t(rows, std::vector<double>(cols)); for (std::size_t r = 0; r < rows; ++r) for (std::size_t k = 0; k < cols; ++k) t[r][k] = double((r * (k + 3)) % m) - 1;
    std::ostringstream d; d << "wide " << rows << "x" << cols << " mod " << m; for (auto l: lab) d << " L" << l; c.describe(d.str());
    if (!lab.empty()) c.nontrivial();
    TableParser p(t, cols, lab); verify(c, p, t, cols, lab, 2);
}
// many classes and many entries
static void many(Ctx& c)
{
    static const std::vector<std::size_t> K{9, 10, 11, 33, 65, 129, 256, 257, 300, 600, 1030}; std::size_t k = c.of(K), cols = std::size_t(c.in(1, k > 300 ? 2 : 3)); auto lab = subset(c, cols); int order = c.in(0, 4); std::size_t extra = std::size_t(c.in(0, 1)) * 7;
    if (!c.begin()) return;
    Table t(k + extra, std::vector<double>(cols)); for (std::size_t r = 0; r < t.size(); ++r) for (std::size_t i = 0; i < cols; ++i) { std::size_t v = (r * (2 * i + 1)) % k; v = order == 0 ? v : order == 1 ? k - 1 - v : v * 7 % k; t[r][i] = double(v) * (i == 1 ? 0.5 : 1) - (i == 2 ? 40 : 0); if (order == 3) t[r][i] = 1 + double(v) * 2.2204460492503131e-16; else if (order == 4) t[r][i] = std::ldexp(v & 1 ? -1.0 : 1.0, int(v) - 500); }   // (classes that differ in the last bit, or by orders of magnitude)
    std::ostringstream d; d << k << " classes, " << t.size() << "x" << cols << ", order " << order; for (auto l: lab) d << " L" << l; c.describe(d.str());
    if (!lab.empty()) c.nontrivial();
    TableParser p(t, cols, lab); verify(c, p, t, cols, lab, 2);
}
// more entries than 16 bits count, more columns than a machine word has bits
static void huge(Ctx& c)
{
    std::size_t what = c.pick(4), salt = c.pick(3);
    if (!c.begin()) return;
    std::size_t rows = what == 0 ? 70001 : what == 1 ? 65536 : 3, cols = what < 2 ? 2 : what == 2 ? 70 : 300; std::set<SizeType> lab; if (what < 2) lab = salt == 0 ? std::set<SizeType>{1} : salt == 1 ? std::set<SizeType>{0} : std::set<SizeType>{0, 1}; else for (SizeType i: {0, 31, 32, 63, 64, 65, 69, 255, 256, 299}) if (i < cols && (i + salt) % 3) lab.insert(i);
    Table t(rows, std::vector<double>(cols)); for (std::size_t r = 0; r < rows; ++r) for (std::size_t k = 0; k < cols; ++k) t[r][k] = double((r + k + salt) % 3) + (r == rows - 1 && what < 2 ? 5 : 0);
    c.describe(std::to_string(rows) + " entries of " + std::to_string(cols) + " columns"); c.nontrivial(); TableParser p(t, cols, lab); verify(c, p, t, cols, lab, 1);
}
// through the CSV reader
static void csv(Ctx& c)
{
    std::size_t cols = std::size_t(c.in(1, 3)); auto lab = subset(c, cols); std::size_t rows = std::size_t(c.in(1, 3));
    auto t = make(c, rows, cols, lab, rows == 3 && lab.size() > 2 ? 2 : 3); bool term = c.flag(); std::size_t seq = std::size_t(c.in(1, 2));
    if (!c.begin()) return;
    std::string s; for (std::size_t k = 0; k < cols; ++k) s += (k ? ",h" : "h") + std::to_string(k);
    for (std::size_t r = 0; r < rows; ++r) { s += "\n"; for (std::size_t k = 0; k < cols; ++k) { std::ostringstream os; os << std::setprecision(10) << t[r][k]; s += (k ? "," : "") + os.str(); } }
    if (term) s += "\n";
    c.describe("csv " + Ctx::quote(s)); if (!lab.empty()) c.nontrivial();
    std::string fn = mc::scratch_file("e.csv"); mc::write_file(fn, s);
    CSV p(fn, {TypeChecker::Type::AUTO}, ',', lab); verify(c, p, t, cols, lab, seq);
}
MC_MAIN({"huge", huge}, {"tables", tables}, {"wide", wide}, {"many", many}, {"csv", csv})

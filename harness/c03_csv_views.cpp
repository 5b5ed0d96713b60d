// C03: every whole-file view of a CSV describes exactly the text, for all small files.
#include "csv_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using T = TypeChecker::Type;
static std::vector<int> ints(const std::vector<T>& v) { std::vector<int> r; for (auto t: v) r.push_back(int(t)); return r; }

static void verify(Ctx& c, const std::string& text, char sep, const std::vector<T>& given, const std::set<SizeType>& labels)
{
    RefCsv ref(text, sep);
    std::string fn = mc::scratch_file("v.csv"); mc::write_file(fn, text);
    c.describe("file " + Ctx::quote(text) + " sep '" + sep + "' types given " + std::to_string(given.size()));
    CSV csv(fn, given, sep, labels);
    const std::size_t R = ref.rows(), C = ref.cols();
    std::vector<T> types;
    bool has_auto = given.empty() || given.size() != C; for (auto t: given) if (t == T::AUTO) has_auto = true;
    if (!has_auto) types = given;
    else { auto f = R > 1 ? ref.fields(1) : std::vector<std::string>{}; for (std::size_t i = 0; i < C; ++i) types.push_back(RefCsv::type(i < f.size() ? f[i] : "")); }
    c.eq(csv.rows_size(), R, "rows"); c.eq(csv.cols_size(), C, "cols");
    c.eq(csv.feature_size(), C, "feature size"); c.eq(csv.entries_amount(), R ? R - 1 : 0, "entries");
    c.check(csv.labels_idx() == labels, "labels_idx returned as given");
    c.veq(ints(csv.types()), ints(types), "types");
    if (R == 0)
    {
        int n = 0; for (auto& r: csv) { (void) r; if (++n > 3) break; }
        c.eq(n, 0, "iteration over an empty file");
        c.eq(std::vector<std::string>(csv).size(), std::size_t(0), "lines of empty file");
        c.throws([&] { (void) csv[0]; }, "row of an empty file");
        return;
    }
    check_row(c, csv.header(), ref, 0, types, "header");
    auto lines = std::vector<std::string>(csv); c.veq(lines, ref.lines, "lines");
    auto rows = std::vector<CSVRow>(csv); c.eq(rows.size(), R, "row vector size");
    for (std::size_t r = 0; r < R; ++r) check_row(c, rows[r], ref, r, types, "row vector " + std::to_string(r));
    // numeric views (the header may hold text whose numeric value is not specified)
    auto md = csv.to_mat<double>(); auto fd = csv.to_vec<double>(); auto mi = csv.to_mat<int>();
    c.eq(md.size(), R, "matrix rows"); c.eq(fd.size(), R * C, "flat size"); c.eq(mi.size(), R, "int matrix rows");
    for (std::size_t r = 0; r < R; ++r)
    {
        auto f = ref.fields(r); c.eq(md[r].size(), C, "matrix cols"); c.eq(mi[r].size(), C, "int matrix cols");
        for (std::size_t k = 0; k < C; ++k)
        {
            double v; if (!RefCsv::number(k < f.size() ? f[k] : "", v)) continue;
            std::string at = " (" + std::to_string(r) + "," + std::to_string(k) + ")";
            c.eq(md[r][k], v, "matrix" + at); c.eq(fd[r * C + k], v, "flat" + at);
            if (v == std::floor(v)) c.eq(mi[r][k], int(v), "int matrix" + at);
        }
        if (r > 0)
        {
            auto e = csv.entry(r - 1); c.eq(e.size(), C, "entry width");
            for (std::size_t k = 0; k < C; ++k) { double v; if (RefCsv::number(k < f.size() ? f[k] : "", v)) c.eq(e[k], v, "entry value"); }
        }
    }
    // begin()..end() visits exactly the data rows in order
    std::size_t n = 1;
    for (auto& r: csv) { if (n >= R) c.fail("iteration visits more rows than the file has"); check_row(c, r, ref, n, types, "iterated row " + std::to_string(n)); ++n; }
    c.eq(n, R, "iteration visits every row");
    // backwards from the end
    { auto it = csv.end(); for (std::size_t r = R; r-- > 1;) { --it; check_row(c, *it, ref, r, types, "reverse row " + std::to_string(r)); } c.check(it == csv.begin(), "reverse iteration ends at begin"); }
    c.step(R); c.trace(); if (R > 1) c.nontrivial();
    c.state(mc::Hash().add(text));
}
static const std::vector<std::string> FIELDS{"", "1", "-2.5", "true", "ab"};
static const std::vector<char> SEPS{',', ';', '\t'};
static void tables(Ctx& c)
{
    static const std::vector<std::pair<int, int>> DIM{{1, 0}, {1, 1}, {2, 0}, {2, 1}, {1, 2}, {1, 3}, {2, 2}, {3, 1}, {3, 2}, {2, 3}};
    std::size_t nd = mc::thorough() ? DIM.size() : 9;
    auto d = DIM[c.pick(nd)];
    int C = d.first, R = d.second; bool small = C * R <= 4;
    char sep = small ? c.of(SEPS) : ',';
    bool term = small || mc::thorough() ? c.flag() : false;
    std::vector<std::string> f;
    std::size_t alpha = C * R > 4 && !mc::thorough() ? 4 : FIELDS.size();
    for (int i = 0; i < C * R; ++i) f.push_back(FIELDS[c.pick(alpha)]);
    int given = small ? c.in(0, 5) : 0;
    if (!c.begin()) return;
    std::string text; for (int k = 0; k < C; ++k) { if (k) text += sep; text += std::string(1, char('h' + k)); }
    for (int r = 0; r < R; ++r) { text += '\n'; for (int k = 0; k < C; ++k) { if (k) text += sep; text += f[std::size_t(r * C + k)]; } }
    if (term) text += '\n';
    std::vector<T> ts{T::AUTO};
    if (given == 1) ts = {};
    if (given == 2) ts = std::vector<T>(std::size_t(C), T::FLOAT);
    if (given == 3) { ts = std::vector<T>(std::size_t(C), T::STRING); ts.back() = C > 1 ? T::AUTO : T::BOOL; }
    if (given >= 4) ts = std::vector<T>(std::size_t(given == 4 ? C + 1 : C > 1 ? C - 1 : 3), T::STRING); // a count that does not fit: inferred
    verify(c, text, sep, ts, C > 1 ? std::set<SizeType>{std::size_t(C - 1)} : std::set<SizeType>{});
}
// all short raw texts: ragged rows, empty lines, no newline, empty file
static void raw(Ctx& c)
{
    static const std::string A = "1,\na"; int n = c.in(0, mc::thorough() ? 8 : 6); std::string s;
    for (int i = 0; i < n; ++i) s += A[c.pick(A.size())];
    bool given = c.flag();
    if (!c.begin()) return;
    verify(c, s, ',', given ? std::vector<T>{T::INT} : std::vector<T>{T::AUTO}, {});
}
// header texts: the column count comes from the header alone
static void headers(Ctx& c)
{
    static const std::string A = "1,h.x"; int n = c.in(0, mc::thorough() ? 6 : 5); std::string s;
    for (int i = 0; i < n; ++i) s += A[c.pick(A.size())];
    static const std::vector<std::string> data{"", "1,2,3", "4", ",,", "true,false,x,y"};
    std::string d = c.of(data);
    if (!c.begin()) return;
    verify(c, s + "\n" + d + "\n", ',', {T::AUTO}, {});
}
// long rows and many rows (buffer boundaries)
static void large(Ctx& c)
{
    int C = c.in(1, 4) * 7, R = c.in(1, mc::thorough() ? 40 : 12), w = c.in(1, 4) * 9; bool term = c.flag();
    if (!c.begin()) return;
    std::string t; for (int k = 0; k < C; ++k) t += (k ? ",c" : "c") + std::to_string(k);
    for (int r = 0; r < R; ++r) { t += "\n"; for (int k = 0; k < C; ++k) { if (k) t += ","; t += std::to_string(r * 31 + k).insert(0, std::size_t((r * k) % w), '0') + (k % 2 ? ".5" : ""); } }
    if (term) t += "\n";
    verify(c, t, ',', {T::AUTO}, {0});
}
// more columns, rows or characters than any 8- or 16-bit count holds
static void huge(Ctx& c)
{
    static const std::vector<std::pair<int, int>> D{{300, 3}, {1, 300}, {2, 300}, {257, 2}, {64, 70}, {2, 2100}};
    int k = c.in(0, int(D.size()) + 1); bool term = c.flag();
    if (!c.begin()) return;
    if (k < int(D.size()))
    {
        int C = D[std::size_t(k)].first, R = D[std::size_t(k)].second; std::string t; for (int i = 0; i < C; ++i) t += i ? ",c" : "c";
        for (int r = 0; r < R; ++r) { t += "\n"; for (int i = 0; i < C; ++i) { if (i) t += ","; if ((r + i) % 7 != 6) t += std::to_string(r * 31 + i); } }
        if (term) t += "\n";
        verify(c, t, ',', {T::AUTO}, {0}); return;
    }
    // counts and the ends only
    std::size_t N = 70000; bool wide = k == int(D.size()); std::string t = "h", row; if (wide) { for (std::size_t i = 1; i < N; ++i) t += ",h"; t += "\n"; for (std::size_t i = 0; i < N; ++i) row += (i ? "," : "") + std::to_string(i % 1000); t += row; } else for (std::size_t i = 0; i < N; ++i) t += "\n" + std::to_string(i % 1000);
    if (term) t += "\n";
    std::string fn = mc::scratch_file("huge.csv"); mc::write_file(fn, t); c.describe(wide ? "70000 columns" : "70000 rows");
    CSV csv(fn); c.eq(csv.rows_size(), wide ? 2 : N + 1, "rows"); c.eq(csv.cols_size(), wide ? N : 1, "columns"); c.eq(csv.entries_amount(), wide ? 1 : N, "entries"); c.eq(csv.types().size(), wide ? N : 1, "types");
    if (wide) { auto e = csv.entry(0); c.eq(e.size(), N, "entry width"); for (std::size_t i = 0; i < N; ++i) if (e[i] != double(i % 1000)) c.fail("value of column " + std::to_string(i)); for (std::size_t i: {std::size_t(0), std::size_t(255), std::size_t(256), std::size_t(65535), std::size_t(65536), N - 1}) c.eq(csv[1][i].as<int>(), int(i % 1000), "field"); }
    else { std::size_t n = 0; for (auto& r: csv) { if (r.line() != std::to_string(n % 1000) || r.idx() != n + 1) c.fail("row " + std::to_string(n + 1)); ++n; } c.eq(n, N, "rows visited"); auto v = csv.to_vec<int>(); c.eq(v.size(), N + 1, "flat size"); for (std::size_t i = 0; i < N; ++i) if (v[i + 1] != int(i % 1000)) c.fail("flat value " + std::to_string(i)); c.eq(csv.entry(65536).at(0), 536.0, "entry"); c.eq(csv[N].line(), std::to_string((N - 1) % 1000), "last row"); }
    c.trace(); c.nontrivial();
}
static void missing(Ctx& c)
{
    static const std::vector<std::string> names{"none.csv", "no/dir.csv", ""};
    std::string n = c.of(names);
    if (!c.begin()) return;
    c.throws([&] { CSV x(n.empty() ? "" : mc::scratch_file(n)); }, "opening a missing file"); c.nontrivial();
}
// standalone rows: column count and types derived from the line
static void rows(Ctx& c)
{
    static const std::string A = "1,.a-;"; int n = c.in(0, mc::thorough() ? 6 : 5); std::string s;
    for (int i = 0; i < n; ++i) s += A[c.pick(A.size())];
    char sep = c.flag() ? ',' : ';';
    if (!c.begin()) return;
    c.describe("row " + Ctx::quote(s) + " sep " + sep);
    RefCsv ref(s.empty() ? "\n" : s, sep); std::vector<T> ty{T::AUTO}; CSVRow row(s, 0, ty, sep);
    std::vector<T> want; for (auto& f: ref.fields(0)) want.push_back(RefCsv::type(f));
    bool odd = false; for (auto& f: ref.fields(0)) if (f.find("-") != std::string::npos && f.rfind("-") != 0) odd = true;
    (void) odd;
    check_row(c, row, ref, 0, want, "row"); c.veq(ints(ty), ints(want), "types written back");
    CSVRow cp(row); c.check(cp == row && !(cp != row), "copied row equal"); check_row(c, cp, ref, 0, want, "copied row");
    std::ostringstream os; os << row; c.eq(os.str(), s, "printed row");
    // types given by the caller: used as they are when there is one per column, inferred otherwise
    for (std::size_t n: {ref.cols() - 1, ref.cols(), ref.cols() + 1, std::size_t(7)})
    {
        if (n == 0) continue;
        std::vector<T> g(n, T::STRING); CSVRow gr(s, 0, ref.cols(), g, sep);
        auto w = n == ref.cols() ? std::vector<T>(n, T::STRING) : want; c.veq(ints(g), ints(w), "types of a row given " + std::to_string(n)); check_row(c, gr, ref, 0, w, "row with given types");
    }
    if (ref.cols() > 1) c.nontrivial();
}
MC_MAIN({"missing", missing}, {"rows", rows}, {"headers", headers}, {"raw", raw}, {"large", large}, {"huge", huge}, {"tables", tables})

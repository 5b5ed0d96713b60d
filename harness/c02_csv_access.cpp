// C02: CSV row access is history independent.  Every program of operations up
// to the depth bound runs on one CSV object plus one iterator, next to a plain
// split of the text.
#include "csv_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
using T = TypeChecker::Type;

struct File { std::string text; char sep; };
static const std::vector<File> FILES{
    {"h1,h2\n1,2\n33,4.5\n-6,\n", ','},
    {"h1,h2\n1,2\n33,4.5\n777,8", ','},
    {"a;bb;c\n;;\ntrue;x;3\n", ';'},
    {"a,b\n", ','},
    {"a,b", ','},
    {"q\n1\n\n22\n", ','},
    {"a,b,c\n1,2,3,4\n5\n6,7,\n", ','},
};
static std::vector<T> types_of(const RefCsv& r)
{
    std::vector<T> t; auto f = r.rows() > 1 ? r.fields(1) : std::vector<std::string>{};
    for (std::size_t i = 0; i < r.cols(); ++i) t.push_back(RefCsv::type(i < f.size() ? f[i] : ""));
    return t;
}
static void program(Ctx& c)
{
    const auto& F = FILES[c.pick(FILES.size())];
    const std::size_t rows = RefCsv(F.text, F.sep).rows();
    const int depth = c.in(1, mc::thorough() ? 5 : 4);
    // ops: read a row (0..rows+1 and further around), then iterator and view operations
    std::vector<std::size_t> at; for (std::size_t i = 0; i < rows + 2; ++i) at.push_back(i); at.push_back(3 * rows + rows / 2);
    const std::size_t NR = at.size(), NOP = NR + 9;
    std::vector<std::size_t> prog;
    for (int i = 0; i < depth; ++i) prog.push_back(c.pick(NOP));
    if (!c.begin()) return;
    RefCsv ref(F.text, F.sep);
    auto types = types_of(ref);
    std::string fn = mc::scratch_file("f.csv"); static const File* last = nullptr;
    if (last != &F) { mc::write_file(fn, F.text); last = &F; }
    CSV csv(fn, {T::AUTO}, F.sep);
    auto it = csv.begin(); std::size_t pos = 1;
    std::string d = "file " + Ctx::quote(F.text) + " program:";
    auto in = [&] { return pos < rows; };
    for (auto op: prog)
    {
        c.step();
        std::string w;
        if (op < NR)
        {
            w = "row[" + std::to_string(at[op]) + "]"; d += " " + w; c.describe(d);
            check_row(c, csv[at[op]], ref, at[op] % rows, types, w);
        }
        else switch (op - NR)
        {
            case 0: d += " *it"; c.describe(d);
                if (in()) { check_row(c, *it, ref, pos, types, "*it"); c.eq(it->line(), ref.lines[pos], "it->line"); }
                else (void) *it;   // past the end: unspecified row, but must not disturb later reads
                break;
            case 1: d += " ++it"; c.describe(d); { auto& r = ++it; c.check(&r == &it, "++it returns itself"); } ++pos; break;
            case 2: d += " --it"; c.describe(d); if (pos > 0) { --it; --pos; } break;
            case 3: d += " it++"; c.describe(d);
                { auto old = it++; if (in()) check_row(c, *old, ref, pos, types, "old of it++"); ++pos; } break;
            case 4: d += " it--"; c.describe(d);
                if (pos > 0) { auto old = it--; if (in()) check_row(c, *old, ref, pos, types, "old of it--"); --pos; } break;
            case 5: d += " copy(it)"; c.describe(d);
                { CSVIterator cp(it); c.check(cp == it && !(cp != it), "copied iterator equal");
                  if (in()) check_row(c, *cp, ref, pos, types, "copied iterator");
                  ++cp; c.check(cp != it, "advancing a copy leaves the original"); if (pos + 1 < rows) check_row(c, *cp, ref, pos + 1, types, "advanced copy"); } break;
            case 6: d += " entry"; c.describe(d);
                for (std::size_t i = 0; i + 1 < rows; ++i)
                {
                    auto e = csv.entry(i), w2 = csv[i + 1].to_vec<double>(); c.eq(e.size(), ref.cols(), "entry width");
                    auto f = ref.fields(i + 1);
                    for (std::size_t k = 0; k < e.size(); ++k) { double v; if (RefCsv::number(k < f.size() ? f[k] : "", v)) c.eq(e[k], v, "entry value"); }
                } break;
            case 7: d += " header"; c.describe(d); check_row(c, csv.header(), ref, 0, types, "header"); break;
            case 8: d += " copy(csv)"; c.describe(d);
                { CSV cp(csv); if (rows > 1) check_row(c, cp[1], ref, 1, types, "copied csv"); check_row(c, cp.header(), ref, 0, types, "copied header");
                  if (rows > 1 && ref.cols() > 1) { CSVField f = csv[1][0]; f = csv[1][1]; auto rf = ref.fields(1); c.eq(f.idx(), std::size_t(1), "assigned field idx"); c.eq(f.as<std::string>(), rf.size() > 1 ? rf[1] : std::string(), "assigned field text"); c.eq(int(f.type()), int(types[1]), "assigned field type"); } } break;
        }
        std::vector<int> a, b; for (auto t: csv.types()) a.push_back(int(t)); for (auto t: types) b.push_back(int(t));
        c.veq(a, b, "column types stay the same");
        c.state(mc::Hash().add(F.text).add(std::uint64_t(pos)).add(std::uint64_t(op)));
    }
    c.trace(); c.nontrivial();
}
// Copies of a CSV must not depend on the object they were copied from.
static void lifetime(Ctx& c)
{
    const auto& F = FILES[c.pick(FILES.size())]; int how = int(c.pick(3));
    if (!c.begin()) return;
    RefCsv ref(F.text, F.sep); auto types = types_of(ref);
    std::string fn = mc::scratch_file("l.csv"); mc::write_file(fn, F.text);
    c.describe("file " + Ctx::quote(F.text) + " copy kind " + std::to_string(how));
    std::vector<CSV> keep; CSVRow* row = nullptr; (void) row;
    if (how == 0) { CSV a(fn, {T::AUTO}, F.sep); keep.push_back(a); }
    if (how == 1) { CSV a(fn, {T::AUTO}, F.sep); CSV b(a); keep.push_back(b); (void) a[0]; }
    if (how == 2) { for (int i = 0; i < 3; ++i) keep.emplace_back(fn, std::vector<T>{T::AUTO}, F.sep); }
    for (auto& k: keep)
    {
        check_row(c, k.header(), ref, 0, types, "header of copy");
        for (std::size_t r = 0; r < ref.rows(); ++r) check_row(c, k[r], ref, r, types, "row of copy");
    }
    c.step(); c.trace(); c.nontrivial();
}
// Files with many rows: every pair of reads around the powers of two and the
// ends, and an iterator that walks, steps back and jumps to the end.
static void many(Ctx& c)
{
    static const std::vector<std::size_t> R{70, 257, 1030, 4100}; const std::size_t rows = R[c.pick(mc::thorough() ? 4 : 3)];
    std::vector<std::size_t> at{0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4097}; at.erase(std::remove_if(at.begin(), at.end(), [&](std::size_t i) { return i + 1 >= rows; }), at.end());
    for (std::size_t k: {rows - 1, rows, rows + 1, 2 * rows - 1, 2 * rows, 2 * rows + 5, 5 * rows + 3, 300 * rows + 1}) at.push_back(k);
    std::size_t a = c.of(at), b = c.of(at); bool term = c.flag(); int width = c.flag() ? 3 : 400;
    if (!c.begin()) return;
    std::string text = "h1,h2"; for (std::size_t r = 1; r < rows; ++r) text += "\n" + std::to_string(r * 7) + "," + (r % 5 == 4 ? "" : "0." + std::string(r * 31 % std::size_t(width), '5') + "1"); if (term) text += "\n";
    std::string fn = mc::scratch_file("m.csv"); static std::size_t lr = 0; static bool lt = false; static int lw = 0; static RefCsv ref("", ',');
    if (lr != rows || lt != term || lw != width) { mc::write_file(fn, text); ref = RefCsv(text, ','); lr = rows; lt = term; lw = width; }
    c.describe("file of " + std::to_string(rows) + " rows, width " + std::to_string(width) + ": row[" + std::to_string(a) + "], row[" + std::to_string(b) + "]");
    auto types = types_of(ref); CSV csv(fn); c.eq(csv.rows_size(), rows, "rows");
    check_row(c, csv[a], ref, a % rows, types, "first row"); check_row(c, csv[b], ref, b % rows, types, "second row"); check_row(c, csv[a], ref, a % rows, types, "first row again");
    auto it = csv.begin(); std::size_t pos = 1; auto move = [&](std::size_t to) { while (pos < to) { ++it; ++pos; } while (pos > to) { --it; --pos; } check_row(c, *it, ref, to, types, "iterator"); CSVIterator k(it); check_row(c, *k, ref, to, types, "copied iterator"); };
    if (a < rows && b < rows) { move(a); move(b); move(a); }
    c.step(3); c.trace(); c.nontrivial(); c.state(mc::Hash().add(std::uint64_t(rows)).add(std::uint64_t(a)).add(std::uint64_t(b)));
}
// Files with more rows than 16 bits count.
static void huge(Ctx& c)
{
    static const std::vector<std::size_t> R{65538, 131080}; const std::size_t rows = R[c.pick(2)];
    std::vector<std::size_t> at{0, 1, 2, 7, 4097, 8193, 16385, 32768, 65535, 65536, 65537, rows - 1, rows, rows + 1, rows + 65536}; std::size_t a = c.of(at), b = c.of(at);
    if (!c.begin()) return;
    std::string fn = mc::scratch_file("u.csv"); static std::size_t lr = 0; static RefCsv ref("", ',');
    if (lr != rows) { std::string text = "h1,h2"; for (std::size_t r = 1; r < rows; ++r) text += "\n" + std::to_string(r) + "," + std::to_string(r % 97); mc::write_file(fn, text); ref = RefCsv(text, ','); lr = rows; }
    c.describe("file of " + std::to_string(rows) + " rows: row[" + std::to_string(a) + "], row[" + std::to_string(b) + "]");
    auto types = types_of(ref); CSV csv(fn); c.eq(csv.rows_size(), rows, "rows");
    check_row(c, csv[a], ref, a % rows, types, "first row"); check_row(c, csv[b], ref, b % rows, types, "second row"); check_row(c, csv[a], ref, a % rows, types, "first row again");
    auto it = csv.begin(); std::size_t pos = 1; auto move = [&](std::size_t to) { while (pos < to) { ++it; ++pos; } while (pos > to) { --it; --pos; } check_row(c, *it, ref, to, types, "iterator"); };
    if (a < rows && b < rows) { move(a); move(b); CSVIterator k(it); check_row(c, *k, ref, b, types, "copied iterator"); move(a); }
    c.step(3); c.trace(); c.nontrivial(); c.state(mc::Hash().add(std::uint64_t(rows)).add(std::uint64_t(a)).add(std::uint64_t(b)));
}
// Two CSV objects on the same or different files, used in turn, assigned to
// each other and copied, with rows, fields and iterators kept across the calls.
static void objects(Ctx& c)
{
    std::size_t f0 = c.pick(FILES.size()), f1 = c.pick(FILES.size()); const bool some = (f0 == 1 || f0 == 2) && (f1 == 0 || f1 == 2 || f1 == 6); const int depth = c.in(2, some ? 4 : mc::thorough() ? 4 : 3);
    // 0,1: last row; 2,3: first row; 4: keep a row; 5: read it; 6: new iterator; 7: advance and read it; 8,9: assign; 10: copy; 11: whole view
    std::vector<std::size_t> prog; for (int i = 0; i < depth; ++i) prog.push_back(c.pick(12));
    if (!c.begin()) return;
    std::string fn[2]{mc::scratch_file("o0.csv"), mc::scratch_file("o1.csv")}; static std::size_t l0 = 99, l1 = 99;
    if (l0 != f0) { mc::write_file(fn[0], FILES[f0].text); l0 = f0; }
    if (l1 != f1) { mc::write_file(fn[1], FILES[f1].text); l1 = f1; }
    std::vector<RefCsv> ref{RefCsv(FILES[f0].text, FILES[f0].sep), RefCsv(FILES[f1].text, FILES[f1].sep)}; std::vector<std::vector<T>> types{types_of(ref[0]), types_of(ref[1])};
    CSV a(fn[0], {T::AUTO}, FILES[f0].sep), b(fn[1], {T::AUTO}, FILES[f1].sep); CSV* obj[2]{&a, &b}; std::size_t is[2]{0, 1};
    std::unique_ptr<CSVRow> kept; std::size_t krow = 0, kof = 0; std::unique_ptr<CSVIterator> it; std::size_t pos = 0, iof = 0;
    std::string d = "files " + Ctx::quote(FILES[f0].text) + " and " + Ctx::quote(FILES[f1].text) + ":"; const char* N[]{"A[last]", "B[last]", "A[1]", "B[1]", "keep row of A", "read kept", "iterator of A", "*++it", "A = B", "B = A", "copy of A", "rows of A"};
    auto row = [&](CSV& o, std::size_t w, std::size_t r, const char* what) { if (r < ref[w].rows()) check_row(c, o[r], ref[w], r, types[w], what); };
    for (auto op: prog)
    {
        c.step(); d += std::string(" ") + N[op] + ";"; c.describe(d);
        switch (op)
        {
            case 0: case 1: { std::size_t w = is[op]; row(*obj[op], w, ref[w].rows() - 1, "last row"); break; }
            case 2: case 3: row(*obj[op - 2], is[op - 2], 1, "first row"); break;
            case 4: krow = ref[is[0]].rows() - 1; kof = is[0]; kept = std::make_unique<CSVRow>(a[krow]); break;
            case 5: if (kept) check_row(c, *kept, ref[kof], krow, types[kof], "kept row"); break;
            case 6: it = std::make_unique<CSVIterator>(a.begin()); pos = 1; iof = is[0]; break;
            case 7: if (it) { ++*it; ++pos; if (pos < ref[iof].rows()) check_row(c, **it, ref[iof], pos, types[iof], "kept iterator"); c.check((*it == a.end()) == (pos == std::max<std::size_t>(ref[iof].rows(), 1)), "end reached"); } break;
            case 8: kept.reset(); it.reset(); a = b; is[0] = is[1]; break;   // (rows and iterators belong to their CSV)
            case 9: b = a; is[1] = is[0]; break;
            case 10: { CSV k(a); row(k, is[0], 1, "copy"); row(k, is[0], ref[is[0]].rows() - 1, "copy"); check_row(c, k.header(), ref[is[0]], 0, types[is[0]], "copied header"); c.eq(k.rows_size(), ref[is[0]].rows(), "rows of copy"); c.eq(k.cols_size(), ref[is[0]].cols(), "columns of copy"); break; }
            case 11: { auto v = std::vector<CSVRow>(a); c.eq(v.size(), ref[is[0]].rows(), "rows view"); for (std::size_t r = 0; r < v.size(); ++r) check_row(c, v[r], ref[is[0]], r, types[is[0]], "row of the view"); break; }
        }
        for (int k = 0; k < 2; ++k) { c.eq(obj[k]->rows_size(), ref[is[k]].rows(), "rows"); c.eq(obj[k]->cols_size(), ref[is[k]].cols(), "columns"); std::vector<int> x, y; for (auto t: obj[k]->types()) x.push_back(int(t)); for (auto t: types[is[k]]) y.push_back(int(t)); c.veq(x, y, "column types"); check_row(c, obj[k]->header(), ref[is[k]], 0, types[is[k]], "header"); }
        c.state(mc::Hash().add(std::uint64_t(f0)).add(std::uint64_t(f1)).add(std::uint64_t(op)).add(std::uint64_t(pos)));
    }
    c.trace(); c.nontrivial();
}
MC_MAIN({"objects", objects}, {"lifetime", lifetime}, {"many", many}, {"huge", huge}, {"program", program})

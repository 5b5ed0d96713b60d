// Reference view of a CSV text: plain string splitting.
#pragma once
#include "parser/csv.hpp"
#include "mc.hpp"
#include <algorithm>
struct RefCsv
{
    std::string text; char sep; std::vector<std::string> lines;
    RefCsv(std::string t, char s) : text(std::move(t)), sep(s)
    {
        std::string cur; bool open = false;
        for (char ch: text) { if (ch == '\n') { lines.push_back(cur); cur.clear(); open = false; } else { cur += ch; open = true; } }
        if (open) lines.push_back(cur);
    }
    static std::vector<std::string> split(const std::string& l, char s)
    {
        std::vector<std::string> f{""};
        for (char ch: l) { if (ch == s) f.emplace_back(); else f.back() += ch; }
        return f;
    }
    std::size_t rows() const { return lines.size(); }
    std::size_t cols() const { return split(lines.empty() ? "" : lines[0], sep).size(); }
    std::vector<std::string> fields(std::size_t r) const { return split(lines[r], sep); }
    static bool number(const std::string& f, double& v)
    {
        if (f.empty()) { v = 0; return true; }
        char* e = nullptr;
        if (!(f[0] == '-' || f[0] == '+' || f[0] == '.' || (f[0] >= '0' && f[0] <= '9'))) return false;
        for (char ch: f) if (!(ch == '-' || ch == '+' || ch == '.' || ch == 'e' || (ch >= '0' && ch <= '9'))) return false;
        v = std::strtod(f.c_str(), &e);
        return *e == 0;
    }
    // inferred type of a simple field (the alphabet of these harnesses)
    static EdgeLearning::TypeChecker::Type type(const std::string& f)
    {
        using T = EdgeLearning::TypeChecker::Type;
        if (f.empty()) return T::NONE;
        if (f == "true" || f == "false") return T::BOOL;
        std::size_t i = (f[0] == '-' || f[0] == '+') ? 1 : 0;
        bool digits = i < f.size(), dot = false, bad = false;
        for (std::size_t k = i; k < f.size(); ++k)
        { if (f[k] == '.') { if (dot) bad = true; dot = true; } else if (f[k] < '0' || f[k] > '9') bad = true; }
        if (!digits || bad) return T::STRING;
        if (dot) return f.back() == '.' ? T::STRING : T::FLOAT;
        if (f[i] == '0' && f.size() > i + 1) return T::FLOAT;
        return T::INT;
    }
};
// Everything observable about one row must be what the text says.
inline void check_row(mc::Ctx& c, const EdgeLearning::CSVRow& row, const RefCsv& ref, std::size_t r,
                      const std::vector<EdgeLearning::TypeChecker::Type>& types, const std::string& who)
{
    using namespace EdgeLearning;
    c.eq(row.line(), ref.lines[r], who + " line");
    c.eq(std::string(row), ref.lines[r], who + " string");
    c.eq(row.idx(), r, who + " idx");
    c.eq(row.size(), ref.cols(), who + " size");
    c.eq(row.empty(), false, who + " empty");
    auto f = ref.fields(r); std::size_t n = ref.cols();
    std::vector<std::string> want; for (std::size_t i = 0; i < n; ++i) want.push_back(i < f.size() ? f[i] : "");
    auto sv = std::vector<std::string>(row);
    c.veq(sv, want, who + " text fields");
    auto dv = row.to_vec<double>(); c.eq(dv.size(), n, who + " numeric width");
    auto iv = row.to_vec<int>(); c.eq(iv.size(), n, who + " int width");
    auto fv = std::vector<CSVField>(row); c.eq(fv.size(), n, who + " field width");
    c.eq(row.types().size(), n, who + " types width");
    for (std::size_t i = 0; i < n; ++i)
    {
        double v; bool num = RefCsv::number(want[i], v);
        std::string at = who + " col " + std::to_string(i);
        if (num) { c.eq(dv[i], v, at + " numeric value"); if (v == std::floor(v) && want[i].find('.') == std::string::npos) c.eq(iv[i], int(v), at + " int value"); }
        c.eq(fv[i].idx(), i, at + " field idx"); c.eq(fv[i].as<std::string>(), want[i], at + " field text");
        c.eq(int(fv[i].type()), int(types[i]), at + " field type"); c.eq(int(row.types()[i]), int(types[i]), at + " row type");
        if (i < f.size())
        {
            CSVField g = row[i];
            c.eq(g.idx(), i, at + " [] idx"); c.eq(g.as<std::string>(), want[i], at + " [] text");
            c.eq(int(g.type()), int(types[i]), at + " [] type");
            if (num) c.eq(g.as<double>(), v, at + " [] numeric");
            c.eq(g.as<bool>(), want[i] == "true" || want[i] == "1", at + " [] bool");
            // a field is a value: copies and assignments carry text, type and column
            CSVField h(g), o = fv[(i + 1) % n]; o = g;
            for (const CSVField* q: {&h, &o}) { c.eq(q->idx(), i, at + " copied field idx"); c.eq(q->as<std::string>(), want[i], at + " copied field text"); c.eq(int(q->type()), int(types[i]), at + " copied field type"); }
        }
        else c.throws([&] { (void) row[i]; }, at + " missing field");
    }
    c.throws([&] { (void) row[n]; }, who + " column out of range");
}

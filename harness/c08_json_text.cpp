// C08: JSON text round trip, and totality of the reader.
#include "json_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
// reader result: accepted or error (exception or failed stream)
static bool read(const std::string& t, Json& j, std::string* rest = nullptr)
{
    std::stringstream ss(t);
    try { ss >> j; } catch (const mc::Violation&) { throw; } catch (const std::exception&) { return false; }
    if (ss.fail()) return false;
    if (rest) { ss.clear(); std::getline(ss, *rest, '\0'); }
    return true;
}
static void round_trip(Ctx& c, const Doc& d, int how)
{
    c.describe(Ctx::quote(d.text()));
    Json j = build(d, how); Doc built = observe(j); c.check(built == d && types_equal(built, d), "built document holds " + built.text());
    std::ostringstream os; os << j; std::string t = os.str();
    Doc s; c.check(Strict::parse(t, s), "written text is not JSON: " + Ctx::quote(t)); c.check(s == d && types_equal(s, d), "written text " + Ctx::quote(t) + " means something else");
    if (d.kind != JT::LEAF) { c.eq(std::string(j), t, "string form"); }
    Json r; c.check(read(t, r), "reading back " + Ctx::quote(t)); Doc b = observe(r);
    c.check(b == d && types_equal(b, d), "read back " + b.text() + " from " + Ctx::quote(t));
    c.check(r == j && !(r != j), "read document compares equal");
    if (d.kind != JT::LEAF || d.type == VT::STRING)
    {
        std::string rest; Json q = Json(7); c.check(read(t + "@z", q, &rest), "reading back from a longer stream"); c.eq(rest, std::string("@z"), "text left after the document");
        c.check(observe(q) == d, "read over another document");
    }
    if (d.kind == JT::LIST) { JsonList l; std::stringstream ss(t); ss >> l; std::ostringstream o2; o2 << l; c.eq(o2.str(), t, "list operators"); c.eq(l.size(), (unsigned long) d.list.size(), "list size"); }
    if (d.kind == JT::DICT) { JsonDict l; std::stringstream ss(t); ss >> l; std::ostringstream o2; o2 << l; c.eq(o2.str(), t, "dict operators"); c.eq(l.size(), (unsigned long) d.map.size(), "dict size"); }
    if (d.kind == JT::LEAF) { JsonLeaf l; std::stringstream ss(t); ss >> l; c.eq(l.value(), d.val, "leaf operators"); }
    if (d.kind == JT::LIST || d.kind == JT::DICT) c.nontrivial();
    c.outcome(mc::Hash().add(t));
}
static const std::vector<Doc> LEAVES{
    Doc::leaf("1", VT::INT), Doc::leaf("x", VT::STRING), Doc::leaf("", VT::STRING), Doc::leaf("-2.50", VT::FLOAT), Doc::leaf("true", VT::BOOL), Doc::leaf("a]b}c,d", VT::STRING)};
static const std::vector<Doc> RICH = [] {
    std::vector<Doc> v = LEAVES;
    for (const char* s: {"[", "]", "{", "}", ",", ":", "[]", "{}", " ", "a b", "\t", "a\nb", "1", "-3.5", "true", "false", "\\", "'", "\xc3\xa9", "],[", "\":\" "})
        if (!std::strchr(s, '"')) v.push_back(Doc::leaf(s, VT::STRING));
    for (const char* s: {"0", "-17", "123456789012", "+5"}) v.push_back(Doc::leaf(s, VT::INT));
    v.pop_back();
    for (const char* s: {"0.000000", "1.000000", "-0.5", "3.14159265358979", "100000.250000", "1e+5", "-2.5E-3", "12e7", "0.0e0"}) v.push_back(Doc::leaf(s, VT::FLOAT));
    v.push_back(Doc::leaf("false", VT::BOOL)); v.push_back(Doc::leaf(std::string(300, 'q'), VT::STRING));
    return v; }();
static const std::vector<std::string> KEYS{"a", "b", "a,b", "[}", "", "1", "key with : colon"};
static Doc tree(Ctx& c, int& budget, int depth)
{
    --budget;
    std::size_t k = budget >= 0 && depth > 0 ? c.pick(LEAVES.size() + 2) : c.pick(LEAVES.size());
    if (k >= LEAVES.size() && depth > 0)
    {
        bool list = k == LEAVES.size(); int n = c.in(0, std::min(budget, 3)); Doc d = list ? Doc::lst() : Doc::dict();
        for (int i = 0; i < n; ++i)
        {
            if (budget <= 0) break;
            if (list) d.list.push_back(tree(c, budget, depth - 1)); else { auto key = KEYS[std::size_t(i) % 3]; d.map[key] = tree(c, budget, depth - 1); }
        }
        return d;
    }
    return LEAVES[k];
}
static void trees(Ctx& c)
{
    int budget = mc::thorough() ? 6 : 5; Doc d = tree(c, budget, 4); int how = int(c.pick(2));
    if (!c.begin()) return;
    round_trip(c, d, how);
}
// every rich leaf value and key, alone and in company
static void values(Ctx& c)
{
    int shape = int(c.pick(6)); const Doc& a = c.of(RICH); std::size_t kb = c.pick(shape >= 2 ? RICH.size() : 1), key = c.pick(shape == 1 || shape == 3 || shape == 5 ? KEYS.size() : 1); int how = int(c.pick(2));
    if (!c.begin()) return;
    const Doc& b = RICH[kb]; Doc d;
    if (shape == 0) d = a; else if (shape == 1) d = Doc::dict({{KEYS[key], a}}); else if (shape == 2) d = Doc::lst({a, b});
    else if (shape == 3) d = Doc::dict({{KEYS[key], a}, {"zz", b}}); else if (shape == 4) d = Doc::lst({Doc::lst({a}), Doc::lst(), b}); else d = Doc::lst({Doc::dict({{KEYS[key], a}}), Doc::dict(), b});
    round_trip(c, d, how);
}
// long and deep documents
static void sizes(Ctx& c)
{
    int n = c.in(0, 40) * (mc::thorough() ? 25 : 5), depth = c.in(0, 20), how = int(c.pick(2));
    if (!mc::thorough() && depth > 6 && n % 50 != depth % 5 * 10) return;
    if (!c.begin()) return;
    Doc d = Doc::lst(); for (int i = 0; i < n; ++i) d.list.push_back(i % 3 ? LEAVES[std::size_t(i) % LEAVES.size()] : Doc::dict({{"k" + std::to_string(i), Doc::leaf(std::to_string(i), VT::INT)}}));
    for (int i = 0; i < depth * depth; ++i) d = i % 2 ? Doc::lst({d}) : Doc::dict({{"d", d}});
    round_trip(c, d, how); c.describe("list of " + std::to_string(n) + " in " + std::to_string(depth * depth) + " levels");
}
// lists and dictionaries of more elements than 16 bits count, texts of the same length
static void huge(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{1025, 4097, 65537}); int kind = c.in(0, 2), how = c.in(0, 1); if (kind == 1 && n > 5000) n = 5000;
    if (!c.begin()) return;
    Doc d = kind == 1 ? Doc::dict({}) : Doc::lst(); if (kind == 2) d.list.push_back(Doc::leaf(std::string(n, 'q') + "e", VT::STRING)); else for (std::size_t i = 0; i < n; ++i) if (kind) d.map["k" + std::to_string(i)] = Doc::leaf(std::to_string(i), VT::INT); else d.list.push_back(Doc::leaf(std::to_string(i), VT::INT));
    round_trip(c, d, how); c.describe((kind == 1 ? "dictionary of " : kind ? "text of " : "list of ") + std::to_string(n));
}
// nesting of any depth ends, in a document or in an error
static void depths(Ctx& c)
{
    std::size_t n = c.of(std::vector<std::size_t>{401, 700, 999, 1000, 1500, 3000, 10000, 100000, 1000000}); int kind = int(c.pick(4)), end = int(c.pick(3));
    if (!c.begin()) return;
    c.describe("nesting of " + std::to_string(n) + " levels, kind " + std::to_string(kind) + ", end " + std::to_string(end)); std::string open, close, t; auto list = [&](std::size_t i) { return kind == 0 || (kind == 2 && i % 2) || (kind == 3 && i > 5); };
    for (std::size_t i = 0; i < n; ++i) { open += list(i) ? "[" : "{\"k\":"; close += list(n - 1 - i) ? ']' : '}'; } t = open + "1"; if (end == 0) t += close; if (end == 1) t += close.substr(0, n - 1);
    Json j; bool ok = read(t, j); if (end) c.check(!ok, "a document cut short was accepted"); else if (n < 1000) c.check(ok, "a document of " + std::to_string(n) + " levels was rejected"); c.count(ok ? "accepted depths" : "rejected depths");
    if (ok) { std::ostringstream os; os << j; c.eq(os.str(), t, "written again"); } Json k; c.check(read("[1,{\"a\":[2]}]", k) && k.at(1).at("a").at(0).as<int>() == 2, "reading after that"); c.nontrivial();
}
// The language of the reader: a text is read when it begins with a document,
// where a raw value is any run of characters up to , ] }.
struct Begins
{
    const std::string& s; std::size_t p = 0; bool short_ = false;   // short_: only the end of the text is missing
    bool eat(char ch) { if (p >= s.size()) { short_ = true; return false; } if (s[p] != ch) return false; ++p; return true; }
    bool str(std::string& o) { auto e = s.find('"', p); if (e == std::string::npos) { short_ = true; return false; } o = s.substr(p, e - p); p = e + 1; return true; }
    bool seq(bool dict, Doc& d)
    {
        d = dict ? Doc::dict() : Doc::lst(); char end = dict ? '}' : ']'; if (p < s.size() && s[p] == end) { ++p; return true; }
        while (true)
        {
            std::string key; Doc e; if (dict && !(eat('"') && str(key) && eat(':'))) return false;
            if (!item(e)) return false;
            if (dict) d.map[key] = e; else d.list.push_back(e);
            if (p >= s.size()) { short_ = true; return false; }
            char ch = s[p++]; if (ch == end) return true; if (ch != ',') return false;
        }
    }
    bool item(Doc& d)
    {
        if (p >= s.size()) { short_ = true; return false; }
        char ch = s[p]; if (ch == '[' || ch == '{') { ++p; return seq(ch == '{', d); }
        d = Doc::leaf("", VT::STRING); if (ch == '"') { ++p; return str(d.val); }
        std::size_t a = p; while (p < s.size() && s[p] != ',' && s[p] != ']' && s[p] != '}') ++p;
        d.val = s.substr(a, p - a); return true;
    }
    bool item() { Doc d; return item(d); }
};
// any text: a document or an error
static void any_text(Ctx& c, const std::string& t)
{
    c.describe("text " + Ctx::quote(t)); Doc s; bool valid = Strict::parse(t, s);
    Json j; bool ok = read(t, j);
    c.count(ok ? "accepted texts" : "rejected texts");
    { Begins g{t}; Doc d; c.eq(ok, g.item(d), "accepted"); if (ok) { Doc o = observe(j); c.check(o == d, "holds " + o.text() + ", the text says " + d.text()); } }
    if (valid) { c.nontrivial(); c.check(ok, "a valid document was rejected"); Doc d = observe(j); c.check(d == s && types_equal(d, s), "read as " + d.text()); }
    if (ok)
    {
        std::ostringstream os; os << j; Json k; std::string u = os.str();
        if (u.find('"') == std::string::npos || std::count(t.begin(), t.end(), '"') % 2 == 0) { bool q = false; std::function<void(const Doc&)> f = [&](const Doc& d) { if (d.val.find('"') != std::string::npos) q = true; for (auto& e: d.list) f(e); for (auto& e: d.map) f(e.second); }; f(observe(j));
            if (!q) { c.check(read(u, k), "re-reading " + Ctx::quote(u)); c.check(observe(k) == observe(j), "re-read " + Ctx::quote(u) + " differs"); } }
    }
    // the typed readers must end too
    for (int k = 0; k < 3; ++k) { std::stringstream ss(t); try { if (k == 0) { JsonList l; ss >> l; } else if (k == 1) { JsonDict l; ss >> l; } else { JsonLeaf l; ss >> l; } } catch (const std::exception&) { } }
}
static void texts(Ctx& c)
{
    static const std::string A = "[]{}\",:1"; int n = c.in(0, mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += A[c.pick(A.size())];
    if (!c.begin()) return;
    any_text(c, s);
}
// token sequences: every one whose proper prefixes could still begin a document
static void tokens(Ctx& c)
{
    static const std::vector<std::string> T{"[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1", "x "}; std::string s; const int n = mc::thorough() ? 11 : 9; int objects = 0;
    for (int i = 0; i < n; ++i)
    {
        if (i > 0) { Begins g{s}; if (g.item() || !g.short_) { if (g.p < s.size() || s[0] == '[' || s[0] == '{') break; } }
        std::size_t k = c.pick(T.size() + 1); if (k == T.size()) break; if (k == 7 && !objects) return; if (k == 2) ++objects; s += T[k];
        if (i >= (mc::thorough() ? 7 : 6) && s[0] != '{') return;
    }
    if (!c.begin()) return;
    any_text(c, s); if (s.size() > 4) c.nontrivial();
}
static const std::vector<std::string> DOCS{
    "{\"layers\":[{\"name\":\"d\",\"size\":[3],\"w\":[[1.5,-2.000000],[]]}],\"ok\":true}", "[[],{},\"\",[[[1]]],{\"a\":{\"b\":[]}}]", "[\"x,y\",\"]\",\"}\",{\"k\":\"{\"}]", "\"abc\"", "{}", "[]"};
static void damaged(Ctx& c)
{
    const std::string& d = c.of(DOCS); int kind = int(c.pick(4)); std::size_t at = c.pick(d.size() + (kind == 3 ? 1 : 0)); static const std::string A = "[]{}\",:1a \n\\\x80"; std::size_t ch = kind >= 2 ? c.pick(A.size() + 1) : 0;
    if (!c.begin()) return;
    char x = ch < A.size() ? A[ch] : '\0'; std::string t = d;
    if (kind == 0)
    {
        t = d.substr(0, at); any_text(c, t); c.nontrivial();
        Json j; if (at > 0) c.check(!read(t, j), "a document cut short was accepted as " + observe(j).text());
        return;
    }
    if (kind == 1) t.erase(at, 1); else if (kind == 2) t[at] = x; else t.insert(at, 1, x);
    any_text(c, t); c.nontrivial();
}
// files
static void files(Ctx& c)
{
    std::size_t k = c.pick(DOCS.size() + 1);
    if (!c.begin()) return;
    c.describe("file " + std::to_string(k)); std::string f = mc::scratch_file("j.json");
    if (k == DOCS.size()) { ::unlink(f.c_str()); std::ifstream i(f); Json j = Json(3); try { i >> j; } catch (const std::exception&) { } c.check(!i || true, ""); return; }
    Doc d; Strict::parse(DOCS[k], d); { std::ofstream o(f); o << build(d, 0); } std::ifstream i(f); Json j; i >> j; Doc b = observe(j); c.check(b == d && types_equal(b, d), "through a file: " + b.text()); c.nontrivial();
}
// every numeric C++ type at its limits, as leaf, item, list element and dict value
template <class T> static void number(Ctx& c, T v, int how)
{
    std::ostringstream want; want << +v; Json j;
    if (how == 0) j = JsonItem(v); else if (how == 1) j = JsonItem(JsonLeaf(v)); else if (how == 2) { j["k"] = v; } else if (how == 3) { j = JsonList(std::vector<T>{v, v}); } else { j = JsonDict(std::map<std::string, T>{{"k", v}}); }
    c.describe("number " + want.str() + " of " + std::to_string(sizeof(T)) + " bytes, way " + std::to_string(how));
    std::ostringstream os; os << j; Json r; std::string t = os.str(); c.check(read(t, r), "reading back " + t);
    auto leaf = [&](const Json& x) -> const JsonItem& { return how == 2 || how == 4 ? x.at("k") : how == 3 ? x.at(1) : x; };
    for (const Json* x: {(const Json*) &j, (const Json*) &r})
    {
        const JsonItem& l = leaf(*x); Doc d = observe(l);
        if constexpr (std::is_floating_point_v<T>) { c.check(d.type == VT::FLOAT, "a floating point leaf"); c.check(std::fabs(std::strtold(d.val.c_str(), nullptr) - (long double) v) <= 5.1e-7L, "text " + d.val); c.check(std::fabs(double(l.as<T>() - v)) <= 5.1e-7, "value"); }
        else { c.check(d.type == VT::INT, "an integer leaf"); c.eq(d.val, want.str(), "text of the number"); c.check(l.template as<T>() == v, "value of the number"); c.check(T(l) == v, "converted number"); }
    }
    c.nontrivial(); c.outcome(mc::Hash().add(t));
}
static void numbers(Ctx& c)
{
    int type = int(c.pick(7)), how = int(c.pick(5)), sh = c.in(0, 63), off = c.in(-2, 2); bool neg = c.flag();
    if (!c.begin()) return;
    unsigned long long m = (1ull << sh) + (unsigned long long) (long long) off; if (neg) m = 0 - m;
    switch (type)
    {
        case 0: number<int>(c, int(m), how); break; case 1: number<unsigned>(c, unsigned(m), how); break; case 2: number<long>(c, long(m), how); break; case 3: number<unsigned long>(c, m, how); break;
        case 4: number<long long>(c, (long long) m, how); break; case 5: number<unsigned long long>(c, m, how); break;
        case 6: number<double>(c, sh < 40 ? double((long long) m) / 16 + off * 0.0001 : std::ldexp(neg ? -1.0 - off / 8.0 : 1.0 + off / 8.0, sh - 50), how); break;
    }
}
MC_MAIN({"huge", huge}, {"depths", depths}, {"numbers", numbers}, {"files", files}, {"values", values}, {"sizes", sizes}, {"damaged", damaged}, {"trees", trees}, {"tokens", tokens}, {"texts", texts})

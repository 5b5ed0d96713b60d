// C01: type inference and text<->value conversion, against a hand-written
// scanner (no regular expressions), over every string of the bounded alphabets.
#include "parser/csv.hpp"
#include "parser/type_checker.hpp"
#include "mc.hpp"
#include <limits>
using namespace EdgeLearning;
using T = TypeChecker::Type;
using mc::Ctx;

static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool ref_int(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i == s.size()) return false;
    if (s[i] == '0') return i + 1 == s.size();
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}
// [sign] digits* [.] digits+ [e[sign]digits+]
static bool ref_float(const std::string& s)
{
    std::size_t i = 0, n = s.size();
    if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    std::size_t a = 0, b = 0; bool dot = false;
    while (i < n && dig(s[i])) { ++i; ++a; }
    if (i < n && s[i] == '.') { dot = true; ++i; while (i < n && dig(s[i])) { ++i; ++b; } }
    if (dot ? b == 0 : a == 0) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
        std::size_t c = 0; while (i < n && dig(s[i])) { ++i; ++c; }
        if (!c) return false;
    }
    return i == n;
}
static T ref_type(const std::string& s)
{
    if (s.empty()) return T::NONE;
    if (s == "true" || s == "false") return T::BOOL;
    if (ref_int(s)) return T::INT;
    if (ref_float(s)) return T::FLOAT;
    return T::STRING;
}
static std::string skip_ws(const std::string& s)
{
    std::size_t i = 0;
    while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
    return s.substr(i);
}
template <class I> static bool ref_to_int(const std::string& in, I& v)
{
    std::string s = skip_ws(in); std::size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i == s.size()) return false;
    __int128 a = 0;
    for (; i < s.size(); ++i)
    { if (!dig(s[i])) return false; a = a * 10 + (s[i] - '0'); if (a > ((__int128) 1 << 100)) return false; }
    if (neg) a = -a;
    if (a < (__int128) std::numeric_limits<I>::min() || a > (__int128) std::numeric_limits<I>::max()) return false;
    v = static_cast<I>(a); return true;
}
static bool ref_to_double(const std::string& in, double& v)
{
    std::string s = skip_ws(in);
    // "1." is a number for conversion although inference wants a digit after it
    std::string g = s;
    std::size_t d = g.find('.');
    if (d != std::string::npos && d > 0 && dig(g[d - 1]) && (d + 1 == g.size() || !dig(g[d + 1]))) g.insert(d + 1, "0");
    if (!ref_float(g)) return false;
    v = std::strtod(s.c_str(), nullptr);
    return !std::isinf(v);
}

static void one(Ctx& c, const std::string& s)
{
    c.describe("text " + Ctx::quote(s));
    T want = ref_type(s), got = TypeChecker::parse(s);
    TypeChecker tc;
    auto nm = [](T t) { return static_cast<int>(t); };
    c.eq(nm(got), nm(want), "type of " + Ctx::quote(s));
    c.eq(nm(tc(s)), nm(want), "type (call operator) of " + Ctx::quote(s));
    c.eq(TypeChecker::is_int(s), want == T::INT, "is_int " + Ctx::quote(s));
    c.eq(TypeChecker::is_float(s), want == T::FLOAT, "is_float " + Ctx::quote(s));
    c.eq(TypeChecker::is_bool(s), want == T::BOOL, "is_bool " + Ctx::quote(s));
    c.eq(TypeChecker::is_string(s), want == T::STRING, "is_string " + Ctx::quote(s));
    {
        int v = 0, w = 0; bool r = ref_to_int(s, w), g = TypeChecker::parse(s, v);
        c.eq(g, r, "int conversion success of " + Ctx::quote(s));
        if (r) c.eq(v, w, "int value of " + Ctx::quote(s));
    }
    {
        long v = 0, w = 0; bool r = ref_to_int(s, w), g = tc(s, v);
        c.eq(g, r, "long conversion success of " + Ctx::quote(s));
        if (r) c.eq(v, w, "long value of " + Ctx::quote(s));
    }
    auto whole = [&](auto zero, const char* name)
    {
        decltype(zero) v{}, w{}; bool r = ref_to_int(s, w), g = TypeChecker::parse(s, v);
        c.eq(g, r, std::string(name) + " conversion success of " + Ctx::quote(s));
        if (r) c.check(v == w, std::string(name) + " value of " + Ctx::quote(s));
    };
    whole(0ul, "unsigned long"); whole(0u, "unsigned"); whole(0ull, "unsigned long long"); whole(0ll, "long long"); whole((short) 0, "short"); whole((unsigned short) 0, "unsigned short");
    {
        float v = 0; double w = 0; bool r = ref_to_double(s, w), g = tc(s, v); float x = r ? std::strtof(s.c_str(), nullptr) : 0;
        c.eq(g, r && !std::isinf(x), "float conversion success of " + Ctx::quote(s));
        if (g && r) c.eq(v, x, "float value of " + Ctx::quote(s));
    }
    {
        double v = 0, w = 0; bool r = ref_to_double(s, w), g = TypeChecker::parse(s, v);
        c.eq(g, r, "double conversion success of " + Ctx::quote(s));
        if (r) c.eq(v, w, "double value of " + Ctx::quote(s));
        if (want == T::INT || want == T::FLOAT) c.count("numeric");
    }
    {
        std::string v; c.check(TypeChecker::parse(s, v), "string conversion success"); c.eq(v, s, "string value");
        bool b = false; c.check(tc(s, b), "bool conversion reports success");
        c.eq(b, s == "true" || s == "1", "bool value of " + Ctx::quote(s));
    }
    if (want != T::STRING) c.nontrivial();
    c.outcome(mc::Hash().add(nm(want)).add(std::uint64_t(s.size())));
}

static const std::string ALPHA = "01.-e+9 E\"ta";
static void strings(Ctx& c)
{
    int n = c.in(0, mc::thorough() ? 6 : 5);
    std::string s;
    for (int i = 0; i < n; ++i) s += ALPHA[c.pick(ALPHA.size())];
    if (!c.begin()) return;
    one(c, s);
}
static void bytes(Ctx& c)
{
    std::string s;
    if (c.flag()) { s += char(c.pick(256)); }
    else { s += char(32 + c.pick(95)); s += char(32 + c.pick(95)); }
    if (!c.begin()) return;
    one(c, s);
}
static void numbers(Ctx& c)
{
    static const std::vector<std::string> pre{"", "-", "+", "0", ".", "-.", "--", " "};
    static const std::vector<std::string> suf{"", ".5", "e3", "e-2", "E+10", ".", ".25e1", " ", "x", "e"};
    std::string s = c.of(pre); int v = c.in(0, mc::thorough() ? 9999 : 999); s += std::to_string(v); s += c.of(suf);
    if (!c.begin()) return;
    one(c, s);
}
static void limits(Ctx& c)
{
    static const std::vector<std::string> big{"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
        "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1e308", "1e309", "-1e309", "1e-320",
        "0.1", "123456789.125", "3.141592653589793", "1.7976931348623157e308", "2.2250738585072014e-308", "00", "-00", "007"};
    std::string s = c.of(big);
    if (!c.begin()) return;
    if (s == "1e-320") { /* denormal: inference only */ c.nontrivial(); c.eq(int(TypeChecker::parse(s)), int(T::FLOAT), s); return; }
    one(c, s);
}
static void booleans(Ctx& c)
{
    std::string s = c.flag() ? "true" : "false";
    static const std::string repl = "tTfFrueals01 \"";
    int kind = int(c.pick(4));
    std::size_t pos = c.pick(s.size() + 1);
    char ch = repl[c.pick(repl.size())];
    if (!c.begin()) return;
    if (kind == 1) s.insert(pos, 1, ch);
    if (kind == 2 && pos < s.size()) s[pos] = ch;
    if (kind == 3 && pos < s.size()) s.erase(pos, 1);
    one(c, s);
}
static void quoted(Ctx& c)
{
    static const std::string a = "\"1t.\n\\";
    int n = c.in(0, 4); std::string s = "\"";
    for (int i = 0; i < n; ++i) s += a[c.pick(a.size())];
    int tail = int(c.pick(3));
    if (!c.begin()) return;
    if (tail == 0) s += "\""; if (tail == 1) s += "\" ";
    one(c, s);
}
static void vectors(Ctx& c)
{
    static const std::vector<std::string> toks{"", "1", "1.5", "true", "x", "-0", "\"1\"", ".5"};
    int n = c.in(0, mc::thorough() ? 5 : 4); std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(c.of(toks));
    if (!c.begin()) return;
    TypeChecker tc; auto g = TypeChecker::parse(v), g2 = tc(v);
    c.eq(g.size(), v.size(), "vector size"); c.eq(g2.size(), v.size(), "vector size");
    for (std::size_t i = 0; i < v.size(); ++i)
    { c.eq(int(g[i]), int(ref_type(v[i])), "element type"); c.eq(int(g2[i]), int(ref_type(v[i])), "element type"); }
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        T t = T::AUTO; EdgeLearning::CSVField f(v[i], t, i + 3), q(f); c.eq(int(t), int(ref_type(v[i])), "type given back by a field"); T u = T::FLOAT; EdgeLearning::CSVField k("7", u, 0); c.eq(int(k.type()), int(T::FLOAT), "a given type of a field"); c.eq(int(u), int(T::FLOAT), "a given type of a field"); k = q;
        for (auto* x: {&f, &q, &k}) { c.eq(int(x->type()), int(ref_type(v[i])), "type of a field"); c.eq(x->idx(), i + 3, "column of a field"); c.eq(x->as<std::string>(), v[i], "text of a field"); }
    }
    std::vector<T> w; for (auto& s: v) w.push_back(ref_type(s));
    c.check(EdgeLearning::operator==(g, w) && !EdgeLearning::operator!=(g, w), "type vectors compare equal");
    if (!w.empty())
    {
        auto w2 = w; w2.back() = w2.back() == T::INT ? T::BOOL : T::INT;
        c.check(EdgeLearning::operator!=(g, w2) && !EdgeLearning::operator==(g, w2), "different type vectors compare different");
        auto w3 = w; w3.pop_back();
        c.check(EdgeLearning::operator!=(g, w3), "type vectors of different length compare different");
    }
    c.nontrivial();
}
template <class I> static void rt(Ctx& c, I v)
{
    TypeChecker tc; std::string s = tc(v); I b{};
    c.eq(int(TypeChecker::parse(s)), int(T::INT), "written integer is inferred as integer");
    c.check(tc(s, b), "written integer converts back"); c.eq(b, v, "integer round trip of " + s);
}
static void roundtrip(Ctx& c)
{
    int k = int(c.pick(6)); int off = c.in(-600, 600);
    if (!c.begin()) return;
    c.nontrivial();
    switch (k)
    {
        case 0: rt<int>(c, off * 1000003); break;
        case 1: rt<long>(c, off * 1000000000039L); break;
        case 2: rt<unsigned long>(c, off >= 0 ? 0ul + unsigned(off) : ~0ul + 1 + unsigned(off + 600)); break;
        case 3: rt<int>(c, off > 0 ? std::numeric_limits<int>::max() - off : std::numeric_limits<int>::min() - off); break;
        case 4: rt<long long>(c, off); break;
        case 5:
        {
            TypeChecker tc; bool b = off & 1; std::string s = tc(b); bool r = !b;
            c.eq(s, std::string(b ? "true" : "false"), "bool text"); c.check(tc(s, r), "bool back"); c.eq(r, b, "bool round trip");
            // a double that needs at most six decimals survives the trip
            double d = off / 8.0, e = 1e9; s = tc(d); c.check(tc(s, e), "double back"); c.eq(e, d, "double round trip of " + s);
            break;
        }
    }
}
// texts of any length
static void lengths(Ctx& c)
{
    static const std::vector<std::string> pre{"", "-", "+", "\"", "0.", "1e", "x", "."}, post{"", "\"", ".5", "e2", "x", "\n", "."}; std::size_t n = c.of(std::vector<std::size_t>{30, 300, 3000, 20000, 100000, 1000000}); char fill = "017a\" "[c.pick(6)];
    const std::string& a = c.of(pre); const std::string& b = c.of(post);
    if (!c.begin()) return;
    std::string s = a + std::string(n, fill) + b; if (n < 30000) { one(c, s); return; }
    c.describe("text of " + std::to_string(s.size()) + " characters: " + Ctx::quote(s.substr(0, 4)) + "..." + Ctx::quote(s.substr(s.size() - 3))); T want = ref_type(s); c.eq(int(TypeChecker::parse(s)), int(want), "type"); c.eq(TypeChecker::is_int(s), want == T::INT, "is_int"); c.eq(TypeChecker::is_float(s), want == T::FLOAT, "is_float"); c.eq(TypeChecker::is_string(s), want == T::STRING, "is_string");
    int v = 0, w = 0; c.eq(TypeChecker::parse(s, v), ref_to_int(s, w), "int conversion success"); std::string t; c.check(TypeChecker::parse(s, t) && t == s, "string value"); c.nontrivial();
}
MC_MAIN({"lengths", lengths}, {"limits", limits}, {"booleans", booleans}, {"quoted", quoted}, {"vectors", vectors}, {"roundtrip", roundtrip},
        {"bytes", bytes}, {"numbers", numbers}, {"strings", strings})

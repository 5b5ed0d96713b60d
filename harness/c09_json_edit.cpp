// C09: JSON values under edit programs, next to the value-type model.
#include "json_ref.hpp"
using namespace EdgeLearning;
using mc::Ctx;
struct Refused { };
// the model's edits
static Doc& key(Doc& d, const std::string& k) { if (d.kind == JT::NONE) d = Doc::dict(); if (d.kind != JT::DICT) throw Refused{}; return d.map[k]; }
static Doc& idx(Doc& d, std::size_t i) { if (d.kind != JT::LIST || i >= d.list.size()) throw Refused{}; return d.list[i]; }
static void app(Doc& d, Doc v) { if (d.kind == JT::NONE) d = Doc::lst(); if (d.kind != JT::LIST) throw Refused{}; d.list.push_back(std::move(v)); }
static const Doc& at(const Doc& d, const std::string& k) { if (d.kind != JT::DICT || !d.map.count(k)) throw Refused{}; return d.map.at(k); }
static const Doc& at(const Doc& d, std::size_t i) { if (d.kind != JT::LIST || i >= d.list.size()) throw Refused{}; return d.list[i]; }
static Doc num(int v) { return Doc::leaf(std::to_string(v), VT::INT); }
struct Op { const char* name; std::function<void(Json&, Json&)> real; std::function<void(Doc&, Doc&)> model; };
static const std::vector<Op> OPS{
    {"A=1", [](Json& a, Json&) { a = 1; }, [](Doc& a, Doc&) { a = num(1); }},
    {"A=\"s\"", [](Json& a, Json&) { a = "s"; }, [](Doc& a, Doc&) { a = Doc::leaf("s", VT::STRING); }},
    {"A=[]", [](Json& a, Json&) { a = JsonList(); }, [](Doc& a, Doc&) { a = Doc::lst(); }},
    {"A={}", [](Json& a, Json&) { a = JsonDict(); }, [](Doc& a, Doc&) { a = Doc::dict(); }},
    {"A=Json()", [](Json& a, Json&) { a = Json(); }, [](Doc& a, Doc&) { a = Doc(); }},
    {"A[k]=2", [](Json& a, Json&) { a["k"] = 2; }, [](Doc& a, Doc&) { key(a, "k") = num(2); }},
    {"A[m][k]=t", [](Json& a, Json&) { a["m"]["k"] = "t"; }, [](Doc& a, Doc&) { key(key(a, "m"), "k") = Doc::leaf("t", VT::STRING); }},
    {"A.append(3)", [](Json& a, Json&) { a.append(3); }, [](Doc& a, Doc&) { app(a, num(3)); }},
    {"A[0]=4", [](Json& a, Json&) { a[0] = 4; }, [](Doc& a, Doc&) { idx(a, 0) = num(4); }},
    {"A[1][k]=5", [](Json& a, Json&) { a[1]["k"] = 5; }, [](Doc& a, Doc&) { key(idx(a, 1), "k") = num(5); }},
    {"A[0].append(6)", [](Json& a, Json&) { a[0].append(6); }, [](Doc& a, Doc&) { app(idx(a, 0), num(6)); }},
    {"A[k].append(true)", [](Json& a, Json&) { a["k"].append(true); }, [](Doc& a, Doc&) { app(key(a, "k"), Doc::leaf("true", VT::BOOL)); }},
    {"A[-1]=7", [](Json& a, Json&) { a[-1] = 7; }, [](Doc& a, Doc&) { idx(a, std::size_t(-1)) = num(7); }},
    {"B=A", [](Json& a, Json& b) { b = a; }, [](Doc& a, Doc& b) { b = a; }},
    {"swap", [](Json& a, Json& b) { std::swap(a, b); }, [](Doc& a, Doc& b) { std::swap(a, b); }},
    {"A=move(B)", [](Json& a, Json& b) { a = std::move(b); b = Json(8); }, [](Doc& a, Doc& b) { a = b; b = num(8); }},
    {"A[k]=B", [](Json& a, Json& b) { a["k"] = b; }, [](Doc& a, Doc& b) { key(a, "k") = b; }},
    {"A.append(B)", [](Json& a, Json& b) { a.append(b); }, [](Doc& a, Doc& b) { app(a, b); }},
    {"A.append(A)", [](Json& a, Json&) { a.append(a); }, [](Doc& a, Doc&) { Doc t = a; app(a, t); }},
    {"A=A", [](Json& a, Json&) { auto& r = a; a = r; }, [](Doc&, Doc&) { }},
    {"A=A[k]", [](Json& a, Json&) { a = a["k"]; }, [](Doc& a, Doc&) { Doc t = key(a, "k"); a = t; }},
    {"A=A.at(0)", [](Json& a, Json&) { a = a.at(0); }, [](Doc& a, Doc&) { Doc t = at(a, 0); a = t; }},
    {"B=A.at(k)", [](Json& a, Json& b) { b = a.at("k"); }, [](Doc& a, Doc& b) { b = at(a, "k"); }},
    {"A=list(A,B)", [](Json& a, Json& b) { a = Json(std::vector<JsonItem>{a, b}); }, [](Doc& a, Doc& b) { a = Doc::lst({a, b}); }},
    {"A=dict(k:B,m:A)", [](Json& a, Json& b) { a = Json(std::map<std::string, JsonItem>{{"k", b}, {"m", a}}); }, [](Doc& a, Doc& b) { a = Doc::dict({{"k", b}, {"m", a}}); }},
    {"A via JsonList copy", [](Json& a, Json&) { JsonList l = a.as<JsonList>(); l.append(9); a = l; l.append(10); }, [](Doc& a, Doc&) { if (a.kind != JT::LIST) throw Refused{}; app(a, num(9)); }},
    {"A via JsonDict copy", [](Json& a, Json&) { JsonDict l = a.as<JsonDict>(); l["z"] = 9; a = l; l["z"] = 10; }, [](Doc& a, Doc&) { if (a.kind != JT::DICT) throw Refused{}; key(a, "z") = num(9); }},
};
template <class F> static bool threw(F&& f) { try { f(); return false; } catch (const mc::Violation&) { throw; } catch (const std::exception&) { return true; } }
// every read access agrees with the model
static void compare(Ctx& c, const Json& j, const Doc& d, const std::string& w)
{
    Doc o = observe(j); c.check(o == d && types_equal(o, d), w + " holds " + o.text() + ", expected " + d.text());
    c.eq(j.size(), (unsigned long)(d.kind == JT::LIST ? d.list.size() : d.kind == JT::DICT ? d.map.size() : 0), w + ".size()");
    std::size_t n = d.kind == JT::LIST ? d.list.size() : 0;
    for (std::size_t i = 0; i < n; ++i) c.check(observe(j.at(i)) == d.list[i], w + ".at(" + std::to_string(i) + ")");
    for (std::size_t i: {n, n + 1, std::size_t(-1)}) c.check(threw([&] { (void) j.at(i); }), w + ".at(" + std::to_string(i) + ") beyond the end must be refused");
    for (const char* k: {"k", "m", "nokey", "z"})
    {
        bool have = d.kind == JT::DICT && d.map.count(k); bool t = false;
        try { c.check(observe(j.at(k)) == d.map.at(k), w + ".at(" + k + ")"); } catch (const std::runtime_error&) { t = true; } catch (const std::out_of_range&) { t = true; }
        c.eq(!t, have, w + ".at(" + k + ") found");
    }
    c.eq(threw([&] { (void) j.value(); }), d.kind == JT::NONE, w + ".value() refused");
    // conversions
    bool isint = d.kind == JT::LEAF && d.type == VT::INT;
    if (isint) { c.eq(j.as<int>(), std::stoi(d.val), w + ".as<int>()"); c.eq(int(j), std::stoi(d.val), w + " int"); c.eq(j.as<double>(), double(std::stoi(d.val)), w + ".as<double>()"); }
    else if (d.kind != JT::LEAF) { c.check(threw([&] { (void) j.as<int>(); }), w + ".as<int>() of a non-leaf must be refused"); c.check(threw([&] { (void) j.as<std::string>(); }), w + ".as<string>() of a non-leaf must be refused"); }
    if (d.kind == JT::LEAF) c.eq(j.as<std::string>(), d.val, w + ".as<string>()");
    auto ints = [](const Doc& x) { return x.kind == JT::LEAF && x.type == VT::INT; };
    bool vec = d.kind == JT::LIST && std::all_of(d.list.begin(), d.list.end(), ints), map = d.kind == JT::DICT && std::all_of(d.map.begin(), d.map.end(), [&](auto& e) { return ints(e.second); });
    if (vec) { std::vector<int> e; for (auto& x: d.list) e.push_back(std::stoi(x.val)); c.veq(j.as_vec<int>(), e, w + ".as_vec"); }
    if (d.kind != JT::LIST) c.check(threw([&] { (void) j.as_vec<int>(); }), w + ".as_vec() of a non-list must be refused");
    if (map) { std::map<std::string, int> e; for (auto& x: d.map) e[x.first] = std::stoi(x.second.val); c.check(j.as_map<int>() == e, w + ".as_map"); }
    if (d.kind != JT::DICT) c.check(threw([&] { (void) j.as_map<int>(); }), w + ".as_map() of a non-dict must be refused");
    if (!d.has_none()) { std::ostringstream os; os << j; Doc p; c.check(Strict::parse(os.str(), p) && p == d, w + " prints as " + os.str()); }
}
static void program(Ctx& c)
{
    const int depth = c.in(1, mc::thorough() ? 4 : 3); int init = int(c.pick(5)); std::vector<std::size_t> prog; for (int i = 0; i < depth; ++i) prog.push_back(c.pick(OPS.size()));
    if (!c.begin()) return;
    Json a, b; Doc da, db;
    switch (init)
    {
        case 1: da = Doc::lst({num(1), Doc::dict({{"k", num(2)}})}); break;
        case 2: da = Doc::dict({{"k", Doc::lst({num(1)})}, {"m", Doc::dict({{"k", num(3)}})}}); break;
        case 3: da = num(5); db = Doc::lst({Doc::leaf("q", VT::STRING)}); break;
        case 4: da = Doc::lst({Doc::lst({num(1), num(2)}), Doc::dict()}); db = Doc::dict({{"k", num(0)}}); break;
    }
    if (da.kind != JT::NONE) a = build(da, 1);
    if (db.kind != JT::NONE) b = build(db, 0);
    std::string d = "start A=" + da.text() + " B=" + db.text() + ":"; mc::Hash h;
    // copies taken before the edits must not change
    Json a0(a); Doc da0 = da;
    for (auto o: prog)
    {
        const Op& op = OPS[o]; d += std::string("  ") + op.name; c.describe(d); c.step();
        Doc na = da, nb = db; bool refused = false; try { op.model(na, nb); } catch (const Refused&) { refused = true; }
        bool t = threw([&] { op.real(a, b); });
        c.eq(t, refused, std::string(op.name) + " refused");
        if (!refused) { da = na; db = nb; }
        else if (o == 6 || o == 11) { /* nested access may create the outer key before the inner one is refused */ }
        compare(c, a, da, "A"); compare(c, b, db, "B");
        c.eq(a == b, da == db, "A==B"); c.eq(a != b, !(da == db), "A!=B");
        c.state(h.add(da.text()).add(db.text()));
    }
    Doc o0 = observe(a0); c.check(o0 == da0, "a copy taken before the edits changed to " + o0.text());
    c.trace(); c.nontrivial();
}
// typed constructors and conversions
static void typed(Ctx& c)
{
    int kind = int(c.pick(9)); int n = c.in(0, 3); int s = int(c.pick(4));
    if (!c.begin()) return;
    c.describe("typed container " + std::to_string(kind) + " of " + std::to_string(n)); c.trace(); c.step();
    auto run = [&](auto proto, auto gen, VT t)
    {
        using E = decltype(proto); std::vector<E> v; std::map<std::string, E> m; for (int i = 0; i < n; ++i) { v.push_back(gen(i + s)); m["k" + std::to_string((i * 7 + s) % 4)] = gen(i + s); }
        JsonList l(v); JsonDict d(m); c.eq(l.size(), (unsigned long) v.size(), "list size"); c.eq(d.size(), (unsigned long) m.size(), "dict size"); c.eq(l.empty(), v.empty(), "list empty"); c.eq(d.empty(), m.empty(), "dict empty");
        c.check(static_cast<std::vector<E>>(l) == v, "list back to vector"); c.check(l.as<E>() == v, "list as"); c.check((static_cast<std::map<std::string, E>>(d)) == m, "dict back to map"); c.check(d.as<E>() == m, "dict as");
        std::vector<E> out; l.as(out); c.check(out == v, "list as into"); std::map<std::string, E> mo; d.as(mo); c.check(mo == m, "dict as into");
        Json jl(l), jd(d); std::vector<E> o2; jl.as_vec(o2); c.check(o2 == v, "item as_vec"); std::map<std::string, E> o3; jd.as_map(o3); c.check(o3 == m, "item as_map");
        for (std::size_t i = 0; i < v.size(); ++i) { Doc x = observe(l.at(i)); c.check(x.kind == JT::LEAF && x.type == t, "leaf type"); c.check(l.at(i).as<E>() == v[i], "element"); c.check(observe(l[i]) == x, "operator[]"); }
        c.throws([&] { l[v.size()]; }, "list index beyond the end"); c.throws([&] { (void) l.at(v.size()); }, "list at beyond the end"); c.throws([&] { (void) d.at("absent"); }, "dict at absent key");
        c.state(mc::Hash().add(std::string(l)).add(std::string(d)));
    };
    auto I = [](auto p) { return [p](int i) { return decltype(p)(i * 3); }; };
    switch (kind)
    {
        case 0: run(int{}, I(int{}), VT::INT); break; case 1: run(0u, I(0u), VT::INT); break; case 2: run(0l, I(0l), VT::INT); break; case 3: run(0ul, I(0ul), VT::INT); break;
        case 4: run(0ll, I(0ll), VT::INT); break; case 5: run(0ull, I(0ull), VT::INT); break; case 6: run(0.0, [](int i) { return i * 0.25 - 0.5; }, VT::FLOAT); break;
        case 7: run(false, [](int i) { return i % 2 == 1; }, VT::BOOL); break; case 8: run(std::string(), [](int i) { return "s" + std::string(std::size_t(i), 'x'); }, VT::STRING); break;
    }
}
// leaves: equality, change of value, copies
static void leaves(Ctx& c)
{
    static const std::vector<Doc> L{Doc::leaf("1", VT::INT), Doc::leaf("1", VT::STRING), Doc::leaf("01", VT::STRING), Doc::leaf("1.0", VT::FLOAT), Doc::leaf("1.00", VT::FLOAT), Doc::leaf("1e0", VT::FLOAT), Doc::leaf("+1", VT::INT), Doc::leaf("true", VT::BOOL), Doc::leaf("false", VT::BOOL), Doc::leaf("True", VT::STRING), Doc::leaf("", VT::STRING), Doc::leaf(" ", VT::STRING), Doc::leaf("-0", VT::INT), Doc::leaf("0", VT::INT)};
    const Doc &a = c.of(L), &b = c.of(L); int how = c.in(0, 6), shape = c.in(0, 2);
    if (!c.begin()) return;
    c.describe("leaves " + a.text() + " and " + b.text() + ", change " + std::to_string(how) + ", shape " + std::to_string(shape));
    JsonLeaf x(a.val, a.type), y(b.val, b.type), x0(x); c.eq(x == y, a == b, "equality of leaves"); c.eq(x != y, !(a == b), "inequality of leaves"); auto wrap = [&](const JsonLeaf& l) { Json j; if (shape == 1) j.append(l); else if (shape == 2) j["k"] = l; else j = l; return j; };
    Json p = wrap(x), q = wrap(y), p0 = p; c.eq(p == q, a == b, "equality of items"); c.eq(p != q, !(a == b), "inequality of items");
    switch (how) { case 0: x.value(5); break; case 1: x.value(5u); break; case 2: x.value(-7l); break; case 3: x.value(2.5); break; case 4: x.value(true); break; case 5: x.value(18446744073709551615ull); break; case 6: x = y; break; }
    static const std::vector<Doc> W{Doc::leaf("5", VT::INT), Doc::leaf("5", VT::INT), Doc::leaf("-7", VT::INT), Doc::leaf("2.500000", VT::FLOAT), Doc::leaf("true", VT::BOOL), Doc::leaf("18446744073709551615", VT::INT)}; const Doc& w = how == 6 ? b : W[std::size_t(how)];
    c.eq(x.value(), w.val, "changed value"); c.check(x.type() == w.type, "type of the changed value"); c.check(x.json_type() == JT::LEAF, "still a leaf"); c.eq(x0.value(), a.val, "copy taken before the change"); c.check(x0.type() == a.type, "type of the copy"); c.check(p == p0, "items built before the change");
    std::ostringstream os; os << x; c.eq(os.str(), w.text(), "printed leaf"); if (how < 3) c.eq(x.as<int>(), how == 2 ? -7 : 5, "as int"); if (how == 3) c.eq(x.as<double>(), 2.5, "as double"); if (how == 4) c.eq(x.as<bool>(), true, "as bool"); c.eq(x.as<std::string>(), w.val, "as string");
    c.trace(); c.nontrivial(); c.state(mc::Hash().add(a.text()).add(b.text()).add(how));
}
// long lists and large dictionaries: build, copy, change every position of a lattice in one of the two
static void many(Ctx& c)
{
    static const std::vector<std::size_t> N{7, 8, 9, 15, 16, 17, 33, 64, 65, 129, 257, 300, 1025, 5000}; std::size_t n = c.of(N), at_ = c.pick(6); int kind = c.in(0, n > 300 ? 0 : 3), how = c.in(0, 3);
    if (!c.begin()) return;
    std::size_t i = at_ == 0 ? 0 : at_ == 1 ? 1 : at_ == 2 ? n / 2 : at_ == 3 ? n - 2 : at_ == 4 ? n - 1 : (n * 7) / 8; bool dict = kind >= 2;
    auto name = [&](std::size_t k) { return k == 0 ? std::string() : k % 3 == 0 ? std::string(k % 50, 'k') + std::to_string(k) : k % 3 == 1 ? "k" + std::to_string(k) : std::to_string(k) + " k"; };
    c.describe(std::string(dict ? "dict" : "list") + " of " + std::to_string(n) + ", kind " + std::to_string(kind) + ", change " + std::to_string(i) + " how " + std::to_string(how));
    Json a; Doc d;
    for (std::size_t k = 0; k < n; ++k)
    {
        Doc v = kind % 2 ? (k % 2 ? Doc::lst({num(int(k)), num(int(k) + 1)}) : Doc::dict({{"k", num(int(k))}})) : num(int(k)); Json r; if (!(kind % 2)) r = int(k); else if (k % 2) { r.append(int(k)); r.append(int(k) + 1); } else r["k"] = int(k);
        if (dict) { a[name(k)] = r; key(d, name(k)) = v; } else { a.append(r); app(d, v); }
    }
    compare(c, a, d, "A"); Json b(a), e; e = a; Doc was = d;
    auto real = [&](Json& j) { if (how == 0) { if (dict) j[name(i)] = "x"; else j[i] = "x"; } else if (how == 1) { if (dict) j["new"] = j.at(name(i)); else j.append(j.at(i)); } else if (how == 2) { Json t = dict ? Json(j.at(name(i))) : Json(j.at(i)); j = t; } else { if (dict) j[name(i)] = j; else j[i] = j; } };
    auto model = [&](Doc& j) { Doc t = j; if (how == 0) (dict ? key(j, name(i)) : idx(j, i)) = Doc::leaf("x", VT::STRING); else if (how == 1) { Doc x = dict ? key(t, name(i)) : idx(t, i); if (dict) key(j, "new") = x; else app(j, x); } else if (how == 2) j = dict ? key(t, name(i)) : idx(t, i); else (dict ? key(j, name(i)) : idx(j, i)) = t; };
    real(b); model(d); compare(c, b, d, "changed copy"); compare(c, a, was, "original"); compare(c, e, was, "assigned copy"); c.check(a == e && !(a == b), "equality");
    real(a); compare(c, a, d, "changed original"); compare(c, e, was, "assigned copy after the change"); c.check(a == b && !(a == e), "equality after the change");
    c.step(3); c.trace(); c.nontrivial(); c.state(mc::Hash().add(d.text()));
}
MC_MAIN({"typed", typed}, {"leaves", leaves}, {"many", many}, {"program", program})

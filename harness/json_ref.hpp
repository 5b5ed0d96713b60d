// Reference model of a JSON document: a plain value type, with a strict reader
// of the compact text form.
#pragma once
#include "parser/json.hpp"
#include "mc.hpp"
using JT = EdgeLearning::JsonObject::JsonType;
using VT = EdgeLearning::TypeChecker::Type;
struct Doc
{
    JT kind = JT::NONE; std::string val; VT type = VT::NONE;
    std::vector<Doc> list; std::map<std::string, Doc> map;
    static Doc leaf(std::string v, VT t) { Doc d; d.kind = JT::LEAF; d.val = std::move(v); d.type = t; return d; }
    static Doc lst(std::vector<Doc> l = {}) { Doc d; d.kind = JT::LIST; d.list = std::move(l); return d; }
    static Doc dict(std::map<std::string, Doc> m = {}) { Doc d; d.kind = JT::DICT; d.map = std::move(m); return d; }
    // equality of the library: leaf values are compared as texts
    bool operator==(const Doc& o) const { return kind == o.kind && val == o.val && list == o.list && map == o.map; }
    bool has_none() const
    {
        if (kind == JT::NONE) return true;
        for (auto& e: list) if (e.has_none()) return true;
        for (auto& e: map) if (e.second.has_none()) return true;
        return false;
    }
    std::string text() const   // for messages
    {
        std::string s;
        if (kind == JT::NONE) return "null";
        if (kind == JT::LEAF) return type == VT::STRING || val.empty() ? "\"" + val + "\"" : val;
        if (kind == JT::LIST) { for (auto& e: list) s += (s.empty() ? "" : ",") + e.text(); return "[" + s + "]"; }
        for (auto& e: map) s += (s.empty() ? "\"" : ",\"") + e.first + "\":" + e.second.text();
        return "{" + s + "}";
    }
};
// Strict parse of compact JSON; raw values: numbers, true, false.
struct Strict
{
    const std::string& s; std::size_t p = 0; bool ok = true;
    explicit Strict(const std::string& t) : s(t) { }
    static VT raw_type(const std::string& r)
    {
        if (r == "true" || r == "false") return VT::BOOL;
        std::size_t i = 0; auto dig = [&] { std::size_t a = i; while (i < r.size() && r[i] >= '0' && r[i] <= '9') ++i; return i > a; };
        if (i < r.size() && r[i] == '-') ++i;
        if (i + 1 < r.size() && r[i] == '0' && r[i + 1] >= '0' && r[i + 1] <= '9') return VT::NONE;   // not JSON
        if (!dig()) return VT::NONE;
        VT t = VT::INT;
        if (i < r.size() && r[i] == '.') { ++i; if (!dig()) return VT::NONE; t = VT::FLOAT; }
        if (i < r.size() && (r[i] == 'e' || r[i] == 'E')) { ++i; if (i < r.size() && (r[i] == '-' || r[i] == '+')) ++i; if (!dig()) return VT::NONE; t = VT::FLOAT; }
        return i == r.size() ? t : VT::NONE;
    }
    bool eat(char c) { if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    bool str(std::string& o) { if (!eat('"')) return false; auto e = s.find('"', p); if (e == std::string::npos) return false; o = s.substr(p, e - p); p = e + 1; return true; }
    Doc item()
    {
        if (p >= s.size()) { ok = false; return {}; }
        if (s[p] == '"') { std::string v; ok = ok && str(v); return Doc::leaf(v, VT::STRING); }
        if (eat('['))
        {
            Doc d = Doc::lst(); if (eat(']')) return d;
            do { d.list.push_back(item()); if (!ok) return d; } while (eat(','));
            ok = ok && eat(']'); return d;
        }
        if (eat('{'))
        {
            Doc d = Doc::dict(); if (eat('}')) return d;
            do { std::string k; if (!str(k) || !eat(':')) { ok = false; return d; } Doc v = item(); if (!ok) return d; d.map[k] = v; } while (eat(','));
            ok = ok && eat('}'); return d;
        }
        std::size_t a = p; while (p < s.size() && !std::strchr(",]}[{\":", s[p])) ++p;
        std::string r = s.substr(a, p - a); VT t = raw_type(r); ok = ok && t != VT::NONE; return Doc::leaf(r, t);
    }
    static bool parse(const std::string& t, Doc& d) { Strict x(t); d = x.item(); return x.ok && x.p == t.size(); }
};
// What a library item holds.
inline Doc observe(const EdgeLearning::JsonItem& j)
{
    using namespace EdgeLearning;
    Doc d; d.kind = j.json_type();
    if (d.kind == JT::NONE) return d;
    const JsonObject& o = j.value();
    if (d.kind == JT::LEAF) { auto& l = dynamic_cast<const JsonLeaf&>(o); d.val = l.value(); d.type = l.type(); }
    else if (d.kind == JT::LIST) { auto& l = dynamic_cast<const JsonList&>(o); for (auto& e: l.value()) d.list.push_back(observe(e)); }
    else { auto& m = dynamic_cast<const JsonDict&>(o); for (auto& e: m.value()) d.map[e.first] = observe(e.second); }
    return d;
}
inline bool types_equal(const Doc& a, const Doc& b)
{
    if (a.kind != b.kind) return false;
    if (a.kind == JT::LEAF) return a.type == b.type || (a.val.empty() && b.val.empty());
    if (a.kind == JT::LIST) { for (std::size_t i = 0; i < a.list.size(); ++i) if (!types_equal(a.list[i], b.list[i])) return false; return true; }
    for (auto& e: a.map) if (!types_equal(e.second, b.map.at(e.first))) return false;
    return true;
}
inline EdgeLearning::Json build(const Doc& d, int how)
{
    using namespace EdgeLearning;
    switch (d.kind)
    {
        case JT::LEAF: return Json(JsonLeaf(d.val, how == 0 || d.type == VT::STRING ? d.type : VT::AUTO));
        case JT::LIST:
        {
            if (how == 0) { Json j{JsonList()}; for (auto& e: d.list) j.append(build(e, how)); return j; }
            std::vector<JsonItem> v; for (auto& e: d.list) v.push_back(build(e, how));
            return Json(JsonList(v));
        }
        case JT::DICT:
        {
            if (how == 0) { Json j{JsonDict()}; for (auto& e: d.map) j[e.first] = build(e.second, how); return j; }
            std::map<std::string, JsonItem> m; for (auto& e: d.map) m[e.first] = build(e.second, how);
            return Json(JsonDict(m));
        }
        default: return Json();
    }
}

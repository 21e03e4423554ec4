// C15: all sequences of accessors and modifiers up to a depth on two JSON values, against plain reference
// containers; every operation on every kind of value; failed operations change nothing.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "gen.hpp"
#include "fly/types/json/json.hpp"

#include <functional>
#include <map>
#include <unordered_map>

using fly::Json;
using fly::JsonException;

namespace {

struct Bad {};

struct Ref
{
    enum K { Null, Str, Obj, Arr, Bool, Int, UInt, Flt } k {Null};
    std::string s;
    std::map<std::string, Ref> o;
    std::vector<Ref> a;
    std::int64_t i {0};

    static Ref num(std::int64_t v) { Ref r; r.k = Int; r.i = v; return r; }
    static Ref str(std::string v) { Ref r; r.k = Str; r.s = std::move(v); return r; }
    static Ref arr(std::vector<Ref> v) { Ref r; r.k = Arr; r.a = std::move(v); return r; }
    static Ref obj(std::map<std::string, Ref> v) { Ref r; r.k = Obj; r.o = std::move(v); return r; }
    static Ref of(K k, std::int64_t v = 0) { Ref r; r.k = k; r.i = v; return r; }

    std::vector<Ref> &array() { if (k != Arr) throw Bad(); return a; }
    std::map<std::string, Ref> &object() { if (k != Obj) throw Bad(); return o; }
    std::vector<Ref> &array_or_null() { if (k == Null) { *this = arr({}); } return array(); }
    std::map<std::string, Ref> &object_or_null() { if (k == Null) { *this = obj({}); } return object(); }
    std::size_t size() const { return k == Null ? 0 : k == Str ? s.size() : k == Obj ? o.size() : k == Arr ? a.size() : 1; }
};

std::string show(Ref const &r)
{
    switch (r.k)
    {
        case Ref::Null: return "null";
        case Ref::Str: return "'" + r.s + "'";
        case Ref::Bool: return r.i ? "true" : "false";
        case Ref::Int: return std::to_string(r.i);
        case Ref::UInt: return std::to_string(r.i) + "u";
        case Ref::Flt: return std::to_string(r.i) + "f";
        case Ref::Arr: { std::string t = "["; for (auto const &x : r.a) t += show(x) + ","; return t + "]"; }
        default: { std::string t = "{"; for (auto const &x : r.o) t += x.first + ":" + show(x.second) + ","; return t + "}"; }
    }
}
std::string show(Json const &j)
{
    if (j.is_null()) return "null";
    if (j.is_string()) return "'" + std::string(j) + "'";
    if (j.is_boolean()) return bool(j) ? "true" : "false";
    if (j.is_signed_integer()) return std::to_string(std::int64_t(j));
    if (j.is_unsigned_integer()) return std::to_string(std::uint64_t(j)) + "u";
    if (j.is_float()) return std::to_string(std::int64_t(j)) + "f";
    std::string t = j.is_array() ? "[" : "{";
    if (j.is_array()) for (auto const &x : j) t += show(x) + ",";
    else for (auto it = j.begin(); it != j.end(); ++it) t += it.key() + ":" + show(*it) + ",";
    return t + (j.is_array() ? "]" : "}");
}
Json make(Ref const &r)
{
    switch (r.k)
    {
        case Ref::Null: return nullptr;
        case Ref::Str: return r.s;
        case Ref::Bool: return r.i != 0;
        case Ref::Int: return r.i;
        case Ref::UInt: return static_cast<std::uint64_t>(r.i);
        case Ref::Flt: return static_cast<double>(r.i);
        case Ref::Arr: { Json j = fly::json_array_type(); for (auto const &x : r.a) j.push_back(make(x)); return j; }
        default: { Json j = fly::json_object_type(); for (auto const &x : r.o) j.insert(x.first, make(x.second)); return j; }
    }
}

struct Op
{
    std::string name;
    std::function<std::string(Json &, Json &)> real;
    std::function<std::string(Ref &, Ref &)> ref;
};

std::string at(Json &t, Json::iterator it)
{
    std::size_t n = 0;
    for (auto b = t.begin(); b != it; ++b) ++n;
    return std::to_string(n);
}
Json::iterator pos(Json &t, std::size_t k)
{
    auto it = t.begin();
    while (k-- > 0) ++it;
    return it;
}
std::string n(std::size_t v) { return std::to_string(v); }
std::string yes(bool b) { return b ? "yes" : "no"; }

std::vector<std::string> const KEYS {"a", "b", "m", "z"};

std::vector<Op> operations(bool few, std::vector<std::size_t> idx = {})
{
    if (idx.empty()) idx = few ? std::vector<std::size_t> {0, 1} : std::vector<std::size_t> {0, 1, 2, 3};
    std::vector<Op> v;
    auto add = [&](std::string name, std::function<std::string(Json &, Json &)> real, std::function<std::string(Ref &, Ref &)> ref) { v.push_back({std::move(name), std::move(real), std::move(ref)}); };
    Json const seven = 7;
    Ref const r7 = Ref::num(7);

    // ---- arrays
    for (std::size_t i : idx)
    {
        add("t[" + n(i) + "]=7", [=](Json &t, Json &) { t[i] = 7; return ""; },
            [=](Ref &t, Ref &) { auto &a = t.array_or_null(); if (a.size() <= i) a.resize(i + 1); a[i] = r7; return ""; });
        add("t.at(" + n(i) + ")", [=](Json &t, Json &) { return show(t.at(i)); },
            [=](Ref &t, Ref &) { if (t.array().size() <= i) throw Bad(); return show(t.a[i]); });
        add("const t[" + n(i) + "]", [=](Json &t, Json &) { return show(std::as_const(t)[i]) + show(std::as_const(t).at(i)); },
            [=](Ref &t, Ref &) { if (t.array().size() <= i) throw Bad(); return show(t.a[i]) + show(t.a[i]); });
        add("t.erase(" + n(i) + ")", [=](Json &t, Json &) { t.erase(i); return ""; },
            [=](Ref &t, Ref &) { if (t.array().size() <= i) throw Bad(); t.a.erase(t.a.begin() + static_cast<std::ptrdiff_t>(i)); return ""; });
        add("t.resize(" + n(i) + ")", [=](Json &t, Json &) { t.resize(i); return ""; },
            [=](Ref &t, Ref &) { if (t.k == Ref::Str) t.s.resize(i); else t.array().resize(i); return ""; });
    }
    add("t[]", [=](Json &t, Json &) { return show(t[0]); }, [=](Ref &t, Ref &) { auto &a = t.array_or_null(); if (a.empty()) a.resize(1); return show(a[0]); });
    add("t.push_back(7)", [=](Json &t, Json &) { t.push_back(7); return ""; }, [=](Ref &t, Ref &) { t.array_or_null().push_back(r7); return ""; });
    add("t.push_back(o)", [=](Json &t, Json &o) { t.push_back(o); return ""; }, [=](Ref &t, Ref &o) { t.array_or_null().push_back(o); return ""; });
    add("t.push_back(move(o))", [=](Json &t, Json &o) { t.push_back(std::move(o)); return ""; },
        [=](Ref &t, Ref &o) { t.array_or_null().push_back(o); o = Ref(); return ""; });
    add("t.push_back(t)", [=](Json &t, Json &) { t.push_back(t); return ""; }, [=](Ref &t, Ref &) { t.array_or_null(); Ref c = t; t.a.push_back(c); return ""; });
    add("t.push_back(t[0])", [=](Json &t, Json &) { t.push_back(t.at(0)); return ""; },
        [=](Ref &t, Ref &) { if (t.array().empty()) throw Bad(); Ref c = t.a[0]; t.a.push_back(c); return ""; });
    add("t.emplace_back('x')", [=](Json &t, Json &) { return show(t.emplace_back("x")); }, [=](Ref &t, Ref &) { t.array_or_null().push_back(Ref::str("x")); return show(t.a.back()); });
    add("t.emplace_back(o)", [=](Json &t, Json &o) { return show(t.emplace_back(o)); }, [=](Ref &t, Ref &o) { t.array_or_null().push_back(o); return show(t.a.back()); });
    add("t.pop_back()", [=](Json &t, Json &) { t.pop_back(); return ""; }, [=](Ref &t, Ref &) { if (t.array().empty()) throw Bad(); t.a.pop_back(); return ""; });
    for (int front = 0; front < 2; ++front)
        add(front ? "t.front()" : "t.back()",
            [=](Json &t, Json &) { return front ? show(t.front()) + show(std::as_const(t).front()) : show(t.back()) + show(std::as_const(t).back()); },
            [=](Ref &t, Ref &) {
                if (t.k != Ref::Arr && t.k != Ref::Obj) throw Bad();
                if (t.size() == 0) throw Bad();
                Ref const &x = t.k == Ref::Arr ? (front ? t.a.front() : t.a.back()) : (front ? t.o.begin()->second : t.o.rbegin()->second);
                return show(x) + show(x);
            });
    // positions: skipped beyond the end; on other kinds the other value's iterator has to be refused
    auto const stray = std::make_shared<Json>(fly::json_array_type {1, 2});
    for (std::size_t k : idx)
    {
        auto place = [=](Json &t) { return t.is_array() ? pos(t, k) : stray->begin(); };
        auto fits = [=](auto const &t) { return t.size() >= k; };
        auto arr_only = [=](Ref &t) { return t.k != Ref::Arr || t.a.size() >= k; };
        auto skip_real = [=](Json &t) { return t.is_array() && !fits(t); };
        add("t.insert(@" + n(k) + ",7)", [=](Json &t, Json &) -> std::string { if (skip_real(t)) return "skip"; return at(t, t.insert(place(t), 7)); },
            [=](Ref &t, Ref &) -> std::string { if (!arr_only(t)) return "skip"; auto &a = t.array(); a.insert(a.begin() + static_cast<std::ptrdiff_t>(k), r7); return n(k); });
        add("t.insert(@" + n(k) + ",o)", [=](Json &t, Json &o) -> std::string { if (skip_real(t)) return "skip"; Json const &c = o; return at(t, t.insert(place(t), c)); },
            [=](Ref &t, Ref &o) -> std::string { if (!arr_only(t)) return "skip"; auto &a = t.array(); a.insert(a.begin() + static_cast<std::ptrdiff_t>(k), o); return n(k); });
        add("t.insert(@" + n(k) + ",2,t[0])", [=](Json &t, Json &) -> std::string { if (skip_real(t)) return "skip"; Json const &c = t.at(0); return at(t, t.insert(place(t), 2, c)); },
            [=](Ref &t, Ref &) -> std::string { if (!arr_only(t)) return "skip"; auto &a = t.array(); if (a.empty()) throw Bad(); Ref c = a[0]; a.insert(a.begin() + static_cast<std::ptrdiff_t>(k), 2, c); return n(k); });
        add("t.insert(@" + n(k) + ",0,o)", [=](Json &t, Json &o) -> std::string { if (skip_real(t)) return "skip"; return at(t, t.insert(place(t), 0, o)); },
            [=](Ref &t, Ref &) -> std::string { if (!arr_only(t)) return "skip"; t.array(); return n(k); });
        add("t.insert(@" + n(k) + ",{8,'y'})", [=](Json &t, Json &) -> std::string { if (skip_real(t)) return "skip"; return at(t, t.insert(place(t), {Json(8), Json("y")})); },
            [=](Ref &t, Ref &) -> std::string { if (!arr_only(t)) return "skip"; auto &a = t.array(); a.insert(a.begin() + static_cast<std::ptrdiff_t>(k), {Ref::num(8), Ref::str("y")}); return n(k); });
        add("t.insert(@" + n(k) + ",o...)", [=](Json &t, Json &o) -> std::string { if (skip_real(t)) return "skip"; return at(t, t.insert(place(t), std::as_const(o).begin(), std::as_const(o).end())); },
            [=](Ref &t, Ref &o) -> std::string { if (!arr_only(t)) return "skip"; if (o.k != Ref::Arr) throw Bad(); auto &a = t.array(); a.insert(a.begin() + static_cast<std::ptrdiff_t>(k), o.a.begin(), o.a.end()); return n(k); });
        add("t.insert(@" + n(k) + ",t...)", [=](Json &t, Json &) -> std::string { if (skip_real(t)) return "skip"; return at(t, t.insert(place(t), std::as_const(t).begin(), std::as_const(t).end())); },
            [=](Ref &t, Ref &) -> std::string { if (!arr_only(t)) return "skip"; throw Bad(); });
        // removal by position: arrays and objects
        auto skip_it = [=](Json &t) { return (t.is_array() || t.is_object()) && t.size() < k; };
        auto skip_rf = [=](Ref &t) { return (t.k == Ref::Arr || t.k == Ref::Obj) && t.size() < k; };
        add("t.erase(@" + n(k) + ")", [=](Json &t, Json &) -> std::string { if (skip_it(t)) return "skip"; auto it = t.is_array() || t.is_object() ? pos(t, k) : stray->begin(); return at(t, t.erase(it)); },
            [=](Ref &t, Ref &) -> std::string {
                if (skip_rf(t)) return "skip";
                if (t.k == Ref::Arr) { if (k >= t.a.size()) throw Bad(); t.a.erase(t.a.begin() + static_cast<std::ptrdiff_t>(k)); return n(k); }
                if (t.k != Ref::Obj || k >= t.o.size()) throw Bad();
                t.o.erase(std::next(t.o.begin(), static_cast<std::ptrdiff_t>(k)));
                return n(k);
            });
        for (std::size_t m : idx) if (m >= k)
            add("t.erase(@" + n(k) + ",@" + n(m) + ")",
                [=](Json &t, Json &) -> std::string {
                    bool const c = t.is_array() || t.is_object();
                    if (c && t.size() < m) return "skip";
                    return at(t, t.erase(c ? pos(t, k) : stray->begin(), c ? pos(t, m) : stray->end()));
                },
                [=](Ref &t, Ref &) -> std::string {
                    if (t.k == Ref::Arr) { if (t.a.size() < m) return "skip"; t.a.erase(t.a.begin() + static_cast<std::ptrdiff_t>(k), t.a.begin() + static_cast<std::ptrdiff_t>(m)); return n(k); }
                    if (t.k == Ref::Obj) { if (t.o.size() < m) return "skip"; t.o.erase(std::next(t.o.begin(), static_cast<std::ptrdiff_t>(k)), std::next(t.o.begin(), static_cast<std::ptrdiff_t>(m))); return n(k); }
                    throw Bad();
                });
    }
    add("t.insert(@o,7)", [=](Json &t, Json &o) { auto it = o.begin(); return at(t, t.insert(it, 7)); }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.erase(@o)", [=](Json &t, Json &o) { auto it = o.begin(); return at(t, t.erase(it)); }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.erase(@t,@o)", [=](Json &t, Json &o) { auto it = o.end(); return at(t, t.erase(t.begin(), it)); }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.erase(@none)", [=](Json &t, Json &) { return at(t, t.erase(Json::const_iterator())); }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.insert(@none,7)", [=](Json &t, Json &) { return at(t, t.insert(Json::const_iterator(), 7)); }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.insert(none...)", [=](Json &t, Json &) { t.insert(Json::const_iterator(), Json::const_iterator()); return ""; }, [](Ref &, Ref &) -> std::string { throw Bad(); });
    add("t.insert(o.begin,t.end)", [=](Json &t, Json &o) { t.insert(std::as_const(o).begin(), std::as_const(t).end()); return ""; }, [](Ref &, Ref &) -> std::string { throw Bad(); });

    // ---- any kind
    add("t.clear()", [=](Json &t, Json &) { t.clear(); return ""; },
        [=](Ref &t, Ref &) { t.s.clear(); t.a.clear(); t.o.clear(); t.i = 0; return ""; });
    add("size", [=](Json &t, Json &) { return n(t.size()) + yes(t.empty()) + yes(t.capacity() >= t.size()); },
        [=](Ref &t, Ref &) { return n(t.size()) + yes(t.k == Ref::Null || t.size() == 0) + yes(true); });
    add("t.reserve(5)", [=](Json &t, Json &) { t.reserve(5); return yes(t.capacity() >= 5); }, [=](Ref &t, Ref &) { if (t.k != Ref::Str && t.k != Ref::Arr) throw Bad(); return yes(true); });
    add("t.swap(o)", [=](Json &t, Json &o) { t.swap(o); return ""; }, [=](Ref &t, Ref &o) { std::swap(t, o); return ""; });
    add("t=o", [=](Json &t, Json &o) { t = o; return ""; }, [=](Ref &t, Ref &o) { t = o; return ""; });
    add("t=move(o)", [=](Json &t, Json &o) { t = std::move(o); return ""; }, [=](Ref &t, Ref &o) { t = o; o = Ref(); return ""; });
    add("t=t", [=](Json &t, Json &) { Json &s = t; t = s; return ""; }, [=](Ref &, Ref &) { return ""; });
    add("t=t.front", [=](Json &t, Json &) { t = t.front(); return ""; },
        [=](Ref &t, Ref &) { if ((t.k != Ref::Arr && t.k != Ref::Obj) || t.size() == 0) throw Bad(); Ref c = t.k == Ref::Arr ? t.a[0] : t.o.begin()->second; t = c; return ""; });
    add("t=null", [=](Json &t, Json &) { t = nullptr; return ""; }, [=](Ref &t, Ref &) { t = Ref(); return ""; });
    add("t.swap(vector)", [=](Json &t, Json &) { std::vector<Json> w {1, 2}; t.swap(w); return n(w.size()); },
        [=](Ref &t, Ref &) { auto s = t.array().size(); t = Ref::arr({Ref::num(1), Ref::num(2)}); return n(s); });
    add("t.swap(map)", [=](Json &t, Json &) { std::map<std::string, Json> w {{"q", 1}}; t.swap(w); return n(w.size()); },
        [=](Ref &t, Ref &) { auto s = t.object().size(); t = Ref::obj({{"q", Ref::num(1)}}); return n(s); });
    add("t.swap(string)", [=](Json &t, Json &) { std::string w = "pq"; t.swap(w); return w; }, [=](Ref &t, Ref &) { if (t.k != Ref::Str) throw Bad(); auto s = t.s; t.s = "pq"; return s; });

    // ---- objects
    for (auto const &key : few ? std::vector<std::string> {"a", "z"} : KEYS)
    {
        add("t['" + key + "']=7", [=](Json &t, Json &) { t[key] = 7; return ""; }, [=](Ref &t, Ref &) { t.object_or_null()[key] = r7; return ""; });
        add("t.at('" + key + "')", [=](Json &t, Json &) { return show(t.at(key)); }, [=](Ref &t, Ref &) { auto &o = t.object(); if (!o.count(key)) throw Bad(); return show(o[key]); });
        add("const t['" + key + "']", [=](Json &t, Json &) { return show(std::as_const(t)[key]) + show(std::as_const(t).at(key.c_str())); },
            [=](Ref &t, Ref &) { auto &o = t.object(); if (!o.count(key)) throw Bad(); return show(o[key]) + show(o[key]); });
        add("t.insert('" + key + "',o)", [=](Json &t, Json &o) { auto p = t.insert(key, o); return show(*p.first) + p.first.key() + yes(p.second); },
            [=](Ref &t, Ref &o) { Ref c = o; auto p = t.object().insert({key, c}); return show(p.first->second) + key + yes(p.second); });
        add("t.insert('" + key + "',7)", [=](Json &t, Json &) { auto p = t.insert(key, 7); return show(*p.first) + p.first.key() + yes(p.second); },
            [=](Ref &t, Ref &) { auto p = t.object().insert({key, r7}); return show(p.first->second) + key + yes(p.second); });
        add("t.insert_or_assign('" + key + "',7)", [=](Json &t, Json &) { auto p = t.insert_or_assign(key, 7); return show(*p.first) + p.first.key() + yes(p.second); },
            [=](Ref &t, Ref &) { auto p = t.object().insert_or_assign(key, r7); return show(p.first->second) + key + yes(p.second); });
        add("t.emplace('" + key + "',8)", [=](Json &t, Json &) { auto p = t.emplace(key, 8); return show(*p.first) + p.first.key() + yes(p.second); },
            [=](Ref &t, Ref &) { auto p = t.object_or_null().emplace(key, Ref::num(8)); return show(p.first->second) + key + yes(p.second); });
        add("t.erase('" + key + "')", [=](Json &t, Json &) { return n(t.erase(key)); }, [=](Ref &t, Ref &) { return n(t.object().erase(key)); });
        add("t.find('" + key + "')", [=](Json &t, Json &) {
                auto it = t.find(key);
                auto ct = std::as_const(t).find(key);
                return yes(it == t.end()) + yes(ct == t.cend()) + (it == t.end() ? "" : it.key() + show(*it) + at(t, it));
            },
            [=](Ref &t, Ref &) {
                auto it = t.object().find(key);
                bool const e = it == t.o.end();
                return yes(e) + yes(e) + (e ? "" : key + show(it->second) + n(static_cast<std::size_t>(std::distance(t.o.begin(), it))));
            });
        add("t.count('" + key + "')", [=](Json &t, Json &) { return n(t.count(key)) + yes(t.contains(key)); }, [=](Ref &t, Ref &) { return n(t.object().count(key)) + yes(t.o.count(key) != 0); });
    }
    // a key that is not valid text is refused and changes nothing
    for (std::string const &bad : {std::string("\xff"), std::string("\""), std::string("\\q")})
    {
        auto refuse = [](Ref &, Ref &) -> std::string { throw Bad(); };
        add("t[bad]", [=](Json &t, Json &) { t[bad] = 7; return ""; }, refuse);
        if (few) continue;
        add("t.at(bad)", [=](Json &t, Json &) { return show(t.at(bad)); }, refuse);
        add("t.insert(bad,7)", [=](Json &t, Json &) { t.insert(bad, 7); return ""; }, refuse);
        add("t.insert_or_assign(bad,7)", [=](Json &t, Json &) { t.insert_or_assign(bad, 7); return ""; }, refuse);
        add("t.emplace(bad,7)", [=](Json &t, Json &) { t.emplace(bad, 7); return ""; }, refuse);
        add("t.erase(bad)", [=](Json &t, Json &) { return n(t.erase(bad)); }, refuse);
        add("t.find(bad)", [=](Json &t, Json &) { return yes(t.find(bad) == t.end()); }, refuse);
        add("t.count(bad)", [=](Json &t, Json &) { return n(t.count(bad)); }, refuse);
        add("t.emplace('a',bad)", [=](Json &t, Json &) { t.emplace("a", bad); return ""; }, refuse);
        add("t.emplace_back(bad)", [=](Json &t, Json &) { t.emplace_back(bad); return ""; }, refuse);
    }
    auto merge = [](Ref &t, Ref &o) {
        if (o.k != Ref::Obj || (t.k != Ref::Obj && t.k != Ref::Null)) throw Bad();
        auto &m = t.object_or_null();
        m.merge(o.o);
    };
    add("t.merge(o)", [=](Json &t, Json &o) { t.merge(o); return ""; }, [=](Ref &t, Ref &o) { merge(t, o); return ""; });
    add("t.merge(move(o))", [=](Json &t, Json &o) { Json c = o; t.merge(std::move(c)); return ""; }, [=](Ref &t, Ref &o) { Ref c = o; merge(t, c); return ""; });
    add("t.merge(t)", [=](Json &t, Json &) { Json &s = t; t.merge(s); return ""; }, [=](Ref &t, Ref &) { t.object(); return ""; });
    add("t.merge(map)", [=](Json &t, Json &) { std::map<std::string, Json> w {{"a", 1}, {"n", 2}}; t.merge(w); return n(w.size()) + yes(w.count("a")); },
        [=](Ref &t, Ref &) { Ref w = Ref::obj({{"a", Ref::num(1)}, {"n", Ref::num(2)}}); merge(t, w); return n(w.o.size()) + yes(w.o.count("a")); });
    add("t.merge(move(umap))", [=](Json &t, Json &) { std::unordered_map<std::string, Json> w {{"m", 1}, {"b", 2}}; t.merge(std::move(w)); return ""; },
        [=](Ref &t, Ref &) { Ref w = Ref::obj({{"m", Ref::num(1)}, {"b", Ref::num(2)}}); merge(t, w); return ""; });
    add("t.insert(o...)", [=](Json &t, Json &o) { t.insert(std::as_const(o).begin(), std::as_const(o).end()); return ""; },
        [=](Ref &t, Ref &o) { if (o.k != Ref::Obj) throw Bad(); auto c = o.o; t.object().insert(c.begin(), c.end()); return ""; });
    add("t.insert(t...)", [=](Json &t, Json &) { t.insert(std::as_const(t).begin(), std::as_const(t).end()); return ""; }, [=](Ref &t, Ref &) { t.object(); return ""; });
    return v;
}

std::vector<Ref> beginnings()
{
    return {
        Ref(), Ref::str("st"), Ref::of(Ref::Bool, 1), Ref::num(-3), Ref::of(Ref::UInt, 4), Ref::of(Ref::Flt, 5),
        Ref::arr({}), Ref::arr({Ref::num(1)}), Ref::arr({Ref::num(1), Ref::str("x"), Ref::arr({Ref::num(2)})}),
        Ref::obj({}), Ref::obj({{"a", Ref::num(1)}}), Ref::obj({{"a", Ref::num(1)}, {"b", Ref::str("x")}, {"z", Ref::obj({{"a", Ref()}})}}),
    };
}

// runs one sequence; the last step's outcome is compared, the earlier ones too
void run(mc::Run &r, std::vector<Op> const &ops, std::vector<std::size_t> const &seq, std::vector<bool> const &swapped, Ref rx, Ref ry)
{
    Json x = make(rx), y = make(ry);
    std::string history = "x=" + show(rx) + " y=" + show(ry);
    for (std::size_t s = 0; s < seq.size(); ++s)
    {
        Op const &op = ops[seq[s]];
        Json &t = swapped[s] ? y : x, &o = swapped[s] ? x : y;
        Ref &rt = swapped[s] ? ry : rx, &ro = swapped[s] ? rx : ry;
        std::string want, have;
        Ref const keep_t = rt, keep_o = ro;
        try { want = op.ref(rt, ro); }
        catch (Bad const &) { want = "throws"; rt = keep_t; ro = keep_o; }
        try { have = op.real(t, o); }
        catch (JsonException const &) { have = "throws"; }
        catch (std::exception const &e) { have = std::string("raises ") + e.what(); }
        history += std::string("; ") + (swapped[s] ? "y/x " : "") + op.name;
        r.transitions();
        if (have != want) { r.fail("result:" + op.name, "%s gives \"%s\" instead of \"%s\"", history.c_str(), have.c_str(), want.c_str()); return; }
        std::string const sx = show(x), sy = show(y), wx = show(rx), wy = show(ry);
        r.state(mc::hash_mix(mc::hash_str(wx), mc::hash_str(wy)));
        if (sx != wx || sy != wy)
        {
            r.fail("content:" + op.name, "%s leaves x=%s y=%s instead of x=%s y=%s", history.c_str(), sx.c_str(), sy.c_str(), wx.c_str(), wy.c_str());
            return;
        }
        if (s + 1 == seq.size() && want != "throws" && want != "skip") r.nontrivial();
        if (want == "skip") return;
    }
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    auto const all = operations(false), few = operations(true);
    auto const starts = beginnings();

    r.section("one");
    for (auto const &x : starts) for (auto const &y : starts) for (std::size_t a = 0; a < all.size(); ++a)
        if (r.take()) run(r, all, {a}, {false}, x, y);

    r.section("two");
    for (std::size_t p = 0; p < starts.size(); ++p)
        for (std::size_t q = 0; q < starts.size(); ++q)
        {
            // pairs of containers and null, and each other kind once
            bool const c = (p == 0 || p >= 6) && (q == 0 || q >= 6);
            if (!T && !(c ? (p + q) % 2 == 0 || p == 11 || q == 8 : q == 8)) continue;
            for (std::size_t a = 0; a < all.size(); ++a)
                for (std::size_t b = 0; b < all.size(); ++b)
                    for (int swap = 0; swap < 2; ++swap)
                        if (r.take()) run(r, all, {a, b}, {false, swap != 0}, starts[p], starts[q]);
        }

    r.section("three");
    auto const &ops = few;
    for (std::size_t p : {0, 7, 8, 10, 11})
        for (std::size_t q : {8, 11})
        {
            if (!T && q == 8 && p != 8 && p != 11) continue;
            for (std::size_t a = 0; a < ops.size(); ++a)
                for (std::size_t b = 0; b < ops.size(); ++b)
                    for (std::size_t c = 0; c < ops.size(); ++c)
                        for (int swap = 0; swap < (T ? 4 : 1); ++swap)
                            if (r.take()) run(r, ops, {a, b, c}, {false, (swap & 1) != 0, (swap & 2) != 0}, starts[p], starts[q]);
        }

    // the same operations on containers of many elements, at and around their ends
    r.section("sizes");
    for (std::size_t n : gen::sizes(T ? 70 : 20, T ? 1100 : 260))
    {
        if (n < 4) continue;
        std::vector<std::size_t> idx {0, 1, n / 2, n - 2, n - 1, n, n + 1, n + n / 2};
        std::sort(idx.begin(), idx.end());
        idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
        auto const many = operations(false, idx);
        Ref a = Ref::arr({}), o = Ref::obj({}), s = Ref::str("");
        for (std::size_t k = 0; k < n; ++k)
        {
            a.a.push_back(k % 3 == 0 ? Ref::num(static_cast<std::int64_t>(k)) : k % 3 == 1 ? Ref::str("e" + std::to_string(k)) : Ref::arr({Ref::num(1)}));
            o.o[k == 0 ? "a" : k == 1 ? "m" : "k" + std::to_string(k * 7919 % n)] = k % 2 ? Ref::num(static_cast<std::int64_t>(k)) : Ref::str(std::string(k, 'v'));
            s.s += static_cast<char>('a' + k % 26);
        }
        Ref const small = Ref::arr({Ref::num(1), Ref::str("x")}), key = Ref::obj({{"a", Ref::num(1)}, {"b", Ref::str("x")}});
        std::vector<std::pair<Ref, Ref>> const worlds {{a, a}, {a, small}, {small, a}, {o, o}, {o, key}, {key, o}, {s, small}, {a, o}, {o, s}};
        for (auto const &[x, y] : worlds)
            for (std::size_t k = 0; k < many.size(); ++k)
                if (r.take()) run(r, many, {k}, {false}, x, y);
        if (n != 17 && !T) continue;
        if (n > 130) continue;
        for (auto const &[x, y] : {worlds[1], worlds[4]})
            for (std::size_t k = 0; k < many.size(); ++k)
                for (std::size_t m = 0; m < many.size(); ++m)
                    if (r.take()) run(r, many, {k, m}, {false, false}, x, y);
    }
}

// C17: equality, ordering and hashing over all pairs and triples of a table of boundary values of every kind,
// copies, moves and swaps of each, and every conversion target for every value of the table.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "unicode_ref.hpp"
#include "fly/types/json/json.hpp"

#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using fly::Json;
using fly::JsonException;

namespace {

// the value, apart from fly::Json
struct Val
{
    enum K { Null, Str, Obj, Arr, Bool, Num } k {Null};
    std::string s;
    bool b {false};
    char type {'i'};               // i, u, f
    long double f {0};             // exact for every 64 bit integer
    std::vector<Val> a;
    std::map<std::string, Val> o;
};

bool same(Val const &x, Val const &y)
{
    if (x.k != y.k) return false;
    switch (x.k)
    {
        case Val::Null: return true;
        case Val::Str: return x.s == y.s;
        case Val::Bool: return x.b == y.b;
        case Val::Num: return x.f == y.f;
        case Val::Arr:
            if (x.a.size() != y.a.size()) return false;
            for (std::size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i])) return false;
            return true;
        default:
            if (x.o.size() != y.o.size()) return false;
            for (auto i = x.o.begin(), j = y.o.begin(); i != x.o.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
            return true;
    }
}

Val num(std::int64_t v) { Val r; r.k = Val::Num; r.type = 'i'; r.f = static_cast<long double>(v); return r; }
Val unum(std::uint64_t v) { Val r; r.k = Val::Num; r.type = 'u'; r.f = static_cast<long double>(v); return r; }
Val flt(long double v) { Val r; r.k = Val::Num; r.type = 'f'; r.f = v; return r; }
Val str(std::string v) { Val r; r.k = Val::Str; r.s = std::move(v); return r; }
Val boolean(bool v) { Val r; r.k = Val::Bool; r.b = v; return r; }
Val arr(std::vector<Val> v) { Val r; r.k = Val::Arr; r.a = std::move(v); return r; }
Val obj(std::map<std::string, Val> v) { Val r; r.k = Val::Obj; r.o = std::move(v); return r; }

Json make(Val const &v)
{
    switch (v.k)
    {
        case Val::Null: return nullptr;
        case Val::Str: return v.s;
        case Val::Bool: return v.b;
        case Val::Num:
            if (v.type == 'i') return static_cast<std::int64_t>(v.f);
            if (v.type == 'u') return static_cast<std::uint64_t>(v.f);
            return v.f;
        case Val::Arr: { Json j = fly::json_array_type(); for (auto const &x : v.a) j.push_back(make(x)); return j; }
        default: { Json j = fly::json_object_type(); for (auto const &x : v.o) j.insert(x.first, make(x.second)); return j; }
    }
}
std::string show(Val const &v)
{
    std::string t;
    switch (v.k)
    {
        case Val::Null: return "null";
        case Val::Str: return "'" + v.s + "'";
        case Val::Bool: return v.b ? "true" : "false";
        case Val::Num: { char b[64]; std::snprintf(b, sizeof b, "%.21Lg%c", v.f, v.type); return b; }
        case Val::Arr: for (auto const &x : v.a) t += show(x) + ","; return "[" + t + "]";
        default: for (auto const &x : v.o) t += x.first + ":" + show(x.second) + ","; return "{" + t + "}";
    }
}

std::vector<Val> numbers()
{
    std::vector<Val> v;
    long double const two63 = 9223372036854775808.0L, two64 = 18446744073709551616.0L;
    for (std::int64_t i : {std::int64_t(0), std::int64_t(1), std::int64_t(-1), std::int64_t(2), std::int64_t(127), std::int64_t(-128), std::int64_t(128), std::int64_t(255), std::int64_t(256), std::int64_t(-32769), std::int64_t(65535), std::int64_t(INT32_MAX), std::int64_t(INT32_MIN), std::int64_t(1) << 32, std::int64_t(1) << 53, (std::int64_t(1) << 53) + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1})
        v.push_back(num(i));
    for (std::uint64_t u : {std::uint64_t(0), std::uint64_t(1), std::uint64_t(2), std::uint64_t(255), std::uint64_t(65535), std::uint64_t(UINT32_MAX), std::uint64_t(1) << 32, (std::uint64_t(1) << 53) + 1, std::uint64_t(INT64_MAX), std::uint64_t(1) << 63, (std::uint64_t(1) << 63) + 1, UINT64_MAX, UINT64_MAX - 1})
        v.push_back(unum(u));
    for (long double f : {0.0L, -0.0L, 1.0L, -1.0L, 0.5L, -0.5L, 2.0L, 255.0L, 1.5L, two63, -two63, two63 - 1.0L, two64, two64 - 1.0L, -two64, 1e30L, -1e30L, 9007199254740993.0L, 1e4000L})
        v.push_back(flt(f));
    return v;
}
std::vector<Val> table()
{
    std::vector<Val> v {Val(), boolean(true), boolean(false), str(""), str("a"), str("ab"), str("b"), str("1"), str("0"), str("\xc3\xa9"), str("true")};
    for (auto const &n : numbers()) v.push_back(n);
    v.push_back(arr({}));
    v.push_back(arr({Val()}));
    v.push_back(arr({num(1)}));
    v.push_back(arr({unum(1)}));
    v.push_back(arr({flt(1)}));
    v.push_back(arr({num(-1)}));
    v.push_back(arr({unum(UINT64_MAX)}));
    v.push_back(arr({num(1), num(2)}));
    v.push_back(arr({flt(1), unum(2)}));
    v.push_back(arr({num(2), num(1)}));
    v.push_back(arr({arr({num(1)})}));
    v.push_back(arr({obj({{"a", num(1)}})}));
    v.push_back(arr({str("a"), str("b")}));
    for (Val const &odd : {Val(), str("x"), boolean(true), arr({}), obj({}), flt(2.5L)})
    {
        v.push_back(arr({num(1), odd}));
        v.push_back(arr({num(1), odd, num(3)}));
        v.push_back(arr({odd, num(2), num(3), num(4)}));
    }
    v.push_back(obj({}));
    v.push_back(obj({{"a", num(1)}}));
    v.push_back(obj({{"a", unum(1)}}));
    v.push_back(obj({{"a", num(-1)}}));
    v.push_back(obj({{"a", unum(UINT64_MAX)}}));
    v.push_back(obj({{"b", num(1)}}));
    v.push_back(obj({{"a", num(1)}, {"b", num(2)}}));
    v.push_back(obj({{"a", arr({})}}));
    v.push_back(obj({{"", Val()}}));
    // longer ones, which differ at their end or in one place only
    for (std::size_t n : {15, 16, 17, 64, 65, 200})
    {
        v.push_back(str(std::string(n, 'a')));
        v.push_back(str(std::string(n - 1, 'a') + "b"));
        v.push_back(str("7" + std::string(n, ' ')));
        std::vector<Val> items;
        for (std::size_t k = 0; k < n; ++k) items.push_back(num(static_cast<std::int64_t>(k % 7)));
        v.push_back(arr(items));
        items.back() = num(9);
        v.push_back(arr(items));
        items[n / 2] = num(-3);
        v.push_back(arr(items));
        if (n > 65) continue;
        std::map<std::string, Val> members;
        for (std::size_t k = 0; k < n; ++k) members["k" + std::to_string(k)] = num(static_cast<std::int64_t>(k));
        v.push_back(obj(members));
        members["k" + std::to_string(n - 1)] = str("last");
        v.push_back(obj(members));
        members.erase("k1");
        v.push_back(obj(members));
    }
    return v;
}

template <typename F>
std::string guard(F const &f)
{
    try { return f(); }
    catch (JsonException const &) { return "throws"; }
    catch (std::exception const &e) { return std::string("raises ") + e.what(); }
}
std::string text(long double f) { char b[64]; std::snprintf(b, sizeof b, "%.21Lg", f); return b; }

template <typename T>
void number_target(mc::Run &r, char const *name, Val const &v, Json const &j)
{
    if (!r.take()) return;
    std::string want = "throws";
    if (v.k == Val::Num)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            if (std::fabs(v.f) > std::numeric_limits<T>::max()) return;
            want = text(static_cast<long double>(static_cast<T>(v.f)));
        }
        else
        {
            // representable values only; a fraction is cut off
            long double const w = std::trunc(v.f);
            if (w < static_cast<long double>(std::numeric_limits<T>::min()) || w > static_cast<long double>(std::numeric_limits<T>::max())) return;
            want = text(w == 0 ? 0.0L : w);
        }
    }
    else if (v.k == Val::Str && (v.s == "1" || v.s == "0")) want = v.s;
    r.nontrivial();
    std::string const have = guard([&] { return text(static_cast<long double>(static_cast<T>(j))); });
    if (have != want) r.fail(std::string("to ") + name, "%s as %s gives %s instead of %s", show(v).c_str(), name, have.c_str(), want.c_str());
}

template <typename C>
std::basic_string<C> widen(std::string const &s)
{
    std::basic_string<C> o;
    for (std::size_t i = 0; i < s.size();)
    {
        auto const c = *uref::next(s.data(), s.size(), i);
        if constexpr (sizeof(C) == 1) { o.clear(); for (char x : s) o += static_cast<C>(x); return o; }
        else if constexpr (sizeof(C) == 2)
        {
            if (c < 0x10000) o += static_cast<C>(c);
            else { o += static_cast<C>(0xd800 + ((c - 0x10000) >> 10)); o += static_cast<C>(0xdc00 + ((c - 0x10000) & 1023)); }
        }
        else o += static_cast<C>(c);
    }
    return o;
}

template <typename C>
void string_target(mc::Run &r, Val const &v, Json const &j)
{
    if (!r.take()) return;
    std::basic_string<C> want;
    bool throws = false;
    if (v.k == Val::Str) want = widen<C>(v.s);
    else if (v.k == Val::Num && v.type == 'i') want = widen<C>(std::to_string(static_cast<std::int64_t>(v.f)));
    else if (v.k == Val::Num && v.type == 'u') want = widen<C>(std::to_string(static_cast<std::uint64_t>(v.f)));
    else if (v.k == Val::Num) return;   // how floats are printed is not claimed here
    else throws = true;
    r.nontrivial();
    std::basic_string<C> have;
    std::string const how = guard([&] { have = static_cast<std::basic_string<C>>(j); return "gives"; });
    if (how != (throws ? "throws" : "gives") || (!throws && have != want))
        r.fail(std::string("to string of ") + gen::cname<C>(), "%s as a string of %s %s %s instead of %s", show(v).c_str(), gen::cname<C>(), how.c_str(), mc::show(have).c_str(), throws ? "throwing" : mc::show(want).c_str());
    if (throws || v.k != Val::Str) return;
    // and back
    Json const back = have;
    if (!(back == j)) r.fail(std::string("from string of ") + gen::cname<C>(), "%s comes back from a string of %s as %s", show(v).c_str(), gen::cname<C>(), back.serialize().c_str());
}

// arrays of small integers into every sequence and set
template <typename T, bool Ordered>
void array_target(mc::Run &r, char const *name, Val const &v, Json const &j)
{
    if (!r.take()) return;
    using E = typename T::value_type;
    bool ints = v.k == Val::Arr;
    for (auto const &x : v.a) ints = ints && x.k == Val::Num && x.f >= -128 && x.f <= 127 && x.f == std::trunc(x.f);
    std::vector<int> have, want;
    for (auto const &x : v.a) if (ints) want.push_back(static_cast<int>(x.f));
    r.nontrivial();
    T t {};
    std::string const how = guard([&] { t = static_cast<T>(j); return "gives"; });
    // an element of another kind: integers cannot be made of it
    bool possible = v.k == Val::Arr;
    for (auto const &x : v.a) possible = possible && (x.k == Val::Num || (x.k == Val::Str && x.s == "1"));
    if (!possible)
    {
        if (how != "throws") r.fail(std::string("to ") + name, "%s as %s %s instead of throwing", show(v).c_str(), name, how.c_str());
        return;
    }
    if (!ints) return;
    for (E const &x : t) have.push_back(static_cast<int>(x));
    if (!Ordered) { std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); }
    bool multi = true;
    if constexpr (requires { t.insert(E {}).second; } && !requires { t.push_back(E {}); })
        if constexpr (!std::is_same_v<decltype(t.insert(E {})), typename T::iterator>) multi = false;
    if (!multi) want.erase(std::unique(want.begin(), want.end()), want.end());
    if (have != want || how != "gives") r.fail(std::string("to ") + name, "%s as %s %s a wrong %zu elements", show(v).c_str(), name, how.c_str(), have.size());
    if (Ordered)
    {
        T copy = t;
        Json const back = copy;
        if (!(back == j)) r.fail(std::string("from ") + name, "%s comes back from %s as %s", show(v).c_str(), name, back.serialize().c_str());
    }
}

template <typename T, typename C>
void object_target(mc::Run &r, char const *name, Val const &v, Json const &j)
{
    if (!r.take()) return;
    r.nontrivial();
    T t;
    std::string const how = guard([&] { t = static_cast<T>(j); return "gives"; });
    if (v.k != Val::Obj)
    {
        if (how != "throws") r.fail(std::string("to ") + name, "%s as %s %s instead of throwing", show(v).c_str(), name, how.c_str());
        return;
    }
    bool good = how == "gives" && t.size() == v.o.size();
    for (auto const &x : v.o)
    {
        auto it = t.find(widen<C>(x.first));
        good = good && it != t.end() && Json(it->second) == make(x.second);
    }
    if (!good) r.fail(std::string("to ") + name, "%s as %s %s something else", show(v).c_str(), name, how.c_str());
    T copy = t;
    Json const back = copy;
    if (!(back == j)) r.fail(std::string("from ") + name, "%s comes back from %s as %s", show(v).c_str(), name, back.serialize().c_str());
}

} // namespace

void enumerate(mc::Run &r)
{
    auto const vals = table();
    std::vector<Json> js;
    for (auto const &v : vals) js.push_back(make(v));
    std::size_t const n = vals.size();
    std::hash<Json> const hash {};

    r.section("pairs");
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t k = 0; k < n; ++k)
        {
            if (!r.take()) continue;
            r.nontrivial();
            Json const &a = js[i], &b = js[k];
            bool const eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
            bool const want = same(vals[i], vals[k]);
            std::string const t = show(vals[i]) + " and " + show(vals[k]);
            if (eq != want) r.fail("equality", "%s compare %s", t.c_str(), eq ? "equal" : "unequal");
            if (ne != !want) r.fail("inequality", "%s compare %s by !=", t.c_str(), ne ? "unequal" : "equal");
            if (eq != (b == a)) r.fail("symmetry", "%s: equality is not symmetric", t.c_str());
            if (lt && gt) r.fail("order", "%s: each is less than the other", t.c_str());
            if (want ? lt || gt : !lt && !gt) r.fail("order", "%s: %s, yet < is %d and > is %d", t.c_str(), want ? "equal" : "different", lt, gt);
            if (le != !gt || ge != !lt) r.fail("order", "%s: <= is %d with > %d, >= is %d with < %d", t.c_str(), le, gt, ge, lt);
            if (lt != (b > a)) r.fail("order", "%s: < is %d one way, > is %d the other", t.c_str(), lt, b > a);
            if (vals[i].k == Val::Num && vals[k].k == Val::Num && lt != (vals[i].f < vals[k].f)) r.fail("numeric order", "%s: < is %d", t.c_str(), lt);
            if (vals[i].k == Val::Str && vals[k].k == Val::Str && lt != (vals[i].s < vals[k].s)) r.fail("string order", "%s: < is %d", t.c_str(), lt);
            if (want && (hash(a) != hash(b) || hash(a) != hash(make(vals[k])))) r.fail("hash", "%s are equal but hash to different numbers", t.c_str());

            // assignments over one another
            Json x = a, y = b;
            x = y;
            if (!(x == b) || !(y == b)) r.fail("copy", "%s: assigning the second to the first gives %s and leaves %s", t.c_str(), x.serialize().c_str(), y.serialize().c_str());
            x = a;
            y = std::move(x);
            if (!(y == a) || !x.is_null()) r.fail("move", "%s: moving the first over the second gives %s and leaves %s", t.c_str(), y.serialize().c_str(), x.serialize().c_str());
            x = a;
            y = b;
            x.swap(y);
            if (!(x == b) || !(y == a)) r.fail("swap", "%s: swapped they are %s and %s", t.c_str(), x.serialize().c_str(), y.serialize().c_str());
            std::swap(x, y);
            if (!(x == a) || !(y == b)) r.fail("swap", "%s: swapped twice they are %s and %s", t.c_str(), x.serialize().c_str(), y.serialize().c_str());
            // a change to a copy is not seen in the original
            Json z = a;
            z = b;
            if (!(js[i] == make(vals[i]))) r.fail("copy", "%s: assigning to a copy changed the original", t.c_str());
        }
    r.section("triples");
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t k = 0; k < n; ++k)
        {
            if (!r.take()) continue;
            bool const eq = js[i] == js[k], lt = js[i] < js[k];
            for (std::size_t m = 0; m < n; ++m)
            {
                r.evaluations(1);
                if (eq && js[k] == js[m] && !(js[i] == js[m])) r.fail("transitivity", "%s == %s == %s, but the ends differ", show(vals[i]).c_str(), show(vals[k]).c_str(), show(vals[m]).c_str());
                if (lt && js[k] < js[m] && !(js[i] < js[m])) r.fail("order transitivity", "%s < %s < %s, but not the ends", show(vals[i]).c_str(), show(vals[k]).c_str(), show(vals[m]).c_str());
                if (eq && ((js[i] < js[m]) != (js[k] < js[m]) || (js[m] < js[i]) != (js[m] < js[k]))) r.fail("order transitivity", "%s == %s order differently against %s", show(vals[i]).c_str(), show(vals[k]).c_str(), show(vals[m]).c_str());
            }
        }
    r.section("nearly zero");
    for (int sign : {1, -1})
        for (int e = 0; e >= -16445; e = e > -1100 ? e - 1 : e * 2 < -16445 && e != -16445 ? -16445 : e * 2)
        {
            if (!r.take()) continue;
            long double const f = sign * std::ldexp(1.0L, e);
            Json const j = f;
            bool const want = static_cast<fly::json_floating_point_type>(f) != 0;
            if (static_cast<bool>(j) != want) r.fail("to bool", "%Lg as bool gives %d", f, !want);
            if (static_cast<fly::json_floating_point_type>(j) != static_cast<fly::json_floating_point_type>(f)) r.fail("to number", "%Lg comes back as something else", f);
        }
    r.section("conversions");
    for (std::size_t i = 0; i < n; ++i)
    {
        Val const &v = vals[i];
        Json const &j = js[i];
        number_target<signed char>(r, "signed char", v, j);
        number_target<unsigned char>(r, "unsigned char", v, j);
        number_target<short>(r, "short", v, j);
        number_target<unsigned short>(r, "unsigned short", v, j);
        number_target<int>(r, "int", v, j);
        number_target<unsigned>(r, "unsigned", v, j);
        number_target<long>(r, "long", v, j);
        number_target<unsigned long>(r, "unsigned long", v, j);
        number_target<long long>(r, "long long", v, j);
        number_target<unsigned long long>(r, "unsigned long long", v, j);
        number_target<float>(r, "float", v, j);
        number_target<double>(r, "double", v, j);
        number_target<long double>(r, "long double", v, j);
        gen::each_char_type([&]<typename C>() { string_target<C>(r, v, j); });
        array_target<std::vector<int>, true>(r, "vector", v, j);
        array_target<std::vector<std::int8_t>, true>(r, "vector of bytes", v, j);
        array_target<std::deque<int>, true>(r, "deque", v, j);
        array_target<std::list<int>, true>(r, "list", v, j);
        array_target<std::forward_list<int>, true>(r, "forward_list", v, j);
        array_target<std::multiset<int>, false>(r, "multiset", v, j);
        array_target<std::unordered_multiset<int>, false>(r, "unordered_multiset", v, j);
        array_target<std::set<int>, false>(r, "set", v, j);
        array_target<std::unordered_set<int>, false>(r, "unordered_set", v, j);
        object_target<std::map<std::string, Json>, char>(r, "map", v, j);
        object_target<std::multimap<std::string, Json>, char>(r, "multimap", v, j);
        object_target<std::unordered_map<std::string, Json>, char>(r, "unordered_map", v, j);
        object_target<std::unordered_multimap<std::string, Json>, char>(r, "unordered_multimap", v, j);
        object_target<std::map<std::u16string, Json>, char16_t>(r, "map of u16string", v, j);
        object_target<std::map<std::u32string, Json>, char32_t>(r, "map of u32string", v, j);
        object_target<std::map<std::u8string, Json>, char8_t>(r, "map of u8string", v, j);
        object_target<std::map<std::wstring, Json>, wchar_t>(r, "map of wstring", v, j);
        if (r.take())
        {
            bool const want = v.k == Val::Null ? false : v.k == Val::Str ? !v.s.empty() : v.k == Val::Bool ? v.b : v.k == Val::Num ? v.f != 0 : v.k == Val::Arr ? !v.a.empty() : !v.o.empty();
            if (static_cast<bool>(j) != want) r.fail("to bool", "%s as bool gives %d", show(v).c_str(), !want);
            std::string const nul = guard([&] { (void)static_cast<std::nullptr_t>(j); return "gives"; });
            if (nul != (v.k == Val::Null ? "gives" : "throws")) r.fail("to null", "%s as null %s", show(v).c_str(), nul.c_str());
            // by moving
            for (int kind = 0; kind < 3; ++kind)
            {
                Json x = j;
                bool applies = kind == 0 ? v.k == Val::Str : kind == 1 ? v.k == Val::Obj : v.k == Val::Arr, equal = false;
                std::string const how = guard([&] {
                    if (kind == 0) equal = Json(static_cast<fly::json_string_type>(std::move(x))) == j;
                    else if (kind == 1) equal = Json(static_cast<fly::json_object_type>(std::move(x))) == j;
                    else equal = Json(static_cast<fly::json_array_type>(std::move(x))) == j;
                    return "gives";
                });
                if (how != (applies ? "gives" : "throws") || equal != applies || (applies && !x.is_null()) || (!applies && !(x == j)))
                    r.fail("by moving", "%s moved into kind %d %s and leaves %s", show(v).c_str(), kind, how.c_str(), x.serialize().c_str());
            }
            // fixed arrays take what fits and fill up
            if (v.k != Val::Arr)
            {
                if (guard([&] { (void)static_cast<std::array<int, 2>>(j); return "gives"; }) != "throws") r.fail("to array", "%s as a fixed array does not throw", show(v).c_str());
            }
            else
            {
                // every element that fits must convert on its own
                auto element = [&](std::size_t k, int &to) { return guard([&] { to = static_cast<int>(j[k]); return "gives"; }); };
                auto fixed = [&]<std::size_t N>(std::array<int, N> want) {
                    std::string how = "gives", is;
                    for (std::size_t k = 0; k < std::min(N, v.a.size()) && how == "gives"; ++k) how = element(k, want[k]);
                    std::array<int, N> have {};
                    is = guard([&] { have = static_cast<std::array<int, N>>(j); return "gives"; });
                    if (is != how || (how == "gives" && have != want)) r.fail("to array", "%s as an array of %zu integers %s instead of what its elements give (%s)", show(v).c_str(), N, is.c_str(), how.c_str());
                };
                fixed(std::array<int, 1> {});
                fixed(std::array<int, 2> {});
                fixed(std::array<int, 3> {});
                fixed(std::array<int, 5> {});
                bool ints = true;
                for (auto const &x : v.a) ints = ints && x.k == Val::Num && std::fabs(x.f) < 1000 && x.f == std::trunc(x.f);
                if (ints)
                {
                    auto const one = static_cast<std::array<int, 1>>(j);
                    auto const three = static_cast<std::array<int, 3>>(j);
                    bool good = v.a.empty() ? one[0] == 0 : one[0] == static_cast<int>(v.a[0].f);
                    for (std::size_t k = 0; k < 3; ++k) good = good && three[k] == (k < v.a.size() ? static_cast<int>(v.a[k].f) : 0);
                    if (!good) r.fail("to array", "%s as fixed arrays gives other elements", show(v).c_str());
                    auto const a3 = three;
                    Json const back = a3;
                    if (back.size() != 3 || !(back[2] == three[2])) r.fail("from array", "a fixed array gives %s", back.serialize().c_str());
                }
            }
        }
    }
    // texts as numbers
    r.section("texts");
    for (char const *t : {"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "", " 1", "1 ", "+1", "abc", "1a", "0x1", "1.5", "1e3", "-", "--1", "1,0"})
    {
        std::string const s = t;
        bool digits = !s.empty();
        for (std::size_t k = 0; k < s.size(); ++k) digits = digits && ((s[k] >= '0' && s[k] <= '9') || (k == 0 && s[k] == '-' && s.size() > 1));
        auto target = [&]<typename T>(char const *name) {
            if (!r.take()) return;
            r.nontrivial();
            long double const f = digits ? std::strtold(t, nullptr) : 0;
            bool const fits = digits && f >= static_cast<long double>(std::numeric_limits<T>::min()) && f <= static_cast<long double>(std::numeric_limits<T>::max()) && !(s[0] == '-' && std::is_unsigned_v<T>);
            Json const j = s;
            std::string const want = fits ? text(f) : "throws";
            std::string const have = guard([&] { return text(static_cast<long double>(static_cast<T>(j))); });
            if (have != want) r.fail(std::string("text to ") + name, "the text '%s' as %s gives %s instead of %s", t, name, have.c_str(), want.c_str());
        };
        target.operator()<signed char>("signed char");
        target.operator()<unsigned char>("unsigned char");
        target.operator()<short>("short");
        target.operator()<unsigned short>("unsigned short");
        target.operator()<int>("int");
        target.operator()<unsigned>("unsigned");
        target.operator()<long>("long");
        target.operator()<unsigned long>("unsigned long");
        if (!r.take()) continue;
        for (int kind = 0; kind < 3; ++kind)
        {
            bool const ok = digits || s == "1.5" || s == "1e3";
            bool const lenient = s == " 1" || s == "+1" || s == "0x1";   // up to the platform's conversion
            Json const j = s;
            std::string const want = !ok ? "throws" : kind == 0 ? text(std::strtof(t, nullptr)) : kind == 1 ? text(std::strtod(t, nullptr)) : text(std::strtold(t, nullptr));
            std::string const have = guard([&] { return text(kind == 0 ? static_cast<long double>(static_cast<float>(j)) : kind == 1 ? static_cast<long double>(static_cast<double>(j)) : static_cast<long double>(j)); });
            if (have != want && !lenient) r.fail("text to float", "the text '%s' as a float of kind %d gives %s instead of %s", t, kind, have.c_str(), want.c_str());
        }
    }
}

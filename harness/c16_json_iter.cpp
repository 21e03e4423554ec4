// C16: all iterator operations from every position of every small container, in the four kinds of iterator,
// every pair of iterators (same value, other value, empty), and all sequences of moves up to a depth,
// against plain positions.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "fly/types/json/json.hpp"

#include <compare>
#include <functional>
#include <limits>

using fly::Json;
using fly::JsonException;

namespace {

using Off = std::ptrdiff_t;
constexpr Off MIN = std::numeric_limits<Off>::min(), MAX = std::numeric_limits<Off>::max();

struct Box
{
    Json json;
    bool array;
    std::vector<Json const *> items;   // in order
    std::vector<std::string> keys;
    Off n() const { return static_cast<Off>(items.size()); }
};

std::vector<std::unique_ptr<Box>> boxes(std::vector<std::size_t> const &sizes)
{
    std::vector<std::unique_ptr<Box>> v;
    for (std::size_t n : sizes)
    {
        auto a = std::make_unique<Box>();
        a->array = true;
        a->json = fly::json_array_type();
        for (std::size_t k = 0; k < n; ++k) a->json.push_back(k == 1 ? Json("x") : k == 2 ? Json(fly::json_array_type {1}) : Json(static_cast<int>(k)));
        for (std::size_t k = 0; k < n; ++k) a->items.push_back(&std::as_const(a->json).at(k));
        v.push_back(std::move(a));
        auto o = std::make_unique<Box>();
        o->array = false;
        o->json = fly::json_object_type();
        for (std::size_t k = 0; k < n; ++k)
        {
            o->keys.push_back(std::string(k / 26, '~') + std::string(1, static_cast<char>('a' + k % 26)));
            o->json[o->keys.back()] = static_cast<int>(k);
        }
        for (auto const &k : o->keys) o->items.push_back(&std::as_const(o->json).at(k));
        v.push_back(std::move(o));
    }
    return v;
}

template <typename It> struct Kind;
template <> struct Kind<Json::iterator> { static constexpr char const *name = "iterator"; static constexpr bool rev = false; static auto b(Json &j) { return j.begin(); } static auto e(Json &j) { return j.end(); } };
template <> struct Kind<Json::const_iterator> { static constexpr char const *name = "const_iterator"; static constexpr bool rev = false; static auto b(Json &j) { return std::as_const(j).begin(); } static auto e(Json &j) { return j.cend(); } };
template <> struct Kind<Json::reverse_iterator> { static constexpr char const *name = "reverse_iterator"; static constexpr bool rev = true; static auto b(Json &j) { return j.rbegin(); } static auto e(Json &j) { return j.rend(); } };
template <> struct Kind<Json::const_reverse_iterator> { static constexpr char const *name = "const_reverse_iterator"; static constexpr bool rev = true; static auto b(Json &j) { return std::as_const(j).rbegin(); } static auto e(Json &j) { return j.crend(); } };

// the element at position p seen in the direction of the iterator
template <typename It>
Json const *element(Box const &b, Off p) { return b.items[static_cast<std::size_t>(Kind<It>::rev ? b.n() - 1 - p : p)]; }
template <typename It>
std::string key(Box const &b, Off p) { return b.keys[static_cast<std::size_t>(Kind<It>::rev ? b.n() - 1 - p : p)]; }

template <typename It>
It make(Box &b, Off p)
{
    It it = Kind<It>::b(b.json);
    for (Off k = 0; k < p; ++k) ++it;
    return it;
}
std::string ptr(Json const *p) { char t[32]; std::snprintf(t, sizeof t, "%p", static_cast<void const *>(p)); return t; }

// where the iterator is
template <typename It>
std::string where(Box &b, It const &it)
{
    try { return ptr(&*it); }
    catch (JsonException const &) { }
    return it == Kind<It>::e(b.json) ? "end" : "nowhere";
}
template <typename It>
std::string where(Box const &b, Off p) { return p == b.n() ? "end" : ptr(element<It>(b, p)); }

std::string guard(std::function<std::string()> const &f)
{
    try { return f(); }
    catch (JsonException const &) { return "throws"; }
    catch (std::exception const &e) { return std::string("raises ") + e.what(); }
}
std::string yes(bool b) { return b ? "yes" : "no"; }

void expect(mc::Run &r, char const *kind, Box const &b, Off p, std::string const &op, std::string const &have, std::string const &want)
{
    r.transitions();
    if (want != "throws") r.nontrivial();
    if (have != want)
        r.fail(std::string(kind) + (b.array ? ":array:" : ":object:") + op.substr(0, op.find('#')), "%s over %s at position %td: %s gives %s instead of %s", kind, b.json.serialize().c_str(), p, op.c_str(), have.c_str(), want.c_str());
}

bool inside(Off p, Off off, Off top) { return off >= 0 ? off <= top - p : off >= -p; }   // 0 <= p + off <= top

std::vector<Off> offsets(Off n)
{
    std::vector<Off> v;
    for (Off k = -n - 2; k <= n + 2; ++k) v.push_back(k);
    for (Off k : {MIN, MIN + 1, MAX - 1, MAX}) v.push_back(k);
    return v;
}

template <typename It>
void single(mc::Run &r, Box &b)
{
    using K = Kind<It>;
    Off const n = b.n();
    for (Off p = 0; p <= n; ++p)
    {
        if (!r.take()) continue;
        It const base = make<It>(b, p);
        std::string const here = where<It>(b, p);
        auto ex = [&](std::string const &op, std::function<std::string()> const &f, std::string const &want) {
            expect(r, K::name, b, p, op, guard(f), want);
            expect(r, K::name, b, p, op + "#moved", where(b, base), here);
        };
        bool const in = p < n;
        ex("position", [&] { return where(b, base); }, here);
        ex("*", [&] { return ptr(&*base); }, in ? here : "throws");
        ex("->", [&] { return ptr(base.operator->()); }, in ? here : "throws");
        ex("value", [&] { return ptr(&base.value()); }, in ? here : "throws");
        ex("key", [&] { return base.key(); }, in && !b.array ? key<It>(b, p) : "throws");
        It it = base;
        auto step = [&](std::string const &op, std::function<std::string()> const &f, bool ok, std::string const &got, Off to) {
            it = base;
            ex(op, f, ok ? got : "throws");
            expect(r, K::name, b, p, op + "#to", where(b, it), ok ? where<It>(b, to) : here);
        };
        step("++it", [&] { return where(b, ++it); }, in, in ? where<It>(b, p + 1) : "", p + 1);
        step("it++", [&] { return where(b, it++); }, in, here, p + 1);
        step("--it", [&] { return where(b, --it); }, p > 0, p > 0 ? where<It>(b, p - 1) : "", p - 1);
        step("it--", [&] { return where(b, it--); }, p > 0, here, p - 1);
        for (Off off : offsets(n))
        {
            // the reversed kinds negate what they are given; the smallest number cannot be negated
            if (K::rev && off == MIN) continue;
            std::string const t = "#" + std::to_string(off);
            bool const fwd = b.array && inside(p, off, n);
            step("+=" + t, [&] { return where(b, it += off); }, fwd, fwd ? where<It>(b, p + off) : "", fwd ? p + off : 0);
            ex("+" + t, [&] { return where(b, base + off); }, fwd ? where<It>(b, p + off) : "throws");
            bool const at = fwd && p + off < n;
            ex("[]" + t, [&] { return ptr(&base[off]); }, at ? where<It>(b, p + off) : "throws");
            bool const back = b.array && off != MIN && inside(p, -off, n);
            step("-=" + t, [&] { return where(b, it -= off); }, back, back ? where<It>(b, p - off) : "", back ? p - off : 0);
            ex("-" + t, [&] { return where(b, base - off); }, back ? where<It>(b, p - off) : "throws");
        }
        // to the constant and reversed kinds
        if constexpr (std::is_same_v<It, Json::iterator>)
        {
            Json::const_iterator const c = base;
            Json::const_iterator d;
            d = base;
            ex("const", [&] { return where(b, c) + where(b, d); }, here + here);
            ex("const ==", [&] { return yes(c == make<Json::const_iterator>(b, p)) + yes(Json::const_iterator(base) == d); }, "yesyes");
            Json::reverse_iterator const v(base);
            ex("reverse", [&] { return where(b, v); }, p == 0 ? "end" : where<It>(b, p - 1));
        }
    }
}

template <typename It>
void pairs(mc::Run &r, std::vector<std::unique_ptr<Box>> &all)
{
    using K = Kind<It>;
    auto compare = [&](Box &b, Off p, It const &x, It const &y, bool good, bool ordered, Off q, char const *what) {
        auto ex = [&](char const *op, std::function<std::string()> const &f, bool applies, std::string const &want) {
            expect(r, K::name, b, p, std::string(op) + " " + what + "#" + std::to_string(q), guard(f), applies ? want : "throws");
        };
        ex("==", [&] { return yes(x == y); }, good, yes(p == q));
        ex("!=", [&] { return yes(x != y); }, good, yes(p != q));
        ex("<", [&] { return yes(x < y); }, ordered, yes(p < q));
        ex("<=", [&] { return yes(x <= y); }, ordered, yes(p <= q));
        ex(">", [&] { return yes(x > y); }, ordered, yes(p > q));
        ex(">=", [&] { return yes(x >= y); }, ordered, yes(p >= q));
        ex("distance", [&] { return std::to_string(x - y); }, ordered, std::to_string(p - q));
    };
    It const none {};
    for (auto &pb : all)
    {
        Box &b = *pb;
        for (Off p = 0; p <= b.n(); ++p)
        {
            It const x = make<It>(b, p);
            for (Off q = 0; q <= b.n(); ++q)
                if (r.take()) compare(b, p, x, make<It>(b, q), true, b.array, q, "same");
            for (auto &po : all)
            {
                if (po == pb) continue;
                for (Off q = 0; q <= po->n(); ++q)
                    if (r.take()) compare(b, p, x, make<It>(*po, q), false, false, q, "other");
            }
            if (r.take())
            {
                compare(b, p, x, none, false, false, 0, "empty");
                compare(b, p, none, x, false, false, 0, "empty");
            }
            // a copy of the value has iterators of its own
            if (r.take())
            {
                Json copy = b.json;
                compare(b, p, x, K::b(copy), false, false, 0, "copy");
            }
        }
    }
    if (!r.take()) return;
    Box &b = *all[0];
    compare(b, 0, none, none, false, false, 0, "empty");
    It it {};
    auto ex = [&](char const *op, std::function<std::string()> const &f) { expect(r, K::name, b, 0, std::string("empty ") + op, guard(f), "throws"); };
    ex("*", [&] { return ptr(&*it); });
    ex("->", [&] { return ptr(it.operator->()); });
    ex("value", [&] { return ptr(&it.value()); });
    ex("key", [&] { return it.key(); });
    ex("++it", [&] { ++it; return "moved"; });
    ex("it++", [&] { it++; return "moved"; });
    ex("--it", [&] { --it; return "moved"; });
    ex("it--", [&] { it--; return "moved"; });
    for (Off off : {Off(0), Off(1), Off(-1)})
    {
        ex("+=", [&] { it += off; return "moved"; });
        ex("-=", [&] { it -= off; return "moved"; });
        ex("+", [&] { (void)(it + off); return "moved"; });
        ex("-", [&] { (void)(it - off); return "moved"; });
        ex("[]", [&] { return ptr(&it[off]); });
    }
}

template <typename It>
void walks(mc::Run &r, Box &b, std::size_t depth)
{
    using K = Kind<It>;
    Off const n = b.n();
    // every element once, in order, both ways
    if (r.take())
    {
        std::string have, want;
        for (It it = K::b(b.json); it != K::e(b.json); ++it) have += ptr(&*it) + " ";
        for (Off p = 0; p < n; ++p) want += ptr(element<It>(b, p)) + " ";
        expect(r, K::name, b, 0, "walk", have, want);
        have.clear();
        want.clear();
        for (It it = K::e(b.json); it != K::b(b.json);) { --it; have += ptr(&*it) + " "; }
        for (Off p = n; p-- > 0;) want += ptr(element<It>(b, p)) + " ";
        expect(r, K::name, b, 0, "walk back", have, want);
        if (b.array) expect(r, K::name, b, 0, "length", std::to_string(K::e(b.json) - K::b(b.json)), std::to_string(n));
        expect(r, K::name, b, 0, "std::distance", std::to_string(std::distance(K::b(b.json), K::e(b.json))), std::to_string(n));
    }
    // all sequences of moves
    static char const *const names[] = {"++it", "it++", "--it", "it--", "+=1", "-=1", "+=2", "-=2", "+=0", "-=-1"};
    static Off const by[] = {1, 1, -1, -1, 1, -1, 2, -2, 0, 1};
    std::size_t total = 1;
    for (std::size_t k = 0; k < depth; ++k) total *= 10;
    for (Off start = 0; start <= n; ++start)
        for (std::size_t code = 0; code < total; ++code)
        {
            if (!r.take()) continue;
            It it = make<It>(b, start);
            Off p = start;
            std::size_t c = code;
            std::string history;
            for (std::size_t k = 0; k < depth; ++k, c /= 10)
            {
                std::size_t const m = c % 10;
                bool ok = inside(p, by[m], n) && (b.array || m < 4);
                if (ok) p += by[m];
                history += std::string(names[m]) + " ";
                std::string const got = guard([&] {
                    switch (m)
                    {
                        case 0: ++it; break;
                        case 1: it++; break;
                        case 2: --it; break;
                        case 3: it--; break;
                        case 4: it += 1; break;
                        case 5: it -= 1; break;
                        case 6: it += 2; break;
                        case 7: it -= 2; break;
                        case 8: it += 0; break;
                        default: it -= -1; break;
                    }
                    return std::string("moves");
                });
                expect(r, K::name, b, start, "sequence#" + history, got + " to " + where(b, it), (ok ? "moves to " : "throws to ") + where<It>(b, p));
            }
        }
}

template <typename It>
void all(mc::Run &r, bool T)
{
    auto v = boxes(T ? std::vector<std::size_t> {0, 1, 2, 3, 4, 5} : std::vector<std::size_t> {0, 1, 2, 3});
    r.section(Kind<It>::name);
    for (auto &b : v) single<It>(r, *b);
    pairs<It>(r, v);
    for (auto &b : v) walks<It>(r, *b, T ? 5 : 4);
    // containers of many elements
    auto large = boxes(T ? std::vector<std::size_t> {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129} : std::vector<std::size_t> {7, 8, 9, 15, 16, 17, 32, 33, 64, 65});
    for (auto &b : large) single<It>(r, *b);
    for (auto &b : large) walks<It>(r, *b, 2);
    auto few = boxes({17, 16, 33});
    pairs<It>(r, few);
    // kinds of values without iterators
    for (Json j : {Json(nullptr), Json("ab"), Json(true), Json(1), Json(1u), Json(1.5)})
    {
        if (!r.take()) continue;
        Box b {.json = j, .array = true, .items = {}, .keys = {}};
        expect(r, Kind<It>::name, b, 0, "begin", guard([&] { Kind<It>::b(b.json); return "made"; }), "throws");
        expect(r, Kind<It>::name, b, 0, "end", guard([&] { Kind<It>::e(b.json); return "made"; }), "throws");
    }
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    all<Json::iterator>(r, T);
    all<Json::const_iterator>(r, T);
    all<Json::reverse_iterator>(r, T);
    all<Json::const_reverse_iterator>(r, T);

    // the mutable kind gives access to change the elements
    r.section("changes");
    for (std::size_t n = 1; n <= 3; ++n)
        for (std::size_t k = 0; k < n; ++k)
            for (int way = 0; way < 6; ++way)
            {
                if (!r.take()) continue;
                r.nontrivial();
                Json a = fly::json_array_type();
                for (std::size_t m = 0; m < n; ++m) a.push_back(static_cast<int>(m));
                Off const off = static_cast<Off>(k);
                switch (way)
                {
                    case 0: *(a.begin() + off) = 9; break;
                    case 1: a.begin()[off] = 9; break;
                    case 2: (a.begin() + off).value() = 9; break;
                    case 3: (a.begin() + off)->swap(*std::make_unique<Json>(9)); break;
                    case 4: a.rbegin()[static_cast<Off>(n - 1 - k)] = 9; break;
                    default: *(a.end() - static_cast<Off>(n - k)) = 9; break;
                }
                for (std::size_t m = 0; m < n; ++m)
                    if (!(a.at(m) == (m == k ? 9 : static_cast<int>(m)))) r.fail("change", "changing element %zu of %zu in way %d gives %s", k, n, way, a.serialize().c_str());
            }
}

// C23: which format strings are accepted.  All strings up to a length over the significant characters,
// and all replacement fields up to a longer length, for several argument lists, against an independent
// recogniser written from the documented grammar.  Every string lies in an exactly sized heap block, so
// that AddressSanitizer sees any read beyond its end.
#include "fly/types/string/format.hpp"
#include "fly/types/string/string.hpp"

#include "gen.hpp"
#include "mc_enum.hpp"

#include <array>
#include <memory>
#include <optional>

namespace {
struct Plain { int v; };        // formatter without options
struct Derived { int v; };      // formatter inheriting the options of int
struct Custom { int v; };       // formatter with a parser of its own: optional 'o'
} // namespace

template <typename C>
struct fly::string::Formatter<Plain, C>
{
    template <typename Context>
    void format(Plain const &p, Context &context) { fly::string::format_to(context.out(), FLY_ARR(C, "<{}>"), p.v); }
};
template <typename C>
struct fly::string::Formatter<Derived, C> : public fly::string::Formatter<int, C>
{
    template <typename Context>
    void format(Derived const &p, Context &context) { fly::string::Formatter<int, C>::format(p.v, context); }
};
template <typename C>
struct fly::string::Formatter<Custom, C>
{
    bool m_option {false};
    template <typename ParseContext>
    constexpr void parse(ParseContext &context)
    {
        if (context.lexer().consume_if(FLY_CHR(C, 'o'))) m_option = true;
        if (!context.lexer().consume_if(FLY_CHR(C, '}'))) context.on_error("custom error");
    }
    template <typename Context>
    void format(Custom const &p, Context &context) { fly::string::format_to(context.out(), FLY_ARR(C, "{}{}"), m_option ? 'o' : '-', p.v); }
};

namespace {

// ------------------------------------------------------------------------------------ the recogniser
enum class K { Char, Str, Ptr, Int, Float, Bool, Plain, Derived, Custom };

struct Reader
{
    std::string const &s;
    std::vector<K> const &args;
    std::size_t i = 0;
    std::size_t next = 0;
    bool seen_auto = false, seen_pos = false;
    std::size_t fields = 0;

    bool at(char c) const { return i < s.size() && s[i] == c; }
    bool eat(char c) { if (at(c)) { ++i; return true; } return false; }
    // A decimal number; values beyond any argument count or width saturate.
    std::optional<unsigned __int128> num()
    {
        if (i >= s.size() || s[i] < '0' || s[i] > '9') return std::nullopt;
        unsigned __int128 v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        {
            v = v * 10 + static_cast<unsigned>(s[i++] - '0');
            if (v >> 100) v = static_cast<unsigned __int128>(1) << 100;
        }
        return v;
    }
    bool position(K &kind)
    {
        std::size_t p;
        if (auto n = num())
        {
            seen_pos = true;
            if (*n >= args.size()) return false;
            p = static_cast<std::size_t>(*n);
        }
        else { seen_auto = true; p = next++; }
        if (seen_auto && seen_pos) return false;
        if (p >= args.size()) return false;
        kind = args[p];
        return true;
    }
    bool accepts()
    {
        while (i < s.size())
        {
            if (eat('{'))
            {
                if (eat('{')) continue;
                if (++fields > 64) return false;
                if (!field()) return false;
            }
            else if (eat('}')) { if (!eat('}')) return false; }
            else ++i;
        }
        return true;
    }
    static bool numeric(K k, char type)
    {
        switch (type)
        {
            case 'b': case 'B': case 'o': case 'd': case 'x': case 'X': case 'a': case 'A': case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': return true;
            case 0: return k == K::Int || k == K::Float;
            default: return false;
        }
    }
    bool field()
    {
        K k;
        if (!position(k)) return false;
        if (!eat(':')) return eat('}');
        if (k == K::Plain) return eat('}');
        if (k == K::Custom) { eat('o'); return eat('}'); }
        if (k == K::Derived) k = K::Int;

        bool aligned = false;
        auto is_align = [](char c) { return c == '<' || c == '>' || c == '^'; };
        if (i + 1 < s.size() && is_align(s[i + 1]))
        {
            if (s[i] == '{' || s[i] == '}' || static_cast<unsigned char>(s[i]) >= 0x80) return false;
            i += 2;
            aligned = true;
        }
        else if (i < s.size() && is_align(s[i])) { ++i; aligned = true; }
        bool sign = false, alt = false, zero = false, prec = false, loc = false;
        if (eat('+') || eat('-') || eat(' ')) sign = true;
        if (eat('#')) alt = true;
        if (eat('0')) zero = !aligned;
        if (auto n = num()) { if (*n == 0 || *n > UINT64_MAX) return false; }
        else if (eat('{'))
        {
            K w;
            if (!position(w) || w != K::Int || !eat('}')) return false;
        }
        if (eat('.'))
        {
            prec = true;
            if (auto n = num()) { if (*n > UINT64_MAX) return false; }
            else if (eat('{'))
            {
                K p;
                if (!position(p) || p != K::Int || !eat('}')) return false;
            }
            else return false;
        }
        if (eat('L')) loc = true;
        char type = 0;
        if (i < s.size() && std::strchr("cspbBodxXaAeEfFgG", s[i])) type = s[i++];
        if (!eat('}')) return false;

        char const *allowed = "";
        switch (k)
        {
            case K::Char: allowed = "cbBodxX"; break;
            case K::Str: allowed = "s"; break;
            case K::Ptr: allowed = "p"; break;
            case K::Int: allowed = "cbBodxX"; break;
            case K::Float: allowed = "aAeEfFgG"; break;
            default: allowed = "csbBodxX"; break;
        }
        if (type && !std::strchr(allowed, type)) return false;
        bool const n = numeric(k, type);
        if (sign && !n) return false;
        if (alt && (!n || type == 'd' || (type == 0 && k == K::Int))) return false;
        if (zero && !n) return false;
        if (prec && k != K::Str && k != K::Float) return false;
        if (loc && k != K::Int && k != K::Float && k != K::Bool) return false;
        return true;
    }
};

// ------------------------------------------------------------------------------------ the subject
template <typename C, std::size_t N, typename... T>
struct Subject
{
    static bool accepts(C const *p, bool render, std::basic_string<C> *out, T const &...args)
    {
        auto const &arr = *reinterpret_cast<C const(*)[N]>(p);
        fly::string::FormatString<C, T const &...> fs(arr);
        bool const ok = !fs.context().has_error();
        if (render) *out = fly::string::format(std::move(fs), args...);
        return ok;
    }
};
constexpr std::size_t kMax = 14;
template <typename C, typename... T, std::size_t... N>
bool dispatch(C const *p, std::size_t n, bool render, std::basic_string<C> *out, std::index_sequence<N...>, T const &...args)
{
    using Fn = bool (*)(C const *, bool, std::basic_string<C> *, T const &...);
    static constexpr Fn table[] = {&Subject<C, N + 1, T...>::accepts...};
    return table[n](p, render, out, args...);
}
template <typename C>
std::string show(std::basic_string<C> const &s)
{
    std::string r;
    for (auto c : s)
    {
        auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<C>>(c));
        char b[16];
        if (u >= 32 && u < 127) r += static_cast<char>(u);
        else { snprintf(b, sizeof b, "\\x%x", u); r += b; }
    }
    return r;
}

template <typename C, typename... T>
void test(mc::Run &r, char const *list, std::vector<K> const &kinds, std::string const &s, bool render, T const &...args)
{
    if (!r.take()) return;
    Reader ref {s, kinds};
    bool const want = ref.accepts();
    if (ref.fields) r.nontrivial();
    // exactly the text and its terminator
    std::unique_ptr<C[]> p(new C[s.size() + 1]);
    for (std::size_t i = 0; i < s.size(); ++i) p[i] = static_cast<C>(static_cast<unsigned char>(s[i]));
    p[s.size()] = 0;
    std::basic_string<C> out;
    bool const got = dispatch<C>(p.get(), s.size(), render, &out, std::make_index_sequence<kMax + 1> {}, args...);
    r.evaluations(1);
    if (got != want)
        r.fail(want ? "C23/rejected" : "C23/accepted", "%s: \"%s\" with arguments (%s) is %s, documented: %s", gen::cname<C>(), show(gen::W<char>(s)).c_str(), list,
               got ? "accepted" : "rejected", want ? "well-formed" : "malformed");
    if (render)
    {
        std::basic_string<C> const error = gen::W<C>("Ignored invalid formatter: ");
        bool const reported = out.compare(0, error.size(), error) == 0;
        if (reported != !want || (reported && out.size() == error.size()))
            r.fail("C23/report", "%s: \"%s\" with arguments (%s) is %s and renders as \"%s\"", gen::cname<C>(), show(gen::W<char>(s)).c_str(), list,
                   want ? "well-formed" : "malformed", show(out).c_str());
    }
}

template <typename C, typename F>
void lists(mc::Run &, F &&f)
{
    int const i = 3, j = 2;
    unsigned char const w = 4;
    double const d = 1.5;
    bool const b = true;
    C const c = 'A';
    std::string const s = "str";
    void *const p = nullptr;
    f("", std::vector<K> {});
    f("int", std::vector<K> {K::Int}, i);
    f("float", std::vector<K> {K::Float}, d);
    f("string", std::vector<K> {K::Str}, s);
    f("char", std::vector<K> {K::Char}, c);
    f("bool", std::vector<K> {K::Bool}, b);
    f("pointer", std::vector<K> {K::Ptr}, p);
    f("user type without options", std::vector<K> {K::Plain}, Plain {5});
    f("user type with the options of int", std::vector<K> {K::Derived}, Derived {5});
    f("user type with a parser", std::vector<K> {K::Custom}, Custom {5});
    f("string,int", std::vector<K> {K::Str, K::Int}, s, j);
    f("int,float,int", std::vector<K> {K::Int, K::Float, K::Int}, i, d, j);
    f("float,bool,uint8,char", std::vector<K> {K::Float, K::Bool, K::Int, K::Char}, d, b, w, c);
}

template <typename C>
void space(mc::Run &r, bool big)
{
    lists<C>(r, [&](char const *list, std::vector<K> const &kinds, auto const &...args) {
        std::string const sect = std::string("all strings, ") + list + ", " + gen::cname<C>();
        r.section(sect.c_str());
        gen::strings(std::string("{}:01<.d#x"), 0, (big ? 5 : 3) + (r.thorough() ? 1 : 0)).each([&](std::string const &s) {
            test<C>(r, list, kinds, s, s.size() <= 4, args...);
        });
        // whole fields: everything between "{:" and "}"
        std::string const sect2 = std::string("all fields, ") + list + ", " + gen::cname<C>();
        r.section(sect2.c_str());
        gen::strings(std::string("{}:0.<+-# 1Lscpxdfag^>o\x80"), 1, 3 + (big && r.thorough() ? 1 : 0)).each([&](std::string const &s) {
            test<C>(r, list, kinds, "{:" + s + "}", s.size() <= 3, args...);
        });
        std::string const sect3 = std::string("option sequences, ") + list + ", " + gen::cname<C>();
        r.section(sect3.c_str());
        // every presence combination in the documented order, and every single letter as the type
        for (char const *pos : {"", "0", "1", "2", "9"})
            for (char const *al : {"", "<", "*^", "{<", "}>", "\x80<", "\x7f<"})
                for (char const *sg : {"", "+", " "})
                    for (char const *alt : {"", "#"})
                        for (char const *z : {"", "0"})
                            for (char const *w : {"", "7", "{}", "{1}", "{0}", "{2}", "{"})
                                for (char const *pr : {"", ".", ".2", ".{}", ".{0}", ".{2}"})
                                    for (char const *l : {"", "L"})
                                        for (char const *t : {"", "c", "s", "p", "B", "o", "d", "X", "A", "e", "F", "g", "q"})
                                        {
                                            std::string f = std::string("{") + pos + ":" + al + sg + alt + z + w + pr + l + t + "}";
                                            if (f.size() > kMax) continue;
                                            if (!r.thorough() && (big ? (*z != 0) + (*l != 0) + (*sg != 0) + (*pos != 0) + (*alt != 0) > 2 : *z || *l || *sg)) continue;
                                            test<C>(r, list, kinds, f, false, args...);
                                        }
        std::string const sect4 = std::string("single characters, ") + list + ", " + gen::cname<C>();
        r.section(sect4.c_str());
        for (int ch = 1; ch < 256; ++ch)
        {
            char const x = static_cast<char>(ch);
            for (std::string f : {std::string(1, x), std::string("{") + x + "}", std::string("{:") + x + "}", std::string("{:") + x + "<}", std::string("{:") + x + ">3}",
                                  std::string("{:.2") + x + "}", std::string("{0") + x + "}", std::string("{}") + x, std::string("{:{") + x + "}}", std::string("{:1") + x + "}"})
                test<C>(r, list, kinds, f, true, args...);
        }
        // two fields: position discipline
        std::string const sect5 = std::string("field sequences, ") + list + ", " + gen::cname<C>();
        r.section(sect5.c_str());
        char const *pieces[] = {"{}", "{0}", "{1}", "{2}", "{:{}}", "{0:{1}}", "{:.{}}", "{3}", "{{", "}}", "x"};
        gen::strings(std::string("0123456789:"), 0, big ? 4 : 3).each([&](std::string const &q) {
            std::string f;
            for (char k : q) f += pieces[k - '0'];
            if (f.size() > kMax) return;
            test<C>(r, list, kinds, f, true, args...);
        });
    });
}

// A dozen arguments: positions of two digits in every place, mixed kinds.
template <typename C>
void dozen(mc::Run &r)
{
    std::vector<K> const kinds {K::Int, K::Float, K::Str, K::Bool, K::Int, K::Char, K::Ptr, K::Int, K::Str, K::Float, K::Int, K::Int};
    int const i = 3, j = 2;
    double const d = 1.5;
    bool const b = true;
    C const c = 'A';
    std::string const s = "str";
    void *const p = nullptr;
    unsigned short const u = 9;
    long long const q = 5;
    auto one = [&](std::string const &f) {
        if (f.size() <= kMax) test<C>(r, "a dozen", kinds, f, true, i, d, s, b, j, c, p, u, s, d, q, i);
    };
    r.section((std::string("a dozen arguments, ") + gen::cname<C>()).c_str());
    std::vector<std::string> positions {""};
    for (int k = 0; k < 16; ++k) positions.push_back(std::to_string(k));
    for (char const *k : {"010", "00", "20", "100", "110", "1 0"}) positions.push_back(k);
    for (auto const &a : positions)
    {
        one("{" + a + "}");
        one("{" + a);
        for (char const *t : {"d", "s", "f", "c", "p", "x", "+", "#x", ".1", "L"}) one("{" + a + ":" + t + "}");
        for (auto const &x : positions)
        {
            one("{" + a + "}{" + x + "}");
            one("{" + a + ":{" + x + "}}");
            one("{" + a + ":.{" + x + "}}");
            for (auto const &y : positions)
            {
                one("{" + a + ":{" + x + "}.{" + y + "}}");
                one("{" + a + "}{" + x + "}{" + y + "}");
            }
        }
    }
    // every number of fields which count on their own
    auto autos = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
        for (int last = 0; last < 3; ++last)
        {
            if (!r.take()) continue;
            std::string f;
            for (std::size_t k = 0; k < N; ++k) f += last == 2 && k + 1 == N ? "{0}" : last == 1 ? "{:}" : "{} ";
            std::unique_ptr<C[]> t(new C[N * 3 + 1]);
            for (std::size_t k = 0; k < N * 3; ++k) t[k] = static_cast<C>(f[k]);
            t[N * 3] = 0;
            Reader ref {f, kinds};
            bool const want = ref.accepts();
            fly::string::FormatString<C, int const &, double const &, std::string const &, bool const &, int const &, C const &, void *const &, unsigned short const &, std::string const &, double const &, long long const &, int const &> fs(
                *reinterpret_cast<C const(*)[N * 3 + 1]>(t.get()));
            r.evaluations(1);
            r.nontrivial();
            if (want != !fs.context().has_error()) r.fail("C23/fields", "%s: %zu fields, kind %d, of twelve arguments are %s", gen::cname<C>(), N, last, want ? "rejected" : "accepted");
        }
    };
    [&]<std::size_t... N>(std::index_sequence<N...>) { (autos(std::integral_constant<std::size_t, N + 1> {}), ...); }(std::make_index_sequence<15> {});
}

// Numbers beyond every integer type, and the documented limit on the number of fields.
template <typename C, std::size_t N>
bool accepts_long(std::string const &s)
{
    std::unique_ptr<C[]> p(new C[N]);
    for (std::size_t i = 0; i + 1 < N; ++i) p[i] = static_cast<C>(s[i]);
    p[N - 1] = 0;
    fly::string::FormatString<C, int, double> fs(*reinterpret_cast<C const(*)[N]>(p.get()));
    return !fs.context().has_error();
}
template <typename C>
void numbers(mc::Run &r)
{
    r.section("numbers beyond every type");
    std::vector<K> const kinds {K::Int, K::Float};
    for (char const *n : {"18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999", "00000000000000000000", "00000000000000000001"})
    {
        static_assert(sizeof("99999999999999999999") == 21);
        std::string const p = std::string("{") + n + "}", w = std::string("{:") + n + "}", q = std::string("{1:.") + n + "}", m = std::string("{:{") + n + "}}";
        auto one = [&](std::string const &s, bool got) {
            Reader ref {s, kinds};
            bool const want = ref.accepts();
            r.evaluations(1);
            r.nontrivial();
            if (want != got) r.fail("C23/number", "%s: \"%s\" with arguments (int,float) is %s", gen::cname<C>(), s.c_str(), got ? "accepted" : "rejected");
        };
        if (r.take()) one(p, accepts_long<C, 23>(p));
        if (r.take()) one(w, accepts_long<C, 24>(w));
        if (r.take()) one(q, accepts_long<C, 26>(q));
        if (r.take()) one(m, accepts_long<C, 26>(m));
    }
    r.section("number of fields");
    auto fields = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
        if (!r.take()) return;
        std::string s;
        for (std::size_t i = 0; i < N; ++i) s += "{0}";
        Reader ref {s, kinds};
        bool const want = ref.accepts(), got = accepts_long<C, N * 3 + 1>(s);
        r.evaluations(1);
        if (want != got) r.fail("C23/fields", "%s: %zu fields are %s", gen::cname<C>(), N, got ? "accepted" : "rejected");
    };
    fields(std::integral_constant<std::size_t, 63> {});
    fields(std::integral_constant<std::size_t, 64> {});
    fields(std::integral_constant<std::size_t, 65> {});
    fields(std::integral_constant<std::size_t, 200> {});
}
} // namespace

void enumerate(mc::Run &r)
{
    space<char>(r, true);
    space<char16_t>(r, false);
    dozen<char>(r);
    dozen<char16_t>(r);
    if (r.thorough()) dozen<wchar_t>(r);
    numbers<char>(r);
    numbers<char8_t>(r);
    numbers<wchar_t>(r);
    numbers<char16_t>(r);
    numbers<char32_t>(r);
    if (r.thorough())
    {
        space<char8_t>(r, false);
        space<char32_t>(r, false);
        space<wchar_t>(r, false);
    }
}

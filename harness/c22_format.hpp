// C22: the rendering of every option.  Exhaustive product of (fill/alignment, sign, alternate form, zero
// padding, width, precision, locale flag, presentation) x argument types x boundary values x character
// types of the format string, compared with an independent reference written from the documented
// meaning (integer digits by hand, floating point through the C library's printf).
#include "fly/types/string/format.hpp"
#include "fly/types/string/string.hpp"

#include "gen.hpp"
#include "mc_enum.hpp"

#include <cmath>
#include <cfloat>
#include <limits>
#include <list>

struct C22Int { long long v; };
struct C22Float { double v; };
struct C22Bool { bool v; };
struct C22Text { int v; };      // renders as "t<v>" in the type of the format string
struct C22Own { int v; };       // a formatter of its own, with one option

#define C22_DERIVED(T, X)                                                                                                        \
    template <typename C>                                                                                                        \
    struct fly::string::Formatter<T, C> : public fly::string::Formatter<X, C>                                                    \
    {                                                                                                                            \
        template <typename Context>                                                                                              \
        void format(T const &p, Context &context) { fly::string::Formatter<X, C>::format(p.v, context); }                        \
    };
C22_DERIVED(C22Int, long long)
C22_DERIVED(C22Float, double)
C22_DERIVED(C22Bool, bool)
template <typename C>
struct fly::string::Formatter<C22Text, C> : public fly::string::Formatter<std::basic_string<C>, C>
{
    template <typename Context>
    void format(C22Text const &p, Context &context)
    {
        fly::string::Formatter<std::basic_string<C>, C>::format(gen::W<C>("t" + std::to_string(p.v)), context);
    }
};
template <typename C>
struct fly::string::Formatter<C22Own, C>
{
    bool m_option {false};
    template <typename ParseContext>
    constexpr void parse(ParseContext &context)
    {
        if (context.lexer().consume_if(FLY_CHR(C, 'o'))) m_option = true;
        if (!context.lexer().consume_if(FLY_CHR(C, '}'))) context.on_error("own error");
    }
    template <typename Context>
    void format(C22Own const &p, Context &context) { fly::string::format_to(context.out(), FLY_ARR(C, "{}{:03}"), m_option ? 'o' : '-', p.v); }
};

namespace {

[[gnu::format(printf, 2, 3)]] void section(mc::Run &r, char const *fmt, ...)
{
    char b[120];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    r.section(b);
}

// ---------------------------------------------------------------------------------------- rendering
// Format strings are padded with '~' up to a fixed length, so that one instantiation serves them all.
constexpr std::size_t kLen = 56;

template <typename C, typename... Args>
std::basic_string<C> render_raw(std::basic_string<C> const &f, Args const &...args)
{
    C arr[kLen + 1];
    for (std::size_t i = 0; i < kLen; ++i) arr[i] = i < f.size() ? f[i] : static_cast<C>('~');
    arr[kLen] = 0;
    fly::string::FormatString<C, Args const &...> fs(arr);
    return fly::string::format(std::move(fs), args...);
}
template <typename C, typename... Args>
std::basic_string<C> render(std::string const &f, Args const &...args)
{
    return render_raw<C>(gen::W<C>(f), args...);
}
template <typename C>
std::string show(std::basic_string<C> const &s)
{
    std::string r;
    for (auto c : s)
    {
        auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<C>>(c));
        char b[16];
        if (u >= 32 && u < 127) r += static_cast<char>(u);
        else { snprintf(b, sizeof b, "\\x%x", u); r += b; }
    }
    while (r.size() > 3 && r.back() == '~') r.pop_back();
    return r;
}
template <typename C>
bool same(std::basic_string<C> const &got, std::string const &want, std::size_t flen)
{
    std::size_t const tail = kLen - flen;
    if (got.size() != want.size() + tail) return false;
    for (std::size_t i = 0; i < got.size(); ++i)
        if (got[i] != static_cast<C>(i < want.size() ? static_cast<unsigned char>(want[i]) : '~')) return false;
    return true;
}

// ---------------------------------------------------------------------------------------- reference
struct Spec
{
    char fill = 0, align = 0, sign = 0;
    bool alt = false, zero = false, loc = false;
    long width = 0;      // 0: none
    long prec = -1;      // -1: none
    char type = 0;
};
std::string pad(Spec const &s, std::string const &body, char deflt)
{
    std::size_t const w = s.width > 0 ? static_cast<std::size_t>(s.width) : 0;
    if (body.size() >= w) return body;
    std::size_t const n = w - body.size();
    char const f = s.fill ? s.fill : ' ';
    switch (s.align ? s.align : deflt)
    {
        case '<': return body + std::string(n, f);
        case '>': return std::string(n, f) + body;
        default: return std::string(n / 2, f) + body + std::string(n - n / 2, f);
    }
}
// sign/prefix, then zeros, then digits
std::string number(Spec const &s, bool neg, std::string prefix, std::string const &digits, bool finite)
{
    std::string head;
    if (neg) head = "-";
    else if (s.sign == '+') head = "+";
    else if (s.sign == ' ') head = " ";
    head += prefix;
    if (s.zero && !s.align && finite)
    {
        std::size_t const have = head.size() + digits.size();
        std::size_t const w = s.width > 0 ? static_cast<std::size_t>(s.width) : 0;
        return head + std::string(w > have ? w - have : 0, '0') + digits;
    }
    return pad(s, head + digits, '>');
}
std::string ref_int(Spec const &s, bool neg, unsigned __int128 mag, char type)
{
    unsigned base = 10;
    std::string prefix;
    bool upper = false;
    switch (type)
    {
        case 'b': base = 2; prefix = "0b"; break;
        case 'B': base = 2; prefix = "0B"; break;
        case 'o': base = 8; prefix = "0"; break;
        case 'x': base = 16; prefix = "0x"; break;
        case 'X': base = 16; prefix = "0X"; upper = true; break;
        default: break;
    }
    std::string d;
    do
    {
        d.insert(d.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[static_cast<unsigned>(mag % base)]);
        mag /= base;
    } while (mag != 0);
    return number(s, neg, s.alt ? prefix : "", d, true);
}
// A character presentation: dropped if the value is no character of the format string's type.
template <typename C>
std::string ref_chr(Spec const &s, bool neg, unsigned __int128 mag)
{
    if (neg || mag > static_cast<unsigned __int128>(std::numeric_limits<C>::max())) return {};
    return pad(s, std::string(1, static_cast<char>(mag)), '>');
}
template <typename F>
std::string ref_float(Spec const &s, F v)
{
    bool const neg = std::signbit(v);
    F const a = std::fabs(v);
    char type = s.type ? s.type : 'g';
    char lower = static_cast<char>(type | 0x20);
    std::string d;
    bool const finite = std::isfinite(a);
    if (!finite) d = std::isnan(a) ? "nan" : "inf";
    else
    {
        std::string f = "%";
        if (s.alt) f += "#";
        f += ".*";
        if constexpr (std::is_same_v<F, long double>) f += "L";
        f += lower;
        int const p = s.prec < 0 ? 6 : static_cast<int>(s.prec);
        char buf[6000];
        if (lower == 'a')
        {
            // one leading hexadecimal digit 1 (binary64 rendering); no 0x prefix in this library
            if (s.alt) snprintf(buf, sizeof buf, "%#.*a", p, static_cast<double>(a));
            else snprintf(buf, sizeof buf, "%.*a", p, static_cast<double>(a));
            d = buf + 2;
        }
        else
        {
            int q = p;
            if (lower == 'g' && s.alt)
            {
                // %#g by its definition (glibc's own drops zeroes when rounding carries): the exponent of
                // the e-style rendering decides the style
                if (q == 0) q = 1;
                std::string e = f;
                e.back() = 'e';
                snprintf(buf, sizeof buf, e.c_str(), q - 1, a);
                int const x = atoi(std::strchr(buf, 'e') + 1);
                bool const fixed = q > x && x >= -4;
                f.back() = fixed ? 'f' : 'e';
                q = fixed ? q - 1 - x : q - 1;
            }
            snprintf(buf, sizeof buf, f.c_str(), q, a);
            d = buf;
        }
    }
    if (type < 'a')
        for (auto &c : d) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c);
    return number(s, neg, "", d, finite);
}
std::string ref_str(Spec s, std::string const &v)
{
    return pad(s, s.prec >= 0 && static_cast<std::size_t>(s.prec) < v.size() ? v.substr(0, s.prec) : v, '<');
}

// ---------------------------------------------------------------------------------------- options
struct Opts
{
    std::vector<std::pair<char, char>> aligns;   // fill, align
    std::vector<char> signs;
    std::vector<bool> alts, zeros, locs;
    std::vector<long> widths;
    std::vector<long> precs;
    std::vector<char> types;
};
// nested: 0 none, 1 automatic numbering, 2 explicit positions
std::string text(Spec const &s, bool nestw, bool nestp, bool pos)
{
    std::string f = pos ? "{0:" : "{:";
    if (s.align) { if (s.fill) f += s.fill; f += s.align; }
    if (s.sign) f += s.sign;
    if (s.alt) f += '#';
    if (s.zero) f += '0';
    if (nestw) f += pos ? "{2}" : "{}";
    else if (s.width > 0) f += std::to_string(s.width);
    if (nestp) f += pos ? ".{1}" : ".{}";
    else if (s.prec >= 0) f += "." + std::to_string(s.prec);
    if (s.loc) f += 'L';
    if (s.type) f += s.type;
    return f + "}";
}
template <typename F>
void each(Opts const &o, F &&f)
{
    for (auto [fill, align] : o.aligns) for (char sign : o.signs) for (bool alt : o.alts) for (bool zero : o.zeros)
        for (bool loc : o.locs) for (long w : o.widths) for (long p : o.precs) for (char t : o.types)
        {
            Spec s;
            s.fill = align ? fill : 0; s.align = align; s.sign = sign; s.alt = alt; s.zero = zero; s.loc = loc;
            s.width = w; s.prec = p; s.type = t;
            f(s);
        }
}
std::vector<std::pair<char, char>> const kAligns {{0, 0}, {0, '<'}, {0, '>'}, {0, '^'}, {'*', '<'}, {'0', '>'}, {'-', '^'}, {':', '<'}};

bool nontrivial(Spec const &s)
{
    return (s.width > 0) + (s.prec >= 0) + (s.sign != 0) + s.alt + s.zero + (s.align != 0) >= 2;
}

// Run one value under one specification in all ways of writing it (literal numbers, nested automatic,
// nested explicit) and compare.  `want` is the reference.
template <typename C, typename T>
void one(mc::Run &r, char const *tname, std::string const &vname, Spec const &s, T const &value, std::string const &want)
{
    std::string const f = text(s, false, false, false);
    auto const got = render<C>(f, value);
    r.evaluations(1);
    if (!same(got, want, f.size()))
        r.fail("C22/format", "%s: format(\"%s\", %s %s) = \"%s\", documented: \"%s\"", gen::cname<C>(), f.c_str(), tname, vname.c_str(),
               show(got).c_str(), want.c_str());
}
template <typename C, typename T, typename N>
void nested(mc::Run &r, char const *tname, std::string const &vname, Spec const &s, T const &value, std::string const &want, N w, N p, bool nestp)
{
    // automatic numbering: value, width, precision
    {
        std::string const f = text(s, true, nestp, false);
        auto const got = nestp ? render<C>(f, value, w, p) : render<C>(f, value, w);
        r.evaluations(1);
        if (!same(got, want, f.size()))
            r.fail("C22/nested", "%s: format(\"%s\", %s %s, %lld, %lld) = \"%s\", documented: \"%s\"", gen::cname<C>(), f.c_str(), tname,
                   vname.c_str(), static_cast<long long>(w), static_cast<long long>(p), show(got).c_str(), want.c_str());
    }
    {
        std::string const f = text(s, true, nestp, true);
        auto const got = render<C>(f, value, p, w);
        r.evaluations(1);
        if (!same(got, want, f.size()))
            r.fail("C22/nested position", "%s: format(\"%s\", %s %s, %lld, %lld) = \"%s\", documented: \"%s\"", gen::cname<C>(), f.c_str(), tname,
                   vname.c_str(), static_cast<long long>(p), static_cast<long long>(w), show(got).c_str(), want.c_str());
    }
}

// ---------------------------------------------------------------------------------------- integers
template <typename T>
std::vector<T> int_values()
{
    using L = std::numeric_limits<T>;
    std::vector<T> v {L::min(), static_cast<T>(L::min() + 1), 0, 1, 7, 8, 9, 10, 'A', 99, 100, static_cast<T>(L::max() - 1), L::max()};
    if (std::is_signed_v<T>) { v.push_back(static_cast<T>(-1)); v.push_back(static_cast<T>(-9)); v.push_back(static_cast<T>(-10)); }
    if constexpr (sizeof(T) > 1) { v.push_back(static_cast<T>(255)); v.push_back(static_cast<T>(256)); v.push_back(static_cast<T>(999)); v.push_back(1000); }
    return v;
}
template <typename C, typename T>
void integers(mc::Run &r, char const *tname, bool charlike)
{
    bool const full = r.thorough() || std::is_same_v<C, char>;
    Opts o;
    o.aligns = kAligns;
    o.signs = {0, '+', '-', ' '};
    o.alts = {false, true};
    o.zeros = {false, true};
    o.locs = {false};
    if (full) o.widths = {0, 1, 2, 3, 4, 7, 12, 21, 70};
    else o.widths = {0, 2, 7, 21};
    o.precs = {-1};
    o.types = {0, 'd', 'b', 'B', 'o', 'x', 'X', 'c'};
    section(r, "integers %s in %s", tname, gen::cname<C>());
    for (bool loc : {false, true})
        for (char t : o.types)
        {
            if (charlike && loc) continue;
            Opts p = o;
            p.types = {t};
            p.locs = {loc};
            bool const chr = t == 'c' || (t == 0 && charlike);
            bool const dec = t == 'd' || t == 0;
            if (chr) { p.signs = {0}; p.alts = {false}; p.zeros = {false}; }
            if (dec) p.alts = {false};
            for (T value : int_values<T>())
            {
                if (!r.take()) continue;
                bool neg = false;
                unsigned __int128 mag = 0;
                if constexpr (std::is_signed_v<T>)
                {
                    neg = value < 0;
                    mag = neg ? static_cast<unsigned __int128>(-static_cast<__int128>(value)) : static_cast<unsigned __int128>(value);
                }
                else mag = value;
                std::string const vname = std::string(neg ? "-" : "") + std::to_string(static_cast<unsigned long long>(mag));
                each(p, [&](Spec const &s) {
                    if (nontrivial(s)) r.nontrivial();
                    std::string want;
                    if (chr)
                    {
                        // a character of the very type of the format string is copied, whatever its value
                        if constexpr (std::is_same_v<T, C>) want = pad(s, std::string(1, static_cast<char>(value)), '>');
                        else want = ref_chr<C>(s, neg, mag);
                        if (mag > 255 && !want.empty()) return;     // compared as single bytes only; see `wide`
                        if (std::is_same_v<T, C> && (neg || mag > 127) && sizeof(C) > 1) return;
                    }
                    else want = ref_int(s, neg, mag, t);
                    one<C>(r, tname, vname, s, value, want);
                });
            }
        }
    // widths given by an argument: negative and zero mean none
    Opts n = o;
    n.widths = {-3, 0, 1, 2, 5, 22};
    for (char t : o.types)
        for (T value : int_values<T>())
        {
            bool const chr = t == 'c' || (t == 0 && charlike);
            if (chr && (value < 0 || value > 127)) continue;
            if (!r.take()) continue;
            Opts p = n;
            p.types = {t};
            if (chr) { p.signs = {0}; p.alts = {false}; p.zeros = {false}; }
            if (t == 'd' || t == 0) p.alts = {false};
            bool neg = false;
            unsigned __int128 mag = 0;
            if constexpr (std::is_signed_v<T>)
            {
                neg = value < 0;
                mag = neg ? static_cast<unsigned __int128>(-static_cast<__int128>(value)) : static_cast<unsigned __int128>(value);
            }
            else mag = value;
            std::string const vname = std::string(neg ? "-" : "") + std::to_string(static_cast<unsigned long long>(mag));
            each(p, [&](Spec const &s) {
                r.nontrivial();
                std::string const want = chr ? ref_chr<C>(s, neg, mag) : ref_int(s, neg, mag, t);
                nested<C>(r, tname, vname, s, value, want, static_cast<int>(s.width), 3, false);
                if (full)
                {
                    nested<C>(r, tname, vname, s, value, want, static_cast<std::int64_t>(s.width), std::int64_t {3}, false);
                    nested<C>(r, tname, vname, s, value, want, static_cast<signed char>(s.width), static_cast<signed char>(3), false);
                    if (s.width >= 0)
                        nested<C>(r, tname, vname, s, value, want, static_cast<std::uint64_t>(s.width), std::uint64_t {3}, false);
                }
            });
        }
}

// ---------------------------------------------------------------------------------------- floats
template <typename F>
std::vector<F> float_values()
{
    using L = std::numeric_limits<F>;
    std::vector<F> v {F(0), -F(0), F(1), F(-1), F(0.1), F(0.5), F(1.5), F(2.5), F(9.5), F(9.9999995), F(99.95), F(-3.14159265358979), F(1e-3), F(1e-4), F(1.5e-5),
                      F(123456), F(1234567), F(999999.5), F(1e10), F(1e22), L::max(), L::lowest(), L::min(), L::epsilon(), L::infinity(), -L::infinity(),
                      L::quiet_NaN(), F(0.3L), F(255), F(1) / F(3)};
    return v;
}
template <typename C, typename F>
void floats(mc::Run &r, char const *tname)
{
    bool const full = r.thorough() || (std::is_same_v<C, char> && std::is_same_v<F, double>);
    Opts o;
    o.aligns = full ? kAligns : std::vector<std::pair<char, char>> {{0, 0}, {'*', '<'}, {0, '>'}, {'-', '^'}};
    o.signs = {0, '+', '-', ' '};
    o.alts = {false, true};
    o.zeros = {false, true};
    o.locs = {false, true};
    if (full) o.widths = {0, 1, 4, 9, 14, 30, 400};
    else o.widths = {0, 9, 30};
    if (full) o.precs = {-1, 0, 1, 2, 3, 5, 6, 7, 9, 17, 40, 120};
    else o.precs = {-1, 0, 1, 6, 17, 60};
    section(r, "floating point %s in %s", tname, gen::cname<C>());
    auto const values = float_values<F>();
    for (std::size_t i = 0; i < values.size(); ++i)
        for (char t : {'\0', 'a', 'A', 'e', 'E', 'f', 'F', 'g', 'G'})
            for (long prec : o.precs)
            {
                if (!r.take()) continue;
                F const v = values[i];
                if ((t | 0x20) == 'a' && std::isfinite(v) && std::is_same_v<F, long double>) continue;   // leading digit is not specified
                if ((t | 0x20) == 'a' && std::isfinite(v) && v != 0 && std::fabs(v) < static_cast<F>(DBL_MIN)) continue;
                char vname[64];
                snprintf(vname, sizeof vname, "%.21Lg", static_cast<long double>(v));
                Opts p = o;
                p.types = {t};
                p.precs = {prec};
                each(p, [&](Spec const &s) {
                    if (nontrivial(s)) r.nontrivial();
                    one<C>(r, tname, vname, s, v, ref_float<F>(s, v));
                });
            }
    section(r, "floating point %s in %s, nested", tname, gen::cname<C>());
    for (std::size_t i = 0; i < values.size(); ++i)
        for (char t : {'\0', 'e', 'f', 'G'})
        {
            if (!r.take()) continue;
            F const v = values[i];
            char vname[64];
            snprintf(vname, sizeof vname, "%.21Lg", static_cast<long double>(v));
            Opts p = o;
            p.types = {t};
            p.locs = {false};
            p.widths = {-1, 0, 3, 14};
            p.precs = {-5, 0, 2, 30};
            each(p, [&](Spec s) {
                r.nontrivial();
                Spec ref = s;
                if (ref.prec < 0) ref.prec = -1;
                std::string const want = ref_float<F>(ref, v);
                nested<C>(r, tname, vname, s, v, want, static_cast<int>(s.width), static_cast<int>(s.prec), true);
                nested<C>(r, tname, vname, s, v, want, static_cast<long long>(s.width), static_cast<long long>(s.prec), true);
            });
        }
}

// ---------------------------------------------------------------------------------------- strings, booleans, pointers
template <typename C, typename S>
void strings_as(mc::Run &r, char const *tname, S const &value, std::string const &plain)
{
    Opts o;
    o.aligns = kAligns;
    o.signs = {0};
    o.alts = {false};
    o.zeros = {false};
    o.locs = {false};
    o.widths = {0, 1, 2, 3, 4, 5, 9};
    o.precs = {-1, 0, 1, 2, 3, 4, 5};
    o.types = {0, 's'};
    each(o, [&](Spec const &s) {
        if (!r.take()) return;
        if (nontrivial(s)) r.nontrivial();
        one<C>(r, tname, "\"" + plain + "\"", s, value, ref_str(s, plain));
        if (s.align) { Spec z = s; z.zero = true; one<C>(r, tname, "\"" + plain + "\"", z, value, ref_str(s, plain)); }   // "0" is ignored
    });
    o.widths = {-2, 0, 1, 3, 6};
    o.precs = {-2, 0, 1, 3, 6};
    each(o, [&](Spec const &s) {
        if (!r.take()) return;
        r.nontrivial();
        Spec ref = s;
        if (ref.prec < 0) ref.prec = -1;
        nested<C>(r, tname, "\"" + plain + "\"", s, value, ref_str(ref, plain), static_cast<int>(s.width), static_cast<int>(s.prec), true);
        nested<C>(r, tname, "\"" + plain + "\"", s, value, ref_str(ref, plain), static_cast<short>(s.width), static_cast<short>(s.prec), true);
    });
}
template <typename C, typename D>
void strings_of(mc::Run &r)
{
    section(r, "strings of %s in %s", gen::cname<D>(), gen::cname<C>());
    for (std::string const plain : {"", "a", "ab", "abcd", "{x}"})
    {
        std::basic_string<D> const s = gen::W<D>(plain);
        std::basic_string_view<D> const v = s;
        D const *const p = s.c_str();
        std::basic_string<D> copy = s;
        D *const q = copy.data();
        strings_as<C>(r, "string", s, plain);
        strings_as<C>(r, "view", v, plain);
        strings_as<C>(r, "pointer", p, plain);
        strings_as<C>(r, "mutable pointer", q, plain);
    }
    D const four[5] = {'w', 'x', 'y', 'z', 0};
    strings_as<C>(r, "array", four, "wxyz");
    D const open[3] = {'p', 'q', 'r'};
    strings_as<C>(r, "open array", open, "pqr");
    // a view into a longer text
    std::basic_string<D> const longer = gen::W<D>("0123456");
    strings_as<C>(r, "inner view", std::basic_string_view<D>(longer).substr(2, 3), "234");
}
template <typename C>
void bools(mc::Run &r)
{
    section(r, "booleans in %s", gen::cname<C>());
    for (bool v : {false, true})
    {
        Opts o;
        o.aligns = kAligns;
        o.signs = {0, '+', '-', ' '};
        o.alts = {false, true};
        o.zeros = {false, true};
        o.locs = {false, true};
        o.widths = {0, 1, 3, 4, 5, 8};
        o.precs = {-1};
        o.types = {0, 's', 'c', 'b', 'B', 'o', 'd', 'x', 'X'};
        each(o, [&](Spec const &s) {
            bool const str = s.type == 0 || s.type == 's', chr = s.type == 'c';
            if ((str || chr) && (s.sign || s.alt || (s.zero && !s.align))) return;
            if (s.type == 'd' && s.alt) return;
            if (!r.take()) return;
            if (nontrivial(s)) r.nontrivial();
            Spec ref = s;
            if (str || chr) ref.zero = false;
            std::string const want = str ? ref_str(ref, v ? "true" : "false") : chr ? ref_chr<C>(ref, false, v) : ref_int(ref, false, v, s.type);
            one<C>(r, "bool", v ? "true" : "false", s, v, want);
            nested<C>(r, "bool", v ? "true" : "false", s, v, want, static_cast<int>(s.width), 0, false);
        });
    }
}
template <typename C>
void pointers(mc::Run &r)
{
    section(r, "pointers in %s", gen::cname<C>());
    Opts o;
    o.aligns = kAligns;
    o.signs = {0};
    o.alts = {false};
    o.zeros = {false};
    o.locs = {false};
    o.widths = {0, 1, 3, 4, 12, 25};
    o.precs = {-1};
    o.types = {0, 'p'};
    for (std::uintptr_t a : {std::uintptr_t {0}, std::uintptr_t {1}, std::uintptr_t {0xab}, std::uintptr_t {0x7ffdcafe1234}, ~std::uintptr_t {0}})
        each(o, [&](Spec const &s) {
            if (!r.take()) return;
            if (nontrivial(s)) r.nontrivial();
            Spec ref = s;
            ref.alt = true;
            std::string const want = ref_int(ref, false, a, 'x');
            char name[32];
            snprintf(name, sizeof name, "%#zx", a);
            one<C>(r, "void*", name, s, reinterpret_cast<void *>(a), want);
            one<C>(r, "void const*", name, s, reinterpret_cast<void const *>(a), want);
            one<C>(r, "int const*", name, s, reinterpret_cast<int const *>(a), want);
            one<C>(r, "double*", name, s, reinterpret_cast<double *>(a), want);
            if (a == 0) one<C>(r, "nullptr", name, s, nullptr, want);
            nested<C>(r, "void*", name, s, reinterpret_cast<void *>(a), want, static_cast<int>(s.width), 0, false);
        });
}

// ---------------------------------------------------------------------------------------- characters beyond one byte, transcoding
template <typename C, typename D>
void transcoding(mc::Run &r)
{
    section(r, "texts of %s in %s", gen::cname<D>(), gen::cname<C>());
    // code points around every boundary of the encodings
    std::vector<std::uint32_t> const points {'a', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};
    auto encode = []<typename E>(std::uint32_t u, E) {
        std::basic_string<E> s;
        if constexpr (sizeof(E) == 4) s += static_cast<E>(u);
        else if constexpr (sizeof(E) == 2)
        {
            if (u > 0xffff) { s += static_cast<E>(0xd800 + ((u - 0x10000) >> 10)); s += static_cast<E>(0xdc00 + ((u - 0x10000) & 0x3ff)); }
            else s += static_cast<E>(u);
        }
        else
        {
            if (u < 0x80) s += static_cast<E>(u);
            else if (u < 0x800) { s += static_cast<E>(0xc0 | u >> 6); s += static_cast<E>(0x80 | (u & 63)); }
            else if (u < 0x10000) { s += static_cast<E>(0xe0 | u >> 12); s += static_cast<E>(0x80 | ((u >> 6) & 63)); s += static_cast<E>(0x80 | (u & 63)); }
            else { s += static_cast<E>(0xf0 | u >> 18); s += static_cast<E>(0x80 | ((u >> 12) & 63)); s += static_cast<E>(0x80 | ((u >> 6) & 63)); s += static_cast<E>(0x80 | (u & 63)); }
        }
        return s;
    };
    for (auto a : points)
        for (auto b : points)
            for (char const *f : {"{}", "{:s}", "<{}>", "{0}{0}"})
            {
                if (!r.take()) continue;
                r.nontrivial();
                std::basic_string<D> const arg = encode(a, D {}) + encode(b, D {});
                std::basic_string<C> const one = encode(a, C {}) + encode(b, C {});
                std::basic_string<C> want;
                for (char const *p = f; *p;)
                {
                    if (*p == '{') { want += one; while (*p != '}') ++p; ++p; }
                    else want += static_cast<C>(*p++);
                }
                auto got = render<C>(f, arg);
                got.resize(got.size() - (kLen - std::string_view(f).size()));
                r.evaluations(1);
                if (got != want)
                    r.fail("C22/transcoding", "format(%s \"%s\", %s U+%X U+%X) = \"%s\", expected \"%s\"", gen::cname<C>(), f, gen::cname<D>(), a, b,
                           show(got).c_str(), show(want).c_str());
            }
    // ill-formed text of another encoding: the parameter is dropped, the rest of the text stays
    if constexpr (!std::is_same_v<C, D>)
    {
        std::basic_string<D> bad;
        if constexpr (sizeof(D) == 1) bad += static_cast<D>(0xc3);
        else if constexpr (sizeof(D) == 2) bad += static_cast<D>(0xd800);
        else bad += static_cast<D>(0xd800);
        for (char const *before : {"", "ok"})
            for (char const *after : {"", "ok"})
            {
                if (!r.take()) continue;
                r.nontrivial();
                std::basic_string<D> const arg = gen::W<D>(before) + bad + gen::W<D>(after);
                std::string const f = "[{}]({})";
                auto const got = render<C>(f, arg, 7);
                r.evaluations(1);
                if (!same(got, "[](7)", f.size()))
                    r.fail("C22/ill-formed text", "%s: format(\"%s\", ill-formed %s text, 7) = \"%s\", expected \"[](7)\"", gen::cname<C>(), f.c_str(),
                           gen::cname<D>(), show(got).c_str());
            }
    }
}
// Single characters that need more than one byte of comparison.
template <typename C, typename T>
void wide(mc::Run &r, char const *tname)
{
    section(r, "characters of %s in %s", tname, gen::cname<C>());
    for (std::uint64_t u : {0ull, 1ull, 0x41ull, 0x7eull, 0x7full, 0x80ull, 0xffull, 0x100ull, 0x7ffull, 0xfffeull, 0xffffull, 0x10000ull, 0x1f600ull, 0x10ffffull, 0x7fffffffull, 0xffffffffull})
        for (char const *f : {"{}", "{:c}", "{:>3c}", "{:*<2c}", "{:^4c}"})
        {
            T const v = static_cast<T>(u);
            bool const charlike = std::is_same_v<T, char> || std::is_same_v<T, char8_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> ||
                std::is_same_v<T, wchar_t>;
            if (!charlike && std::string_view(f) == "{}") continue;
            if (!r.take()) continue;
            r.nontrivial();
            bool drop = false;
            if constexpr (!std::is_same_v<T, C>)
            {
                if constexpr (std::is_signed_v<T>) drop = v < 0;
                if (!drop) drop = static_cast<std::uint64_t>(v) > static_cast<std::uint64_t>(std::numeric_limits<C>::max());
            }
            std::basic_string<C> want;
            if (!drop)
            {
                C const c = static_cast<C>(v);
                std::string_view const k = f;
                C const sp = ' ', st = '*';
                if (k == "{:>3c}") want = {sp, sp, c};
                else if (k == "{:*<2c}") want = {c, st};
                else if (k == "{:^4c}") want = {sp, c, sp, sp};
                else want = {c};
            }
            auto got = render<C>(f, v);
            r.evaluations(1);
            got.resize(got.size() - (kLen - std::string_view(f).size()));
            if (got != want)
                r.fail("C22/character", "format(%s \"%s\", %s 0x%llx) = \"%s\", expected \"%s\"", gen::cname<C>(), f, tname, static_cast<unsigned long long>(u),
                       show(got).c_str(), show(want).c_str());
        }
}

// ---------------------------------------------------------------------------------------- literals, order, positions
template <typename C>
void texts(mc::Run &r)
{
    section(r, "literal text and argument order in %s", gen::cname<C>());
    // all sequences of pieces
    struct Piece { char const *f; int arg; char const *lit; };
    static Piece const automatic[] = {{"a", -1, "a"}, {"{{", -1, "{"}, {"}}", -1, "}"}, {":", -1, ":"}, {"{}", 0, ""}, {"{:d}", 0, ""}, {"{:>3}", 3, ""}};
    static char const *const vals[] = {"1", "22", "333", "4444", "55555"};
    std::string alpha = "0123456";
    gen::strings(alpha, 0, r.thorough() ? 7 : 6).each([&](std::string const &seq) {
        int fields = 0;
        std::string f, want;
        for (char c : seq)
        {
            Piece const &p = automatic[c - '0'];
            f += p.f;
            if (p.arg >= 0)
            {
                if (fields >= 5) return;
                std::string v = vals[fields++];
                if (p.arg == 3 && v.size() < 3) v = std::string(3 - v.size(), ' ') + v;
                want += v;
            }
            else want += p.lit;
        }
        if (!r.take()) return;
        if (fields > 1) r.nontrivial();
        auto const got = render<C>(f, 1, 22ull, static_cast<short>(333), 4444u, 55555l);
        r.evaluations(1);
        if (!same(got, want, f.size()))
            r.fail("C22/order", "%s: format(\"%s\", 1, 22, 333, 4444, 55555) = \"%s\", expected \"%s\"", gen::cname<C>(), f.c_str(), show(got).c_str(), want.c_str());
    });
    section(r, "explicit positions in %s", gen::cname<C>());
    gen::strings(std::string("01234-"), 1, r.thorough() ? 6 : 5).each([&](std::string const &seq) {
        std::string f, want;
        for (char c : seq)
        {
            if (c == '-') { f += "-"; want += "-"; }
            else { f += std::string("{") + c + "}"; want += vals[c - '0']; }
        }
        if (!r.take()) return;
        r.nontrivial();
        auto const got = render<C>(f, 1, gen::W<C>("22"), 333.0, gen::W<char16_t>("4444"), 55555l);
        r.evaluations(1);
        if (!same(got, want, f.size()))
            r.fail("C22/positions", "%s: format(\"%s\", 1, \"22\", 333.0, u\"4444\", 55555) = \"%s\", expected \"%s\"", gen::cname<C>(), f.c_str(), show(got).c_str(), want.c_str());
    });
    // the field's own options do not leak into the next field
    section(r, "independent fields in %s", gen::cname<C>());
    char const *opts[] = {"{}", "{:+}", "{:#x}", "{:05}", "{:*^7}", "{:<4}", "{:X}", "{:c}", "{: }"};
    auto ref = [](int k, int v) {
        Spec s;
        char t = 0;
        switch (k)
        {
            case 1: s.sign = '+'; break;
            case 2: s.alt = true; t = 'x'; break;
            case 3: s.zero = true; s.width = 5; break;
            case 4: s.fill = '*'; s.align = '^'; s.width = 7; break;
            case 5: s.align = '<'; s.width = 4; break;
            case 6: t = 'X'; break;
            case 7: return std::string(1, static_cast<char>(v));
            case 8: s.sign = ' '; break;
            default: break;
        }
        return ref_int(s, false, v, t);
    };
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c)
    {
        if (!r.take()) continue;
        r.nontrivial();
        std::string const f = std::string(opts[a]) + opts[b] + "|" + opts[c];
        std::string const want = ref(a, 77) + ref(b, 42) + "|" + ref(c, 123);
        auto const got = render<C>(f, 77, 42, 123);
        r.evaluations(1);
        if (!same(got, want, f.size()))
            r.fail("C22/fields", "%s: format(\"%s\", 77, 42, 123) = \"%s\", expected \"%s\"", gen::cname<C>(), f.c_str(), show(got).c_str(), want.c_str());
    }
    // format_to appends to whatever is there; the output iterator may be of any kind
    section(r, "format_to in %s", gen::cname<C>());
    for (char const *pre : {"", "pre"})
    {
        if (!r.take()) continue;
        std::basic_string<C> s = gen::W<C>(pre);
        std::list<C> l(s.begin(), s.end());
        C const f[] = {'<', '{', '}', ':', '{', ':', '.', '2', 'f', '}', '>', 0};
        {
            fly::string::FormatString<C, int, double> fs(f);
            fly::string::format_to(std::back_inserter(s), std::move(fs), 5, 1.0);
        }
        {
            fly::string::FormatString<C, int, double> fs(f);
            fly::string::format_to(std::back_inserter(l), std::move(fs), 5, 1.0);
        }
        std::basic_string<C> const want = gen::W<C>(std::string(pre) + "<5:1.00>");
        r.evaluations(2);
        if (s != want || std::basic_string<C>(l.begin(), l.end()) != want)
            r.fail("C22/format_to", "%s: format_to after \"%s\" gives \"%s\"", gen::cname<C>(), pre, show(s).c_str());
    }
}

// Many arguments, large numbers in the options, long texts inside and outside of the fields.
template <typename C, std::size_t N, typename... Args>
std::basic_string<C> render_long(std::string const &f, Args const &...args)
{
    auto arr = std::make_unique<C[]>(N + 1);
    for (std::size_t i = 0; i < N; ++i) arr[i] = static_cast<C>(i < f.size() ? f[i] : '~');
    fly::string::FormatString<C, Args const &...> fs(*reinterpret_cast<C const(*)[N + 1]>(arr.get()));
    return fly::string::format(std::move(fs), args...);
}
template <typename C>
void large(mc::Run &r)
{
    section(r, "twelve arguments in %s", gen::cname<C>());
    static char const *const vals[] = {"1", "22", "3.5", "four", "true", "6", "7", "8", "x", "9.25", "11", "12"};
    static int const ints[] = {0, 1, 5, 6, 7, 10, 11};
    auto twelve = [&](std::string const &f) {
        return render<C>(f, 1, 22ull, 3.5, gen::W<C>("four"), true, static_cast<short>(6), static_cast<signed char>(7), 8l, static_cast<C>('x'), 9.25f, static_cast<unsigned char>(11), 12u);
    };
    auto check = [&](std::string const &f, std::string const &want) {
        if (!r.take()) return;
        r.nontrivial();
        auto const got = twelve(f);
        if (!same(got, want, f.size())) r.fail("C22/many arguments", "%s: format(\"%s\", 1, 22, 3.5, \"four\", true, 6, 7, 8, 'x', 9.25, 11, 12) = \"%s\", expected \"%s\"", gen::cname<C>(), f.c_str(), show(got).c_str(), want.c_str());
    };
    for (int a = 0; a < 12; ++a)
        for (int b = 0; b < 12; ++b)
        {
            auto const A = std::to_string(a), B = std::to_string(b);
            check("{" + A + "}|{" + B + "}", std::string(vals[a]) + "|" + vals[b]);
            for (int w : ints)
            {
                if (b != 0) continue;
                std::size_t const width = std::stoul(vals[w]), n = std::string_view(vals[a]).size();
                std::string const fill(width > n ? width - n : 0, ' ');
                check("{" + A + ":>{" + std::to_string(w) + "}}|", fill + vals[a] + "|");
                check("{" + A + ":<{" + std::to_string(w) + "}}|", vals[a] + fill + "|");
                if (a == 3) check("{3:.{" + std::to_string(w) + "}}|", std::string(vals[a]).substr(0, width) + "|");
            }
        }
    std::string every, all;
    for (int a = 0; a < 12; ++a) { every += "{}"; all += vals[a]; check(every, all); check(every + "{{" , all + "{"); }

    section(r, "large numbers in %s", gen::cname<C>());
    bool const T = r.thorough();
    for (std::size_t n : gen::sizes(T ? 300 : 130, T ? 70000 : 9000))
    {
        if (!r.take()) continue;
        r.nontrivial();
        std::string const N = std::to_string(n);
        std::string const text(n, 'q');
        auto const arg = gen::W<C>(text), more = gen::W<C>(text + "rst");
        auto pad = [&](std::string const &v, char align, char fill) {
            std::size_t const k = v.size() < n ? n - v.size() : 0, left = align == '<' ? 0 : align == '>' ? k : k / 2;
            return std::string(left, fill) + v + std::string(k - left, fill);
        };
        auto expect = [&](std::string const &f, std::string const &want, auto const &...args) {
            auto const got = render<C>(f, args...);
            r.evaluations(1);
            if (!same(got, want, f.size())) r.fail("C22/large", "%s: format(\"%s\") with a text of %zu characters gives %zu characters \"%.60s\", expected %zu \"%.60s\"", gen::cname<C>(), f.c_str(), n, got.size() - (kLen - f.size()), show(got).c_str(), want.size(), want.c_str());
        };
        if (n > 0)
        {
            for (char al : {'<', '>', '^'})
            {
                expect(std::string("{:*") + al + N + "}", pad("-12", al, '*'), -12);
                expect(std::string("{:") + al + N + "s}", pad("abc", al, ' '), gen::W<C>("abc"));
                expect(std::string("{:.") + al + N + "}", pad("true", al, '.'), true);
                expect(std::string("{:0") + al + N + ".2f}", pad("1.50", al, '0'), 1.5);
                expect(std::string("{0:*") + al + "{1}}", pad("ff", al, '*').substr(0, 0) + pad("255", al, '*'), 255, n);
                expect(std::string("{:") + al + N + "}|", pad(text, al, ' ') + "|", arg);
                expect(std::string("{:") + al + N + "}|", pad(text + "rst", al, ' ') + "|", more);
            }
            expect("{:0" + N + "}", n < 3 ? "-12" : "-" + std::string(n - 3, '0') + "12", -12);
            expect("{:0" + N + "d}", pad("12", '>', '0'), 12);
            expect("{:#0" + N + "x}", n < 4 ? "0xff" : "0x" + std::string(n - 4, '0') + "ff", 255);
            expect("{:0" + N + ".1f}", n < 4 ? "-1.5" : "-" + std::string(n - 4, '0') + "1.5", -1.5);
        }
        expect("{:." + N + "}|", text + "|", more);
        expect("{:." + N + "}|", text + "|", arg);
        expect("{:.{}}|", text + "|", more, n);
        expect("{}", text, arg);
        expect("<{}>{}<{}>", "<" + text + ">7<" + text + "rst>", arg, 7, more);
        if (n <= 1100)
            for (double v : {0.0, 1.0, -0.1, 1e300, 5e-324, 123456.789})
                for (char type : {'f', 'e', 'g'})
                {
                    std::string b(n + 500, 0);
                    char const spec[] = {'%', '.', '*', type, 0};
                    b.resize(static_cast<std::size_t>(std::snprintf(b.data(), b.size(), spec, static_cast<int>(n), v)));
                    expect("{:." + N + type + "}", b, v);
                }
        expect("{}|{}|{}", std::string("a") + text + "|b|" + text, gen::W<char>("a" + text), gen::W<char16_t>("b"), gen::W<char32_t>(text));
    }

    section(r, "long literal text in %s", gen::cname<C>());
    auto literal = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
        for (std::size_t at : {std::size_t(0), std::size_t(1), N / 2, N - 3, N - 2})
            for (char const *f : {"{}", "{{", "}}"})
            {
                if (!r.take()) continue;
                r.nontrivial();
                std::string t(N, 'k');
                for (std::size_t i = 0; i < N; ++i) t[i] = static_cast<char>('a' + i % 26);
                t.replace(at, 2, f);
                std::string want = t;
                want.replace(at, 2, f[0] != '{' ? "}" : f[1] == '{' ? "{" : "-17");
                auto const got = render_long<C, N>(t, -17);
                r.evaluations(1);
                if (got != gen::W<C>(want)) r.fail("C22/long literal", "%s: %s at %zu of %zu characters of literal text gives %zu characters", gen::cname<C>(), f, at, N, got.size());
            }
    };
    literal(std::integral_constant<std::size_t, 63> {});
    literal(std::integral_constant<std::size_t, 64> {});
    literal(std::integral_constant<std::size_t, 65> {});
    literal(std::integral_constant<std::size_t, 127> {});
    literal(std::integral_constant<std::size_t, 128> {});
    literal(std::integral_constant<std::size_t, 129> {});
    literal(std::integral_constant<std::size_t, 255> {});
    literal(std::integral_constant<std::size_t, 256> {});
    literal(std::integral_constant<std::size_t, 257> {});
    literal(std::integral_constant<std::size_t, 1024> {});
    literal(std::integral_constant<std::size_t, 4099> {});
    // as many fields as there may be
    if (r.take())
    {
        std::string f, want;
        for (int k = 0; k < 64; ++k) { f += k % 2 ? "{1}" : "{0}"; want += k % 2 ? "b" : "7"; }
        auto const got = render_long<C, 192>(f, 7, static_cast<C>('b'));
        if (got != gen::W<C>(want)) r.fail("C22/many fields", "%s: 64 fields give \"%s\"", gen::cname<C>(), show(got).c_str());
    }
}

// User-defined types, with options inherited from a standard formatter or parsed by themselves, in every
// position of the argument list and next to fields of every other kind.
template <typename C>
void user(mc::Run &r)
{
    section(r, "user-defined types in %s", gen::cname<C>());
    static char const *const opts[] = {"", ":", ":d", ":6", ":<6", ":+", ":#x", ":06", ":*^8", ":.3", ":s", ":{}", ":o", ":.2f"};
    // which option is well-formed for which kind: i(nt) f(loat) b(ool) t(ext) w(own)
    static char const *const ok[] = {"ifbtw", "ifbtw", "ib", "ifbt", "ifbt", "if", "ib", "if", "ifbt", "ft", "tb", "ifbt", "ibw", "f"};
    auto ref = [](int o, char k, int v) -> std::string {
        Spec s;
        char t = 0;
        switch (o)
        {
            case 2: t = 'd'; break;
            case 3: s.width = 6; break;
            case 4: s.width = 6; s.align = '<'; break;
            case 5: s.sign = '+'; break;
            case 6: s.alt = true; t = 'x'; break;
            case 7: s.zero = true; s.width = 6; break;
            case 8: s.fill = '*'; s.align = '^'; s.width = 8; break;
            case 9: s.prec = 3; break;
            case 10: t = 's'; break;
            case 11: s.width = 5; break;
            case 12: t = 'o'; break;
            case 13: s.prec = 2; t = 'f'; break;
            default: break;
        }
        s.type = t;
        switch (k)
        {
            case 'i': return ref_int(s, false, v, t);
            case 'f': return ref_float<double>(s, v + 0.25);
            case 'b': return t == 0 || t == 's' ? ref_str(s, v & 1 ? "true" : "false") : ref_int(s, false, v & 1, t);
            case 't': return ref_str(s, "t" + std::to_string(v));
            default: { char b[16]; snprintf(b, sizeof b, "%c%03d", o == 12 ? 'o' : '-', v); return b; }
        }
    };
    int const no = static_cast<int>(std::size(opts));
    auto go = [&](char ka, char kb, auto const &a, auto const &b) {
        for (int x = 0; x < no; ++x) for (int y = 0; y < no; ++y) for (int order = 0; order < 3; ++order)
        {
            if (!std::strchr(ok[x], ka) || !std::strchr(ok[y], kb)) continue;
            if (order == 2 && (x == 11 || y == 11)) continue;
            if (!r.take()) continue;
            r.nontrivial();
            std::string f, want;
            std::basic_string<C> got;
            auto field = [](int o, char const *pos) { return std::string("{") + pos + opts[o] + "}"; };
            if (order == 0)
            {
                // a, [5,] 9, b [, 5]
                f = field(x, "") + "|{}|" + field(y, "");
                want = ref(x, ka, 77) + "|9|" + ref(y, kb, 43);
                if (x == 11 && y == 11) got = render<C>(f, a, 5, 9, b, 5);
                else if (x == 11) got = render<C>(f, a, 5, 9, b);
                else if (y == 11) got = render<C>(f, a, 9, b, 5);
                else got = render<C>(f, a, 9, b);
            }
            else if (order == 1)
            {
                f = "{}|" + field(y, "") + "|" + field(x, "");
                want = "9|" + ref(y, kb, 43) + "|" + ref(x, ka, 77);
                if (x == 11 && y == 11) got = render<C>(f, 9, b, 5, a, 5);
                else if (y == 11) got = render<C>(f, 9, b, 5, a);
                else if (x == 11) got = render<C>(f, 9, b, a, 5);
                else got = render<C>(f, 9, b, a);
            }
            else
            {
                f = field(y, "2") + field(x, "0") + "{1}" + field(y, "2");
                want = ref(y, kb, 43) + ref(x, ka, 77) + "9" + ref(y, kb, 43);
                got = render<C>(f, a, 9, b);
            }
            r.evaluations(1);
            if (!same(got, want, f.size()))
                r.fail("C22/user type", "%s: \"%s\" with %c 77 and %c 43 = \"%s\", expected \"%s\"", gen::cname<C>(), f.c_str(), ka, kb, show(got).c_str(), want.c_str());
        }
    };
    auto second = [&](char ka, auto const &a) {
        go(ka, 'i', a, C22Int {43});
        go(ka, 'f', a, C22Float {43.25});
        go(ka, 'b', a, C22Bool {true});
        go(ka, 't', a, C22Text {43});
        go(ka, 'w', a, C22Own {43});
    };
    second('i', C22Int {77});
    second('f', C22Float {77.25});
    second('b', C22Bool {true});
    second('t', C22Text {77});
    second('w', C22Own {77});
}

template <typename C>
void all(mc::Run &r)
{
    user<C>(r);
    texts<C>(r);
    large<C>(r);
    bools<C>(r);
    pointers<C>(r);
    strings_of<C, char>(r);
    strings_of<C, wchar_t>(r);
    strings_of<C, char8_t>(r);
    strings_of<C, char16_t>(r);
    strings_of<C, char32_t>(r);
    transcoding<C, char>(r);
    transcoding<C, wchar_t>(r);
    transcoding<C, char8_t>(r);
    transcoding<C, char16_t>(r);
    transcoding<C, char32_t>(r);
    wide<C, char>(r, "char");
    wide<C, wchar_t>(r, "wchar_t");
    wide<C, char8_t>(r, "char8_t");
    wide<C, char16_t>(r, "char16_t");
    wide<C, char32_t>(r, "char32_t");
    wide<C, int>(r, "int");
    wide<C, unsigned>(r, "unsigned");
    wide<C, std::int64_t>(r, "int64");
    integers<C, signed char>(r, "int8", false);
    integers<C, unsigned char>(r, "uint8", false);
    integers<C, std::int16_t>(r, "int16", false);
    integers<C, std::uint16_t>(r, "uint16", false);
    integers<C, std::int32_t>(r, "int32", false);
    integers<C, std::uint32_t>(r, "uint32", false);
    integers<C, std::int64_t>(r, "int64", false);
    integers<C, std::uint64_t>(r, "uint64", false);
    integers<C, long long>(r, "long long", false);
    floats<C, float>(r, "float");
    floats<C, double>(r, "double");
    floats<C, long double>(r, "long double");
}
} // namespace


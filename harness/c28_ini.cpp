// C28: the INI parser against an independent reading of the format, over all short texts, all lines up to a
// length inside a section, all pairs and sequences of lines, every byte at every place, and line endings.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "ini_ref.hpp"
#include "fly/parser/ini_parser.hpp"

namespace {

char const *shape(std::string const &t)
{
    for (unsigned char c : t) if (c >= 0x80 || (c < 0x20 && c != '\n')) return "byte";
    if (t.find('\\') != t.npos) return "escape";
    if (t.find_first_of("'\"") != t.npos) return "quote";
    if (t.find(';') != t.npos) return "comment";
    return "plain";
}

void one(mc::Run &r, std::string const &t)
{
    static fly::parser::IniParser parser;
    iref::Want const w = iref::read(t);
    if (w.verdict == iref::Verdict::Accept) r.nontrivial();
    auto const have = parser.parse_string(t);
    if (!have)
    {
        if (w.verdict == iref::Verdict::Accept) r.fail(std::string("rejected:") + shape(t), "%s is rejected", mc::show(t).c_str());
        return;
    }
    if (w.verdict == iref::Verdict::Reject)
    {
        r.fail("accepted:" + w.why, "%s is accepted as %s (%s)", mc::show(t).c_str(), have->serialize().c_str(), w.why.c_str());
        return;
    }
    std::string const d = jref::differs(w.value, *have);
    if (!d.empty()) r.fail(std::string("value:") + shape(t), "%s is read as %s: %s", mc::show(t).c_str(), have->serialize().c_str(), d.c_str());
}

void all(mc::Run &r, char const *what, std::string const &alphabet, std::size_t lo, std::size_t hi, std::string const &before, std::string const &after)
{
    r.section(what);
    gen::strings(alphabet, lo, hi).each([&](std::string const &s) { if (r.take()) one(r, before + s + after); });
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const deep = r.thorough();
    all(r, "all texts", "[]='\"; a\n", 0, deep ? 7 : 6, "", "");
    all(r, "all lines in a section", "[]='\"; ab", 0, deep ? 7 : 6, "[s]\n", "");
    all(r, "all lines in a section, followed by another", "[]='\"; a\\", 0, deep ? 6 : 5, "[s]\nb=c\n", "\nd=e\n");
    all(r, "all values", "='\"; a\\\t]", 1, deep ? 6 : 5, "[s]\nn=", "");
    all(r, "all names", "='\"; a\\\t[", 1, deep ? 6 : 5, "[s]\n", "=v\n");
    all(r, "all headers", "[]='\"; a\\", 0, deep ? 6 : 5, "[", "]\nn=v");
    all(r, "blanks of every kind", " \t\r\v\f\na", 1, deep ? 6 : 5, "[s]\nn =", "= \r\n ;x\n");
    all(r, "escapes", "\\untd8c/\"", 1, deep ? 6 : 5, "[s]\nn='", "'");

    r.section("all pairs of short lines");
    {
        auto const lines = gen::strings(std::string("[]='; a\\"), 0, deep ? 4 : 3).all();
        for (auto const &a : lines)
            for (auto const &b : lines)
                if (r.take()) one(r, "[s]\n" + a + "\n" + b);
    }

    r.section("sequences of lines");
    {
        std::vector<std::string> const kinds = {
            "[s]", "[t]", " [ s ] ", "[]", "[s", "s]", "['s']", "[s=t]", "[;]", "",
            "   ", ";", " ; [u]", "[s];", "n=1", "n=2", "m = x y ", "n='q'", "n=\" q \"", "n=a=b",
            "n==", "n", "n=", "=1", "'n'=1", "n='", "n=;", "n=1;", ";n=1", "s=[1",
            "\xc3\xa9=\xe2\x82\xac", "n=\xc3", "n=\\u0041", "\\u006e=3", "n=\\x"};
        std::size_t const most = deep ? 4 : 3;
        for (std::size_t n = 1; n <= most; ++n)
        {
            std::vector<std::size_t> at(n, 0);
            for (;;)
            {
                if (r.take())
                    for (char const *end : {"\n", "\r\n"})
                        for (int last = 0; last < 2; ++last)
                        {
                            std::string t;
                            for (std::size_t k = 0; k < n; ++k) { t += kinds[at[k]]; if (k + 1 < n || last) t += end; }
                            one(r, t);
                            r.evaluations(1);
                        }
                std::size_t k = n;
                while (k > 0 && ++at[k - 1] == kinds.size()) at[--k] = 0;
                if (k == 0) break;
            }
        }
        // longer histories over the lines that mostly belong together
        std::vector<std::string> const good = {"[s]", "[t]", "n=1", "n=2", "m='q'", "; c"};
        std::size_t const more = deep ? 8 : 7;
        for (std::size_t n = 4; n <= more; ++n)
        {
            std::vector<std::size_t> at(n, 0);
            for (;;)
            {
                if (r.take()) { std::string t; for (auto k : at) t += good[k] + "\n"; one(r, t); }
                std::size_t k = n;
                while (k > 0 && ++at[k - 1] == good.size()) at[--k] = 0;
                if (k == 0) break;
            }
        }
    }

    r.section("every byte and pair of bytes at every place");
    {
        std::vector<std::string> const docs = {"[s]\nn=v\n", " [ s ]\n\tn = ' v '\n;c\n[t]\nm=\"w\"", "[a\\tb]\nn\\u0041=\xe2\x82\xac\n"};
        for (auto const &d : docs)
            for (std::size_t p = 0; p <= d.size(); ++p)
            {
                for (int b = 0; b < 256; ++b)
                    if (r.take())
                    {
                        std::string t = d;
                        t.insert(p, 1, static_cast<char>(b));
                        one(r, t);
                        if (p < d.size()) { t = d; t[p] = static_cast<char>(b); one(r, t); }
                        r.evaluations(1);
                    }
                for (std::size_t q = p; q <= d.size(); ++q)
                    if (r.take()) { one(r, d.substr(0, p) + d.substr(q)); one(r, d.substr(p, q - p)); r.evaluations(1); }
            }
        for (int a = 0; a < 256; ++a)
            for (int b = 0; b < 256; ++b)
                if (r.take())
                {
                    std::string const s {static_cast<char>(a), static_cast<char>(b)};
                    one(r, "[s]\nn=" + s); one(r, "[s]\n" + s + "=v"); one(r, "[" + s + "]"); one(r, s + "[s]"); one(r, "[s]\nn=v" + s);
                    r.evaluations(4);
                }
    }

    r.section("long lines");
    for (std::size_t n : {1u, 63u, 64u, 255u, 256u, 1023u, 1024u, 4095u, 4096u, 65535u, 65536u})
        if (r.take())
        {
            std::string const x(n, 'x');
            one(r, "[" + x + "]\n" + x + "=" + x + "\n;" + x + "\n" + std::string(n, ' ') + "\n" + x + "=");
            one(r, "[" + x + "]\n" + x + "=" + x + "\n;" + x + "\n" + std::string(n, '\n') + x + "=y");
            one(r, "[s]\nn=" + std::string(n, '=')); one(r, "[s]\nn='" + std::string(n, '\'') + "'");
            r.evaluations(3);
        }

    r.section("sizes");
    for (std::size_t n : gen::sizes(deep ? 300 : 130, deep ? 9000 : 2100))
        for (int shape = 0; shape < 12; ++shape)
        {
            if (!r.take()) continue;
            std::string t;
            auto rep = [&](std::string const &x, std::size_t k) { std::string u; while (k-- > 0) u += x; return u; };
            switch (shape)
            {
                case 0: for (std::size_t k = 0; k < n; ++k) t += "[s" + std::to_string(k) + "]\nn=" + std::to_string(k) + "\n"; break;
                case 1: t = "[s]\n"; for (std::size_t k = 0; k < n; ++k) t += "n" + std::to_string(k) + " = v" + std::to_string(k) + "\n"; break;
                case 2: t = "[s]\n"; for (std::size_t k = 0; k < n; ++k) t += "n=" + std::to_string(k) + "\n"; break;
                case 3: for (std::size_t k = 0; k < n; ++k) t += std::string(k % 2 ? "[b]" : "[a]") + "\nn" + std::to_string(k / 2) + "=x\n"; break;
                case 4: t = rep(";c\n", n) + "[s]" + rep("\n", n) + "n=v" + rep("\r\n", n) + "m=w"; break;
                case 5: t = rep(" ", n) + "[" + rep("\t", n) + "s" + rep(" ", n) + "]" + rep("\t", n) + "\n" + rep(" ", n) + "n" + rep(" ", n) + "=" + rep(" ", n) + "v" + rep(" ", n) + "\n;"; break;
                case 6: t = "[s]\nn='" + rep(" ", n) + "'\nm=\"" + rep("a b ", n) + "\"\n"; break;
                case 7: t = "[s]\nn=" + rep("\\u00e9", n) + "\n" + rep("\\u0061", n) + "=1\n"; break;
                case 8: t = "[" + rep("\xe2\x82\xac", n) + "]\n" + rep("\xc3\xa9", n) + "=" + rep("\xf0\x9f\x98\x80", n) + "\n"; break;
                case 9: t = "[s]\nn=" + rep("x", n) + "\xff\nm=1\n"; break;
                case 10: t = "[s]\n" + rep("n=1\n", n) + "bad line\n"; break;
                default: t = "[s]\nn=" + rep("a=b", n) + "\nm='" + rep("q", n) + "\n"; break;
            }
            one(r, t);
        }
}

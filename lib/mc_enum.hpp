// Exhaustive enumeration driver for sequential harnesses.
//
// A harness defines   void enumerate(mc::Run &r)   that walks a finite, deterministic space of cases.
// For each case it calls   if (!r.take()) continue;   before running it.  The driver forks N shards;
// shard k runs the cases whose ordinal is k modulo N, so that the union of the shards is the whole
// space.  A crash (signal, sanitizer abort, uncaught exception) or a hang of a shard is attributed to
// the case it was running, confirmed by running that single case again in a fresh process, and the
// shard is resumed behind that case.  Nothing is sampled.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mc {

constexpr int kMaxShards = 16;
constexpr int kMaxFail = 40;
constexpr int kMaxSamples = 6;

struct Failure { std::uint64_t ordinal; char key[200]; char msg[1200]; };

struct Shard
{
    volatile std::uint64_t current;   // ordinal of the case being run, +1; 0 = none
    volatile std::uint64_t evaluations;
    volatile std::uint64_t nontrivial;
    volatile std::uint64_t states, transitions, traces;
    volatile std::uint64_t total;     // size of the space (ordinals seen)
    volatile int done;
    volatile std::uint64_t resume;    // skip ordinals < resume
    volatile int nfail;
    volatile std::uint64_t failcount;
    Failure fail[kMaxFail];
    int nsample;
    char sample[kMaxSamples][400];
    char section[120];
    unsigned char known_hit[64];
};

// Keys of the listed findings (file named by MC_KNOWN): hits are noted, not recorded as failures.
std::vector<std::string> const &known_keys();

class Run
{
public:
    Run(Shard *s, int index, int count, std::int64_t only, bool thorough) :
        m_s(s), m_index(index), m_count(count), m_only(only), m_thorough(thorough) {}

    bool thorough() const { return m_thorough; }
    bool verbose() const { return m_only >= 0; }

    // Is the next case ours?  Counts it.
    bool take()
    {
        std::uint64_t const o = m_ordinal++;
        if (m_only >= 0)
        {
            if (static_cast<std::uint64_t>(m_only) != o) return false;
        }
        else if ((o % m_count) != static_cast<std::uint64_t>(m_index) || o < m_s->resume) return false;
        m_cur = o;
        m_s->current = o + 1;
        m_s->evaluations = m_s->evaluations + 1;
        return true;
    }
    void section(char const *name) { std::snprintf(m_s->section, sizeof(m_s->section), "%s", name); }
    void nontrivial(std::uint64_t n = 1) { m_s->nontrivial = m_s->nontrivial + n; }
    void transitions(std::uint64_t n = 1) { m_s->transitions = m_s->transitions + n; }
    void traces(std::uint64_t n = 1) { m_s->traces = m_s->traces + n; }
    void evaluations(std::uint64_t n) { m_s->evaluations = m_s->evaluations + n; }
    // distinct states of a reference model, hashed; distinctness is per shard + merged by the hash file
    void state(std::uint64_t h)
    {
        if (m_states.insert(h).second) m_s->states = m_states.size();
    }
    void heartbeat() { m_s->current = m_s->current; m_beat++; }

    void sample(char const *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (m_s->nsample >= kMaxSamples) return;
        va_list ap; va_start(ap, fmt);
        std::vsnprintf(m_s->sample[m_s->nsample], sizeof(m_s->sample[0]), fmt, ap);
        va_end(ap);
        m_s->nsample++;
    }
    bool want_sample(std::uint64_t every)
    {
        return m_s->nsample < kMaxSamples && ((m_cur % every) < static_cast<std::uint64_t>(m_count));
    }

    // Record a violation.  key identifies the failing input (for the known-findings list).
    void fail(std::string const &key, char const *fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        auto const &known = known_keys();
        for (std::size_t i = 0; i < known.size() && i < sizeof(m_s->known_hit); ++i)
            if (known[i] == key) { m_s->known_hit[i] = 1; return; }
        m_s->failcount = m_s->failcount + 1;
        // keep at most 3 per distinct key prefix
        if (m_keys[key.substr(0, key.find('#'))]++ >= 3) return;
        if (m_s->nfail >= kMaxFail) return;
        Failure &f = m_s->fail[m_s->nfail];
        f.ordinal = m_cur;
        std::snprintf(f.key, sizeof(f.key), "%s", key.c_str());
        va_list ap; va_start(ap, fmt);
        std::vsnprintf(f.msg, sizeof(f.msg), fmt, ap);
        va_end(ap);
        m_s->nfail = m_s->nfail + 1;
    }
    std::uint64_t ordinal() const { return m_ordinal; }
    std::unordered_set<std::uint64_t> const &states() const { return m_states; }

    Shard *m_s;
    int m_index, m_count;
    std::int64_t m_only;
    bool m_thorough;
    std::uint64_t m_ordinal {0}, m_cur {0}, m_beat {0};
    std::map<std::string, int> m_keys;
    std::unordered_set<std::uint64_t> m_states;
};

inline std::uint64_t hash_mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline std::uint64_t hash_str(std::string_view s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

template <typename S>
std::string show(S const &s)
{
    std::string r = "\"";
    char b[24];
    for (auto ch : s)
    {
        auto c = static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<std::decay_t<decltype(ch)>>>(ch));
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c >= 0x20 && c < 0x7f) r += static_cast<char>(c);
        else { std::snprintf(b, sizeof b, "\\x{%llx}", (unsigned long long)c); r += b; }
    }
    return r + "\"";
}

inline std::string jesc(char const *s)
{
    std::string r;
    for (; *s; ++s)
    {
        unsigned char c = static_cast<unsigned char>(*s);
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

int driver(int argc, char **argv, std::function<void(Run &)> enumerate);

} // namespace mc

void enumerate(mc::Run &r);

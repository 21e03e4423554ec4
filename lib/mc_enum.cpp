#include "mc_enum.hpp"

#include <algorithm>

namespace mc {

static double now_s()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

std::vector<std::string> const &known_keys()
{
    static std::vector<std::string> const keys = [] {
        std::vector<std::string> k;
        if (char const *path = std::getenv("MC_KNOWN"))
            if (FILE *f = std::fopen(path, "r"))
            {
                char b[512];
                while (std::fgets(b, sizeof b, f)) { b[std::strcspn(b, "\n")] = 0; if (*b) k.emplace_back(b); }
                std::fclose(f);
            }
        return k;
    }();
    return keys;
}

static double cpu_s(pid_t pid)
{
    clockid_t id;
    struct timespec ts;
    if (clock_getcpuclockid(pid, &id) != 0 || clock_gettime(id, &ts) != 0) return 0;
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static pid_t spawn(Shard *sh, int index, int count, std::int64_t only, bool thorough,
                   std::function<void(Run &)> const &enumerate, char const *outprefix)
{
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (outprefix)
        {
            std::string path = std::string(outprefix) + "." + std::to_string(index) + ".log";
            int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
        }
        struct rlimit rl { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
        struct rlimit as { 2500ul << 20, 2500ul << 20 };
        setrlimit(RLIMIT_AS, &as);
#endif
        Run r(sh, index, count, only, thorough);
        try
        {
            enumerate(r);
        }
        catch (std::exception const &e)
        {
            r.fail("exception", "uncaught exception: %s", e.what());
            std::fflush(nullptr);
            if (only < 0) _exit(77); // the shard is resumed behind this case
        }
        sh->total = r.m_ordinal;
        sh->done = 1;
        std::fflush(nullptr);
        _exit(0);
    }
    return pid;
}

static std::string tail(std::string const &path)
{
    std::string out;
    if (FILE *f = std::fopen(path.c_str(), "r"))
    {
        char b[4096];
        std::size_t n;
        while ((n = std::fread(b, 1, sizeof b, f)) > 0) { out.append(b, n); if (out.size() > 200000) out.erase(0, 100000); }
        std::fclose(f);
    }
    // first interesting line
    for (char const *pat : {"ERROR: AddressSanitizer", "runtime error", "Assertion", "terminate called", "what()", "stack smashing"})
    {
        auto p = out.find(pat);
        if (p != std::string::npos)
        {
            auto b = out.rfind('\n', p);
            auto e = out.find('\n', p);
            std::string l = out.substr(b == std::string::npos ? 0 : b + 1, (e == std::string::npos ? out.size() : e) - (b == std::string::npos ? 0 : b + 1));
            return l.substr(0, 400);
        }
    }
    return {};
}

int driver(int argc, char **argv, std::function<void(Run &)> enumerate)
{
    bool thorough = false;
    std::int64_t only = -1;
    std::string out, tmp = "/tmp/mc_enum";
    int shards = 8;
    double hang_s = 8;   // processor time without progress; twelve times that in wall time
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--only") only = std::atoll(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--log") tmp = argv[++i];
        else if (a == "--shards") shards = std::atoi(argv[++i]);
        else if (a == "--hang") hang_s = std::atof(argv[++i]);
    }
    auto alloc = [](std::size_t n) {
        return static_cast<Shard *>(mmap(nullptr, n * sizeof(Shard), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    };
    Shard *sh = alloc(kMaxShards + 1);
    std::vector<Failure> crashes;
    std::uint64_t crashcount = 0;
    bool infra = false;

    // One case alone in a fresh process: 0 ok, 1 recorded failure, 2 crash, 3 hang
    auto run_one = [&](std::uint64_t ordinal, std::string &how) -> int {
        Shard *s = &sh[kMaxShards];
        std::memset(static_cast<void *>(s), 0, sizeof(*s));
        std::string prefix = tmp + ".one";
        pid_t pid = spawn(s, 0, 1, static_cast<std::int64_t>(ordinal), thorough, enumerate, only >= 0 ? nullptr : prefix.c_str());
        double const t0 = now_s();
        int st = 0;
        double seen = -1, seen_cpu = 0;
        for (;;)
        {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            // time out only counts once the case itself has started
            if (s->current != 0 && seen < 0) { seen = now_s(); seen_cpu = cpu_s(pid); }
            if ((seen >= 0 && (cpu_s(pid) - seen_cpu > 1.5 * hang_s || now_s() - seen > 15 * hang_s)) || now_s() - t0 > 600)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                how = "does not terminate";
                return 3;
            }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            if (s->nfail) { how = s->fail[0].msg; return 1; }
            return 0;
        }
        std::string t = tail(prefix + ".0.log");
        char b[600];
        if (WIFSIGNALED(st)) std::snprintf(b, sizeof b, "killed by signal %d %s", WTERMSIG(st), t.c_str());
        else std::snprintf(b, sizeof b, "exit %d %s", WEXITSTATUS(st), t.c_str());
        how = b;
        return 2;
    };

    if (only >= 0)
    {
        std::string how;
        int rc = run_one(static_cast<std::uint64_t>(only), how);
        std::printf("case %lld: %s\n", static_cast<long long>(only), rc == 0 ? "ok" : how.c_str());
        return rc ? 1 : 0;
    }

    std::vector<pid_t> pid(static_cast<std::size_t>(shards), -1);
    std::vector<std::uint64_t> last(static_cast<std::size_t>(shards), 0);
    std::vector<double> lastt(static_cast<std::size_t>(shards), now_s());
    std::vector<double> lastc(static_cast<std::size_t>(shards), 0);
    std::vector<int> ncrash(static_cast<std::size_t>(shards), 0);
    int running = 0;
    for (int i = 0; i < shards; ++i)
    {
        pid[static_cast<std::size_t>(i)] = spawn(&sh[i], i, shards, -1, thorough, enumerate, tmp.c_str());
        ++running;
    }
    while (running > 0)
    {
        usleep(3000);
        for (int i = 0; i < shards; ++i)
        {
            auto const u = static_cast<std::size_t>(i);
            if (pid[u] < 0) continue;
            int st = 0;
            pid_t w = waitpid(pid[u], &st, WNOHANG);
            bool bad = false;
            int kind = 0;
            if (w == pid[u])
            {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[i].done) { pid[u] = -1; --running; continue; }
                bad = true;
                kind = (WIFEXITED(st) && WEXITSTATUS(st) == 77) ? 77 : 2;
            }
            else
            {
                std::uint64_t const cur = sh[i].evaluations + sh[i].transitions;
                if (cur != last[u]) { last[u] = cur; lastt[u] = now_s(); lastc[u] = cpu_s(pid[u]); }
                else if (sh[i].current != 0 && (cpu_s(pid[u]) - lastc[u] > hang_s || now_s() - lastt[u] > 12 * hang_s))
                {
                    kill(pid[u], SIGKILL);
                    waitpid(pid[u], &st, 0);
                    bad = true;
                    kind = 3;
                }
            }
            if (!bad) continue;
            std::uint64_t const ord = sh[i].current - 1;
            if (sh[i].current == 0)
            {
                std::fprintf(stderr, "shard %d died before its first case (status %d): %s\n", i, st, tail(tmp + "." + std::to_string(i) + ".log").c_str());
                infra = true;
                pid[u] = -1; --running;
                continue;
            }
            if (kind != 77)
            {
                std::string how, how1 = tail(tmp + "." + std::to_string(i) + ".log");
                int rc = run_one(ord, how);
                ++crashcount;
                if (rc == 0)
                {
                    // Not reproducible alone: state carried over from earlier cases of the shard (or the
                    // environment killed it).  Report it only as an infrastructure problem.
                    std::fprintf(stderr, "shard %d ended at case %llu (status %d, %s) but the case alone passes\n", i, (unsigned long long)ord, st, how1.c_str());
                    infra = true;
                }
                else
                {
                    Failure f {};
                    f.ordinal = ord;
                    std::snprintf(f.key, sizeof f.key, "%s:%s", rc == 3 ? "hang" : "crash", sh[i].section);
                    std::snprintf(f.msg, sizeof f.msg, "[%s] %s", sh[i].section, how.c_str());
                    crashes.push_back(f);
                }
            }
            if (kind != 77 && crashes.size() >= 4) // enough evidence: end the exploration
            {
                pid[u] = -1; --running;
                for (auto &p : pid)
                    if (p > 0) { kill(p, SIGKILL); waitpid(p, &st, 0); p = -1; --running; }
                break;
            }
            if (++ncrash[u] >= 20) { pid[u] = -1; --running; continue; }
            sh[i].resume = ord + 1;
            lastt[u] = now_s();
            lastc[u] = 0;
            pid[u] = spawn(&sh[i], i, shards, -1, thorough, enumerate, tmp.c_str());
        }
    }
    // merge
    std::uint64_t ev = 0, nt = 0, states = 0, tr = 0, traces = 0, total = 0, fails = crashcount;
    for (int i = 0; i < shards; ++i)
    {
        ev += sh[i].evaluations; nt += sh[i].nontrivial; tr += sh[i].transitions; traces += sh[i].traces;
        states = std::max(states, std::uint64_t(sh[i].states));
        total = std::max(total, std::uint64_t(sh[i].total));
        fails += sh[i].failcount;
    }
    FILE *f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
    std::fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"space\":%llu,\"failures_total\":%llu,\"infra\":%s,\n\"samples\":[",
                 (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)states, (unsigned long long)tr, (unsigned long long)traces,
                 (unsigned long long)total, (unsigned long long)fails, infra ? "true" : "false");
    int n = 0;
    for (int k = 0; k < kMaxSamples && n < 10; ++k)
        for (int i = 0; i < shards && n < 10; ++i)
            if (k < sh[i].nsample) std::fprintf(f, "%s\"%s\"", n++ ? "," : "", jesc(sh[i].sample[k]).c_str());
    std::fprintf(f, "],\n\"known_hits\":[");
    n = 0;
    for (std::size_t k = 0; k < known_keys().size() && k < sizeof(sh[0].known_hit); ++k)
    {
        bool hit = false;
        for (int i = 0; i < shards; ++i) hit = hit || sh[i].known_hit[k];
        for (auto const &c : crashes) hit = hit || known_keys()[k] == c.key;
        if (hit) std::fprintf(f, "%s\"%s\"", n++ ? "," : "", jesc(known_keys()[k].c_str()).c_str());
    }
    std::fprintf(f, "],\n\"failures\":[");
    n = 0;
    auto emit = [&](Failure const &x) {
        std::fprintf(f, "%s{\"ordinal\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}", n++ ? ",\n" : "", (unsigned long long)x.ordinal, jesc(x.key).c_str(), jesc(x.msg).c_str());
    };
    for (auto const &x : crashes) emit(x);
    for (int i = 0; i < shards; ++i)
        for (int k = 0; k < sh[i].nfail; ++k) emit(sh[i].fail[k]);
    std::fprintf(f, "]}\n");
    if (f != stdout) std::fclose(f);
    return fails ? 1 : (infra ? 3 : 0);
}

} // namespace mc

int main(int argc, char **argv)
{
    return mc::driver(argc, argv, enumerate);
}

// C09: file loggers on a scratch directory.  Every sequence of records and configuration changes up to a
// depth around the size limit, and the failure of every file-system call (and of pairs of them) along the
// way; what the directory holds is examined at every point where the process could be killed.
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "mc_enum.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

#include <cerrno>
#include <filesystem>
#include <functional>
#include <optional>

using namespace fly::logger;

namespace {

// ------------------------------------------------------------------------------------ choices
struct Chooser
{
    std::vector<int> pick, size;
    std::size_t pos {0};
    int choose(int n)
    {
        if (pos == pick.size()) { pick.push_back(0); size.push_back(n); }
        return pick[pos++];
    }
    bool next(std::size_t keep)
    {
        pick.resize(pos);
        size.resize(pos);
        while (pick.size() > keep && pick.back() + 1 >= size.back()) { pick.pop_back(); size.pop_back(); }
        pos = 0;
        if (pick.size() <= keep) return false;
        ++pick.back();
        return true;
    }
};

enum class Kind { OpenLog, OpenEnc, OpenRead, WriteLog, WriteEnc, Read, SeekLog, Seek, CloseLog, CloseEnc, CloseRead, Stat, Remove, NUM };
char const *const kind_name[] = {"open-log", "open-enc", "open-read", "write-log", "write-enc", "read", "seek-log", "seek", "close-log", "close-enc", "close-read", "stat", "remove"};
// the outcomes of a call besides success
int alternatives(Kind k)
{
    switch (k)
    {
        case Kind::WriteLog: return 4; // part, interrupted, none, part and then nothing more
        case Kind::WriteEnc: return 4;
        case Kind::Read: return 3;     // part, interrupted, error
        case Kind::CloseEnc: return 2; // error, error with the tail lost
        default: return 1;
    }
}
bool benign(Kind k, int o) { return (k == Kind::WriteLog || k == Kind::WriteEnc || k == Kind::Read) && (o == 1 || o == 2); }

Chooser *g_choose;
bool g_on;                 // calls are counted and may fail
int g_depth;
int g_budget, g_from;      // at most so many failures, the first one at this call
int g_calls;
std::string g_dir;
std::set<int> g_full;      // kinds whose device is full
struct Fault { Kind kind; int option; int call; };
std::vector<Fault> g_faults;
std::vector<Kind> g_trace;
struct Open { FILE *f; std::string path; bool write; };
std::map<int, Open> g_open;   // by descriptor
std::vector<std::string> g_order; // log files as they were created
std::function<void(char const *)> g_crash;

bool is_enc(std::string const &p) { return p.size() > 4 && p.compare(p.size() - 4, 4, ".enc") == 0; }
bool ours(char const *p) { return g_on && g_depth == 0 && p != nullptr && std::strncmp(p, g_dir.c_str(), g_dir.size()) == 0; }

// 0: the call succeeds
int decide(Kind k)
{
    int const call = g_calls++;
    g_trace.push_back(k);
    if (g_full.count(static_cast<int>(k))) return 3;
    if (call < g_from || g_budget == 0) return 0;
    int o;
    if (call == g_from) o = 1 + g_choose->choose(alternatives(k));
    else o = g_choose->choose(1 + alternatives(k));
    if (o != 0)
    {
        --g_budget;
        g_faults.push_back({k, o, call});
        if ((k == Kind::WriteLog || k == Kind::WriteEnc) && o == 4) g_full.insert(static_cast<int>(k));
    }
    return o;
}
void crash_point(char const *what)
{
    if (!g_crash) return;
    ++g_depth;
    int const e = errno;
    g_crash(what);
    errno = e;
    --g_depth;
}

template <typename F>
F next_of(char const *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
Open *mine(int fd)
{
    if (!g_on || g_depth != 0) return nullptr;
    auto it = g_open.find(fd);
    return it == g_open.end() ? nullptr : &it->second;
}

FILE *do_open(char const *path, char const *mode, char const *name)
{
    static auto const real = next_of<FILE *(*)(char const *, char const *)>("fopen");
    static auto const real64 = next_of<FILE *(*)(char const *, char const *)>("fopen64");
    auto const fn = name[5] ? real64 : real;
    if (!ours(path)) return fn(path, mode);
    std::string const p = path;
    bool const write = mode[0] != 'r' || std::strchr(mode, '+') != nullptr;
    Kind const k = !write ? Kind::OpenRead : is_enc(p) ? Kind::OpenEnc : Kind::OpenLog;
    if (decide(k) != 0) { errno = write ? ENOSPC : EMFILE; return nullptr; }
    FILE *f = fn(path, mode);
    if (f != nullptr)
    {
        g_open[fileno(f)] = {f, p, write};
        if (k == Kind::OpenLog && std::find(g_order.begin(), g_order.end(), p) == g_order.end()) g_order.push_back(p);
        if (write) crash_point("open");
    }
    return f;
}
ssize_t raw_write(int fd, char const *p, std::size_t n)
{
    std::size_t done = 0;
    while (done < n)
    {
        long r = syscall(SYS_write, fd, p + done, n - done);
        if (r <= 0) break;
        done += static_cast<std::size_t>(r);
    }
    return static_cast<ssize_t>(done);
}
ssize_t do_write(Open *o, int fd, char const *p, std::size_t n)
{
    int const c = decide(is_enc(o->path) ? Kind::WriteEnc : Kind::WriteLog);
    ssize_t r = -1;
    switch (c)
    {
        case 0: r = raw_write(fd, p, n); break;
        case 1: r = raw_write(fd, p, n > 1 ? n / 2 : n); break;
        case 2: errno = EINTR; return -1;
        case 3: errno = ENOSPC; return -1;
        default: r = raw_write(fd, p, n > 1 ? n / 2 : n); break;   // and from now on nothing
    }
    crash_point("write");
    return r;
}

} // namespace

extern "C" {

FILE *fopen(char const *path, char const *mode) { return do_open(path, mode, "fopen"); }
FILE *fopen64(char const *path, char const *mode) { return do_open(path, mode, "fopen64"); }
int fclose(FILE *f)
{
    static auto const real = next_of<int (*)(FILE *)>("fclose");
    if (!g_on || g_depth != 0) return real(f);
    auto it = g_open.find(fileno(f));
    if (it == g_open.end() || it->second.f != f) return real(f);
    Open const o = it->second;
    g_open.erase(it);
    Kind const k = !o.write ? Kind::CloseRead : is_enc(o.path) ? Kind::CloseEnc : Kind::CloseLog;
    int const c = decide(k);
    int const r = real(f);
    if (c == 2)
    {
        struct stat st;
        if (syscall(SYS_stat, o.path.c_str(), &st) == 0 && st.st_size > 0) (void)!truncate(o.path.c_str(), st.st_size / 2);
    }
    if (o.write) crash_point("close");
    if (c != 0) { errno = EIO; return EOF; }
    return r;
}
ssize_t write(int fd, void const *p, std::size_t n)
{
    if (Open *o = mine(fd)) return do_write(o, fd, static_cast<char const *>(p), n);
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, struct iovec const *v, int n)
{
    if (Open *o = mine(fd))
    {
        std::string all;
        for (int i = 0; i < n; ++i) all.append(static_cast<char const *>(v[i].iov_base), v[i].iov_len);
        return do_write(o, fd, all.data(), all.size());
    }
    return syscall(SYS_writev, fd, v, n);
}
ssize_t read(int fd, void *p, std::size_t n)
{
    if (Open *o = mine(fd); o != nullptr)
    {
        switch (decide(Kind::Read))
        {
            case 1: return syscall(SYS_read, fd, p, n > 1 ? std::min<std::size_t>(n / 2, 7) : n);
            case 2: errno = EINTR; return -1;
            case 3: errno = EIO; return -1;
        }
    }
    return syscall(SYS_read, fd, p, n);
}
static off_t do_seek(int fd, off_t off, int whence)
{
    if (Open *o = mine(fd); o != nullptr)
    {
        if (decide(o->write && !is_enc(o->path) ? Kind::SeekLog : Kind::Seek) != 0) { errno = EIO; return -1; }
    }
    return syscall(SYS_lseek, fd, off, whence);
}
off_t lseek(int fd, off_t off, int whence) noexcept { return do_seek(fd, off, whence); }
off64_t lseek64(int fd, off64_t off, int whence) noexcept { return do_seek(fd, off, whence); }
int stat(char const *path, struct stat *st) noexcept
{
    static auto const real = next_of<int (*)(char const *, struct stat *)>("stat");
    if (ours(path) && decide(Kind::Stat) != 0) { errno = EACCES; return -1; }
    return real(path, st);
}
int stat64(char const *path, struct stat64 *st) noexcept
{
    static auto const real = next_of<int (*)(char const *, struct stat64 *)>("stat64");
    if (ours(path) && decide(Kind::Stat) != 0) { errno = EACCES; return -1; }
    return real(path, st);
}
int remove(char const *path) noexcept
{
    static auto const real = next_of<int (*)(char const *)>("remove");
    if (!ours(path)) return real(path);
    if (decide(Kind::Remove) != 0) { errno = EPERM; return -1; }
    int const r = real(path);
    crash_point("remove");
    return r;
}
int unlink(char const *path) noexcept
{
    static auto const real = next_of<int (*)(char const *)>("unlink");
    if (!ours(path)) return real(path);
    if (decide(Kind::Remove) != 0) { errno = EPERM; return -1; }
    int const r = real(path);
    crash_point("remove");
    return r;
}
// records carry the time since their logger was made: it stands still
int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    long const r = syscall(SYS_clock_gettime, id, ts);
    if (g_on && id == CLOCK_MONOTONIC) *ts = {1000, 0};
    return static_cast<int>(r);
}

} // extern "C"

namespace {

struct LConfig : LoggerConfig
{
    void limit(std::uintmax_t n) { m_default_max_log_file_size = n; }
    void compress(bool b) { m_default_compress_log_files = b; }
    void message(std::uint32_t n) { m_default_max_message_size = n; }
};
struct CConfig : fly::coders::CoderConfig
{
    void chunk(int kb) { m_default_huffman_encoder_chunk_size_kb = static_cast<std::uint16_t>(kb); }
    void length(int n) { m_default_huffman_encoder_max_code_length = static_cast<fly::coders::length_type>(n); }
};
struct NullSink : Sink
{
    bool initialize() override { return true; }
    bool stream(Log &&) override { return true; }
};

std::string slurp(std::string const &p, bool &ok)
{
    std::string r;
    char b[8192];
    long const fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
    ok = fd >= 0;
    if (!ok) return r;
    for (long n; (n = syscall(SYS_read, fd, b, sizeof b)) > 0;) r.append(b, static_cast<std::size_t>(n));
    syscall(SYS_close, fd);
    return r;
}

struct Op { enum What { Say, Limit, Compress, Coder } what; long n; };
struct Plan
{
    std::uintmax_t limit;
    bool compress;
    bool is_default;
    int chunk {256};
    std::uint32_t message {256};
    std::vector<Op> ops;
};
std::string show(Plan const &p)
{
    std::string s = "limit " + std::to_string(p.limit) + (p.compress ? " compress" : "") + (p.is_default ? " default-logger" : "");
    if (p.message != 256) s += " max-message " + std::to_string(p.message);
    if (p.chunk != 256) s += " chunk " + std::to_string(p.chunk) + "K";
    for (auto const &o : p.ops) s += std::string("; ") + (o.what == Op::Say ? "log " : o.what == Op::Limit ? "limit:=" : o.what == Op::Compress ? "compress:=" : "code-length:=") + std::to_string(o.n);
    if (!g_faults.empty())
    {
        s += " | failing:";
        for (auto const &f : g_faults) s += " " + std::string(kind_name[static_cast<int>(f.kind)]) + "#" + std::to_string(f.call) + "/" + std::to_string(f.option);
    }
    return s;
}
std::string text_of(int number, long length)
{
    std::string s;
    for (long i = 0; i < length; ++i) s += static_cast<char>(i == 0 ? '0' + number % 10 : '!' + (i * 7 + number * 3 + i / 90) % 90);
    return s;
}

struct Rec { std::uintmax_t index; bool own; std::string message; std::size_t size; int file; };
struct Picture
{
    std::vector<Rec> recs;
    std::vector<std::size_t> sizes;   // of the files, decompressed
    std::vector<bool> compressed;
    std::string tail;                 // an incomplete record at the very end
    int tail_file {-1};
    std::string bad;
};

struct Harness
{
    mc::Run &r;
    Plan const &plan;
    std::vector<std::string> said;
    int done {0};             // calls of log() that returned
    bool failed {false};
    std::map<std::string, std::string> decoded;   // cache: compressed bytes -> text

    std::string key(char const *what) const { return std::string("C09/") + what; }
    void fail(char const *what, std::string const &why)
    {
        if (failed) return;
        failed = true;
        r.fail(key(what), "%s [%s]", why.c_str(), show(plan).c_str());
    }

    // ended: a record could not be written; the stream may have tried again later, so that nothing is
    // said about what follows the records which were accepted
    Picture look(bool ended)
    {
        Picture p;
        int file = 0;
        for (auto const &path : g_order)
        {
            bool ok = false, comp = false;
            std::string text = slurp(path, ok);
            if (!ok)
            {
                std::string const raw = slurp(path + ".enc", ok);
                if (!ok) { p.bad = "the log file number " + std::to_string(file + 1) + " is gone, and there is no compressed replacement"; return p; }
                auto it = decoded.find(raw);
                if (it == decoded.end())
                {
                    std::string t;
                    ++g_depth;
                    bool const on = g_on;
                    g_on = false;
                    auto const d = std::make_unique<fly::coders::HuffmanDecoder>();
                    bool const good = d->decode_string(raw, t);
                    g_on = on;
                    --g_depth;
                    if (!good) { p.bad = "log file number " + std::to_string(file + 1) + " was removed, but its compressed replacement (" + std::to_string(raw.size()) + " bytes) does not decode"; return p; }
                    it = decoded.emplace(raw, t).first;
                }
                text = it->second;
                comp = true;
            }
            p.sizes.push_back(text.size());
            p.compressed.push_back(comp);
            if (!p.tail.empty() && !text.empty()) { p.bad = "a record in the middle is incomplete"; return p; }
            std::size_t pos = 0;
            while (pos < text.size())
            {
                std::size_t const end = text.find('\x1e', pos);
                if (end == std::string::npos) { p.tail = text.substr(pos); p.tail_file = file; break; }
                std::string const rec = text.substr(pos, end - pos);
                std::vector<std::string> part {""};
                for (char ch : rec) { if (ch == '\x1f') part.emplace_back(); else part.back() += ch; }
                if (part.size() != 5 && ended) { p.tail = text.substr(pos); p.tail_file = file; break; }
                if (part.size() != 5) { p.bad = "malformed record " + mc::show(rec); return p; }
                bool const own = part[3].compare(0, 2, "h:") == 0;
                p.recs.push_back({std::strtoull(part[0].c_str(), nullptr, 10), own, part[4], rec.size() + 1, file});
                pos = end + 1;
            }
            ++file;
        }
        return p;
    }

    // the records are those logged, complete and in order, up to some point; returns how many of ours
    int compare(Picture const &p, char const *when, int at_least, bool ended)
    {
        if (!p.bad.empty()) { fail(when, p.bad); return -1; }
        int own = 0;
        for (std::size_t i = 0; i < p.recs.size(); ++i)
        {
            auto const &rec = p.recs[i];
            if (ended && own >= at_least) return own;
            if (rec.index != i) { fail(when, "record " + std::to_string(i) + " in the files has index " + std::to_string(rec.index)); return -1; }
            if (!rec.own)
            {
                if (!plan.is_default) { fail(when, "a foreign record " + mc::show(rec.message)); return -1; }
                continue;
            }
            if (own >= static_cast<int>(said.size())) { fail(when, "more records than were logged"); return -1; }
            if (rec.message != said[static_cast<std::size_t>(own)]) { fail(when, "record " + std::to_string(i) + " is " + mc::show(rec.message) + ", not " + mc::show(said[static_cast<std::size_t>(own)])); return -1; }
            ++own;
        }
        if (own < at_least) { fail(when, "only " + std::to_string(own) + " of " + std::to_string(at_least) + " records that were accepted are in the files"); return -1; }
        return own;
    }
};

// does the fault end what the logger accepts
bool fatal(Fault const &f) { return f.kind == Kind::OpenLog || (f.kind == Kind::WriteLog && !benign(f.kind, f.option)) || f.kind == Kind::SeekLog; }

void clean(std::string const &dir)
{
    ++g_depth;
    if (DIR *d = opendir(dir.c_str()))
    {
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.') syscall(SYS_unlink, (dir + "/" + e->d_name).c_str());
        closedir(d);
    }
    --g_depth;
}

// one execution; returns the number of calls
int run(mc::Run &r, Plan const &plan, Chooser &ch, int from, int budget)
{
    static std::string const scratch = [] {
        for (char const *base : {"/dev/shm", "/tmp"})
        {
            std::string t = std::string(base) + "/mc09XXXXXX";
            if (mkdtemp(t.data()) != nullptr) return t;
        }
        std::abort();
    }();
    g_dir = scratch;
    clean(g_dir);
    g_choose = &ch;
    g_from = from;
    g_budget = budget;
    g_calls = 0;
    g_full.clear();
    g_faults.clear();
    g_trace.clear();
    g_open.clear();
    g_order.clear();

    Harness h {r, plan, {}, 0, false, {}};
    auto lc = std::make_shared<LConfig>();
    auto cc = std::make_shared<CConfig>();
    lc->limit(plan.limit);
    lc->compress(plan.compress);
    lc->message(plan.message);
    cc->chunk(plan.chunk);

    int sure = 0;        // records the files must hold
    bool dead = false;
    auto accepted = [&] { // after a call of log() returned
        for (auto const &f : g_faults) if (fatal(f)) dead = true;
    };
    g_crash = [&](char const *) {
        if (h.failed) return;
        bool over = dead;
        for (auto const &f : g_faults) over |= fatal(f);
        Picture const p = h.look(over);
        h.compare(p, "crash", sure, over);
        // what is behind the last complete record is part of the record being written
        if (!p.tail.empty() && !over && p.tail_file + 1 != static_cast<int>(g_order.size())) h.fail("crash", "an incomplete record is not in the last file");
    };
    std::shared_ptr<Logger> logger;
    try
    {
        g_on = true;
        logger = create_file_logger("files", lc, cc, g_dir);
        accepted();
        if (dead != (logger == nullptr)) h.fail("create", dead ? "the logger was created although its file could not be" : "the logger was not created");
        if (logger && plan.is_default) Logger::set_default_logger(logger);
        if (logger)
        {
            for (auto const &op : plan.ops)
            {
                switch (op.what)
                {
                    case Op::Limit: lc->limit(static_cast<std::uintmax_t>(op.n)); continue;
                    case Op::Compress: lc->compress(op.n != 0); continue;
                    case Op::Coder: cc->length(static_cast<int>(op.n)); continue;
                    case Op::Say: break;
                }
                std::string text = text_of(static_cast<int>(h.said.size()), op.n);
                h.said.push_back(text.substr(0, plan.message));
                std::size_t const before = g_faults.size();
                std::size_t const files = g_order.size();
                logger->debug(Trace {"h", "f", static_cast<std::uint32_t>(1)}, "{}", text);
                ++h.done;
                if (h.failed) break;
                bool const was_dead = dead;
                accepted();
                bool lost = was_dead, stat_failed = false;
                for (std::size_t i = before; i < g_faults.size(); ++i)
                {
                    if (g_faults[i].kind == Kind::WriteLog && !benign(Kind::WriteLog, g_faults[i].option)) lost = true;
                    if (g_faults[i].kind == Kind::SeekLog) lost = true;
                    if (g_faults[i].kind == Kind::Stat) stat_failed = true;
                }
                if (!lost && !dead) sure = h.done;
                // a new file cannot be had: the record was written before
                else if (!lost && !was_dead) sure = h.done;
                ++g_depth;
                Picture const p = h.look(dead);
                --g_depth;
                if (h.compare(p, "history", sure, dead) < 0) break;
                if (dead) continue;
                if (!p.tail.empty()) { h.fail("history", "an incomplete record is left behind"); break; }
                // rotation
                Rec const *own = nullptr;
                for (auto const &rec : p.recs) if (rec.own) own = &rec;
                if (own == nullptr) { h.fail("history", "the record is not in the files"); break; }
                std::size_t upto = 0;   // size of its file when the record had been written
                for (auto const &rec : p.recs) if (rec.file == own->file && rec.index <= own->index) upto += rec.size;
                bool const beyond = upto > lc->max_log_file_size();
                if (own->file + 1 != static_cast<int>(files)) h.fail("rotation", "the record is not in the file that was current");
                if (beyond && !stat_failed && g_order.size() == files) h.fail("rotation", "no new file although the current one grew to " + std::to_string(upto) + " bytes, the limit being " + std::to_string(lc->max_log_file_size()));
                if (!beyond && g_order.size() != files) h.fail("rotation", "a new file although the current one has only " + std::to_string(upto) + " bytes, the limit being " + std::to_string(lc->max_log_file_size()));
                if (!plan.is_default && g_order.size() > files + 1) h.fail("rotation", "more than one new file");
                if (g_faults.empty() && g_order.size() > files)
                {
                    bool const want = lc->compress_log_files() && cc->huffman_encoder_max_code_length() == 11;
                    if (p.compressed[static_cast<std::size_t>(own->file)] != want) h.fail("compression", want ? "the full file was not compressed" : "the full file was compressed");
                }
                if (h.failed) break;
            }
        }
        if (plan.is_default) { g_on = false; Logger::set_default_logger(std::make_shared<NullSink>() ? Logger::get("null") : nullptr); g_on = true; }
        logger.reset();
    }
    catch (std::exception const &e)
    {
        g_on = false;
        h.fail("exception", std::string("an exception escapes from the logger: ") + e.what());
        Logger::set_default_logger(Logger::get("null"));
    }
    g_crash = nullptr;
    g_on = false;
    logger.reset();
    if (!h.failed)
    {
        Picture const p = h.look(dead);
        h.compare(p, "end", sure, dead);
        if (!h.failed && !dead && !p.tail.empty()) h.fail("end", "an incomplete record is left behind");
        if (!h.failed && !g_open.empty()) h.fail("end", "a file is still open");
    }
    r.transitions(static_cast<std::uint64_t>(g_calls));
    clean(g_dir);
    if (r.verbose()) std::printf("run: %s -> %d calls, %zu files\n", show(plan).c_str(), g_calls, g_order.size());
    return g_calls;
}

// size of a record with an empty message
long overhead()
{
    // index 0x1f level 0x1f time 0x1f "h:f:1" 0x1f message 0x1e
    return 1 + 1 + 1 + 1 + 1 + 1 + 5 + 1 + 1;
}

void faults(mc::Run &r, Plan const &plan, int budget)
{
    Chooser none;
    int const calls = run(r, plan, none, 1 << 30, 0);
    for (int at = 0; at < calls; ++at)
    {
        if (!r.take()) continue;
        Chooser ch;
        std::uint64_t n = 0;
        do { run(r, plan, ch, at, budget); ++n; } while (ch.next(0));
        r.evaluations(n - 1);
        r.nontrivial(n);
        if (r.want_sample(97)) r.sample("%s", show(plan).c_str());
    }
}

// two file loggers in one directory, each of them restarted at will: nobody touches the files of another one,
// nor those of an earlier logger; the histories run on the real clock, and thus mostly within one second
void shared(mc::Run &r, std::uintmax_t limit, bool compress, std::vector<int> const &ops)
{
    std::string dir = g_dir.empty() ? "/tmp/mc09sXXXXXX" : g_dir.substr(0, g_dir.rfind('/')) + "/mc09sXXXXXX";
    if (mkdtemp(dir.data()) == nullptr) std::abort();
    auto lc = std::make_shared<LConfig>();
    auto cc = std::make_shared<CConfig>();
    lc->limit(limit);
    lc->compress(compress);
    std::vector<std::string> said;
    std::string history;
    {
        std::shared_ptr<Logger> logger[2];
        for (int i = 0; i < 2; ++i) logger[i] = create_file_logger(i ? "second" : "first", lc, cc, dir);
        for (int op : ops)
        {
            int const i = op & 1;
            if (op & 2)
            {
                logger[i].reset();
                logger[i] = create_file_logger(i ? "second" : "first", lc, cc, dir);
                history += i ? " restart-second" : " restart-first";
            }
            else
            {
                said.push_back("<" + std::to_string(said.size()) + (i ? ":second>" : ":first>"));
                if (logger[i]) logger[i]->debug(Trace {"h", "f", static_cast<std::uint32_t>(1)}, "{}", said.back());
                history += " say-" + said.back();
            }
        }
    }
    std::string all;
    for (auto const &e : std::filesystem::directory_iterator(dir))
    {
        bool ok = false;
        std::string text = slurp(e.path().string(), ok);
        if (is_enc(e.path().string()))
        {
            std::string decoded;
            fly::coders::HuffmanDecoder d;
            if (d.decode_string(text, decoded)) text = decoded;
        }
        all += text;
    }
    for (auto const &m : said)
    {
        std::size_t n = 0;
        for (std::size_t at = all.find(m); at != std::string::npos; at = all.find(m, at + 1)) ++n;
        if (n != 1) r.fail("C09/shared directory", "record %s is in the files %zu times, two loggers share a directory: limit %ju, compression %d,%s", m.c_str(), n, limit, compress, history.c_str());
    }
    std::error_code error;
    std::filesystem::remove_all(dir, error);
    r.transitions(ops.size());
}

} // namespace

void enumerate(mc::Run &r)
{
    auto const null = Logger::create("null", std::make_shared<LoggerConfig>(), std::make_unique<NullSink>());
    Logger::set_default_logger(null);
    long const o = overhead();
    auto say = [](long n) { return Op {Op::Say, n}; };

    // every alignment of records and limits
    r.section("records and limits");
    for (bool compress : {false, true})
    {
        int const depth = r.thorough() ? 5 : 4;
        int const lengths = r.thorough() ? 4 : 3;
        for (long limit = 0; limit <= 3 * (o + 3) + 1; limit += (limit + 1 < o - 1 ? 5 : 1))
        {
            int total = 1;
            for (int i = 0; i < depth; ++i) total *= lengths;
            for (int v = 0; v < total; ++v)
            {
                if (!r.take()) continue;
                Plan p {static_cast<std::uintmax_t>(limit), compress, false, 256, 256, {}};
                for (int i = 0, x = v; i < depth; ++i, x /= lengths) p.ops.push_back(say(x % lengths));
                Chooser none;
                run(r, p, none, 1 << 30, 0);
                if (g_order.size() > 1) r.nontrivial();
                r.state(mc::hash_mix(static_cast<std::uint64_t>(limit), static_cast<std::uint64_t>(v) * 2 + compress));
                if (r.want_sample(4001)) r.sample("%s: %zu files", show(p).c_str(), g_order.size());
            }
        }
    }
    // the configuration changes between records; the logger is the default logger too
    r.section("changing configuration");
    {
        std::vector<Op> const alphabet = {say(0), say(3), say(40), {Op::Limit, 0}, {Op::Limit, o + 2}, {Op::Limit, 2 * o + 5}, {Op::Limit, 1 << 20}, {Op::Compress, 0}, {Op::Compress, 1}, {Op::Coder, 0}, {Op::Coder, 11}, {Op::Coder, 16}};
        int const depth = r.thorough() ? 5 : 4;
        int const n = static_cast<int>(alphabet.size());
        int total = 1;
        for (int i = 0; i < depth; ++i) total *= n;
        for (int is_default = 0; is_default < 2; ++is_default)
            for (int v = 0; v < total; ++v)
            {
                Plan p {static_cast<std::uintmax_t>(2 * o + 2), true, is_default == 1, 256, 256, {say(2)}};
                int says = 0;
                for (int i = 0, x = v; i < depth; ++i, x /= n) { p.ops.push_back(alphabet[static_cast<std::size_t>(x % n)]); says += p.ops.back().what == Op::Say; }
                if (p.ops.back().what != Op::Say || (!r.thorough() && says < 2)) continue;
                if (!r.take()) continue;
                Chooser none;
                run(r, p, none, 1 << 30, 0);
                if (g_order.size() > 1) r.nontrivial();
                if (r.want_sample(3001)) r.sample("%s: %zu files", show(p).c_str(), g_order.size());
            }
    }
    // long histories, long messages, several chunks
    r.section("long");
    for (bool compress : {false, true})
        for (int is_default = 0; is_default < 2; ++is_default)
            for (long limit : {0L, 1000L, 1023L, 1024L, 1025L, 3000L, 8191L, 8192L, 20000L})
                for (long length : {0L, 1L, 255L, 1000L, 1024L, 4000L, 8191L - o, 9000L})
                    for (int chunk : {1, 2, 256})
                    {
                        if (!r.take()) continue;
                        Plan p {static_cast<std::uintmax_t>(limit), compress, is_default == 1, chunk, length == 1000 ? 999u : 10000u, {}};
                        for (int i = 0; i < 12; ++i) p.ops.push_back(say(length + (i % 3)));
                        Chooser none;
                        run(r, p, none, 1 << 30, 0);
                        if (g_order.size() > 1) r.nontrivial();
                    }
    // failures
    for (int is_default = 0; is_default < 2; ++is_default)
        for (bool compress : {true, false})
        {
            r.section("one failure");
            for (long limit : {0L, o + 2, 2 * o + 1, 3 * o})
                faults(r, Plan {static_cast<std::uintmax_t>(limit), compress, is_default == 1, 256, 256, {say(1), say(2), say(0), say(3), say(1)}}, 1);
            faults(r, Plan {3000, compress, is_default == 1, 1, 4000, {say(1500), say(1600), say(10), say(3500), say(10)}}, 1);
            faults(r, Plan {20000, compress, is_default == 1, 4, 20000, {say(9000), say(12000), say(1), say(8200), say(8200), say(8200)}}, 1);
            r.section("two failures");
            faults(r, Plan {static_cast<std::uintmax_t>(o + 2), compress, is_default == 1, 256, 256, {say(1), say(3), say(2), say(1)}}, 2);
            if (r.thorough())
            {
                faults(r, Plan {static_cast<std::uintmax_t>(2 * o), compress, is_default == 1, 256, 256, {say(1), say(3), say(2), say(1), say(4), say(5)}}, 2);
                faults(r, Plan {3000, compress, is_default == 1, 1, 4000, {say(1500), say(1600), say(10), say(3500), say(10)}}, 2);
                r.section("three failures");
                faults(r, Plan {static_cast<std::uintmax_t>(o + 2), compress, is_default == 1, 256, 256, {say(3), say(2)}}, 3);
            }
        }
    r.section("loggers sharing a directory");
    for (long limit : {0l, o + 8, 100000l})
        for (bool compress : {false, true})
        {
            int const depth = r.thorough() ? 6 : 4;
            for (int v = 0; v < (1 << (2 * depth)); ++v)
            {
                if (!r.take()) continue;
                std::vector<int> ops;
                for (int i = 0; i < depth; ++i) ops.push_back((v >> (2 * i)) & 3);
                shared(r, static_cast<std::uintmax_t>(limit), compress, ops);
                r.nontrivial();
            }
        }
    if (!g_dir.empty()) { clean(g_dir); syscall(SYS_rmdir, g_dir.c_str()); }
}

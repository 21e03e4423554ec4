// Shared by the harnesses of the task system: a probe that records when tasks start and end.
#pragma once
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "mcsched.hpp"

#include <map>
#include <memory>
#include <thread>
#include <vector>

using namespace std::chrono_literals;
using fly::task::ParallelTaskRunner;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;
using fly::task::TaskRunner;

namespace probe {

// One sequence: counts the tasks inside, remembers posts and starts.
struct Sequence
{
    int inside {0};
    long shared {0};   // plain data touched by every task: a race unless tasks are ordered
    struct Post { int id; std::size_t call, ret; };
    std::vector<Post> posts;
    std::vector<std::pair<int, std::size_t>> starts;
};

struct Probe
{
    mc::Log log;      // everything in order; every entry is a schedule point
    mc::Log done;     // one entry per finished task

    std::size_t mark(std::int64_t v)
    {
        log.add(v);
        mc::Ignore ig;
        return log.size();
    }
};

inline std::string join(std::vector<std::pair<int, std::size_t>> const &v)
{
    std::string s;
    for (auto const &[id, at] : v) s += (s.empty() ? "" : " ") + std::to_string(id) + "@" + std::to_string(at);
    return s;
}

// Body of a task of a sequence.
inline void enter(Probe &p, Sequence &s, int id, bool sequenced = true)
{
    std::size_t const at = p.mark(100 + id);
    mc::Ignore ig;
    s.starts.push_back({id, at});
    if (sequenced) mc::check(s.inside == 0, "overlap", "task %d of a sequence starts while another one is running (%s)", id, join(s.starts).c_str());
    ++s.inside;
}
inline void leave(Probe &p, Sequence &s, int id)
{
    p.mark(200 + id);
    {
        mc::Ignore ig;
        --s.inside;
    }
    p.done.add(id);
}

// Every posted task ran exactly once, and in the order of the posts where that order is determined.
inline void check_all(Sequence const &s, bool fifo = true)
{
    mc::Ignore ig;
    std::map<int, std::size_t> pos;
    for (std::size_t i = 0; i < s.starts.size(); ++i)
    {
        mc::check(pos.emplace(s.starts[i].first, i).second, "twice", "task %d ran twice (%s)", s.starts[i].first, join(s.starts).c_str());
    }
    for (auto const &p : s.posts) mc::check(pos.count(p.id), "lost", "task %d never ran (%s)", p.id, join(s.starts).c_str());
    mc::check(pos.size() == s.posts.size(), "unknown", "%zu tasks ran, %zu were posted", pos.size(), s.posts.size());
    if (fifo)
    {
        for (auto const &a : s.posts)
            for (auto const &b : s.posts)
                if (a.ret < b.call) mc::check(pos[a.id] < pos[b.id], "order", "task %d was posted before task %d but ran after it (%s)", a.id, b.id, join(s.starts).c_str());
    }
}

} // namespace probe

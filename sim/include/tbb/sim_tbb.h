// Simulated Threading Building Blocks: the same templates, with every split, order and worker
// assignment decided by the simulator (sim::choose, sim::run_tasks).  Only the documented contract
// is kept: each piece of the range is processed exactly once, in any order, by any worker, with
// any chunking down to the grain size.
#pragma once
#include "../../rt.h"
#include <algorithm>
#include <cstddef>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>

namespace tbb {
struct split {};
struct proportional_split {
    std::size_t l, r;
    proportional_split(std::size_t a, std::size_t b) : l(a), r(b) {}
    std::size_t left() const { return l; }
    std::size_t right() const { return r; }
    explicit operator split() const { return {}; }
};

template <typename V> class blocked_range {
  public:
    using const_iterator = V;
    using size_type = std::size_t;
    blocked_range(V b, V e, size_type g = 1) : e_(e), b_(b), g_(g) {}
    blocked_range(blocked_range& r, split) : e_(r.e_), b_(mid(r)), g_(r.g_) { r.e_ = b_; }
    blocked_range(blocked_range& r, proportional_split) : blocked_range(r, split{}) {}
    const_iterator begin() const { return b_; }
    const_iterator end() const { return e_; }
    size_type size() const { return (size_type)(e_ - b_); }
    size_type grainsize() const { return g_; }
    bool empty() const { return !(b_ < e_); }
    bool is_divisible() const { return g_ < size(); }

  private:
    static V mid(const blocked_range& r) { return r.b_ + (V)(r.size() / 2u); }
    V e_, b_;
    size_type g_;
};

template <typename R, typename C = R> class blocked_range2d {
  public:
    using row_range_type = blocked_range<R>;
    using col_range_type = blocked_range<C>;
    blocked_range2d(R rb, R re, std::size_t rg, C cb, C ce, std::size_t cg) : r_(rb, re, rg), c_(cb, ce, cg) {}
    blocked_range2d(R rb, R re, C cb, C ce) : r_(rb, re), c_(cb, ce) {}
    blocked_range2d(blocked_range2d& o, split) : r_(o.r_), c_(o.c_)
    {
        bool rows = o.r_.is_divisible() && (!o.c_.is_divisible() || sim::choose("split-axis", 2) == 0);
        if (rows)
            r_ = row_range_type(o.r_, split{});
        else
            c_ = col_range_type(o.c_, split{});
    }
    blocked_range2d(blocked_range2d& o, proportional_split) : blocked_range2d(o, split{}) {}
    const row_range_type& rows() const { return r_; }
    const col_range_type& cols() const { return c_; }
    bool empty() const { return r_.empty() || c_.empty(); }
    bool is_divisible() const { return r_.is_divisible() || c_.is_divisible(); }

  private:
    row_range_type r_;
    col_range_type c_;
};

class auto_partitioner {};
class simple_partitioner {};
class static_partitioner {};
class affinity_partitioner {};
class task_group_context {};

namespace sim_detail {
template <typename Range> void cut(Range& r, std::vector<Range>& out, int style, int depth)
{
    if (r.is_divisible() && out.size() < 48 && depth < 24) {
        bool go = style == 1 ? true : style == 2 ? sim::choose_p("split", 2, depth < 3 ? 0.85 : 0.5) != 0 : false;
        if (go) {
            Range right(r, split{});
            cut(r, out, style, depth + 1);
            cut(right, out, style, depth + 1);
            return;
        }
    }
    out.push_back(r);
}
template <typename Range, typename Body> void pfor(const Range& range, const Body& body)
{
    if (range.empty())
        return;
    std::vector<Range> parts;
    {
        Range r(range);
        cut(r, parts, (int)sim::choose_p("split-style", 3, 0.9), 0);
    }
    sim::probe("parallel loop");
    sim::probe("parallel chunks", parts.size());
    sim::run_tasks(parts.size(), [&](std::size_t i) {
        Body b(body);
        Range r(parts[i]);
        b(r);
    });
}
} // namespace sim_detail

template <typename Range, typename Body, typename... P>
auto parallel_for(const Range& range, const Body& body, P&&...) -> decltype(range.is_divisible(), void())
{
    sim_detail::pfor(range, body);
}
template <typename I, typename F, typename... P>
auto parallel_for(I first, I last, const F& f, P&&...)
    -> std::enable_if_t<std::is_integral_v<I> && !std::is_integral_v<F>>
{
    sim_detail::pfor(blocked_range<I>(first, last), [&](const blocked_range<I>& r) {
        for (I i = r.begin(); i != r.end(); ++i)
            f(i);
    });
}
template <typename I, typename F, typename... P>
auto parallel_for(I first, I last, I step, const F& f, P&&...) -> std::enable_if_t<std::is_integral_v<I>>
{
    I n = last > first ? (last - first - 1) / step + 1 : 0;
    parallel_for(I(0), n, [&](I i) { f(first + i * step); });
}
template <typename It, typename F> void parallel_for_each(It b, It e, const F& f)
{
    std::vector<It> v;
    for (; b != e; ++b)
        v.push_back(b);
    sim_detail::pfor(blocked_range<std::size_t>(0, v.size()), [&](const blocked_range<std::size_t>& r) {
        for (std::size_t i = r.begin(); i != r.end(); ++i)
            f(*v[i]);
    });
}
template <typename C, typename F> auto parallel_for_each(C& c, const F& f) -> decltype(c.begin(), void())
{
    parallel_for_each(c.begin(), c.end(), f);
}
template <typename Range, typename T, typename F, typename Red, typename... P>
T parallel_reduce(const Range& range, const T& identity, const F& f, const Red& red, P&&...)
{
    if (range.empty())
        return identity;
    std::vector<Range> parts;
    {
        Range r(range);
        sim_detail::cut(r, parts, (int)sim::choose_p("split-style", 3, 0.9), 0);
    }
    std::vector<T> res(parts.size(), identity);
    sim::run_tasks(parts.size(), [&](std::size_t i) {
        Range r(parts[i]);
        res[i] = f(r, identity);
    });
    T acc = res[0];
    for (std::size_t i = 1; i < res.size(); ++i)
        acc = red(acc, res[i]);
    return acc;
}
template <typename Range, typename T, typename F, typename Red, typename... P>
T parallel_deterministic_reduce(const Range& range, const T& identity, const F& f, const Red& red, P&&...)
{
    std::vector<Range> parts;
    {
        Range r(range);
        sim_detail::cut(r, parts, 1, 0);
    }
    std::vector<T> res(parts.size(), identity);
    sim::run_tasks(parts.size(), [&](std::size_t i) {
        Range r(parts[i]);
        res[i] = f(r, identity);
    });
    T acc = identity;
    for (auto& v : res)
        acc = red(acc, v);
    return acc;
}
template <typename... F> void parallel_invoke(const F&... f)
{
    std::vector<std::function<void()>> v{std::function<void()>(std::cref(f))...};
    sim::run_tasks(v.size(), [&](std::size_t i) { v[i](); });
}
template <typename It, typename Cmp> void parallel_sort(It b, It e, const Cmp& c) { std::sort(b, e, c); }
template <typename It> void parallel_sort(It b, It e) { std::sort(b, e); }

class task_group {
    std::vector<std::function<void()>> v_;

  public:
    template <typename F> void run(F&& f) { v_.emplace_back(std::forward<F>(f)); }
    void wait()
    {
        auto v = std::move(v_);
        v_.clear();
        sim::run_tasks(v.size(), [&](std::size_t i) { v[i](); });
    }
    template <typename F> void run_and_wait(const F& f)
    {
        run(f);
        wait();
    }
    void cancel() {}
};
class task_arena {
  public:
    static constexpr int automatic = -1;
    explicit task_arena(int = automatic, unsigned = 1) {}
    template <typename F> auto execute(F&& f) -> decltype(f()) { return f(); }
    int max_concurrency() const { return 4; }
};
namespace this_task_arena {
template <typename F> auto isolate(F&& f) -> decltype(f()) { return f(); }
inline int max_concurrency() { return 4; }
inline int current_thread_index() { return sim::self(); }
} // namespace this_task_arena
class global_control {
  public:
    enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception, scheduler_handle, parameter_max };
    global_control(parameter, std::size_t) {}
    static std::size_t active_value(parameter) { return 4; }
};

template <typename T> class enumerable_thread_specific {
    std::map<int, std::unique_ptr<T>> m_;
    std::function<T()> init_;
    std::mutex mu_;

  public:
    enumerable_thread_specific() : init_([] { return T(); }) {}
    template <typename F, typename = decltype(std::declval<F>()())>
    explicit enumerable_thread_specific(F f) : init_(f)
    {
    }
    explicit enumerable_thread_specific(const T& v) : init_([v] { return v; }) {}
    T& local()
    {
        sim::Quiet q;
        std::lock_guard<std::mutex> l(mu_);
        auto& p = m_[sim::self()];
        if (!p)
            p.reset(new T(init_()));
        return *p;
    }
    std::size_t size() const { return m_.size(); }
    bool empty() const { return m_.empty(); }
    void clear() { m_.clear(); }
    struct iterator {
        typename std::map<int, std::unique_ptr<T>>::iterator i;
        T& operator*() const { return *i->second; }
        T* operator->() const { return i->second.get(); }
        iterator& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const iterator& o) const { return i != o.i; }
        bool operator==(const iterator& o) const { return i == o.i; }
    };
    iterator begin() { return {m_.begin()}; }
    iterator end() { return {m_.end()}; }
    template <typename F> void combine_each(F f)
    {
        for (auto& p : m_)
            f(*p.second);
    }
    template <typename F> T combine(F f)
    {
        T r = init_();
        bool first = true;
        for (auto& p : m_) {
            r = first ? *p.second : f(r, *p.second);
            first = false;
        }
        return r;
    }
};
template <typename T> class combinable : public enumerable_thread_specific<T> {
  public:
    using enumerable_thread_specific<T>::enumerable_thread_specific;
};
using mutex = std::mutex;
class spin_mutex : public std::mutex {
  public:
    class scoped_lock {
        std::unique_lock<std::mutex> l_;

      public:
        scoped_lock() = default;
        explicit scoped_lock(spin_mutex& m) : l_(m) {}
        void acquire(spin_mutex& m) { l_ = std::unique_lock<std::mutex>(m); }
        void release() { l_.unlock(); }
    };
};
using queuing_mutex = spin_mutex;
using speculative_spin_mutex = spin_mutex;
template <typename T> class concurrent_vector {
    std::vector<std::unique_ptr<T>> v_;
    mutable std::mutex mu_;

  public:
    template <typename U> std::size_t push_back(U&& x)
    {
        std::lock_guard<std::mutex> l(mu_);
        v_.emplace_back(new T(std::forward<U>(x)));
        return v_.size() - 1;
    }
    std::size_t size() const { return v_.size(); }
    T& operator[](std::size_t i) { return *v_[i]; }
    const T& operator[](std::size_t i) const { return *v_[i]; }
};
} // namespace tbb
namespace oneapi {
namespace tbb = ::tbb;
}

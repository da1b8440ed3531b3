// Teams: a league is explored like a range; the loops of a team run one after another.
#pragma once
#include <chrono>

namespace Kokkos {

struct AUTO_t
{
};
inline constexpr AUTO_t AUTO {};
struct PerTeamValue
{
    int v;
};
struct PerThreadValue
{
    int v;
};
inline PerTeamValue PerTeam(int v)
{
    return {v};
}
inline PerThreadValue PerThread(int v)
{
    return {v};
}

namespace Impl {
struct TeamMember
{
    int rank_ = 0, size_ = 1;
    int league_rank() const
    {
        return rank_;
    }
    int league_size() const
    {
        return size_;
    }
    int team_rank() const
    {
        return 0;
    }
    int team_size() const
    {
        return 1;
    }
    void team_barrier() const {}
    template <class T>
    void team_broadcast(T&, int) const
    {
    }
    template <class R>
    void team_reduce(R const&) const
    {
    }
};
template <class I>
struct TeamRange
{
    I b, e;
    template <class F>
    void each(F const& f) const
    {
        bool const down = kshim::cfg().order == kshim::Order::left_reversed || kshim::cfg().order == kshim::Order::right_reversed;
        I const n = e > b ? e - b : I {};
        for (I q = 0; q < n; ++q) {
            f(down ? static_cast<I>(e - 1 - q) : static_cast<I>(b + q));
        }
    }
};
struct Single
{
};
} // namespace Impl

template <class... P>
class TeamPolicy
{
public:
    using index_type = int;
    using member_type = Impl::TeamMember;
    using execution_space = DefaultExecutionSpace;
    static constexpr unsigned rank = 1;
    static constexpr bool kshim_team = true;
    template <class... X>
    explicit TeamPolicy(int league, X const&...) : m_league(league)
    {
    }
    template <class S, class... X>
        requires(is_execution_space_v<S>)
    TeamPolicy(S const&, int league, X const&...) : m_league(league)
    {
    }
    int begin() const
    {
        return 0;
    }
    int end() const
    {
        return m_league;
    }
    int league_size() const
    {
        return m_league;
    }
    template <class... X>
    TeamPolicy& set_scratch_size(X const&...)
    {
        return *this;
    }

private:
    int m_league;
};

#define KSHIM_TEAM_RANGE(NAME) \
    template <class A> \
    Impl::TeamRange<A> NAME(Impl::TeamMember const&, A n) \
    { \
        return {A {}, n}; \
    } \
    template <class A, class B> \
    Impl::TeamRange<std::common_type_t<A, B>> NAME(Impl::TeamMember const&, A b, B e) \
    { \
        return {b, e}; \
    }
KSHIM_TEAM_RANGE(TeamThreadRange)
KSHIM_TEAM_RANGE(TeamVectorRange)
KSHIM_TEAM_RANGE(ThreadVectorRange)

template <class I, class F>
void parallel_for(Impl::TeamRange<I> const& r, F const& f)
{
    r.each(f);
}
template <class I, class F, class R>
void parallel_reduce(Impl::TeamRange<I> const& r, F const& f, R&& result)
{
    auto const red = Impl::as_reducer(std::forward<R>(result));
    using Red = std::remove_cvref_t<decltype(red)>;
    typename Red::value_type v;
    Red::init(v);
    r.each([&](I i) { f(i, v); });
    *red.p = v;
}
inline Impl::Single PerTeam(Impl::TeamMember const&)
{
    return {};
}
inline Impl::Single PerThread(Impl::TeamMember const&)
{
    return {};
}
template <class F>
void single(Impl::Single const&, F const& f)
{
    f();
}
template <class F, class T>
void single(Impl::Single const&, F const& f, T& v)
{
    f(v);
}

template <class D, class... P, class... I>
void realloc(View<D, P...>& v, I const... n)
{
    std::string const label = v.label();
    v = View<D, P...>();
    v = View<D, P...>(label, static_cast<std::size_t>(n)...);
}

class Timer
{
    std::chrono::steady_clock::time_point m_start = std::chrono::steady_clock::now();

public:
    void reset()
    {
        m_start = std::chrono::steady_clock::now();
    }
    double seconds() const
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - m_start).count();
    }
};

} // namespace Kokkos

// Explorer framework: enumerates cases, shards them over worker processes, collects violations.
#pragma once

#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

bool thorough();
int worker(); // index of the running worker

// ---- reporting (inside a case)
// key: stable identity of what is broken (class of failure + the input), detail: free text
void violate(std::string const& key, std::string const& detail);
void state(std::uint64_t hash); // a state/outcome was reached
void transitions(std::uint64_t n); // steps taken
void trace_validated(std::uint64_t n = 1); // executions compared with the reference model
void sample(std::string const& text);
void counter(std::string const& name, std::uint64_t n = 1);

struct Hash
{
    std::uint64_t h = 1469598103934665603ULL;
    void bytes(void const* p, std::size_t n)
    {
        auto const* c = static_cast<unsigned char const*>(p);
        for (std::size_t i = 0; i < n; ++i) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
    }
    Hash& operator<<(std::string const& s)
    {
        bytes(s.data(), s.size());
        return *this << static_cast<long>(s.size());
    }
    Hash& operator<<(long v)
    {
        bytes(&v, sizeof v);
        return *this;
    }
    Hash& operator<<(int v) { return *this << static_cast<long>(v); }
    Hash& operator<<(double v)
    {
        bytes(&v, sizeof v);
        return *this;
    }
    operator std::uint64_t() const { return h; }
};

class Explorer
{
public:
    // runs `body` when this process is the one in charge of the case
    void run(std::string const& id, std::function<void()> const& body);
    std::uint64_t index = 0;
};

using Enumerate = std::function<void(Explorer&)>;
// options: --out FILE --workers N --only ID --max-violations N
int main(int argc, char** argv, Enumerate const& enumerate, unsigned case_timeout_s = 120);

std::string num(double v);
template <class... A>
std::string cat(A const&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}

// ---- depth first enumeration of the choices of an execution
class Dfs
{
public:
    int choose(int n); // value in [0,n)
    bool next(); // prepares the next execution; false when the space is exhausted
    void begin() { pos_ = 0; }
    std::string str() const;
    std::uint64_t executions = 0;

private:
    std::vector<std::pair<int, int>> path_; // (choice, arity)
    std::size_t pos_ = 0;
};

// runs body once per path of the choice tree
template <class F>
std::uint64_t dfs(F const& body)
{
    Dfs d;
    do {
        d.begin();
        body(d);
        ++d.executions;
    } while (d.next());
    return d.executions;
}

// relative/absolute comparison, NaN-aware
bool close(double a, double b, double rtol, double atol = 0);

} // namespace vh

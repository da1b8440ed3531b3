#include "kmpi.hpp"

#include <cxxabi.h>
#include <ucontext.h>

#include <algorithm>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <typeinfo>

#include "kshim_runtime.hpp"

struct kmpi_comm
{
    int id = 0;
    bool self = false;
    std::vector<int> members; // world ranks, in rank order
    // Cartesian topology
    bool cart = false;
    std::vector<int> dims, periods;
};
kmpi_comm kmpi_world_obj_, kmpi_self_obj_;

namespace kmpi {

bool g_trace_on = false;
std::vector<std::string> g_trace;

namespace {

struct Killed
{
};

struct Message
{
    int src, tag;
    MPI_Datatype type;
    std::vector<char> data;
    std::shared_ptr<bool> received;
};
struct RecvPost
{
    int src, tag; // comm ranks
    MPI_Datatype type;
    void* buf;
    std::size_t bytes;
    bool done = false;
    MPI_Status st {};
};
} // namespace
} // namespace kmpi

struct kmpi_request
{
    bool is_send = false;
    std::shared_ptr<bool> received;
    std::shared_ptr<kmpi::RecvPost> recv;
    void const* buf = nullptr;
    std::vector<char> snapshot;
};

namespace kmpi {
namespace {

struct Coll
{
    std::string sig;
    int arrived = 0, left = 0;
    std::vector<void const*> in;
    std::vector<void*> out;
    std::vector<std::vector<long>> iv;
    std::vector<bool> here;
    bool done = false;
    std::map<int, kmpi_comm*> newcomm;
};

struct Proc
{
    ucontext_t uc {};
    std::unique_ptr<char[]> stack;
    bool done = false, started = false, ok = false;
    std::function<bool()> blocked; // returns true when it may go on
    std::string blocked_on;
    std::string exc;
    std::exception_ptr eptr;
    __cxxabiv1::__cxa_eh_globals* dummy = nullptr;
    void* eh_caught = nullptr;
    unsigned eh_uncaught = 0;
    kshim::Context kctx;
    bool init = false, fin = false, killed = false;
    std::map<int, long> collseq; // per communicator
    std::set<kmpi_comm*> owned;
    void* user[8] = {};
};

struct World
{
    Options o;
    Result r;
    std::vector<std::unique_ptr<Proc>> p;
    int cur = -1;
    ucontext_t main_uc {};
    void* eh_caught = nullptr;
    unsigned eh_uncaught = 0;
    kshim::Context* main_kctx = nullptr;
    std::function<void(int)> const* body = nullptr;
    bool aborting = false;
    int nextcomm = 2;
    int preempt_left = 0;
    std::vector<std::unique_ptr<kmpi_comm>> comms;
    std::set<kmpi_comm*> alive;
    // (comm id, destination rank) -> messages and posted receives
    std::map<std::pair<int, int>, std::deque<Message>> box;
    std::map<std::pair<int, int>, std::deque<std::shared_ptr<RecvPost>>> posts;
    std::map<std::pair<int, long>, std::unique_ptr<Coll>> colls;
};
World* W = nullptr;

struct EhGlobals
{
    void* caught;
    unsigned uncaught;
};
void save_eh(void*& c, unsigned& u)
{
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    c = g->caught;
    u = g->uncaught;
}
void load_eh(void* c, unsigned u)
{
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    g->caught = c;
    g->uncaught = u;
}

Proc& me()
{
    return *W->p[W->cur];
}

void to_scheduler()
{
    Proc& p = me();
    save_eh(p.eh_caught, p.eh_uncaught);
    swapcontext(&p.uc, &W->main_uc);
}

[[noreturn]] void misuse(std::string const& s)
{
    if (W) {
        if (W->r.error.empty()) {
            W->r.error = "rank " + std::to_string(W->cur) + ": " + s;
        }
        W->aborting = true;
        me().killed = true;
        throw Killed {};
    }
    throw std::logic_error("MPI: " + s);
}

// every MPI call starts here; returns false when the call must be a no-op
bool enter(char const* name)
{
    if (W == nullptr) {
        return true;
    }
    Proc& p = me();
    if (p.killed) {
        return false;
    }
    ++W->r.ops;
    if (g_trace_on) {
        g_trace.push_back(std::to_string(W->cur) + ":" + name);
    }
    if (W->r.ops > W->o.max_ops) {
        misuse("too many MPI operations");
    }
    if (W->o.explore) {
        to_scheduler();
        if (W->aborting) {
            p.killed = true;
            if (std::strcmp(name, "MPI_Finalize") == 0 || std::strcmp(name, "MPI_Comm_free") == 0) {
                return false;
            }
            throw Killed {};
        }
    }
    return true;
}

// returns false when killed inside a call that must not throw
bool block(std::string const& what, std::function<bool()> cond, bool nothrow = false)
{
    Proc& p = me();
    while (!cond()) {
        p.blocked = cond;
        p.blocked_on = what;
        to_scheduler();
        p.blocked = nullptr;
        if (W->aborting) {
            p.killed = true;
            if (nothrow) {
                return false;
            }
            throw Killed {};
        }
    }
    return true;
}

std::size_t tsize(MPI_Datatype t)
{
    switch (t) {
    case MPI_CHAR:
    case MPI_SIGNED_CHAR:
    case MPI_UNSIGNED_CHAR:
    case MPI_BYTE:
    case MPI_CXX_BOOL:
    case MPI_C_BOOL:
    case MPI_INT8_T:
    case MPI_UINT8_T:
        return 1;
    case MPI_SHORT:
        return 2;
    case MPI_INT:
    case MPI_UNSIGNED:
    case MPI_FLOAT:
    case MPI_INT32_T:
    case MPI_UINT32_T:
        return 4;
    case MPI_LONG:
    case MPI_UNSIGNED_LONG:
    case MPI_LONG_LONG:
    case MPI_LONG_LONG_INT:
    case MPI_UNSIGNED_LONG_LONG:
    case MPI_DOUBLE:
    case MPI_INT64_T:
    case MPI_UINT64_T:
        return 8;
    default:
        misuse("invalid datatype");
    }
}

int rank_in(kmpi_comm* c)
{
    if (c->self) {
        return 0;
    }
    if (W == nullptr) {
        return 0;
    }
    for (std::size_t i = 0; i < c->members.size(); ++i) {
        if (c->members[i] == W->cur) {
            return static_cast<int>(i);
        }
    }
    misuse("process is not a member of the communicator");
}
int size_of(kmpi_comm* c)
{
    if (c->self || W == nullptr) {
        return 1;
    }
    return static_cast<int>(c->members.size());
}
kmpi_comm* check(kmpi_comm* c)
{
    if (c == nullptr) {
        misuse("use of MPI_COMM_NULL");
    }
    if (W && c != &kmpi_world_obj_ && c != &kmpi_self_obj_ && W->alive.count(c) == 0) {
        misuse("use of a freed or invalid communicator");
    }
    if (W && !me().init) {
        misuse("MPI used before MPI_Init");
    }
    if (W && me().fin) {
        misuse("MPI used after MPI_Finalize");
    }
    return c;
}

template <class T>
void comb(T* a, T const* b, int n, MPI_Op op)
{
    for (int i = 0; i < n; ++i) {
        switch (op) {
        case MPI_SUM:
            a[i] = static_cast<T>(a[i] + b[i]);
            break;
        case MPI_PROD:
            a[i] = static_cast<T>(a[i] * b[i]);
            break;
        case MPI_MIN:
            a[i] = b[i] < a[i] ? b[i] : a[i];
            break;
        case MPI_MAX:
            a[i] = b[i] > a[i] ? b[i] : a[i];
            break;
        case MPI_LAND:
            a[i] = static_cast<T>(a[i] && b[i]);
            break;
        case MPI_LOR:
            a[i] = static_cast<T>(a[i] || b[i]);
            break;
        case MPI_BAND:
        case MPI_BOR:
            if constexpr (std::is_integral_v<T>) {
                a[i] = static_cast<T>(op == MPI_BAND ? (a[i] & b[i]) : (a[i] | b[i]));
                break;
            }
            [[fallthrough]];
        default:
            misuse("invalid reduction operation");
        }
    }
}
void combine(std::vector<char>& a, char const* b, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t) {
    case MPI_DOUBLE:
        comb(reinterpret_cast<double*>(a.data()), reinterpret_cast<double const*>(b), n, op);
        break;
    case MPI_FLOAT:
        comb(reinterpret_cast<float*>(a.data()), reinterpret_cast<float const*>(b), n, op);
        break;
    case MPI_INT:
    case MPI_INT32_T:
        comb(reinterpret_cast<int*>(a.data()), reinterpret_cast<int const*>(b), n, op);
        break;
    case MPI_UNSIGNED:
    case MPI_UINT32_T:
        comb(reinterpret_cast<unsigned*>(a.data()), reinterpret_cast<unsigned const*>(b), n, op);
        break;
    case MPI_LONG:
    case MPI_LONG_LONG:
    case MPI_LONG_LONG_INT:
    case MPI_INT64_T:
        comb(reinterpret_cast<long*>(a.data()), reinterpret_cast<long const*>(b), n, op);
        break;
    case MPI_UNSIGNED_LONG:
    case MPI_UNSIGNED_LONG_LONG:
    case MPI_UINT64_T:
        comb(reinterpret_cast<unsigned long*>(a.data()), reinterpret_cast<unsigned long const*>(b), n, op);
        break;
    case MPI_CXX_BOOL:
    case MPI_C_BOOL:
        comb(reinterpret_cast<bool*>(a.data()), reinterpret_cast<bool const*>(b), n, op);
        break;
    default:
        comb(a.data(), b, n, op);
    }
}
std::vector<char> reduce_all(std::vector<std::vector<char>> const& v, int n, MPI_Datatype t, MPI_Op op)
{
    int const k = static_cast<int>(v.size());
    int const mode = W ? W->o.reduce_order : 0;
    if (mode == 2) {
        std::vector<std::vector<char>> w = v;
        while (w.size() > 1) {
            std::vector<std::vector<char>> x;
            for (std::size_t i = 0; i + 1 < w.size(); i += 2) {
                auto a = w[i];
                combine(a, w[i + 1].data(), n, t, op);
                x.push_back(a);
            }
            if (w.size() % 2) {
                x.push_back(w.back());
            }
            w = x;
        }
        return w[0];
    }
    std::vector<int> ord(k);
    for (int i = 0; i < k; ++i) {
        ord[i] = mode == 1 ? k - 1 - i : mode == 3 ? (i + k / 2) % k : i;
    }
    auto a = v[ord[0]];
    for (int i = 1; i < k; ++i) {
        combine(a, v[ord[i]].data(), n, t, op);
    }
    return a;
}

// generic collective; finish(coll) runs when everybody has arrived
bool coll(
        kmpi_comm* c,
        std::string const& sig,
        void const* in,
        void* out,
        std::vector<long> iv,
        std::function<void(Coll&)> const& finish,
        kmpi_comm** newc = nullptr,
        bool nothrow = false)
{
    int const n = size_of(c);
    kshim::library_access(in, 0, "MPI");
    kshim::library_access(out, 0, "MPI");
    if (n == 1 || W == nullptr) {
        Coll k;
        k.in = {in};
        k.out = {out};
        k.iv = {std::move(iv)};
        if (W) {
            finish(k);
            if (newc) {
                *newc = k.newcomm[W->cur];
            }
        } else {
            finish(k);
        }
        return true;
    }
    Proc& p = me();
    long const seq = p.collseq[c->id]++;
    auto& slot = W->colls[{c->id, seq}];
    int const r = rank_in(c);
    if (!slot) {
        slot = std::make_unique<Coll>();
        slot->sig = sig;
        slot->in.resize(n);
        slot->out.resize(n);
        slot->iv.resize(n);
        slot->here.resize(n);
    }
    Coll& k = *slot;
    if (k.sig != sig) {
        misuse("mismatched collective operations on one communicator: " + k.sig + " and " + sig);
    }
    k.in[r] = in;
    k.out[r] = out;
    k.iv[r] = std::move(iv);
    k.here[r] = true;
    if (++k.arrived == n) {
        finish(k);
        k.done = true;
    }
    if (!block("collective " + sig, [&k] { return k.done; }, nothrow)) {
        return false;
    }
    if (newc) {
        *newc = k.newcomm[W->cur];
    }
    if (++k.left == n) {
        W->colls.erase({c->id, seq});
    }
    return true;
}

kmpi_comm* make_comm(std::vector<int> members)
{
    W->comms.push_back(std::make_unique<kmpi_comm>());
    kmpi_comm* c = W->comms.back().get();
    c->id = W->nextcomm++;
    c->members = std::move(members);
    W->alive.insert(c);
    return c;
}

void fiber_main()
{
    int const r = W->cur;
    {
        Proc& p = me();
        try {
            (*W->body)(r);
            p.ok = true;
            if (p.init && !p.fin && !p.killed && W->r.error.empty()) {
                W->r.error = "rank " + std::to_string(r) + " returned without MPI_Finalize";
            }
        } catch (Killed const&) {
        } catch (std::exception const& e) {
            if (!p.killed) {
                p.exc = e.what();
                if (p.exc.empty()) p.exc = "(exception without text)";
            }
        } catch (...) {
            if (!p.killed) {
                p.exc = "(unknown exception)";
            }
        }
        p.done = true;
        save_eh(p.eh_caught, p.eh_uncaught);
    }
    swapcontext(&W->p[r]->uc, &W->main_uc);
}

std::vector<std::unique_ptr<char[]>> g_stacks;
constexpr std::size_t kstack = 1 << 20;

void resume(int r)
{
    Proc& p = *W->p[r];
    W->cur = r;
    ++W->r.switches;
    save_eh(W->eh_caught, W->eh_uncaught);
    kshim::Context* const old = kshim::ctx;
    kshim::ctx = &p.kctx;
    load_eh(p.eh_caught, p.eh_uncaught);
    if (!p.started) {
        p.started = true;
        getcontext(&p.uc);
        if (!g_stacks.empty()) {
            p.stack = std::move(g_stacks.back());
            g_stacks.pop_back();
        } else {
            p.stack = std::make_unique<char[]>(kstack);
        }
        p.uc.uc_stack.ss_sp = p.stack.get();
        p.uc.uc_stack.ss_size = kstack;
        p.uc.uc_link = &W->main_uc;
        makecontext(&p.uc, &fiber_main, 0);
    }
    swapcontext(&W->main_uc, &p.uc);
    load_eh(W->eh_caught, W->eh_uncaught);
    kshim::ctx = old;
    W->cur = -1;
}

void deliver(kmpi_comm* c, int dest, Message m)
{
    auto& q = W->posts[{c->id, dest}];
    for (auto it = q.begin(); it != q.end(); ++it) {
        RecvPost& rp = **it;
        if ((rp.src == MPI_ANY_SOURCE || rp.src == m.src) && (rp.tag == MPI_ANY_TAG || rp.tag == m.tag)) {
            if (m.data.size() > rp.bytes) {
                misuse("message truncated: " + std::to_string(m.data.size()) + " bytes sent, room for " + std::to_string(rp.bytes));
            }
            if (m.type != rp.type && m.type != MPI_BYTE && rp.type != MPI_BYTE) {
                misuse("datatypes of a send and of the matching receive differ");
            }
            std::memcpy(rp.buf, m.data.data(), m.data.size());
            rp.st = MPI_Status {m.src, m.tag, 0, static_cast<int>(m.data.size())};
            rp.done = true;
            *m.received = true;
            q.erase(it);
            return;
        }
    }
    W->box[{c->id, dest}].push_back(std::move(m));
}
std::shared_ptr<bool> post_send(void const* buf, int count, MPI_Datatype t, int dest, int tag, kmpi_comm* c)
{
    auto rec = std::make_shared<bool>(false);
    if (dest == MPI_PROC_NULL) {
        *rec = true;
        return rec;
    }
    if (dest < 0 || dest >= size_of(c) || count < 0 || tag < 0) {
        misuse("invalid argument of a send (dest " + std::to_string(dest) + ", tag " + std::to_string(tag) + ", count " + std::to_string(count) + ")");
    }
    ++W->r.messages;
    Message m;
    m.src = rank_in(c);
    m.tag = tag;
    m.type = t;
    kshim::library_access(buf, static_cast<std::size_t>(count) * tsize(t), "MPI");
    m.data.assign(static_cast<char const*>(buf), static_cast<char const*>(buf) + static_cast<std::size_t>(count) * tsize(t));
    m.received = rec;
    deliver(c, dest, std::move(m));
    return rec;
}
std::shared_ptr<RecvPost> post_recv(void* buf, int count, MPI_Datatype t, int src, int tag, kmpi_comm* c)
{
    auto rp = std::make_shared<RecvPost>();
    rp->src = src;
    rp->tag = tag;
    rp->type = t;
    rp->buf = buf;
    rp->bytes = static_cast<std::size_t>(count < 0 ? 0 : count) * tsize(t);
    if (src == MPI_PROC_NULL) {
        rp->done = true;
        rp->st = MPI_Status {MPI_PROC_NULL, MPI_ANY_TAG, 0, 0};
        return rp;
    }
    if ((src < 0 && src != MPI_ANY_SOURCE) || src >= size_of(c) || count < 0) {
        misuse("invalid argument of a receive (source " + std::to_string(src) + ")");
    }
    kshim::library_access(buf, rp->bytes, "MPI");
    int const r = rank_in(c);
    auto& q = W->box[{c->id, r}];
    std::vector<std::deque<Message>::iterator> cand;
    std::set<int> seen;
    for (auto it = q.begin(); it != q.end(); ++it) {
        if ((src == MPI_ANY_SOURCE || src == it->src) && (tag == MPI_ANY_TAG || tag == it->tag) && seen.insert(it->src).second) {
            cand.push_back(it);
        }
    }
    if (!cand.empty()) {
        std::size_t pick = 0;
        if (cand.size() > 1 && W->o.choose) {
            ++W->r.choice_points;
            pick = static_cast<std::size_t>(W->o.choose(static_cast<int>(cand.size())));
        }
        Message m = std::move(*cand[pick]);
        q.erase(cand[pick]);
        if (m.data.size() > rp->bytes) {
            misuse("message truncated: " + std::to_string(m.data.size()) + " bytes sent, room for " + std::to_string(rp->bytes));
        }
        if (m.type != t && m.type != MPI_BYTE && t != MPI_BYTE) {
            misuse("datatypes of a send and of the matching receive differ");
        }
        std::memcpy(buf, m.data.data(), m.data.size());
        rp->st = MPI_Status {m.src, m.tag, 0, static_cast<int>(m.data.size())};
        rp->done = true;
        *m.received = true;
        return rp;
    }
    W->posts[{c->id, r}].push_back(rp);
    return rp;
}
void set_status(MPI_Status* s, RecvPost const& rp)
{
    if (s) {
        *s = rp.st;
    }
}

} // namespace

Result run(Options const& o, std::function<void(int)> const& body)
{
    World w;
    w.o = o;
    w.body = &body;
    w.preempt_left = o.preemptions;
    World* const outer = W;
    W = &w;
    kmpi_world_obj_ = kmpi_comm {};
    kmpi_self_obj_ = kmpi_comm {};
    kmpi_self_obj_.self = true;
    kmpi_self_obj_.id = 1;
    for (int i = 0; i < o.nranks; ++i) {
        kmpi_world_obj_.members.push_back(i);
        w.p.push_back(std::make_unique<Proc>());
    }
    w.r.exceptions.resize(o.nranks);
    w.r.finished.resize(o.nranks);
    std::vector<int> prio = o.priority;
    if (prio.empty()) {
        for (int i = 0; i < o.nranks; ++i) prio.push_back(i);
    }
    int last = -1;
    for (;;) {
        std::vector<int> ready;
        bool all = true;
        for (int r : prio) {
            Proc& p = *w.p[r];
            if (p.done) {
                continue;
            }
            all = false;
            if (w.aborting || !p.blocked || p.blocked()) {
                ready.push_back(r);
            }
        }
        if (all) {
            break;
        }
        if (ready.empty()) {
            w.r.deadlock = true;
            bool any_exc = false;
            std::string s = "deadlock:";
            for (int i = 0; i < o.nranks; ++i) {
                if (!w.p[i]->done) {
                    s += " rank " + std::to_string(i) + " waits in " + w.p[i]->blocked_on + ";";
                } else {
                    s += " rank " + std::to_string(i) + (w.p[i]->exc.empty() ? " has finished;" : " has thrown;");
                    any_exc = any_exc || !w.p[i]->exc.empty();
                }
            }
            if (any_exc) {
                w.r.deadlock = false; // the others wait for a process that has failed: the run is aborted
            } else if (w.r.error.empty()) {
                w.r.error = s;
            }
            w.aborting = true;
            continue;
        }
        int pick = ready[0];
        if (!w.aborting && o.explore && ready.size() > 1) {
            auto const cur = std::find(ready.begin(), ready.end(), last);
            if (cur != ready.end()) {
                std::rotate(ready.begin(), cur, cur + 1); // staying first
                if (w.preempt_left > 0) {
                    ++w.r.choice_points;
                    int const k = o.choose(static_cast<int>(ready.size()));
                    if (k != 0) {
                        --w.preempt_left;
                    }
                    pick = ready[k];
                } else {
                    pick = ready[0];
                }
            } else {
                ++w.r.choice_points;
                pick = ready[o.choose(static_cast<int>(ready.size()))];
            }
        }
        last = pick;
        resume(pick);
    }
    for (int i = 0; i < o.nranks; ++i) {
        w.r.exceptions[i] = w.p[i]->exc;
        w.r.finished[i] = w.p[i]->ok && !w.p[i]->killed;
        if (w.p[i]->stack) {
            g_stacks.push_back(std::move(w.p[i]->stack));
        }
    }
    if (w.r.clean()) {
        for (int i = 0; i < o.nranks; ++i) {
            for (kmpi_comm* c : w.p[i]->owned) {
                w.r.leaks.push_back("rank " + std::to_string(i) + " does not free communicator " + std::to_string(c->id));
            }
        }
        for (auto const& [k, q] : w.box) {
            if (!q.empty()) {
                w.r.leaks.push_back("a message to rank " + std::to_string(k.second) + " is never received");
            }
        }
        for (auto const& [k, q] : w.posts) {
            if (!q.empty()) {
                w.r.leaks.push_back("a receive posted by rank " + std::to_string(k.second) + " is never matched");
            }
        }
    }
    W = outer;
    return w.r;
}

int world_rank()
{
    return W ? W->cur : 0;
}
int world_size()
{
    return W ? W->o.nranks : 1;
}
bool inside()
{
    return W != nullptr;
}
void visible_op(char const* what)
{
    enter(what);
}
void collective(MPI_Comm c, char const* what, std::function<void()> const& body)
{
    if (!enter(what)) {
        return;
    }
    check(c);
    coll(c, what, nullptr, nullptr, {}, [&](Coll&) { body(); });
}
std::size_t communicators()
{
    return W ? me().owned.size() : 0;
}
void*& user_slot(int i)
{
    static void* alone[8] = {};
    return W ? me().user[i] : alone[i];
}

} // namespace kmpi

using namespace kmpi;

#define ENTER(NAME) \
    if (!enter(#NAME)) return 0

extern "C" {

int MPI_Init(int*, char***)
{
    if (W) {
        if (me().init) {
            misuse("MPI_Init called twice");
        }
        me().init = true;
        kshim::life_event("MPI_Init");
    }
    return 0;
}
int MPI_Init_thread(int* a, char*** b, int required, int* provided)
{
    if (provided) *provided = required;
    return MPI_Init(a, b);
}
int MPI_Initialized(int* f)
{
    *f = W ? me().init : 1;
    return 0;
}
int MPI_Finalize(void)
{
    if (W == nullptr || me().killed) {
        return 0;
    }
    if (!enter("MPI_Finalize")) {
        return 0;
    }
    kshim::life_event("MPI_Finalize");
    if (kshim::ctx->life) kshim::ctx->life->communicators_left = me().owned.size();
    if (std::uncaught_exceptions() > 0) {
        // unwinding an error: the process is about to die, its peers would be aborted with it
        me().fin = true;
        return 0;
    }
    coll(&kmpi_world_obj_, "MPI_Finalize", nullptr, nullptr, {}, [](Coll&) {}, nullptr, true);
    me().fin = true;
    return 0;
}
int MPI_Finalized(int* f)
{
    *f = W ? me().fin : 0;
    return 0;
}
int MPI_Abort(MPI_Comm, int code)
{
    misuse("MPI_Abort(" + std::to_string(code) + ")");
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
    ENTER(MPI_Comm_size);
    *n = size_of(check(c));
    return 0;
}
int MPI_Comm_rank(MPI_Comm c, int* r)
{
    if (W && me().killed) {
        *r = 0;
        return 0;
    }
    *r = rank_in(check(c));
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out)
{
    ENTER(MPI_Comm_dup);
    check(c);
    coll(
            c, "MPI_Comm_dup", nullptr, nullptr, {},
            [c](Coll& k) {
                kmpi_comm* n = make_comm(c->self ? std::vector<int> {W->cur} : c->members);
                n->cart = c->cart;
                n->dims = c->dims;
                n->periods = c->periods;
                for (int m : n->members) k.newcomm[m] = n;
            },
            out);
    me().owned.insert(*out);
    return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out)
{
    ENTER(MPI_Comm_split);
    check(c);
    coll(
            c, "MPI_Comm_split", nullptr, nullptr, {color, key},
            [c](Coll& k) {
                std::map<long, std::vector<std::pair<long, int>>> g;
                for (std::size_t i = 0; i < k.iv.size(); ++i) {
                    if (k.iv[i][0] != MPI_UNDEFINED) g[k.iv[i][0]].push_back({k.iv[i][1], static_cast<int>(i)});
                }
                for (auto& [col, v] : g) {
                    std::stable_sort(v.begin(), v.end());
                    std::vector<int> mem;
                    for (auto& [kk, i] : v) mem.push_back(c->self ? W->cur : c->members[i]);
                    kmpi_comm* n = make_comm(mem);
                    for (int m : mem) k.newcomm[m] = n;
                }
            },
            out);
    if (*out) me().owned.insert(*out);
    return 0;
}
int MPI_Comm_free(MPI_Comm* c)
{
    if (W == nullptr || me().killed) {
        if (c) *c = nullptr;
        return 0;
    }
    if (!enter("MPI_Comm_free")) {
        return 0;
    }
    if (*c == nullptr || *c == &kmpi_world_obj_ || *c == &kmpi_self_obj_) {
        misuse("MPI_Comm_free of a predefined or null communicator");
    }
    if (me().fin) {
        misuse("MPI_Comm_free after MPI_Finalize");
    }
    if (me().owned.erase(*c) == 0) {
        misuse("MPI_Comm_free of a communicator that was freed already");
    }
    *c = nullptr;
    return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler)
{
    return 0;
}
int MPI_Dims_create(int n, int nd, int* dims)
{
    // as balanced as possible, non-increasing
    int rest = n;
    std::vector<int> free_;
    for (int i = 0; i < nd; ++i) {
        if (dims[i] < 0) misuse("MPI_Dims_create: negative dimension");
        if (dims[i] > 0) {
            if (rest % dims[i]) misuse("MPI_Dims_create: the number of processes " + std::to_string(n) + " is not a multiple of the imposed dimensions");
            rest /= dims[i];
        } else {
            free_.push_back(i);
        }
    }
    if (free_.empty()) {
        if (rest != 1) misuse("MPI_Dims_create: the imposed dimensions do not match the number of processes");
        return 0;
    }
    std::vector<int> best, cur(free_.size(), 1);
    std::function<void(std::size_t, int, int)> rec = [&](std::size_t i, int left, int maxf) {
        if (i + 1 == free_.size()) {
            if (left <= maxf) {
                cur[i] = left;
                if (best.empty() || cur[0] - cur.back() < best[0] - best.back() || (cur[0] - cur.back() == best[0] - best.back() && cur[0] < best[0])) best = cur;
            }
            return;
        }
        for (int f = std::min(left, maxf); f >= 1; --f) {
            if (left % f == 0) {
                cur[i] = f;
                rec(i + 1, left / f, f);
            }
        }
    };
    rec(0, rest, rest);
    for (std::size_t i = 0; i < free_.size(); ++i) dims[free_[i]] = best[i];
    return 0;
}
int MPI_Cart_create(MPI_Comm c, int nd, int const* dims, int const* periods, int reorder, MPI_Comm* out)
{
    ENTER(MPI_Cart_create);
    check(c);
    std::vector<int> d(dims, dims + nd), pe(periods, periods + nd);
    std::string sig = "MPI_Cart_create(";
    long total = 1;
    for (int i = 0; i < nd; ++i) {
        sig += std::to_string(d[i]) + (pe[i] ? "p" : "") + ",";
        total *= d[i];
        if (d[i] <= 0) misuse("MPI_Cart_create: non positive dimension");
    }
    sig += reorder ? "reorder)" : ")";
    if (total > size_of(c)) {
        misuse("MPI_Cart_create: topology of " + std::to_string(total) + " processes in a communicator of " + std::to_string(size_of(c)));
    }
    coll(
            c, sig, nullptr, nullptr, {},
            [&](Coll& k) {
                std::vector<int> mem = c->self ? std::vector<int> {W ? W->cur : 0} : c->members;
                if (W == nullptr) mem = {0};
                mem.resize(total);
                if (reorder && W && W->o.cart_perm.size() == mem.size()) {
                    std::vector<int> m2(mem.size());
                    for (std::size_t i = 0; i < mem.size(); ++i) m2[i] = mem[W->o.cart_perm[i]];
                    mem = m2;
                }
                kmpi_comm* n = nullptr;
                if (W) {
                    n = make_comm(mem);
                } else {
                    n = new kmpi_comm;
                    n->self = true;
                }
                n->cart = true;
                n->dims = d;
                n->periods = pe;
                for (int m : mem) k.newcomm[m] = n;
                if (!W) *out = n;
            },
            W ? out : nullptr);
    if (W && *out) me().owned.insert(*out);
    return 0;
}
int MPI_Cart_coords(MPI_Comm c, int r, int nd, int* co)
{
    ENTER(MPI_Cart_coords);
    check(c);
    if (!c->cart || nd < static_cast<int>(c->dims.size()) || r < 0 || r >= size_of(c)) misuse("MPI_Cart_coords: invalid argument");
    for (int i = static_cast<int>(c->dims.size()) - 1; i >= 0; --i) {
        co[i] = r % c->dims[i];
        r /= c->dims[i];
    }
    return 0;
}
int MPI_Cart_rank(MPI_Comm c, int const* co, int* r)
{
    ENTER(MPI_Cart_rank);
    check(c);
    if (!c->cart) misuse("MPI_Cart_rank: no topology");
    int k = 0;
    for (std::size_t i = 0; i < c->dims.size(); ++i) {
        int x = co[i];
        if (x < 0 || x >= c->dims[i]) {
            if (!c->periods[i]) misuse("MPI_Cart_rank: coordinate out of range");
            x = ((x % c->dims[i]) + c->dims[i]) % c->dims[i];
        }
        k = k * c->dims[i] + x;
    }
    *r = k;
    return 0;
}
int MPI_Cart_get(MPI_Comm c, int nd, int* dims, int* periods, int* co)
{
    ENTER(MPI_Cart_get);
    check(c);
    if (!c->cart || nd < static_cast<int>(c->dims.size())) misuse("MPI_Cart_get: invalid argument");
    for (std::size_t i = 0; i < c->dims.size(); ++i) {
        dims[i] = c->dims[i];
        periods[i] = c->periods[i];
    }
    return MPI_Cart_coords(c, rank_in(c), nd, co);
}
int MPI_Cartdim_get(MPI_Comm c, int* n)
{
    check(c);
    *n = static_cast<int>(c->dims.size());
    return 0;
}
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dst)
{
    ENTER(MPI_Cart_shift);
    check(c);
    if (!c->cart || dir < 0 || dir >= static_cast<int>(c->dims.size())) misuse("MPI_Cart_shift: invalid direction");
    int const r = rank_in(c);
    std::vector<int> co(c->dims.size());
    {
        int q = r;
        for (int i = static_cast<int>(c->dims.size()) - 1; i >= 0; --i) {
            co[i] = q % c->dims[i];
            q /= c->dims[i];
        }
    }
    auto const at = [&](int x) {
        if (x < 0 || x >= c->dims[dir]) {
            if (!c->periods[dir]) return MPI_PROC_NULL;
            x = ((x % c->dims[dir]) + c->dims[dir]) % c->dims[dir];
        }
        int k = 0;
        for (std::size_t i = 0; i < co.size(); ++i) k = k * c->dims[i] + (static_cast<int>(i) == dir ? x : co[i]);
        return k;
    };
    *src = at(co[dir] - disp);
    *dst = at(co[dir] + disp);
    return 0;
}
int MPI_Cart_sub(MPI_Comm c, int const* remain, MPI_Comm* out)
{
    ENTER(MPI_Cart_sub);
    check(c);
    if (!c->cart) misuse("MPI_Cart_sub: no topology");
    std::vector<long> rem(remain, remain + c->dims.size());
    std::string sig = "MPI_Cart_sub(";
    for (long r : rem) sig += r ? "1" : "0";
    sig += ")";
    coll(
            c, sig, nullptr, nullptr, {},
            [&](Coll& k) {
                std::map<std::vector<int>, std::vector<int>> groups;
                int const n = size_of(c);
                for (int i = 0; i < n; ++i) {
                    std::vector<int> co(c->dims.size());
                    int q = i;
                    for (int d = static_cast<int>(c->dims.size()) - 1; d >= 0; --d) {
                        co[d] = q % c->dims[d];
                        q /= c->dims[d];
                    }
                    std::vector<int> key;
                    for (std::size_t d = 0; d < co.size(); ++d)
                        if (!rem[d]) key.push_back(co[d]);
                    groups[key].push_back(W ? c->members[i] : 0);
                }
                for (auto& [key, mem] : groups) {
                    kmpi_comm* s = nullptr;
                    if (W) {
                        s = make_comm(mem);
                    } else {
                        s = new kmpi_comm;
                        s->self = true;
                        *out = s;
                    }
                    s->cart = true;
                    for (std::size_t d = 0; d < c->dims.size(); ++d) {
                        if (rem[d]) {
                            s->dims.push_back(c->dims[d]);
                            s->periods.push_back(c->periods[d]);
                        }
                    }
                    for (int m : mem) k.newcomm[m] = s;
                }
            },
            W ? out : nullptr);
    if (W && *out) me().owned.insert(*out);
    return 0;
}

int MPI_Send(void const* buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c)
{
    ENTER(MPI_Send);
    check(c);
    auto rec = post_send(buf, n, t, dest, tag, c);
    if (W->o.rendezvous) block("MPI_Send to " + std::to_string(dest), [rec] { return *rec; });
    return 0;
}
int MPI_Ssend(void const* buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c)
{
    ENTER(MPI_Ssend);
    check(c);
    auto rec = post_send(buf, n, t, dest, tag, c);
    block("MPI_Ssend to " + std::to_string(dest), [rec] { return *rec; });
    return 0;
}
int MPI_Recv(void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
    ENTER(MPI_Recv);
    check(c);
    auto rp = post_recv(buf, n, t, src, tag, c);
    block("MPI_Recv from " + std::to_string(src), [rp] { return rp->done; });
    set_status(st, *rp);
    return 0;
}
int MPI_Isend(void const* buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* rq)
{
    ENTER(MPI_Isend);
    check(c);
    *rq = new kmpi_request;
    (*rq)->is_send = true;
    (*rq)->buf = buf;
    (*rq)->snapshot.assign(static_cast<char const*>(buf), static_cast<char const*>(buf) + static_cast<std::size_t>(n) * tsize(t));
    (*rq)->received = post_send(buf, n, t, dest, tag, c);
    return 0;
}
int MPI_Irecv(void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* rq)
{
    ENTER(MPI_Irecv);
    check(c);
    *rq = new kmpi_request;
    (*rq)->recv = post_recv(buf, n, t, src, tag, c);
    return 0;
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st)
{
    if (*rq == nullptr) return 0;
    ENTER(MPI_Wait);
    kmpi_request* q = *rq;
    if (q->is_send) {
        if (!q->snapshot.empty() && std::memcmp(q->snapshot.data(), q->buf, q->snapshot.size()) != 0) misuse("send buffer modified before the completion of the send");
        auto rec = q->received;
        if (W->o.rendezvous) block("MPI_Wait (send)", [rec] { return *rec; });
    } else {
        auto rp = q->recv;
        block("MPI_Wait (receive)", [rp] { return rp->done; });
        set_status(st, *rp);
    }
    delete q;
    *rq = nullptr;
    return 0;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st)
{
    for (int i = 0; i < n; ++i) MPI_Wait(rq + i, st ? st + i : nullptr);
    return 0;
}
int MPI_Sendrecv(void const* sb, int sn, MPI_Datatype stt, int dest, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
    ENTER(MPI_Sendrecv);
    check(c);
    if (W == nullptr) {
        if (dest != MPI_PROC_NULL) std::memmove(rb, sb, static_cast<std::size_t>(sn) * tsize(stt));
        return 0;
    }
    auto rec = post_send(sb, sn, stt, dest, stag, c);
    auto rp = post_recv(rb, rn, rt, src, rtag, c);
    bool const rv = W->o.rendezvous;
    block("MPI_Sendrecv to " + std::to_string(dest) + " from " + std::to_string(src), [rec, rp, rv] { return rp->done && (!rv || *rec); });
    set_status(st, *rp);
    return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int dest, int stag, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
    ENTER(MPI_Sendrecv_replace);
    check(c);
    if (W == nullptr) return 0;
    auto rec = post_send(b, n, t, dest, stag, c);
    auto rp = post_recv(b, n, t, src, rtag, c);
    bool const rv = W->o.rendezvous;
    block("MPI_Sendrecv_replace to " + std::to_string(dest) + " from " + std::to_string(src) + " (tags " + std::to_string(stag) + "," + std::to_string(rtag) + ")",
          [rec, rp, rv] { return rp->done && (!rv || *rec); });
    set_status(st, *rp);
    return 0;
}
int MPI_Get_count(MPI_Status const* s, MPI_Datatype t, int* n)
{
    *n = s->kcount / static_cast<int>(tsize(t));
    return 0;
}
int MPI_Barrier(MPI_Comm c)
{
    ENTER(MPI_Barrier);
    coll(check(c), "MPI_Barrier", nullptr, nullptr, {}, [](Coll&) {});
    return 0;
}
static std::string csig(char const* n, long a, long b = 0, long d = 0, long e = 0)
{
    return std::string(n) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + "," + std::to_string(e) + ")";
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    ENTER(MPI_Bcast);
    check(c);
    if (root < 0 || root >= size_of(c)) misuse("MPI_Bcast: invalid root");
    std::size_t const bytes = static_cast<std::size_t>(n) * tsize(t);
    coll(c, csig("MPI_Bcast", static_cast<long>(bytes), t, root), b, b, {}, [&](Coll& k) {
        for (std::size_t i = 0; i < k.out.size(); ++i) {
            if (static_cast<int>(i) != root) std::memcpy(k.out[i], k.in[root], bytes);
        }
    });
    return 0;
}
static int reduce_impl(char const* name, void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, int scan)
{
    std::size_t const bytes = static_cast<std::size_t>(n) * tsize(t);
    int const me_ = rank_in(c);
    void const* in = s == MPI_IN_PLACE ? r : s;
    if (s == MPI_IN_PLACE && root >= 0 && root != me_) misuse("MPI_IN_PLACE used outside of the root");
    coll(c, csig(name, n, t, op, root), in, r, {}, [&](Coll& k) {
        std::vector<std::vector<char>> v;
        for (auto const* p : k.in) v.emplace_back(static_cast<char const*>(p), static_cast<char const*>(p) + bytes);
        if (scan == 0) {
            auto const a = reduce_all(v, n, t, op);
            for (std::size_t i = 0; i < k.out.size(); ++i) {
                if (root < 0 || static_cast<int>(i) == root) std::memcpy(k.out[i], a.data(), bytes);
            }
        } else {
            std::vector<std::vector<char>> acc;
            for (std::size_t i = 0; i < v.size(); ++i) {
                acc.push_back(v[i]);
                if (i > 0) {
                    acc[i] = acc[i - 1];
                    combine(acc[i], v[i].data(), n, t, op);
                }
            }
            for (std::size_t i = 0; i < k.out.size(); ++i) {
                if (scan == 1) std::memcpy(k.out[i], acc[i].data(), bytes);
                else if (i > 0) std::memcpy(k.out[i], acc[i - 1].data(), bytes);
            }
        }
    });
    return 0;
}
int MPI_Reduce(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    ENTER(MPI_Reduce);
    return reduce_impl("MPI_Reduce", s, r, n, t, op, root, check(c), 0);
}
int MPI_Allreduce(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    ENTER(MPI_Allreduce);
    return reduce_impl("MPI_Allreduce", s, r, n, t, op, -1, check(c), 0);
}
int MPI_Scan(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    ENTER(MPI_Scan);
    return reduce_impl("MPI_Scan", s, r, n, t, op, -1, check(c), 1);
}
int MPI_Exscan(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    ENTER(MPI_Exscan);
    return reduce_impl("MPI_Exscan", s, r, n, t, op, -1, check(c), 2);
}
static int gatherv_impl(char const* name, void const* s, int sn, MPI_Datatype st, void* r, int const* rn, int const* disp, int rn1, MPI_Datatype rt, int root, MPI_Comm c)
{
    int const n = size_of(c);
    int const me_ = rank_in(c);
    struct Arg
    {
        std::vector<long> cnt, off;
    };
    std::vector<long> iv {static_cast<long>(sn) * static_cast<long>(tsize(st)), s == MPI_IN_PLACE};
    bool const recv_here = root < 0 || root == me_;
    for (int i = 0; i < n; ++i) {
        long const b = static_cast<long>(tsize(rt));
        iv.push_back(recv_here ? (rn ? rn[i] : rn1) * b : 0);
        iv.push_back(recv_here ? (disp ? disp[i] : i * rn1) * b : 0);
    }
    coll(c, csig(name, root), s, r, iv, [&](Coll& k) {
        for (int d = 0; d < n; ++d) {
            if (root >= 0 && d != root) continue;
            for (int i = 0; i < n; ++i) {
                long const cnt = k.iv[d][2 + 2 * i], off = k.iv[d][3 + 2 * i];
                if (k.iv[i][1]) {
                    if (d != i && root < 0) std::memcpy(static_cast<char*>(k.out[d]) + off, static_cast<char const*>(k.out[i]) + k.iv[i][3 + 2 * i], cnt);
                    continue;
                }
                if (k.iv[i][0] != cnt) misuse(std::string(name) + ": sizes differ");
                std::memmove(static_cast<char*>(k.out[d]) + off, k.in[i], cnt);
            }
        }
    });
    return 0;
}
int MPI_Gather(void const* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    ENTER(MPI_Gather);
    return gatherv_impl("MPI_Gather", s, sn, st, r, nullptr, nullptr, rn, rt, root, check(c));
}
int MPI_Allgather(void const* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    ENTER(MPI_Allgather);
    return gatherv_impl("MPI_Allgather", s, sn, st, r, nullptr, nullptr, rn, rt, -1, check(c));
}
int MPI_Gatherv(void const* s, int sn, MPI_Datatype st, void* r, int const* rn, int const* d, MPI_Datatype rt, int root, MPI_Comm c)
{
    ENTER(MPI_Gatherv);
    return gatherv_impl("MPI_Gatherv", s, sn, st, r, rn, d, 0, rt, root, check(c));
}
int MPI_Allgatherv(void const* s, int sn, MPI_Datatype st, void* r, int const* rn, int const* d, MPI_Datatype rt, MPI_Comm c)
{
    ENTER(MPI_Allgatherv);
    return gatherv_impl("MPI_Allgatherv", s, sn, st, r, rn, d, 0, rt, -1, check(c));
}
int MPI_Scatter(void const* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    ENTER(MPI_Scatter);
    check(c);
    std::size_t const bytes = static_cast<std::size_t>(rn) * tsize(rt);
    (void)sn;
    (void)st;
    coll(c, csig("MPI_Scatter", static_cast<long>(bytes), root), s, r, {}, [&](Coll& k) {
        for (std::size_t i = 0; i < k.out.size(); ++i) {
            if (k.out[i] != MPI_IN_PLACE) std::memcpy(k.out[i], static_cast<char const*>(k.in[root]) + i * bytes, bytes);
        }
    });
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int* n)
{
    *n = static_cast<int>(tsize(t));
    return 0;
}
int MPI_Get_processor_name(char* s, int* n)
{
    std::strcpy(s, "kmpi");
    *n = 4;
    return 0;
}
double MPI_Wtime(void)
{
    static double t = 0;
    return t += 1e-6;
}
}

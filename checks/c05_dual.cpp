// C05: a dual array shows the last write, wherever it was made.
#include "vh.hpp"

#include <array>
#include <cmath>
#include <iostream>

#include <Kokkos_Core.hpp>
#include <dual_view.hpp>
#include <kokkos_shortcut.hpp>

namespace {

using namespace hclpp;

constexpr int N = 3;

// what the property says about one array
struct Model
{
    std::array<double, N> side[2] {}; // device, host; NaN: nothing is promised
    int newer = -1; // side written last without the other knowing
    std::uint64_t copies = 0; // how many are needed
    bool shared = false; // one memory
    void sync(int s)
    {
        if (newer == 1 - s) {
            if (!shared) side[s] = side[1 - s];
            newer = -1;
            ++copies;
        }
    }
    void put(int s, int q, double v)
    {
        side[s][static_cast<std::size_t>(q)] = v;
        if (shared) side[1 - s][static_cast<std::size_t>(q)] = v;
    }
};

enum Kind { read, rw_add, rw_default, discard_all, discard_part, discard_none, sync, clear };

template <class DV, class CDV, bool SHARED>
struct Machine
{
    DV h[2];
    CDV c;
    std::shared_ptr<Model> m[2];
    std::shared_ptr<Model> mc;
    double next = 1;
    std::string error;
    std::uint64_t copies0 = 0;

    Machine()
    {
        h[0] = DV("first", N);
        h[1] = DV("second", N);
        for (auto& x : m) {
            x = std::make_shared<Model>();
            x->shared = SHARED;
        }
        c = h[0].const_view();
        mc = m[0];
        copies0 = kshim::n_copies;
    }
    void bad(std::string const& s)
    {
        if (error.empty()) error = s;
    }
    template <class V>
    void compare(V const& v, Model const& k, int s, char const* what)
    {
        kshim::fence();
        if (v.extent_int(0) != N) bad("extent");
        for (int q = 0; q < N; ++q) {
            double const e = k.side[s][static_cast<std::size_t>(q)];
            if (!std::isnan(e) && v.data()[q] != e) bad(vh::cat(what, s ? " host" : " device", " element ", q, ": ", v.data()[q], " instead of ", e));
        }
    }
    template <access_target AT>
    void op(DV& d, Model& k, Kind kind)
    {
        AccessTargetTag<AT> const t;
        int const s = AT == access_target::host ? 1 : 0;
        bool const stale = k.newer == 1 - s;
        if (d.need_synchronization(t) != stale) bad("need of synchronisation");
        std::uint64_t const before = kshim::n_copies;
        switch (kind) {
        case read: {
            k.sync(s);
            auto const v = d(t, read_only);
            static_assert(std::is_const_v<typename std::remove_cvref_t<decltype(v)>::value_type>);
            compare(v, k, s, "read_only");
            break;
        }
        case rw_add:
        case rw_default: {
            k.sync(s);
            auto v = [&] {
                if (kind == rw_default) return d(t);
                return d(t, read_write);
            }();
            compare(v, k, s, "read_write");
            k.newer = s;
            int const q = static_cast<int>(next) % N;
            double const x = next++;
            write(AccessTargetTag<AT> {}, v, q, x);
            k.put(s, q, x);
            break;
        }
        case discard_all:
        case discard_part:
        case discard_none: {
            auto const v = d(t, discard_write);
            if (SHARED && stale) k.side[s] = k.side[1 - s];
            k.newer = s;
            for (int q = 0; q < N; ++q) k.put(s, q, std::nan(""));
            for (int q = 0; q < N; ++q) {
                if (kind == discard_none || (kind == discard_part && q != static_cast<int>(next) % N)) continue;
                double const x = next + 0.25 * q;
                write(AccessTargetTag<AT> {}, v, q, x);
                k.put(s, q, x);
            }
            next += 1;
            break;
        }
        case sync:
            k.sync(s);
            d.synchronize(t);
            break;
        case clear:
            k.newer = -1;
            d.clear_synchronization_state();
            break;
        }
        if (kshim::n_copies - before > (stale ? 1U : 0U)) bad("a copy although the side was not stale");
        if (d.need_synchronization(t) || d.need_synchronization(AccessTargetTag<AT == access_target::host ? access_target::device : access_target::host> {}) != (k.newer == s)) bad("state after the access");
    }
    template <class V>
    static void write(AccessTargetTag<access_target::host>, V const& v, int q, double x)
    {
        v(q) = x;
    }
    template <class V>
    static void write(AccessTargetTag<access_target::device>, V const& v, int q, double x)
    {
        Kokkos::parallel_for("write", Kokkos::RangePolicy<int>(q, q + 1), KOKKOS_LAMBDA(int i) { v(i) = x; });
    }
    template <access_target AT>
    void cop(Kind kind)
    {
        AccessTargetTag<AT> const t;
        int const s = AT == access_target::host ? 1 : 0;
        Model& k = *mc;
        bool const stale = k.newer == 1 - s;
        if (c.need_synchronization(t) != stale) bad("need of synchronisation of a read-only view");
        std::uint64_t const before = kshim::n_copies;
        k.sync(s);
        if (kind == read)
            compare(c(t, read_only), k, s, "read-only view");
        else
            c.synchronize(t);
        if (kshim::n_copies - before > (stale ? 1U : 0U)) bad("a copy although the side was not stale");
        if (c.need_synchronization(t)) bad("state after the access");
    }
    static constexpr int n_per = 2 * 7 + 1;
    static constexpr int n_ops = 2 * n_per + 4 + 8;
    void apply(int o)
    {
        if (o < 2 * n_per) {
            int const z = o / n_per, k = o % n_per;
            if (k == 14) return op<access_target::device>(h[z], *m[z], clear);
            static constexpr Kind kinds[] = {read, rw_add, rw_default, discard_all, discard_part, discard_none, sync};
            if (k % 2) op<access_target::host>(h[z], *m[z], kinds[k / 2]);
            else op<access_target::device>(h[z], *m[z], kinds[k / 2]);
            return;
        }
        o -= 2 * n_per;
        switch (o) {
        case 0: return cop<access_target::device>(read);
        case 1: return cop<access_target::host>(read);
        case 2: return cop<access_target::device>(sync);
        case 3: return cop<access_target::host>(sync);
        case 4:
            h[1] = h[0];
            m[1] = m[0];
            break;
        case 5:
            h[0] = h[1];
            m[0] = m[1];
            break;
        case 6: {
            DV t(h[0]);
            h[0] = std::move(h[1]);
            h[1] = std::move(t);
            std::swap(m[0], m[1]);
            break;
        }
        case 7: {
            DV t(std::move(h[1]));
            h[1] = t;
            break;
        }
        case 8:
            c = h[0].const_view();
            mc = m[0];
            break;
        case 9:
            c = h[1]; // converting assignment
            mc = m[1];
            break;
        case 10: {
            CDV t {DV(h[1])}; // from a temporary
            c = std::move(t);
            mc = m[1];
            break;
        }
        case 11: {
            CDV t(h[0]);
            c = t;
            mc = m[0];
            break;
        }
        }
        for (int z = 0; z < 2; ++z) {
            if (!h[z].is_allocated() || h[z].extent(0) != N) bad("an assigned array is not allocated");
        }
    }
    std::uint64_t state() const
    {
        vh::Hash x;
        for (auto const* k : {m[0].get(), m[1].get(), mc.get()}) {
            x << k->newer << (k == m[0].get() ? 0 : 1);
            for (auto const& s : k->side)
                for (double v : s) x << (std::isnan(v) ? -1 : 0);
            x << (k->side[0] == k->side[1]);
        }
        return x;
    }
    // both sides, looked at without any access
    void finish()
    {
        kshim::fence();
        for (int z = 0; z < 2 && error.empty(); ++z) {
            op<access_target::host>(h[z], *m[z], read);
            op<access_target::device>(h[z], *m[z], read);
        }
        cop<access_target::host>(read);
    }
};

template <class M>
void sequences(std::string const& name, vh::Explorer& x, int depth, bool lazy)
{
    // one case per first two operations
    for (int a = 0; a < M::n_ops; ++a)
        for (int b = 0; b < M::n_ops; ++b)
            x.run(vh::cat(name, " starting with ", a, " ", b, ", depth ", depth), [=] {
                kshim::cfg().lazy = lazy;
                std::vector<int> s(static_cast<std::size_t>(depth), 0);
                s[0] = a;
                s[1] = b;
                for (;;) {
                    M m;
                    for (int o : s) m.apply(o);
                    vh::state(m.state());
                    m.finish();
                    vh::transitions(static_cast<std::uint64_t>(depth));
                    vh::trace_validated();
                    if (!m.error.empty()) {
                        std::string t;
                        for (int o : s) t += vh::cat(o, " ");
                        vh::violate(name + ": " + m.error.substr(0, m.error.find_first_of("0123456789")), m.error + " after operations " + t);
                        break;
                    }
                    int d = depth - 1;
                    while (d >= 2 && ++s[static_cast<std::size_t>(d)] == M::n_ops) s[static_cast<std::size_t>(d--)] = 0;
                    if (d < 2) break;
                }
                kshim::cfg().lazy = false;
            });
}

// extents, label, size: the same from all sides
template <class DV, class... A>
void shape(char const* name, A... args)
{
    DV const d(name, args...);
    auto const c = d.const_view();
    auto const dv = d(device, read_only);
    auto const hv = d(host, read_only);
    constexpr unsigned R = sizeof...(A);
    static_assert(DV::rank == R);
    std::size_t const e[] = {static_cast<std::size_t>(args)...};
    std::size_t size = 1;
    for (unsigned r = 0; r < R; ++r) {
        size *= e[r];
        if (d.extent(r) != e[r] || d.extent_int(r) != static_cast<int>(e[r]) || c.extent(r) != e[r] || dv.extent(r) != e[r] || hv.extent(r) != e[r]) return vh::violate("extents", name);
        if (d.stride(r) != dv.stride(r) || d.stride(r) != hv.stride(r) || c.stride(r) != d.stride(r)) return vh::violate("strides", name);
    }
    if (d.size() != size || c.size() != size || dv.size() != size || hv.size() != size || d.span() != dv.span() || d.span() != size || !d.span_is_contiguous()) return vh::violate("size", name);
    if (d.label() != name || c.label() != name || !d.is_allocated() || !c.is_allocated()) return vh::violate("label", name);
    if (d.need_synchronization(host) || d.need_synchronization(device)) return vh::violate("a new array needs a copy", name);
    for (std::size_t q = 0; q < size; ++q)
        if (hv.data()[q] != 0 || dv.data()[q] != 0) return vh::violate("a new array is not zero", name);
    // element by element through both sides
    {
        auto const w = d(host, discard_write);
        for (std::size_t q = 0; q < size; ++q) w.data()[q] = 1 + static_cast<double>(q);
    }
    auto const rd = c(device, read_only);
    kshim::fence();
    for (std::size_t q = 0; q < size; ++q)
        if (rd.data()[q] != 1 + static_cast<double>(q)) return vh::violate("elements moved by a copy", name);
    vh::trace_validated();
    vh::transitions(4);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(
            argc, argv,
            [](vh::Explorer& x) {
                bool const th = vh::thorough();
                using L = DualView<double*, Kokkos::LayoutLeft>;
                using LC = DualView<double const*, Kokkos::LayoutLeft>;
                using P = DualView<double*, Kokkos::LayoutLeft, Kokkos::SharedHostPinnedSpace>;
                using PC = DualView<double const*, Kokkos::LayoutLeft, Kokkos::SharedHostPinnedSpace>;
                using R = DualView<double*>;
                using RC = DualView<double const*>;
#if defined(KSHIM_UNIFIED)
                sequences<Machine<L, LC, true>>("one memory", x, th ? 5 : 4, false);
#else
                sequences<Machine<L, LC, false>>("two memories, kernels run late", x, th ? 5 : 4, true);
                sequences<Machine<R, RC, false>>("two memories, default layout", x, th ? 4 : 3, false);
                sequences<Machine<P, PC, true>>("pinned memory", x, th ? 5 : 4, false);
#endif
                for (int a = 1; a <= 4; ++a) {
                    x.run(vh::cat("shape ", a), [=] { shape<DualView<double*, Kokkos::LayoutLeft>>("one", a); });
                    for (int b = 1; b <= 4; ++b) {
                        x.run(vh::cat("shape ", a, b), [=] {
                            shape<DualView<double**, Kokkos::LayoutLeft>>("two", a, b);
                            shape<DualView<double**>>("two right", a, b);
                        });
                        for (int c = 1; c <= 4; ++c) {
                            x.run(vh::cat("shape ", a, b, c), [=] { shape<DualView<double***, Kokkos::LayoutLeft>>("three", a, b, c); });
                            for (int e = 0; e <= 3; ++e)
                                x.run(vh::cat("shape ", a, b, c, e), [=] {
                                    shape<DualView<double****, Kokkos::LayoutLeft>>("four", a, b, c, e);
                                    shape<DualView<double****, Kokkos::LayoutLeft, Kokkos::SharedHostPinnedSpace>>("pinned", a, b, c, e);
                                });
                        }
                    }
                }
                x.run("not allocated", [] {
                    L const d;
                    LC const c;
                    if (d.is_allocated() || c.is_allocated()) vh::violate("an array is allocated without extents", "");
                });
                // long histories of writes without any copy
                for (int s = 0; s < 2; ++s)
                    x.run(vh::cat("long history ", s), [=] {
                        L const d("long", 2);
                        for (int q = 0; q < (vh::thorough() ? 2000000 : 200000); ++q) {
                            if (s) d(host, discard_write)(0) = q;
                            else d(device, discard_write).kshim_at(0) = q;
                        }
                        double const last = vh::thorough() ? 1999999 : 199999;
                        if ((s ? d(device, read_only).kshim_at(0) : d(host, read_only)(0)) != last) vh::violate("a long history of writes is forgotten", "");
                    });
            },
            800);
}

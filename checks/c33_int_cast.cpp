// C33: int_cast over all ordered pairs of built-in integer types.
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

#include <int_cast.hpp>

#include "vh.hpp"

using i128 = __int128;

static std::string str(i128 v)
{
    if (v == 0) return "0";
    bool const neg = v < 0;
    std::string s;
    for (unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v); u != 0; u /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
    return (neg ? "-" : "") + s;
}

// 0: fine; 1: wrong value; 2: accepted although not representable; 3: rejected although representable
template <class R, class T>
static int one(T t)
{
    i128 const v = t;
    bool const fits = v >= static_cast<i128>(std::numeric_limits<R>::min()) && v <= static_cast<i128>(std::numeric_limits<R>::max());
    try {
        R const r = hclpp::int_cast<R>(t);
        if (!fits) return 2;
        return static_cast<i128>(r) == v ? 0 : 1;
    } catch (std::exception const&) {
        return fits ? 3 : 0;
    }
}

static char const* const kinds[] = {"", "wrong value", "accepted although not representable", "rejected although representable"};

template <class R, class T>
static void report(char const* rn, char const* tn, T t, int k)
{
    vh::violate(vh::cat(tn, " to ", rn, ": ", kinds[k]), vh::cat("int_cast<", rn, ">(", tn, " ", str(t), ")"));
}

template <class T>
static std::vector<T> corners()
{
    std::vector<T> v;
    auto add = [&](i128 x) {
        if (x >= static_cast<i128>(std::numeric_limits<T>::min()) && x <= static_cast<i128>(std::numeric_limits<T>::max())) v.push_back(static_cast<T>(x));
    };
    // every value with at most two runs of equal bits, and neighbours
    for (int b = 0; b <= 64; ++b)
        for (int c = 0; c <= b; ++c)
            for (int d = -2; d <= 2; ++d) {
                i128 const x = (static_cast<i128>(1) << b) - (c == b ? 0 : static_cast<i128>(1) << c) + d;
                add(x);
                add(-x);
                i128 const y = (static_cast<i128>(1) << b) + (static_cast<i128>(1) << c) + d;
                add(y);
                add(-y);
            }
    return v;
}

template <class R, class T>
static void pair(vh::Explorer& x, char const* rn, char const* tn)
{
    if constexpr (sizeof(T) <= 2) {
        x.run(vh::cat(tn, "->", rn, " all"), [=] {
            std::uint64_t n = 0;
            for (i128 v = std::numeric_limits<T>::min(); v <= static_cast<i128>(std::numeric_limits<T>::max()); ++v, ++n) {
                int const k = one<R, T>(static_cast<T>(v));
                vh::state(vh::Hash() << tn << rn << static_cast<long>(v));
                if (k) return report<R, T>(rn, tn, static_cast<T>(v), k);
            }
            vh::transitions(n);
            vh::counter("conversions", n);
        });
    } else {
        x.run(vh::cat(tn, "->", rn, " corners"), [=] {
            auto const cs = corners<T>();
            for (T t : cs) {
                int const k = one<R, T>(t);
                vh::state(vh::Hash() << tn << rn << static_cast<long>(t));
                if (k) return report<R, T>(rn, tn, t, k);
            }
            vh::transitions(cs.size());
            vh::counter("conversions", cs.size());
        });
        // every value of a window around each end of every type
        x.run(vh::cat(tn, "->", rn, " windows"), [=] {
            std::uint64_t n = 0;
            i128 const w = vh::thorough() ? 70000 : 3000;
            for (int b : {0, 7, 8, 15, 16, 31, 32, 63, 64})
                for (int sg : {-1, 1})
                    for (i128 d = -w; d <= w; ++d) {
                        i128 const v = sg * (static_cast<i128>(1) << b) + d;
                        if (v < static_cast<i128>(std::numeric_limits<T>::min()) || v > static_cast<i128>(std::numeric_limits<T>::max())) continue;
                        ++n;
                        int const k = one<R, T>(static_cast<T>(v));
                        if (k) return report<R, T>(rn, tn, static_cast<T>(v), k);
                    }
            vh::transitions(n);
            vh::counter("conversions", n);
        });
        if constexpr (sizeof(T) == 4) {
            // quick: only the targets of the program; thorough: every value, every target
            int const parts = 16;
            for (int p = 0; p < parts && vh::thorough(); ++p)
                x.run(vh::cat(tn, "->", rn, " all ", p), [=] {
                    std::uint64_t n = 0;
                    i128 const lo = std::numeric_limits<T>::min(), step = (static_cast<i128>(1) << 32) / parts;
                    for (i128 v = lo + p * step; v < lo + (p + 1) * step; ++v, ++n) {
                        // exceptions are slow: values that do not fit are thinned to one in 4096 (all corners are above)
                        bool const fits = v >= static_cast<i128>(std::numeric_limits<R>::min()) && v <= static_cast<i128>(std::numeric_limits<R>::max());
                        if (!fits && (v & 4095) != 0) continue;
                        int const k = one<R, T>(static_cast<T>(v));
                        if (k) return report<R, T>(rn, tn, static_cast<T>(v), k);
                    }
                    vh::transitions(n);
                    vh::counter("conversions", n);
                });
        }
    }
}

template <class T>
static void from(vh::Explorer& x, char const* tn)
{
    pair<signed char, T>(x, "signed char", tn);
    pair<unsigned char, T>(x, "unsigned char", tn);
    pair<short, T>(x, "short", tn);
    pair<unsigned short, T>(x, "unsigned short", tn);
    pair<int, T>(x, "int", tn);
    pair<unsigned, T>(x, "unsigned", tn);
    pair<long, T>(x, "long", tn);
    pair<unsigned long, T>(x, "unsigned long", tn);
    pair<long long, T>(x, "long long", tn);
    pair<unsigned long long, T>(x, "unsigned long long", tn);
}

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        from<signed char>(x, "signed char");
        from<unsigned char>(x, "unsigned char");
        from<short>(x, "short");
        from<unsigned short>(x, "unsigned short");
        from<int>(x, "int");
        from<unsigned>(x, "unsigned");
        from<long>(x, "long");
        from<unsigned long>(x, "unsigned long");
        from<long long>(x, "long long");
        from<unsigned long long>(x, "unsigned long long");
    });
}

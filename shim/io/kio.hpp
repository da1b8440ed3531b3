// Explorer's side of the PDI / HDF5 stand-ins: files live in memory.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace kio {

struct Dataset
{
    std::string type; // int, double, char
    std::vector<std::size_t> dims; // empty: scalar
    std::vector<char> bytes;
    std::vector<std::uint32_t> writes; // per element
    std::size_t esize() const
    {
        return type == "double" ? 8 : type == "int" ? 4 : 1;
    }
    std::size_t count() const
    {
        std::size_t n = 1;
        for (auto d : dims) n *= d;
        return n;
    }
    double d(std::size_t i = 0) const
    {
        double v;
        std::memcpy(&v, bytes.data() + 8 * i, 8);
        return v;
    }
    int i(std::size_t k = 0) const
    {
        int v;
        std::memcpy(&v, bytes.data() + 4 * k, 4);
        return v;
    }
};
struct File
{
    std::map<std::string, Dataset> dsets;
    std::map<std::string, std::string> attrs;
    int writers = 0, readers = 0;
    int serial = 0; // order of creation
};
struct Fs
{
    std::map<std::string, File> files;
    int next_serial = 0;
    std::vector<std::string> log; // creations, in order
};
extern Fs* fs; // never null

std::string norm(std::string const& path);

// ---- handles and faults
struct Handles
{
    std::map<std::int64_t, std::string> open; // id -> kind
    std::vector<std::string> errors; // double close, wrong close, use of an invalid handle...
    std::uint64_t calls = 0;
    std::int64_t next = 100;
    std::int64_t fail_at = -1; // index of the call that fails
    std::vector<std::string> call_log;
};
extern Handles h5;
void reset_handles();

// ---- PDI
struct PdiHook
{
    std::function<void(std::string const& event)> on_event; // before the plugins run
};
extern PdiHook pdi_hook;
extern std::string last_conf; // text of the last configuration parsed
void pdi_reset(); // drops all the per-process PDI states
extern std::function<std::size_t(void const*)> alloc_bytes; // bytes available at a pointer, 0 if unknown

} // namespace kio

// Shared includes and helpers for the Pothos harnesses.
#pragma once
#include "pbt.hpp"
#include <Pothos/Exception.hpp>
#include <dirent.h>
#include <sys/syscall.h>

namespace pbt {

inline std::string currentExceptionText(void)
{
    try { throw; }
    catch (const Pothos::Exception &ex) { return std::string(ex.name()) + ": " + ex.displayText(); }
    catch (const std::exception &ex) { return std::string(typeid(ex).name()) + ": " + ex.what(); }
    catch (...) { return "unknown exception"; }
}
static const bool installDescribe_ = [](void) { describeCurrentException() = &currentExceptionText; return true; }();

//! scratch directory private to this process
inline std::string scratchDir(void)
{
    auto p = std::getenv("PBT_SCRATCH");
    return p ? p : "/tmp";
}

//! runs f; returns "" on success, or the text of the exception
template <typename F>
std::string errorOf(F &&f)
{
    try { f(); return ""; }
    catch (const Fail &) { throw; }
    catch (const Pothos::Exception &ex) { return std::string(ex.name()) + ": " + ex.displayText(); }
    catch (const std::exception &ex) { return std::string("std: ") + ex.what(); }
}

//! true when f throws E (or a subclass)
template <typename E, typename F>
bool throws(F &&f)
{
    try { f(); return false; }
    catch (const E &) { return true; }
}

//! true when every other thread of this process sleeps and none was scheduled for the given time:
//! nothing is left that could wake them, so this is a deadlock and not a slow machine
inline bool othersAsleep(double secs)
{
    auto sample = [](std::map<std::string, std::string> &out)
    {
        const auto self = std::to_string(::syscall(SYS_gettid));
        DIR *d = ::opendir("/proc/self/task"); if (!d) return false;
        bool ok = true;
        while (auto e = ::readdir(d))
        {
            if (e->d_name[0] == '.' || self == e->d_name) continue;
            std::ifstream f(std::string("/proc/self/task/") + e->d_name + "/status"); std::string line, sum;
            while (std::getline(f, line)) if (line.compare(0, 6, "State:") == 0 || line.find("ctxt_switches") != std::string::npos) sum += line + "|";
            if (sum.find("State:\tS") == std::string::npos) ok = false;
            out[e->d_name] = sum;
        }
        ::closedir(d); return ok;
    };
    std::map<std::string, std::string> a, b;
    if (!sample(a)) return false;
    std::this_thread::sleep_for(std::chrono::milliseconds((long long)(secs * 1000)));
    return sample(b) && a == b && !a.empty();
}

} // namespace pbt

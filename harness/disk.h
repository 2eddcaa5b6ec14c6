// A disk with room for a limited number of bytes per file (of this process, while it exists).
#pragma once
#include <csignal>
#include <sys/resource.h>
struct Disk
{
    explicit Disk(size_t room)
    {
        std::signal(SIGXFSZ, SIG_IGN);
        if (getrlimit(RLIMIT_FSIZE, &old_)) std::abort();
        rlimit now = old_; now.rlim_cur = room; if (setrlimit(RLIMIT_FSIZE, &now)) std::abort();
    }
    ~Disk() { setrlimit(RLIMIT_FSIZE, &old_); }
    Disk(Disk const&) = delete;
private:
    rlimit old_;
};

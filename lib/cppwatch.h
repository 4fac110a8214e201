// Instrumentation forced into every translation unit of a generated program:
// uninitialised Eigen data becomes NaN, Eigen's own assertions stay active in
// release builds, and the standard error (sanitizer reports included) is
// redirected to the monitor's log, which also records a normal termination.
#pragma once
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#define eigen_assert(x) do { if (!(x)) { fprintf(stderr, "EIGEN-ASSERTION %s at %s:%d\n", #x, __FILE__, __LINE__); abort(); } } while (0)
namespace cppwatch {
inline bool &started() { static bool s = false; return s; }
inline void stop() { fprintf(stderr, "NORMAL-EXIT\n"); fflush(stderr); }
__attribute__((constructor)) static void start() {
    if (started()) return;
    started() = true;
    const char *log = getenv("VERIF_CPP_LOG");
    if (log) {
        int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
    fprintf(stderr, "STARTED\n");
    fflush(stderr);
    const char *fault = getenv("VERIF_CPP_FAULT");
    if (fault) _exit(atoi(fault));
    atexit(stop);
}
}

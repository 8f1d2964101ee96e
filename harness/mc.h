// Exhaustive-enumeration harness core.
//
// A driver declares one or more finite "spaces": a name, a case count, and a function that runs case i.
// Every case of every space is executed (worker processes, one shard each); the parent supervises,
// attributes crashes (signal, assert, sanitizer report, exit()) and hangs to the exact case, replays each
// failing case alone in a fresh process before reporting it, and prints one JSON line per result.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc {

struct Space {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;            // executes case i; calls mc::fail() on a violation
    std::function<std::string(uint64_t)> describe; // human readable case
    std::function<void()> worker_init;            // optional, once per worker process
};

// ---- used by cases
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // records a violation for the current case
bool failed();                                     // has the current case failed already
void states(uint64_t n);                           // account for distinct states / histories evaluated
void transitions(uint64_t n);                      // account for operations executed
void nontrivial(uint64_t n = 1);                   // this case (or n inner cases) was non trivial by the driver's rule
void outcome(uint64_t hash);                       // distinct observed outcome (approximate counting via a shared bitmap)
void subcase(uint64_t n);                          // inner position inside the case, shown on crash/hang
void touch();                                      // progress of a long case (resets the hang watchdog)
extern const char *workdir;                        // private scratch directory of this worker (inside a tmpfs when available)
extern bool thorough;
std::string quote(const std::string &s);           // printable
std::string hex(const void *p, size_t n);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string readfile(const std::string &path);
bool writefile(const std::string &path, const std::string &content);

int main_(int argc, char **argv, const std::vector<Space> &spaces);
}

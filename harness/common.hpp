// Shared part of the concrete harnesses: every case is described before it runs, a failed comparison, a crash or a
// case that does not end is written to the replay file together with the description of the case.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace H {
inline std::string out_file, cur_case;
inline uint64_t seed0 = 1;
inline double budget = 10;
inline bool thorough = false;
inline uint64_t evaluations = 0;
inline std::unordered_set<size_t> distinct;
inline std::vector<std::string> samples;
inline std::chrono::steady_clock::time_point t0;
inline std::string only;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull >> 11; }
    uint64_t operator()(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>((*this)(static_cast<uint64_t>(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return (*this)(den) < num; }
    template <class C> auto const& pick(C const& c) { return c[(*this)(c.size())]; }
};

inline void raw_write(char const* kind) {
    int fd = open(out_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        auto w = [&](char const* p, size_t n) { while (n > 0) { auto k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; } };
        w("observed: ", 10); w(kind, strlen(kind)); w("\n", 1);
        w("case:\n", 6); w(cur_case.data(), cur_case.size()); w("\n", 1);
        close(fd);
    }
}
inline void on_signal(int s) {
    raw_write(s == SIGALRM ? "the call did not return within the time allowed for one case" : s == SIGSEGV ? "the code crashed (SIGSEGV)"
              : s == SIGABRT ? "the code aborted (assertion, sanitizer or uncaught exception)" : "the code crashed");
    _exit(3);
}
[[noreturn]] inline void fail(std::string const& msg) {
    raw_write(msg.c_str());
    std::cerr << "FAIL " << msg << "\n" << cur_case.substr(0, 2000) << "\n";
    std::cerr.flush();
    _exit(3);
}
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool time_left(double fraction = 1.0) { return elapsed() < budget * fraction; }
// announces the next case; cases with the same text count once
inline void begin(std::string const& desc, unsigned secs = 60) {
    cur_case = desc;
    evaluations++;
    alarm(secs);
    if (distinct.size() < 2000000) distinct.insert(std::hash<std::string>{}(desc));
    if (samples.size() < 3 || (samples.size() < 6 && evaluations % 997 == 0)) samples.push_back(desc.substr(0, 400));
}
inline std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
        else if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += static_cast<char>(c);
    }
    return o;
}
template <class T> std::string str(T const& x) { std::ostringstream o; o << x; return o.str(); }
template <class A> void check_eq(A const& got, A const& want, std::string const& what) {
    if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", expected " << want; fail(o.str()); }
}
inline void check(bool ok, std::string const& what) { if (!ok) fail(what); }
}  // namespace H

void run(H::Rng& rng);

#ifndef H_NO_MAIN
int main(int argc, char** argv) {
    H::seed0 = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    H::budget = argc > 2 ? atof(argv[2]) : 5;
    H::out_file = argc > 3 ? argv[3] : "/dev/null";
    H::thorough = argc > 4 && std::string(argv[4]) == "thorough";
    H::t0 = std::chrono::steady_clock::now();
    for (int s : {SIGSEGV, SIGABRT, SIGALRM, SIGFPE, SIGBUS, SIGILL}) signal(s, H::on_signal);
    // an overflowing stack must not take the handler with it
    static char altstack[1 << 16];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = H::on_signal; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr);
    H::Rng rng(H::seed0);
    try {
        run(rng);
    } catch (std::exception const& e) {
        H::fail(std::string("unexpected exception: ") + e.what());
    }
    alarm(0);
    std::cout << "{\"evaluations\": " << H::evaluations << ", \"distinct\": " << H::distinct.size() << ", \"samples\": [";
    for (size_t i = 0; i < H::samples.size(); i++) std::cout << (i ? ", " : "") << "\"" << H::esc(H::samples[i]) << "\"";
    std::cout << "]}" << std::endl;
    _exit(0);
}
#endif

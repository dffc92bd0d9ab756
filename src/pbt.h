// A small property-based testing engine: every random decision of a case is a draw from a
// recorded choice sequence; a failing case is shrunk by deleting and lowering choices, and the
// shrunk sequence is the replay file.  Cases run in forked workers so that crashes, sanitizer
// reports, assertion aborts and hangs of the code under test are failures like any other.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

std::string vfmt(const char *f, va_list ap);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Fail {
    std::string sig, msg;
};
struct Discard {};

struct Ctx {
    std::vector<uint64_t> in;   // choices to replay
    std::vector<uint64_t> out;  // choices actually used (after clamping)
    bool replaying = false;
    uint64_t rng = 0;
    std::string trace;          // readable history of the case
    std::vector<std::string> deferred;
    bool nontrivial = false;
    uint64_t fp = 0xcbf29ce484222325ull;  // fingerprint of the case
    std::map<std::string, uint64_t> classes;
    bool thorough = false;
    bool verbose = false;

    uint64_t draw(uint64_t max);  // 0..max, 0 is the simplest
    int64_t range(int64_t lo, int64_t hi) { return lo >= hi ? lo : lo + (int64_t)draw((uint64_t)(hi - lo)); }
    // biased towards the ends, powers of two and small values
    int64_t biased(int64_t lo, int64_t hi);
    bool chance(unsigned num, unsigned den);  // shrinks to false
    // weighted index; index 0 is the simplest
    int weighted(std::initializer_list<int> w);
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    template <class T> T pickl(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void cls(std::string c) { for (auto &ch : c) if (ch == '\n') ch = ' '; classes[c]++; }
    void mix(uint64_t v) { fp = (fp ^ v) * 0x100000001b3ull; fp ^= fp >> 29; }
    void mix(const void *p, size_t n);
    [[noreturn]] void fail(const char *sig, const char *f, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void discard() { throw Discard(); }
};

struct Prop {
    const char *id;
    void (*fn)(Ctx &);
    uint64_t quick, thorough;   // case counts
    const char *rule;           // what counts as non-trivial
    void (*setup)() = nullptr;  // run once in each worker
};

int main_(int argc, char **argv, const std::vector<Prop> &props);
uint64_t splitmix(uint64_t &s);
bool known(const std::string &sig);  // signature listed as a known finding
}  // namespace pbt

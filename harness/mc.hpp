// Exhaustive case explorer: runs every index of every scope on the real code, in worker
// processes, and turns failures, crashes and hangs into replayable counterexamples.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail : std::runtime_error {
    std::string sig;
    Fail(std::string const& sig, std::string const& m) : std::runtime_error(m), sig(sig) {}
};

struct Ctx {
    uint64_t transitions = 0;   // operations executed on the implementation
    uint64_t traces = 0;        // complete executions compared with the reference
    uint64_t points = 0;        // extra counter (schedule points)
    uint64_t maxdepth = 0;
    std::unordered_set<uint64_t> outcomes;
    std::string desc;           // human readable description of the current case
    std::vector<std::string> samples;
    bool replay = false;        // verbose single-case mode
    bool capped = false;

    void op(uint64_t n = 1) { transitions += n; }
    void trace(uint64_t n = 1) { traces += n; }
    void outcome(uint64_t h) { if (outcomes.size() < 4000000) outcomes.insert(h); }
    [[noreturn]] void fail(std::string const& sig, std::string const& msg) { throw Fail(sig, msg); }
    void check(bool ok, char const* sig, std::string const& msg) { if (!ok) fail(sig, msg); }
    void known(std::string const& key, std::string const& msg);   // a listed finding (else a failure)
    template<typename F> void require(bool ok, char const* sig, F const& f) { if (!ok) fail(sig, f()); }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hashStr(std::string const& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Scope {
    std::string name;
    std::string bound;          // what is enumerated
    uint64_t count;
    std::function<void(uint64_t, Ctx&)> run;
    bool thorough = false;      // thorough tier only
    uint64_t chunk = 0;         // 0: automatic
    double caseLimit = 30;      // seconds
};

struct Scopes {
    std::vector<Scope> v;
    void add(std::string name, std::string bound, uint64_t count,
             std::function<void(uint64_t, Ctx&)> run, uint64_t chunk = 0, double limit = 30) {
        Scope s; s.name = name; s.bound = bound; s.count = count; s.run = run; s.chunk = chunk; s.caseLimit = limit;
        v.push_back(s);
    }
    void addT(std::string name, std::string bound, uint64_t count,
              std::function<void(uint64_t, Ctx&)> run, uint64_t chunk = 0, double limit = 60) {
        add(name, bound, count, run, chunk, limit);
        v.back().thorough = true;
    }
};

// mixed-radix decoder for case indices
struct Dec {
    uint64_t x;
    explicit Dec(uint64_t x) : x(x) {}
    uint64_t operator()(uint64_t n) { uint64_t r = x % n; x /= n; return r; }
};

// every harness part registers its scopes: SCOPES(s) { s.add(...); }
std::vector<void (*)(Scopes&)>& registry();
#define SCOPES(s) static void mcScopes_(mc::Scopes&); static int mcReg_ = (mc::registry().push_back(mcScopes_), 0); static void mcScopes_(mc::Scopes& s)

template<typename... A> std::string str(A const&... a) {
    std::ostringstream o; (void)std::initializer_list<int>{(o << a, 0)...}; return o.str();
}

bool knownKey(std::string const& key);   // is this key listed in known_findings.txt? counts a hit
// runs f in a forked child: 0 true, 1 false, 2 exception, 3 crash, 4 no answer within the limit
int inChild(std::function<bool()> const& f, double limit = 10);
long liveAllocations();        // alloccount.cpp
} // namespace mc

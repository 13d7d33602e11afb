// runs an application's main() inside the explorer, with its streams captured
#pragma once
#include "mc.hpp"
#include "dot.hpp"
#include <cmath>
namespace app {
using namespace mc;
struct Run { int rc; std::string out, err; };
inline Run run(int (*mainf)(int, char**), std::vector<std::string> const& args, std::string const& input = "") {
    std::ostringstream o, e; std::istringstream i(input); Run r;
    std::vector<std::vector<char>> store; std::vector<char*> av; store.push_back({'a', 0}); for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); } for (auto& s : store) av.push_back(s.data()); av.push_back(nullptr);
    auto* so = std::cout.rdbuf(o.rdbuf()); auto* se = std::cerr.rdbuf(e.rdbuf()); auto* si = std::cin.rdbuf(i.rdbuf()); std::cin.clear();
    struct Restore { std::streambuf *o, *e, *i; ~Restore() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cin.rdbuf(i); std::cin.clear(); } } rs{so, se, si};
    r.rc = mainf((int)av.size() - 1, av.data());
    r.out = o.str(); r.err = e.str(); return r;
}
inline std::string field(std::string const& t, std::string const& key, size_t from = 0) {   // text after "key" up to a separator
    size_t p = t.find(key, from); if (p == std::string::npos) return "";
    p += key.size(); size_t e = t.find_first_of(",\n ", p); return t.substr(p, e == std::string::npos ? e : e - p);
}
inline std::string join(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += " " + x; return s; }
// family of a dumped binary ZDD whose node names are "level:index": every path to the 1-terminal
inline std::set<std::vector<int>> family(dot::Graph const& g, std::function<int(std::string const&)> const& level) {
    std::map<std::string, std::string> ch[2]; for (auto& e : g.edges) ch[e.b][e.src] = e.dst;
    std::set<std::vector<int>> r; std::vector<int> cur;
    std::function<void(std::string const&)> rec = [&](std::string const& n) {
        if (n == g.top || n == "$") { r.insert(cur); return; }
        auto a = ch[0].find(n), b = ch[1].find(n); int l = level(n);
        if (a != ch[0].end()) rec(a->second);
        if (b != ch[1].end()) { cur.push_back(l); rec(b->second); cur.pop_back(); } };
    if (!g.root.empty()) rec(g.root);
    return r;
}
} // namespace app

// Driver: main [--tier quick|thorough] [--out stats.json] [--scratch dir] [--known file]
//              [--jobs N] [--deadline seconds] [--only scope] [--replay scope index]
#include "mc.hpp"
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
std::vector<void (*)(Scopes&)>& mc::registry() { static std::vector<void (*)(Scopes&)> r; return r; }
typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=24:malloc_context_size=8:allocator_may_return_null=1:handle_abort=1"; }
struct Slot {
    volatile int scope; volatile int state;   // state: 0 idle, 1 running, 2 failed, 3 finished
    volatile uint64_t chunkBegin, chunkEnd, idx;
    volatile double started;
    char sig[200]; char msg[6000]; char desc[6000];
};
struct Shared {
    volatile int stop;
    volatile uint64_t next[256];
    volatile uint64_t done[256];
    Slot slot[64];
};
static Shared* sh;
static std::string scratch = "/tmp";
static void jesc(std::ostream& os, std::string const& s) {
    os << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') os << '\\' << c;
        else if (c == '\n') os << "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); os << b; }
        else os << c;
    }
    os << '"';
}
static void put(char* d, size_t n, std::string const& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static bool runCase(Scope const& sc, uint64_t i, Ctx& cx, Slot& sl) {
    sl.idx = i; sl.started = now(); sl.state = 1;
    cx.desc.clear();
    std::string sig, msg;
    try { sc.run(i, cx); return true; }
    catch (Fail& f) { sig = f.sig; msg = f.what(); }
    catch (std::exception& e) { sig = "exception"; msg = str("unexpected exception: ", e.what()); }
    catch (...) { sig = "exception"; msg = "unexpected exception of unknown type"; }
    put(sl.sig, sizeof sl.sig, sig); put(sl.msg, sizeof sl.msg, msg); put(sl.desc, sizeof sl.desc, cx.desc);
    return false;
}

struct KnownF { std::string scope, sig, text; };
static std::vector<KnownF> known;   // scope<TAB>sig<TAB>desc-substring lines
static std::map<std::string, int> kn;   // index in known -> hits
bool mc::knownKey(std::string const& key) {
    for (size_t q = 0; q < known.size(); ++q) if (known[q].scope == "*" && known[q].sig == key) { kn[str(q)]++; return true; }
    return false;
}
void Ctx::known(std::string const& key, std::string const& msg) { if (!knownKey(key)) fail(key, msg); }
int mc::inChild(std::function<bool()> const& f, double limit) {
    std::cout.flush(); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        int r = 3;
        try { r = f() ? 0 : 1; } catch (...) { r = 2; }
        _exit(r);
    }
    double t = now(); int st = 0;
    while (now() - t < limit) { if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) && WEXITSTATUS(st) <= 2 ? WEXITSTATUS(st) : 3; usleep(1000); }
    kill(p, SIGKILL); waitpid(p, &st, 0); return 4;
}

int main(int argc, char** argv) {
    bool thorough = false; std::string out, only, rscope, knownFile; long ridx = -1; int jobs = 8; double deadline = 500; bool list = false;
    uint64_t rfrom = ~0ull;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out") out = argv[++i];
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--known") knownFile = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--deadline") deadline = atof(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--replay") { rscope = argv[++i]; ridx = atol(argv[++i]); }
        else if (a == "--from") rfrom = strtoull(argv[++i], 0, 10);
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    Scopes ss; for (void (*f)(Scopes&) : registry()) f(ss);
    std::vector<Scope> all;
    for (Scope& s : ss.v) if ((only.empty() || s.name == only) && (thorough || !s.thorough || !rscope.empty() || !only.empty())) all.push_back(s);
    if (list) { for (Scope& s : all) std::cout << s.name << " " << s.count << " : " << s.bound << "\n"; return 0; }
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!knownFile.empty()) {
        std::ifstream f(knownFile); std::string l;
        while (std::getline(f, l)) {
            size_t a = l.find('\t'), b = l.find('\t', a + 1);
            if (a == std::string::npos || b == std::string::npos) continue;
            known.push_back(KnownF{l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
        }
    }
    if (!rscope.empty()) {
        for (Scope& s : all) if (s.name == rscope) {
            Ctx cx; cx.replay = true;
            if (rfrom != ~0ull) { Ctx c2; for (uint64_t i = rfrom; i < (uint64_t)ridx; ++i) if (!runCase(s, i, c2, sh->slot[0])) { std::cout << "FAIL at " << i << ": " << sh->slot[0].msg << "\n"; return 1; } }
            bool ok = runCase(s, ridx, cx, sh->slot[0]);
            std::cout << (ok ? "OK " : "FAIL ") << sh->slot[0].sig << "\n" << cx.desc << "\n" << sh->slot[0].msg << "\n";
            return ok ? 0 : 1;
        }
        std::cout << "no such scope\n"; return 2;
    }
    double t0 = now();
    if (all.size() > 250) { std::cerr << "too many scopes\n"; return 2; }
    std::vector<std::string> knownHit;
    auto worker = [&](int w) {
        Slot& sl = sh->slot[w];
        Ctx cx;
        for (size_t k = 0; k < all.size() && !sh->stop; ++k) {
            Scope const& sc = all[k];
            uint64_t chunk = sc.chunk ? sc.chunk : std::max<uint64_t>(1, std::min<uint64_t>(512, sc.count / (jobs * 8) + 1));
            for (; !sh->stop;) {
                if (now() - t0 > deadline) { cx.capped = true; break; }
                uint64_t b = __sync_fetch_and_add(&sh->next[k], chunk);
                if (b >= sc.count) break;
                uint64_t e = std::min(b + chunk, sc.count);
                sl.scope = k; sl.chunkBegin = b; sl.chunkEnd = e;
                for (uint64_t i = b; i < e && !sh->stop; ++i) {
                    if (!runCase(sc, i, cx, sl)) {
                        bool isKnown = false;
                        for (size_t q = 0; q < known.size(); ++q)
                            if (known[q].scope == sc.name && known[q].sig == sl.sig && std::string(sl.desc).find(known[q].text) != std::string::npos) { kn[str(q)]++; isKnown = true; }
                        if (!isKnown) { sl.state = 2; _exit(3); }
                    }
                    if (w == 0 && cx.samples.size() < 6 && !cx.desc.empty() && (i - b) % 97 == 3 && cx.samples.size() < k + 2) cx.samples.push_back(sc.name + "#" + str(i) + ": " + cx.desc.substr(0, 300));
                    __sync_fetch_and_add(&sh->done[k], 1);
                }
            }
        }
        std::ofstream f(scratch + "/w" + str(w));
        f << cx.transitions << " " << cx.traces << " " << cx.points << " " << cx.maxdepth << " " << cx.capped << " " << cx.outcomes.size() << "\n";
        for (uint64_t h : cx.outcomes) f.write((char const*)&h, 8);
        f << "\n" << cx.samples.size() << "\n";
        for (auto& s : cx.samples) { std::string t = s; for (char& c : t) if (c == '\n') c = ' '; f << t << "\n"; }
        for (auto& q : kn) f << "K " << q.first << " " << q.second << "\n";
        f.close();
        sl.state = 3;
        _exit(0);
    };
    struct V { std::string scope; uint64_t idx, from; std::string sig, msg, desc; };
    std::vector<V> viol; std::string note; double slack = 1;
  for (int round = 0; round < 2; ++round) {
    note.clear(); memset((void*)sh, 0, sizeof(Shared)); if (round) { slack = 5; jobs = std::max(1, jobs / 2); }
    for (int w = 0; w < 64; ++w) unlink((scratch + "/w" + str(w)).c_str());
    std::vector<pid_t> pid(jobs); std::cout.flush();
    std::vector<int> wait_state(jobs, 0);
    for (int w = 0; w < jobs; ++w) {
        pid[w] = fork();
        if (pid[w] == 0) {
            int fd = open((scratch + "/err" + str(w)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
            worker(w);
        }
    }
    int bad = -1; std::string kind; int running = jobs; int badStatus = 0;
    while (running > 0 && bad < 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            for (int w = 0; w < jobs; ++w) if (!wait_state[w] && sh->slot[w].state == 1 && now() - sh->slot[w].started > all[sh->slot[w].scope].caseLimit * slack) {
                kill(pid[w], SIGKILL); kind = "hang"; bad = w;
            }
            usleep(3000); continue;
        }
        if (p < 0) break;
        for (int w = 0; w < jobs; ++w) if (pid[w] == p) {
            wait_state[w] = 1; --running;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slot[w].state == 3) continue;
            bad = w; badStatus = st; kind = (sh->slot[w].state == 2) ? "fail" : "crash";
        }
    }
    if (bad >= 0) {
        sh->stop = 1;
        for (int w = 0; w < jobs; ++w) if (!wait_state[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
        Slot& sl = sh->slot[bad]; Scope const& sc = all[sl.scope];
        std::string errtxt;
        { std::ifstream f(scratch + "/err" + str(bad)); std::string l; int n = 0; while (n < 30 && std::getline(f, l)) { errtxt += l + "\n"; ++n; } }
        // replay alone, then with the whole chunk before it
        uint64_t idx = sl.idx, cb = sl.chunkBegin; std::string sig = sl.state == 2 ? sl.sig : kind, msg = sl.state == 2 ? sl.msg : kind + "\n" + errtxt, desc = sl.desc;
        bool confirmed = false; uint64_t from = idx;
        for (int attempt = 0; attempt < 2 && !confirmed; ++attempt) {
            from = attempt ? cb : idx;
            Slot& s2 = sh->slot[63]; s2.state = 0;
            pid_t p = fork();
            if (p == 0) {
                int fd = open((scratch + "/errR").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
                Ctx cx; for (uint64_t i = from; i <= idx; ++i) { bool ok = runCase(sc, i, cx, s2); if (!ok) { s2.state = 2; _exit(3); } put(s2.desc, sizeof s2.desc, cx.desc); }
                s2.state = 3; _exit(0);
            }
            double t = now(), lim = sc.caseLimit * 2 + 30; int st = 0; bool ended = false;
            while (now() - t < lim) { if (waitpid(p, &st, WNOHANG) == p) { ended = true; break; } usleep(2000); }
            if (!ended) { kill(p, SIGKILL); waitpid(p, &st, 0); confirmed = true; sig = "hang"; msg = str("no progress within ", lim, " s"); desc = s2.desc; }
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                confirmed = true;
                if (s2.state == 2) { sig = s2.sig; msg = s2.msg; desc = s2.desc; idx = s2.idx; }
                else {
                    sig = "crash"; std::ifstream f(scratch + "/errR"); std::string l; errtxt.clear(); int n = 0; while (n < 30 && std::getline(f, l)) { errtxt += l + "\n"; ++n; }
                    msg = str("process died (status ", st, ")\n", errtxt); idx = s2.idx;
                }
            }
        }
        if (confirmed) viol.push_back(V{sc.name, idx, from, sig, msg, desc});
        else if (sl.state == 2) viol.push_back(V{sc.name, idx, cb, sig, msg + " (not reproduced in isolation)", desc});
        else if (kind == "crash" && !(WIFSIGNALED(badStatus) && WTERMSIG(badStatus) == SIGKILL)) viol.push_back(V{sc.name, idx, cb, "crash", str("process died (status ", badStatus, "), not reproduced in isolation\n", errtxt), desc});
        else note = str("worker ended abnormally (", kind, ") at ", sc.name, "#", idx, " but the case passes when replayed");
    }
    if (note.empty()) break;   // an unexplained kill or time-out is retried once with fewer workers and more time
  }
    uint64_t tr = 0, tc = 0, pt = 0, md = 0; bool capped = false; std::unordered_set<uint64_t> oc; std::vector<std::string> samples; std::map<int, int> kh;
    for (int w = 0; w < jobs; ++w) {
        std::ifstream f(scratch + "/w" + str(w)); uint64_t a, b, c, d; int cp; size_t n;
        if (!(f >> a >> b >> c >> d >> cp >> n)) continue;
        tr += a; tc += b; pt += c; md = std::max(md, d); capped |= cp; f.get();
        for (size_t i = 0; i < n; ++i) { uint64_t h; f.read((char*)&h, 8); oc.insert(h); }
        size_t m = 0; f >> m; f.get(); std::string l;
        for (size_t i = 0; i < m && std::getline(f, l); ++i) samples.push_back(l);
        while (std::getline(f, l)) if (l.size() > 2 && l[0] == 'K') { int q, c2; if (sscanf(l.c_str(), "K %d %d", &q, &c2) == 2) kh[q] += c2; }
    }
    std::ofstream f(out.empty() ? "/dev/stdout" : out.c_str());
    f << "{\"transitions\":" << tr << ",\"traces\":" << tc << ",\"points\":" << pt << ",\"maxdepth\":" << md << ",\"capped\":" << (capped || !note.empty() ? "true" : "false")
      << ",\"distinct\":" << oc.size() << ",\"wall\":" << now() - t0 << ",\"note\":"; jesc(f, note);
    f << ",\"scopes\":[";
    for (size_t k = 0; k < all.size(); ++k) {
        f << (k ? "," : "") << "{\"name\":"; jesc(f, all[k].name); f << ",\"bound\":"; jesc(f, all[k].bound); f << ",\"count\":" << all[k].count << ",\"done\":" << (uint64_t)sh->done[k] << "}";
    }
    f << "],\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) { f << (k ? "," : ""); jesc(f, samples[k]); }
    f << "],\"known\":[";
    { bool first = true; for (auto& q : kh) { f << (first ? "" : ",") << "{\"index\":" << q.first << ",\"hits\":" << q.second << "}"; first = false; } }
    f << "],\"violations\":[";
    for (size_t k = 0; k < viol.size(); ++k) {
        f << (k ? "," : "") << "{\"scope\":"; jesc(f, viol[k].scope); f << ",\"idx\":" << viol[k].idx << ",\"from\":" << viol[k].from << ",\"sig\":"; jesc(f, viol[k].sig);
        f << ",\"msg\":"; jesc(f, viol[k].msg); f << ",\"desc\":"; jesc(f, viol[k].desc); f << "}";
    }
    f << "]}\n";
    return viol.empty() ? 0 : 1;
}

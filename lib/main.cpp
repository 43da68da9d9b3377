// Driver for a harness binary. Modes:
//   run     --seed S --cases N --shard I --shards K --out F   (deterministic)
//   replay  --replay F                                        exit 1 if it fails
//   list
// With -DPBT_FUZZ it is instead a libFuzzer target over the same facets.
#include "pbt.hpp"
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>

using namespace pbt;

// Make std::random_device (used by the library's Random helpers) deterministic.
namespace { uint64_t g_rd_state = 88172645463325252ull; }
void pbt::seed_random(uint64_t s) { g_rd_state = s; std::srand((unsigned) s); }
unsigned int std::random_device::_M_getval() { return (unsigned int) splitmix(g_rd_state); }

static std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?';
        else o += c;
    }
    return o;
}

struct Outcome { bool failed = false, discarded = false; std::string msg; };

static Outcome run_one(const Facet &f, Source &s) {
    Outcome o;
    seed_random(12345);
    if (auto *p = progress()) p->n = 0;
    try {
        f.fn(s);
    } catch (const Failure &e) {
        o.failed = true; o.msg = e.what();
    } catch (const Discard &) {
        o.discarded = true;
    } catch (const std::exception &e) {
        o.failed = true; o.msg = std::string("unexpected exception: ") + e.what();
    }
    return o;
}

// run in a forked child, so a crash counts as a failure
static Outcome run_forked(const Facet &f, const std::vector<uint64_t> &c,
                          std::vector<uint64_t> *used) {
    struct Shared { int state; size_t n; uint64_t used[1 << 16]; char msg[4096]; };
    static Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->state = 0; sh->n = 0; sh->msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2); dup2(fd, 1);
        alarm(60);
        Source s(c);
        auto o = run_one(f, s);
        sh->n = std::min<size_t>(s.used().size(), 1 << 16);
        std::copy(s.used().begin(), s.used().begin() + sh->n, sh->used);
        strncpy(sh->msg, o.msg.c_str(), sizeof(sh->msg) - 1);
        sh->state = o.failed ? 2 : 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (sh->state == 1) return o;
    o.failed = true;
    if (sh->state == 2) {
        o.msg = sh->msg;
        if (used) used->assign(sh->used, sh->used + sh->n);
    } else {
        o.msg = "the process crashed (wait status " + std::to_string(st) + ")";
        if (used) *used = c;
    }
    return o;
}

static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> best, bool forked,
                                    std::string &msg) {
    int budget = forked ? 400 : 4000;
    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (budget-- <= 0 || std::chrono::steady_clock::now() > deadline) return false;
        std::vector<uint64_t> used;
        Outcome o;
        if (forked) o = run_forked(f, c, &used);
        else { Source s(c); o = run_one(f, s); used = s.used(); }
        if (!o.failed) return false;
        if (used.size() > best.size()) return false;
        if (used.size() == best.size() && !(used < best)) return false;
        best = used; msg = o.msg;
        return true;
    };
    bool progress = true;
    while (progress && budget > 0 && std::chrono::steady_clock::now() < deadline) {
        progress = false;
        for (size_t len : {16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + len <= best.size();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else ++i;
            }
        }
        for (size_t i = 0; i < best.size(); ++i) {
            if (!best[i]) continue;
            auto c = best; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            for (int sh : {32, 16, 8, 4, 2, 1}) {
                while (i < best.size() && (best[i] >> sh)) {
                    auto c2 = best; c2[i] >>= sh;
                    if (attempt(c2)) progress = true; else break;
                }
            }
            if (i < best.size() && best[i]) { auto c3 = best; c3[i]--; if (attempt(c3)) progress = true; }
        }
    }
    return best;
}

static const Facet *find_facet(const std::string &n) {
    for (auto &f : facets()) if (f.name == n) return &f;
    return nullptr;
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (size < 1 || facets().empty()) return 0;
    const Facet &f = facets()[data[0] % facets().size()];
    std::vector<uint64_t> c;
    // each choice: 1 length byte (low 3 bits => 1..8 bytes), then that many bytes
    for (size_t i = 1; i < size;) {
        int n = 1 + (data[i] & 7); ++i;
        uint64_t v = 0;
        for (int k = 0; k < n && i < size; ++k, ++i) v = (v << 8) | data[i];
        c.push_back(v);
    }
    Source s(c);
    auto o = run_one(f, s);
    if (o.failed) {
        const char *dir = getenv("PBT_FUZZ_OUT");
        std::ofstream os(dir ? dir : "/dev/stderr");
        os << f.name << "\n" << o.msg << "\n";
        for (auto v : s.used()) os << v << " ";
        os << "\n";
        os.close();
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "run";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (mode == "list") {
        for (auto &f : facets()) printf("%s %g\n", f.name.c_str(), f.weight);
        return 0;
    }
    if (mode == "replay" || mode == "shrink") {
        // file: line 1 facet name, line 2 choices
        std::ifstream in(a["--replay"]);
        std::string name, line;
        std::getline(in, name); std::getline(in, line);
        const Facet *f = find_facet(name);
        if (!f) { printf("NOFACET %s\n", name.c_str()); return 3; }
        std::istringstream is(line);
        std::vector<uint64_t> c; uint64_t v;
        while (is >> v) c.push_back(v);
        if (mode == "shrink") {
            std::string msg;
            auto o = run_forked(*f, c, nullptr);
            if (!o.failed) { printf("PASS\n"); return 0; }
            msg = o.msg;
            auto b = shrink(*f, c, true, msg);
            std::ofstream os(a["--out"]);
            os << name << "\n";
            for (auto x : b) os << x << " ";
            os << "\n" << msg << "\n";
            return 1;
        }
        Source s(c);
        s.tracing = true;
        auto o = run_one(*f, s);
        printf("facet: %s\ncase: %s\n", name.c_str(), s.notes().c_str());
        if (o.failed) { printf("FAIL: %s\n", o.msg.c_str()); return 1; }
        printf("PASS\n");
        return 0;
    }
    uint64_t seed = std::strtoull(a["--seed"].c_str(), nullptr, 10);
    double cases = a.count("--cases") ? atof(a["--cases"].c_str()) : 1000;
    int shard = atoi(a["--shard"].c_str()), shards = a.count("--shards") ? atoi(a["--shards"].c_str()) : 1;
    double max_s = a.count("--max-seconds") ? atof(a["--max-seconds"].c_str()) : 1e9;
    std::string only = a.count("--facet") ? a["--facet"] : "";
    std::string out = a["--out"];
    // where the case being executed is recorded, for crash reports
    static Progress dummy;
    Progress *prog = &dummy;
    if (!out.empty()) {
        std::string p = out + ".progress";
        int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
            prog = (Progress *) mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        prog->facet = ~0ull;
        progress() = prog;
    }
    std::ostringstream js;
    js << "{\"facets\":[";
    bool first = true, any_fail = false;
    for (size_t fi = 0; fi < facets().size(); ++fi) {
        const Facet &f = facets()[fi];
        if (!only.empty() && f.name != only) continue;
        uint64_t n = (uint64_t) std::max(1.0, cases * f.weight / shards);
        if (f.weight <= 0) n = shard == 0 ? 1 : 0;   // single-shot facets
        uint64_t evals = 0, nontriv = 0, disc = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::string failmsg, failnotes; std::vector<uint64_t> failc;
        uint64_t i0 = 0;
        bool failed = false, timed_out = false;
        double wsum = 0;
        for (auto &g : facets()) if ((only.empty() || g.name == only) && g.weight > 0) wsum += g.weight;
        double facet_budget = f.weight > 0 ? max_s * f.weight / wsum : 1e9;
        auto tf = std::chrono::steady_clock::now();
        for (uint64_t i = i0; i < n; ++i) {
            if ((i & 15) == 0) {
                auto now = std::chrono::steady_clock::now();
                if (std::chrono::duration<double>(now - tf).count() > facet_budget) { timed_out = true; break; }
            }
            uint64_t st = seed * 0x9e3779b97f4a7c15ull ^ hash_str(f.name);
            st = st + (i * (uint64_t) shards + (uint64_t) shard) * 0xd1342543de82ef95ull;
            uint64_t s0 = splitmix(st);
            prog->facet = fi; prog->index = i;
            Source s(s0);
            s.tracing = samples.size() < 2;
            auto o = run_one(f, s);
            ++evals;
            if (o.discarded) { ++disc; continue; }
            for (auto &l : s.labels()) labels[l]++;
            if (s.is_nontrivial()) {
                uint64_t h = 1469598103934665603ull;
                for (auto v : s.used()) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
                if (distinct.insert(h).second) ++nontriv;
            }
            if (s.tracing && !s.notes().empty()) samples.push_back(s.notes());
            if (o.failed) {
                failed = any_fail = true;
                failmsg = o.msg;
                failc = shrink(f, s.used(), false, failmsg);
                Source s2(failc); s2.tracing = true;
                auto o2 = run_one(f, s2);
                if (o2.failed) failmsg = o2.msg;
                failnotes = s2.notes();
                break;
            }
        }
        double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - tf).count();
        js << (first ? "" : ",") << "\n{\"name\":\"" << esc(f.name) << "\",\"evaluations\":" << evals
           << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc << ",\"seconds\":" << secs
           << ",\"timed_out\":" << (timed_out ? "true" : "false") << ",\"labels\":{";
        bool lf = true;
        for (auto &l : labels) { js << (lf ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; lf = false; }
        js << "},\"samples\":[";
        for (size_t k = 0; k < samples.size(); ++k) js << (k ? "," : "") << "\"" << esc(samples[k].substr(0, 1500)) << "\"";
        js << "],\"failed\":" << (failed ? "true" : "false");
        if (failed) {
            js << ",\"message\":\"" << esc(failmsg) << "\",\"case\":\"" << esc(failnotes) << "\",\"choices\":[";
            for (size_t k = 0; k < failc.size(); ++k) js << (k ? "," : "") << failc[k];
            js << "]";
        }
        js << "}";
        first = false;
    }
    js << "]}\n";
    prog->facet = ~0ull;
    if (!out.empty()) std::ofstream(out) << js.str(); else std::cout << js.str();
    return any_fail ? 1 : 0;
}
#endif

// Driver: generates plans from seeds, executes each in a process of its own,
// aggregates, replays.
#include "plan.hpp"
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

std::string Plan::str() const
{
    std::ostringstream o;
    o << "scenario " << scenario << "\nseed " << seed << "\n";
    for (auto &c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto &s : steps) {
        o << "step " << s.id << " " << s.op;
        for (auto v : s.a) o << " " << v;
        o << " " << s.seed << "\n";
    }
    for (auto &f : faults) o << "fault " << f.step << " " << f.kind << " " << f.at << " " << f.arg << "\n";
    for (auto &w : switches) o << "switch " << w.step << " " << w.tid << "\n";
    return o.str();
}
Plan Plan::parse(const std::string &text)
{
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        if (!(l >> k) || k[0] == '#') continue;
        if (k == "scenario") l >> p.scenario;
        else if (k == "seed") l >> p.seed;
        else if (k == "cfg") { std::string n; int64_t v; l >> n >> v; p.cfg[n] = v; }
        else if (k == "step") {
            Step s;
            l >> s.id >> s.op;
            for (auto &v : s.a) l >> v;
            l >> s.seed;
            p.steps.push_back(s);
        } else if (k == "fault") {
            Fault f;
            l >> f.step >> f.kind >> f.at >> f.arg;
            p.faults.push_back(f);
        } else if (k == "switch") {
            rt::Switch w;
            l >> w.step >> w.tid;
            p.switches.push_back(w);
        }
    }
    return p;
}

static double now()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}
static const Scenario *find(const std::string &n)
{
    for (int i = 0; scenarios[i]; ++i)
        if (n == scenarios[i]->name) return scenarios[i];
    std::fprintf(stderr, "unknown scenario %s\n", n.c_str());
    std::exit(3);
}
static rt::Shared *new_shared()
{
    void *m = mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) std::exit(3);
    return static_cast<rt::Shared *>(m);
}
// One execution.  The result is left in *sh.
static void execute(const Plan &p, rt::Shared *sh)
{
    memset(sh, 0, sizeof *sh);
    const Scenario *sc = find(p.scenario);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::exit(3);
    }
    if (pid == 0) {
        rt::shm = sh;
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("SIM_STDERR")) dup2(n, 2);
        alarm(60);
        rt::child_setup(p.seed);
        try {
            sc->execute(p);
            const uint64_t h = sh->hash, d = sh->digest;
            for (bool again = getenv("SIM_REPEAT") != nullptr; again || rt::leak_suspected(); again = false) {
                rt::repeat_setup(p.seed);
                sc->execute(p);
            }
            sh->hash = h;
            sh->digest = d;
        } catch (const std::exception &e) {
            rt::violate("escaped-exception", "unexpected exception: %s", e.what());
        } catch (...) {
            rt::violate("escaped-exception", "unexpected exception");
        }
        if (!sh->done) sh->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh->done == 1 || sh->done == 2 || sh->done == 3) return;
    sh->done = 2;
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        if (sig == SIGKILL) {
            sh->done = 3;
            snprintf(sh->cls, sizeof sh->cls, "harness");
            snprintf(sh->msg, sizeof sh->msg, "child was killed");
            return;
        }
        snprintf(sh->cls, sizeof sh->cls, sig == SIGALRM ? "hang" : "crash:%s", strsignal(sig));
        for (char *c = sh->cls; *c; ++c)
            if (*c == ' ') *c = '-';
        snprintf(sh->msg, sizeof sh->msg, "the process died of signal %d (%s) [during: %.200s]", sig, strsignal(sig), sh->ctx);
    } else {
        snprintf(sh->cls, sizeof sh->cls, "exit");
        snprintf(sh->msg, sizeof sh->msg, "the library ended the process with status %d [during: %.200s]", WEXITSTATUS(st), sh->ctx);
    }
}
static Plan generate(const Scenario *sc, uint64_t seed, int64_t tier)
{
    Plan p;
    p.scenario = sc->name;
    p.seed = seed;
    if (tier) p.cfg["tier"] = tier;
    Rng r(seed);
    sc->generate(p, r);
    return p;
}
struct Rec {
    uint64_t idx, seed, hash, digest, sched;
    uint32_t done, faulted;
    uint64_t events;
};
static std::string esc(const char *s)
{
    std::string o;
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') o += '\\';
        if (*s == '\n') { o += "\\n"; continue; }
        if (static_cast<unsigned char>(*s) < 32) { o += '?'; continue; }
        o += *s;
    }
    return o;
}
static int batch(int argc, char **argv)
{
    // batch scenario base start count jobs seconds outdir tier
    if (argc < 10) return 3;
    const Scenario *sc = find(argv[2]);
    uint64_t base = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10), cnt = strtoull(argv[5], nullptr, 10);
    int jobs = atoi(argv[6]);
    double secs = atof(argv[7]);
    std::string out = argv[8];
    int64_t tier = atoi(argv[9]);
    double t0 = now();
    std::vector<pid_t> kids;
    for (int j = 0; j < jobs; ++j) {
        pid_t pid = fork();
        if (pid == 0) {
            rt::Shared *sh = new_shared();
            uint64_t agg[rt::K_COUNT] = { 0 };
            uint64_t hit[rt::K_COUNT] = { 0 };
            std::unordered_set<uint64_t> states, scheds;
            std::ofstream recs(out + "/rec." + std::to_string(j), std::ios::binary);
            std::ofstream ev(out + "/viol." + std::to_string(j));
            std::ofstream smp(out + "/sample." + std::to_string(j));
            std::unordered_map<std::string, int> seen;
            uint64_t nondet = 0, errors = 0;
            std::string lasterr;
            bool slow = false; // runs that do not end cost too much to look at many of them
            for (uint64_t i = start + static_cast<uint64_t>(j); i < start + cnt; i += static_cast<uint64_t>(jobs)) {
                if (now() - t0 > secs || slow) break;
                double began = now();
                uint64_t seed = mix(base, i);
                Plan p = generate(sc, seed, tier);
                execute(p, sh);
                for (int k = 0; k < rt::K_COUNT; ++k) {
                    agg[k] += sh->cnt[k];
                    hit[k] += sh->cnt[k] != 0;
                }
                for (uint32_t k = 0; k < sh->nstates; ++k)
                    if (states.size() < 3000000) states.insert(sh->states[k]);
                if (sh->sched_hash) scheds.insert(sh->sched_hash);
                Rec r{ i, seed, sh->hash, sh->digest, sh->sched_hash, static_cast<uint32_t>(sh->done), 0, sh->cnt[rt::K_EVENTS] };
                for (int k = rt::K_F_PREEMPT; k <= rt::K_F_REUSE; ++k) r.faulted |= sh->cnt[k] != 0;
                recs.write(reinterpret_cast<char *>(&r), sizeof r);
                if (sh->done == 3) {
                    ++errors;
                    lasterr = sh->msg;
                    continue;
                }
                if (sh->done == 2) {
                    std::string cls = sh->cls;
                    slow = now() - began > 3.;
                    if (seen[cls]++ < 3) {
                        std::string pf = out + "/plan." + std::to_string(i);
                        std::ofstream(pf) << p.str();
                        ev << i << "\t" << cls << "\t" << esc(sh->msg) << "\n" << std::flush;
                    }
                } else if ((i - start) < 24) {
                    smp << i << "\t" << seed << "\t" << esc(sh->note) << "\n";
                }
                if (i % 37 == 5) { // determinism: the same plan again
                    uint64_t h = sh->hash, d = sh->sched_hash, e = sh->cnt[rt::K_EVENTS];
                    int dn = sh->done;
                    execute(p, sh);
                    if (sh->hash != h || sh->sched_hash != d || sh->cnt[rt::K_EVENTS] != e || sh->done != dn) {
                        ++nondet;
                        std::ofstream(out + "/nondet." + std::to_string(i)) << p.str() << "# hash " << (sh->hash != h) << " sched " << (sh->sched_hash != d) << " events " << e << " " << sh->cnt[rt::K_EVENTS] << " done " << dn << " " << sh->done << "\n";
                    }
                }
            }
            std::ofstream a(out + "/agg." + std::to_string(j));
            for (int k = 0; k < rt::K_COUNT; ++k) a << rt::counter_names[k] << " " << agg[k] << " " << hit[k] << "\n";
            a << "nondet " << nondet << " 0\nerrors " << errors << " 0\n";
            if (!lasterr.empty()) std::ofstream(out + "/error." + std::to_string(j)) << lasterr << "\n";
            std::ofstream st(out + "/states." + std::to_string(j), std::ios::binary);
            for (auto v : states) st.write(reinterpret_cast<const char *>(&v), 8);
            std::ofstream sd(out + "/scheds." + std::to_string(j), std::ios::binary);
            for (auto v : scheds) sd.write(reinterpret_cast<const char *>(&v), 8);
            recs.close(); ev.close(); smp.close(); a.close(); st.close(); sd.close();
            _exit(0);
        }
        kids.push_back(pid);
    }
    int bad = 0;
    for (pid_t k : kids) {
        int st;
        waitpid(k, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    }
    auto merge = [&](const char *n) {
        std::unordered_set<uint64_t> s;
        for (int j = 0; j < jobs; ++j) {
            std::ifstream f(out + "/" + n + "." + std::to_string(j), std::ios::binary);
            uint64_t v;
            while (f.read(reinterpret_cast<char *>(&v), 8)) s.insert(v);
        }
        return s.size();
    };
    std::printf("states %zu\nscheds %zu\nwall %.3f\n", merge("states"), merge("scheds"), now() - t0);
    return bad ? 3 : 0;
}
static int replay(const char *path)
{
    std::ifstream f(path);
    if (!f) return 3;
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p = Plan::parse(ss.str());
    rt::Shared *sh = new_shared();
    execute(p, sh);
    std::printf("done %d\ncls %s\nmsg %s\nhash %016" PRIx64 "\nsched %016" PRIx64 "\ndigest %016" PRIx64 "\nnote %s\n", sh->done, sh->cls, esc(sh->msg).c_str(), sh->hash, sh->sched_hash, sh->digest, esc(sh->note).c_str());
    if (getenv("SIM_COUNTERS"))
        for (int k = 0; k < rt::K_COUNT; ++k)
            if (sh->cnt[k]) std::printf("cnt %s %" PRIu64 "\n", rt::counter_names[k], sh->cnt[k]);
    return sh->done == 1 ? 0 : sh->done == 2 ? 1 : 2;
}
int main(int argc, char **argv)
{
    // the same addresses in every execution
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE);
        setenv("SIM_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (argc > 2 && !strcmp(argv[1], "batch")) return batch(argc, argv);
    if (argc > 2 && !strcmp(argv[1], "replay")) return replay(argv[2]);
    if (argc > 4 && !strcmp(argv[1], "gen")) {
        const Scenario *sc = find(argv[2]);
        uint64_t seed = mix(strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10));
        std::fputs(generate(sc, seed, argc > 5 ? atoi(argv[5]) : 0).str().c_str(), stdout);
        return 0;
    }
    std::fprintf(stderr, "usage: %s batch|replay|gen ...\n", argv[0]);
    return 3;
}

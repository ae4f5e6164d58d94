// Driver: forks one process per simulated run, records choices, minimises and replays failures.
#include "core.hh"
#include "props.hh"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char const *__asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=1:symbolize=0:max_malloc_fill_size=4096:"
           "malloc_fill_byte=190:free_fill_byte=174:max_free_fill_size=256:detect_stack_use_after_return=0:print_summary=1:"
           "detect_odr_violation=0:print_legend=0";
}

static char const *const stream_names[N_STREAMS] = {"gen", "cfg", "sched", "search", "fault", "search2", "search3"};
typedef std::vector<std::vector<uint32_t>> Streams;

struct RunResult {
    int outcome;
    std::string cls, msg;
    uint64_t hash;
    std::string err;
};

static int err_fd = -1;
static PropDef const *prop = nullptr;
static unsigned wall_limit = 60;

static std::string crash_class(std::string const &err, int st) {
    // assertion messages of libc and of the standard library
    for (auto const *key : {"Assertion `", "Assertion '"}) {
        auto p = err.find(key);
        if (p != std::string::npos) {
            auto e = err.find_first_of("\n", p);
            auto s = err.substr(p, std::min<size_t>(e - p, 90));
            return "crash: " + s;
        }
    }
    auto p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        p += 25;
        auto e = err.find_first_of(" \n", p);
        return "crash: " + err.substr(p, e - p);
    }
    p = err.find("terminate called");
    if (p != std::string::npos) {
        auto e = err.find_first_of("\n", p);
        return "crash: " + err.substr(p, std::min<size_t>(e - p, 100));
    }
    if (WIFSIGNALED(st)) {
        return "crash: signal " + std::to_string(WTERMSIG(st));
    }
    return "crash: exit status " + std::to_string(WEXITSTATUS(st));
}

// runs one simulation in a child process
static RunResult run_once(uint64_t seed, Streams const *replay, bool verbose) {
    sh->seed = seed;
    sh->replaying = replay != nullptr;
    sh->verbose = verbose;
    if (replay != nullptr) {
        for (int i = 0; i < N_STREAMS; ++i) {
            auto const &v = (*replay)[static_cast<size_t>(i)];
            sh->in_len[i] = static_cast<uint32_t>(v.size());
            std::copy(v.begin(), v.end(), sh->draws[i]);
        }
    }
    if (err_fd < 0) {
        err_fd = memfd_create("stderr", MFD_CLOEXEC);
    }
    if (ftruncate(err_fd, 0) != 0) {
    }
    lseek(err_fd, 0, SEEK_SET);
    sh->outcome = O_NONE;
    fflush(stdout);
    auto pid = fork();
    if (pid < 0) {
        fprintf(stderr, "fork failed: %s\n", strerror(errno));
        _exit(2);
    }
    if (pid == 0) {
        dup2(err_fd, 2);
        alarm(wall_limit);
        struct rlimit rl {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        core_init_child();
        prop->fn();
        finish(O_OK, "ok", "");
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    RunResult r{sh->outcome, sh->cls, sh->msg, sh->hash, ""};
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || r.outcome == O_NONE) {
        auto n = lseek(err_fd, 0, SEEK_END);
        r.err.resize(static_cast<size_t>(std::min<off_t>(n, 1 << 16)));
        if (pread(err_fd, r.err.data(), r.err.size(), 0) < 0) {
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            r.outcome = O_BUDGET;
            r.cls = "wall-time";
        } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            r.outcome = O_BUDGET; // out of memory in the sandbox
            r.cls = "killed";
        } else {
            r.outcome = O_VIOLATION;
            r.cls = crash_class(r.err, st);
            r.msg = "the process crashed: " + r.cls + "\n" + r.err.substr(0, 3000);
        }
    }
    return r;
}
static Streams recorded() {
    Streams s(N_STREAMS);
    for (int i = 0; i < N_STREAMS; ++i) {
        s[static_cast<size_t>(i)].assign(sh->draws[i], sh->draws[i] + std::min<uint32_t>(sh->top[i], STREAM_CAP));
    }
    return s;
}
static double now_s() {
    struct timespec t {};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static size_t size_of(Streams const &s) {
    size_t n = 0;
    for (auto const &v : s) {
        n += v.size();
    }
    return n;
}
static Streams minimise(Streams best, std::string const &cls, double limit) {
    double end = now_s() + limit;
    auto trim = [](Streams &s) {
        for (auto &v : s) {
            while (!v.empty() && v.back() == 0) {
                v.pop_back();
            }
        }
    };
    auto attempt = [&](Streams c) {
        trim(c);
        if (c == best || now_s() > end) {
            return false;
        }
        auto r = run_once(0, &c, false);
        if (r.outcome == O_VIOLATION && r.cls == cls) {
            auto used = recorded();
            for (size_t i = 0; i < c.size(); ++i) {
                if (c[i].size() > used[i].size()) {
                    c[i].resize(used[i].size());
                }
            }
            trim(c);
            best = c;
            return true;
        }
        return false;
    };
    trim(best);
    bool changed = true;
    while (changed && now_s() < end) {
        changed = false;
        for (size_t s = 0; s < best.size(); ++s) {
            // drop whole stream
            if (!best[s].empty()) {
                auto c = best;
                c[s].clear();
                changed |= attempt(c);
            }
            // truncate
            for (size_t k = best[s].size() / 2; k > 0 && now_s() < end; k /= 2) {
                while (best[s].size() > k) {
                    auto c = best;
                    c[s].resize(c[s].size() - k);
                    if (!attempt(c)) {
                        break;
                    }
                    changed = true;
                }
            }
            // delete and zero chunks
            for (size_t k = std::min<size_t>(best[s].size(), 64); k > 0 && now_s() < end; k /= 2) {
                for (size_t i = 0; i + k <= best[s].size() && now_s() < end;) {
                    auto c = best;
                    c[s].erase(c[s].begin() + static_cast<long>(i), c[s].begin() + static_cast<long>(i + k));
                    if (attempt(c)) {
                        changed = true;
                        continue;
                    }
                    c = best;
                    bool nz = false;
                    for (size_t j = i; j < i + k; ++j) {
                        nz = nz || c[s][j] != 0;
                        c[s][j] = 0;
                    }
                    if (nz && attempt(c)) {
                        changed = true;
                    }
                    i += k;
                }
            }
            // smaller values
            for (size_t i = 0; i < best[s].size() && now_s() < end; ++i) {
                while (i < best[s].size() && best[s][i] > 0) {
                    auto c = best;
                    c[s][i] /= 2;
                    if (attempt(c)) {
                        changed = true;
                        continue;
                    }
                    c = best;
                    c[s][i] -= 1;
                    if (attempt(c)) {
                        changed = true;
                        continue;
                    }
                    break;
                }
            }
        }
    }
    return best;
}
static void write_replay(std::string const &path, uint64_t seed, Streams const &s, RunResult const &r, std::string const &trace) {
    std::ofstream o(path);
    o << "property: " << prop->id << "\nclass: " << r.cls << "\nseed: " << seed << "\nhash: " << r.hash << "\n";
    for (int i = 0; i < N_STREAMS; ++i) {
        o << "stream " << stream_names[i] << ":";
        for (auto x : s[static_cast<size_t>(i)]) {
            o << " " << x;
        }
        o << "\n";
    }
    o << "--- violation\n" << r.msg << "\n--- trace\n" << trace;
}
static bool read_replay(std::string const &path, std::string &id, std::string &cls, uint64_t &hash, Streams &s) {
    std::ifstream in(path);
    std::string line;
    s.assign(N_STREAMS, {});
    while (std::getline(in, line)) {
        if (line.rfind("---", 0) == 0) {
            break;
        }
        auto p = line.find(": ");
        auto key = line.substr(0, line.find(':'));
        auto val = p == std::string::npos ? std::string() : line.substr(p + 2);
        if (key == "property") {
            id = val;
        } else if (key == "class") {
            cls = val;
        } else if (key == "hash") {
            hash = std::stoull(val);
        } else if (key.rfind("stream ", 0) == 0) {
            for (int i = 0; i < N_STREAMS; ++i) {
                if (key.substr(7) == stream_names[i]) {
                    std::istringstream is(val);
                    uint32_t x = 0;
                    while (is >> x) {
                        s[static_cast<size_t>(i)].push_back(x);
                    }
                }
            }
        }
    }
    return !id.empty();
}
static PropDef const *find_prop(std::string const &id) {
    for (size_t i = 0; i < num_props; ++i) {
        if (id == props[i].id) {
            return &props[i];
        }
    }
    fprintf(stderr, "unknown property %s\n", id.c_str());
    exit(2);
}
static std::string json_str(std::string const &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + 0x1234567;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
// captures the log of a run
static std::string trace_of(Streams const &s, RunResult &r) {
    char name[] = "/tmp/sim_trace_XXXXXX";
    int fd = mkstemp(name);
    if (fd < 0) {
        r = run_once(0, &s, false);
        return "";
    }
    fflush(stdout);
    int save = dup(1);
    dup2(fd, 1);
    r = run_once(0, &s, true);
    fflush(stdout);
    dup2(save, 1);
    close(save);
    close(fd);
    std::ifstream in(name);
    std::stringstream ss;
    ss << in.rdbuf();
    unlink(name);
    return ss.str();
}

// sim worker PROP SEED INDEX COUNT SECONDS OUT: runs until time is up; exit 0 fine, 1 violation, 2 error
static int worker(int argc, char **argv) {
    if (argc < 8) {
        return 2;
    }
    prop = find_prop(argv[2]);
    uint64_t base = mix(std::stoull(argv[3]), std::hash<std::string>{}(argv[2]));
    auto index = std::stoull(argv[4]);
    auto total = std::stoull(argv[5]);
    double seconds = std::stod(argv[6]);
    std::string out = argv[7];
    double start = now_s();
    uint64_t unrepeatable = 0, runs = 0, ok = 0, budget = 0, repeats = 0, sim_ns = 0, blocks = 0, nontrivial = 0, events = 0;
    std::vector<uint64_t> cnt(N_COUNTERS, 0), with(N_COUNTERS, 0);
    std::set<uint64_t> hashes, scheds, nthashes;
    std::vector<std::string> samples, notes;
    std::string verdict = "ok", info, replay;
    int rc = 0;
    uint64_t every = 40;
    if (auto const *m = getenv("SIM_REPEAT"); m != nullptr) {
        every = std::max<uint64_t>(2, std::stoull(m));
    }
    uint64_t max_runs = UINT64_MAX;
    if (auto const *m = getenv("SIM_MAX_RUNS"); m != nullptr) {
        max_runs = std::stoull(m);
    }
    for (uint64_t i = index; now_s() - start < seconds && runs < max_runs; i += total) {
        auto seed = mix(base, i);
        auto r = run_once(seed, nullptr, false);
        ++runs;
        sim_ns += sh->sim_ns;
        blocks += sh->steps;
        for (int k = 0; k < N_COUNTERS; ++k) {
            if (std::string_view n = counter_names[k]; n.size() > 4 && n.substr(n.size() - 4) == "_max") {
                cnt[k] = std::max(cnt[k], sh->cnt[k]);
            } else {
                cnt[k] += sh->cnt[k];
            }
            with[k] += sh->cnt[k] > 0 ? 1 : 0;
        }
        hashes.insert(r.hash);
        if (sh->sched_hash != 0) {
            scheds.insert(sh->sched_hash);
        }
        if (sh->cnt[runs_nontrivial] > 0) {
            ++nontrivial;
            nthashes.insert(r.hash);
        }
        if (samples.size() < 2 && sh->cnt[runs_nontrivial] > 0 && sh->sample[0] != 0) {
            samples.emplace_back("seed " + std::to_string(seed) + "\n" + sh->sample);
        }
        if (r.outcome == O_OK) {
            ++ok;
            // every now and then the same seed has to give the same run
            if (runs % every == 1) {
                std::vector<uint64_t> ev(sh->ev, sh->ev + sh->ev_len);
                auto rec = recorded();
                auto q = run_once(seed, nullptr, false);
                ++repeats;
                if (q.hash != r.hash || q.outcome != r.outcome) {
                    ++unrepeatable;
                    std::string info = "seed " + std::to_string(seed) + " is not reproducible";
                    auto sec = recorded();
                    for (size_t k = 0; k < N_STREAMS; ++k) {
                        if (rec[k] != sec[k]) {
                            info += std::string(" stream ") + stream_names[k];
                        }
                    }
                    for (size_t k = 0; k < std::max<size_t>(ev.size(), sh->ev_len); ++k) {
                        if (k >= ev.size() || k >= sh->ev_len || ev[k] != sh->ev[k]) {
                            char b[200];
                            snprintf(b, sizeof b, " outcome %d/%d event %zu of %zu/%u: %lx %lx", r.outcome, q.outcome, k, ev.size(), sh->ev_len,
                                     k < ev.size() ? ev[k] : 0, k < sh->ev_len ? sh->ev[k] : 0);
                            info += b;
                            break;
                        }
                    }
                    if (getenv("SIM_DUMP") != nullptr) {
                        for (int i = 0; i < 8; ++i) {
                            RunResult x;
                            auto t = trace_of(rec, x);
                            std::ofstream(std::string(getenv("SIM_DUMP")) + std::to_string(i)) << t << x.hash << "\n";
                        }
                    }
                    notes.emplace_back(info);
                }
            }
            continue;
        }
        if (r.outcome == O_BUDGET) {
            ++budget;
            continue;
        }
        if (r.outcome == O_INTERNAL) {
            // an error if no violation is found
            verdict = "error";
            info = "seed " + std::to_string(seed) + ": " + r.msg;
            rc = 2;
            continue;
        }
        // a violation
        auto s = recorded();
        RunResult q{};
        for (int k = 0; k < 4 && (k == 0 || q.outcome != O_VIOLATION || q.cls != r.cls || q.hash != r.hash); ++k) {
            q = run_once(0, &s, false);
        }
        if (q.outcome != O_VIOLATION || q.cls != r.cls || q.hash != r.hash) {
            // not believed; an error if no other violation is found
            verdict = "error";
            info = "seed " + std::to_string(seed) + ": violation is not reproducible: " + r.cls + " / " + q.cls + ": " + r.msg;
            rc = 2;
            continue;
        }
        double mt = 20;
        if (auto const *m = getenv("SIM_MINIMISE"); m != nullptr) {
            mt = std::stod(m);
        }
        auto before = size_of(s);
        auto m = minimise(s, r.cls, mt);
        RunResult f{};
        auto trace = trace_of(m, f);
        if (f.outcome != O_VIOLATION || f.cls != r.cls) {
            m = s;
            trace = trace_of(m, f);
        }
        replay = out + ".replay";
        write_replay(replay, seed, m, f, trace);
        verdict = "violation";
        info = f.cls + ": " + f.msg + " [" + std::to_string(before) + " choices reduced to " + std::to_string(size_of(m)) + "]";
        rc = 1;
        break;
    }
    size_t covered = 0;
    std::string cov;
    for (uint32_t i = 0; i < std::min<uint32_t>(sh->cov_n + 1, COV_MAX); ++i) {
        covered += sh->cov[i];
    }
    static_cast<void>(events);
    std::ofstream o(out);
    o << "{\"verdict\":" << json_str(verdict) << ",\"info\":" << json_str(info) << ",\"replay\":" << json_str(replay)
      << ",\"runs\":" << runs << ",\"ok\":" << ok << ",\"inconclusive\":" << budget << ",\"repeats\":" << repeats << ",\"unrepeatable\":" << unrepeatable
      << ",\"sim_ns\":" << sim_ns << ",\"blocks\":" << blocks << ",\"nontrivial\":" << nontrivial
      << ",\"wall\":" << now_s() - start << ",\"cov_total\":" << sh->cov_n << ",\"counters\":{";
    for (int k = 0; k < N_COUNTERS; ++k) {
        o << (k > 0 ? "," : "") << "\"" << counter_names[k] << "\":[" << cnt[k] << "," << with[k] << "]";
    }
    o << "},\"cov\":[";
    bool first = true;
    for (uint32_t i = 0; i < COV_MAX; ++i) {
        if (sh->cov[i] != 0) {
            o << (first ? "" : ",") << i;
            first = false;
        }
    }
    o << "],\"notes\":[";
    for (size_t i = 0; i < notes.size(); ++i) {
        o << (i > 0 ? "," : "") << json_str(notes[i]);
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) {
        o << (i > 0 ? "," : "") << json_str(samples[i]);
    }
    auto dump = [&](char const *name, std::set<uint64_t> const &x) {
        o << ",\"" << name << "\":[";
        bool f = true;
        for (auto h : x) {
            o << (f ? "" : ",") << h;
            f = false;
        }
        o << "]";
    };
    o << "]";
    dump("hashes", hashes);
    dump("nthashes", nthashes);
    dump("scheds", scheds);
    o << "}\n";
    return rc;
}

int main(int argc, char **argv) {
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) {
        return 2;
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") {
        for (size_t i = 0; i < num_props; ++i) {
            puts(props[i].id);
        }
        return 0;
    }
    if (cmd == "worker") {
        return worker(argc, argv);
    }
    if (cmd == "run" && argc > 3) { // sim run PROP SEED: one verbose run
        prop = find_prop(argv[2]);
        auto r = run_once(std::stoull(argv[3]), nullptr, true);
        printf("outcome %d class %s hash %llu\n%s\n%s\n", r.outcome, r.cls.c_str(), static_cast<unsigned long long>(r.hash),
               r.msg.c_str(), r.err.c_str());
        return r.outcome == O_VIOLATION ? 1 : r.outcome == O_OK ? 0 : 2;
    }
    if (cmd == "replay" && argc > 2) { // sim replay FILE [verbose]
        std::string id, cls;
        uint64_t hash = 0;
        Streams s;
        if (!read_replay(argv[2], id, cls, hash, s)) {
            fprintf(stderr, "cannot read %s\n", argv[2]);
            return 2;
        }
        prop = find_prop(id);
        auto r = run_once(0, &s, argc > 3);
        printf("outcome %d\nclass %s\nhash %llu (%s)\n%s\n", r.outcome, r.cls.c_str(), static_cast<unsigned long long>(r.hash),
               r.hash == hash ? "as recorded" : "differs from the record", r.msg.c_str());
        return r.outcome == O_VIOLATION && r.cls == cls ? 1 : r.outcome == O_OK ? 0 : 2;
    }
    fprintf(stderr, "usage: sim list|worker|run|replay ...\n");
    return 2;
}

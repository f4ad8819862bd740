#include "core.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
#include <errno.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VSIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif

namespace vsim {

__thread Ctx* ctx = nullptr;

// Not inline: simulated threads draw here, and may not be interrupted
u32 Tape::draw(u32 bound) {
    u32 v;
    if (bound == 0) bound = 1;
    if (echoing != nullptr) {  // the same choices once more
        v = echo_at < echoing->size() ? (*echoing)[echo_at] : 0;
        echo_at++;
        return v % bound;
    }
    if (source != nullptr) {
        v = source->draw(bound);
    } else if (replay) {
        v = n < data.size() ? data[n] : 0;
        v %= bound;
    } else {
        s = mix(s, n + 1);
        v = (u32)((s >> 11) % bound);
    }
    if (rec != nullptr && n < rec_cap) {
        rec[n] = v;
        *rec_n = n + 1;
    }
    n++;
    if (tapping != nullptr) tapping->push_back(v);
    if (keeping != nullptr) keeping->push_back(v);
    return v;
}

// State shared with the driver through a file, so that a crash or a hang of
// this process leaves the tape of the run that caused it.
struct Shared {
    u64 run;
    u64 active;
    u64 seed;
    u64 n;
    u32 tape[1 << 20];
};
static Shared* shared = nullptr;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

static double hang_cpu_s = 20.0;

static void on_hang(int) {
    static char const m[] = "\nVSIM-HANG\n";
    (void)!write(1, m, sizeof(m) - 1);
    _exit(77);
}

static void arm_watchdog() {
    itimerval it{};
    it.it_value.tv_sec = (long)hang_cpu_s;
    it.it_value.tv_usec = (long)((hang_cpu_s - (double)(long)hang_cpu_s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static std::string json_str(std::string const &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}

static void begin_run(Ctx &c) {
    c.log_hash = 0;
    c.log_n = 0;
    c.trace.clear();
    c.nontrivial = false;
    c.run_features.clear();
    c.budget = 4000000;
    c.have_violation = false;
    c.violation = Violation();
}

static int attempt(Ctx &c, RunFn const &fn) {
    int rc = 0;
    try {
        fn(c);
        if (c.have_violation) rc = 1;
    } catch (Violation &v) {
        c.first_violation(v.cls, v.msg);
        rc = 1;
    } catch (Discard &) {
        rc = c.have_violation ? 1 : 2;
    } catch (std::exception &e) {
        c.first_violation("unexpected-exception",
                          cat("unexpected exception reached the harness: ", e.what()));
        rc = 1;
    }
    return rc;
}

// Returns 0 when the run was clean, 1 on a violation, 2 when discarded.
static int do_run(Ctx &c, RunFn const &fn) {
    begin_run(c);
    arm_watchdog();
    int rc = attempt(c, fn);
    if (rc == 1 && c.violation.cls == "memory-leak") {
        // Memory that is set up once and kept for good is not lost: the same
        // run must lose memory again.
        begin_run(c);
        c.tape.rewind();
        c.count("leaks looked at again");
        rc = attempt(c, fn);
    }
    return rc;
}

// ---- A run in a process of its own -------------------------------------------
static void put_u64(FILE* f, u64 v) { fwrite(&v, 8, 1, f); }
static void put_str(FILE* f, std::string const &s) {
    put_u64(f, s.size());
    fwrite(s.data(), 1, s.size(), f);
}
static void put_map(FILE* f, std::map<std::string, u64> const &m) {
    put_u64(f, m.size());
    for (auto &kv : m) {
        put_str(f, kv.first);
        put_u64(f, kv.second);
    }
}
static u64 get_u64(FILE* f) {
    u64 v = 0;
    if (fread(&v, 8, 1, f) != 1) v = 0;
    return v;
}
static std::string get_str(FILE* f) {
    std::string s((std::size_t)get_u64(f), ' ');
    if (fread(&s[0], 1, s.size(), f) != s.size()) s.clear();
    return s;
}
static void add_map(FILE* f, std::map<std::string, u64> &m) {
    for (u64 n = get_u64(f); n > 0; n--) {
        std::string k = get_str(f);
        m[k] += get_u64(f);
    }
}

void forked(Ctx &c, RunFn const &fn) {
    int p[2];
    fflush(nullptr);
    if (pipe(p) != 0) throw Discard();
    pid_t pid = fork();
    if (pid < 0) {
        close(p[0]);
        close(p[1]);
        throw Discard();
    }
    if (pid == 0) {
        close(p[0]);
        arm_watchdog();
        c.counters.clear();
        c.faults.clear();
        c.run_features.clear();
        c.states.clear();
        c.sim_time = 0.0;
        int rc = attempt(c, fn);
        FILE* f = fdopen(p[1], "wb");
        put_u64(f, 0x600d);
        put_u64(f, (u64)rc);
        put_u64(f, c.nontrivial ? 1 : 0);
        put_u64(f, c.log_hash);
        put_u64(f, c.log_n);
        put_u64(f, c.tape.draws());
        fwrite(&c.sim_time, 8, 1, f);
        put_str(f, c.violation.cls);
        put_str(f, c.violation.msg);
        put_map(f, c.counters);
        put_map(f, c.faults);
        put_map(f, c.run_features);
        put_u64(f, c.states.size());
        for (u64 s : c.states) put_u64(f, s);
        put_u64(f, c.trace.size());
        for (auto &l : c.trace) put_str(f, l);
        fclose(f);
        _exit(0);
    }
    close(p[1]);
    FILE* f = fdopen(p[0], "rb");
    u64 ok = get_u64(f);
    int rc = (int)get_u64(f);
    c.nontrivial = get_u64(f) != 0;
    c.log_hash = get_u64(f);
    c.log_n = get_u64(f);
    c.tape.moved_on(get_u64(f));
    double st = 0.0;
    if (fread(&st, 8, 1, f) == 1) c.sim_time += st;
    Violation v;
    v.cls = get_str(f);
    v.msg = get_str(f);
    add_map(f, c.counters);
    add_map(f, c.faults);
    add_map(f, c.run_features);
    for (u64 n = get_u64(f); n > 0; n--) c.state(get_u64(f));
    for (u64 n = get_u64(f); n > 0; n--) c.trace.push_back(get_str(f));
    fclose(f);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(status)) {
        signal(WTERMSIG(status), SIG_DFL);
        raise(WTERMSIG(status));
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || ok != 0x600d) _exit(WIFEXITED(status) ? WEXITSTATUS(status) : 3);
    if (rc == 1) c.violate(v.cls, v.msg);
    if (rc == 2) throw Discard();
}

static void print_map(FILE* f, char const* name, std::map<std::string, u64> const &m) {
    fprintf(f, "\"%s\":{", name);
    bool first = true;
    for (auto &kv : m) {
        fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(kv.first).c_str(),
                (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "}");
}

static void dump_set(char const* path, std::unordered_set<u64> const &s) {
    FILE* f = fopen(path, "wb");
    if (!f) return;
    for (u64 v : s) fwrite(&v, 8, 1, f);
    fclose(f);
}

int worker_main(int argc, char** argv, std::map<std::string, RunFn> const &props) {
    u64 seed = 1, start = 0, stride = 1, max_runs = ~0ull;
    double budget = 10.0;
    std::string prop, replay, state_file, out_prefix;
    bool trace = false, thorough = false, verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--max") max_runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--state") state_file = val();
        else if (a == "--out") out_prefix = val();
        else if (a == "--replay") replay = val();
        else if (a == "--trace") trace = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--thorough") thorough = true;
        else if (a == "--hang") hang_cpu_s = atof(val().c_str());
    }
    auto it = props.find(prop);
    if (it == props.end()) {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 2;
    }
    signal(SIGVTALRM, on_hang);
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    Ctx* c = new Ctx;
    ctx = c;
    c->prop = prop;
    c->thorough = thorough;

    if (!replay.empty()) {
        // One run from a recorded tape.
        std::vector<u32> d;
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) {
            fprintf(stderr, "cannot open %s\n", replay.c_str());
            return 2;
        }
        unsigned long v;
        while (fscanf(f, "%lu", &v) == 1) d.push_back((u32)v);
        fclose(f);
        c->tracing = trace;
        c->tape.start_replay(d);
        int rc = do_run(*c, it->second);
        setitimer(ITIMER_VIRTUAL, nullptr, nullptr);
        for (auto &l : c->trace) printf("T %s\n", l.c_str());
        printf("RESULT {\"rc\":%d,\"hash\":\"%016llx\",\"events\":%llu,\"draws\":%llu,\"cls\":%s,\"msg\":%s}\n",
               rc, (unsigned long long)c->log_hash, (unsigned long long)c->log_n,
               (unsigned long long)c->tape.draws(),
               json_str(c->violation.cls).c_str(), json_str(c->violation.msg).c_str());
        fflush(stdout);
        _exit(rc == 1 ? 10 : 0);
    }

    if (!state_file.empty()) {
        int fd = open(state_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
            perror("state file");
            return 2;
        }
        shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (shared == MAP_FAILED) return 2;
        c->tape.set_buffer(shared->tape, &shared->n, sizeof(shared->tape) / sizeof(u32));
    }
    double t0 = now();
    u64 runs = 0, nontrivial = 0, discarded = 0;
    int rc = 0;
    u64 bad_run = 0;
    std::vector<std::string> samples;
    for (u64 i = start; runs < max_runs; i += stride) {
        if (now() - t0 > budget) break;
        if (shared) {
            shared->run = i;
            shared->n = 0;
            shared->seed = seed;
            shared->active = 1;
        }
        c->tape.start_random(mix(seed, hash_str(prop.c_str()), i));
        c->tracing = (samples.size() < 2 && runs >= 3) || verbose;
        int r = do_run(*c, it->second);
        if (verbose)
            for (auto &l : c->trace) printf("T %s\n", l.c_str());
        if (shared) shared->active = 0;
        runs++;
        if (trace)
            printf("HASH %llu %016llx %llu\n", (unsigned long long)i, (unsigned long long)c->log_hash,
                   (unsigned long long)c->log_n);
        if (r == 2) {
            discarded++;
            continue;
        }
        if (c->nontrivial) nontrivial++;
        for (auto &kv : c->run_features) c->runs_with[kv.first]++;
        if (c->nontrivial && c->histories.size() < 2000000) c->histories.insert(c->log_hash);
        if (c->tracing && c->nontrivial && !c->trace.empty()) {
            std::string s = cat("seed=", seed, " run=", i, " history=", c->log_hash, ":");
            for (std::size_t k = 0; k < c->trace.size() && k < 25; k++) s += " | " + c->trace[k];
            samples.push_back(s);
        }
        if (r == 1) {
            rc = 10;
            bad_run = i;
            if (shared) shared->active = 1;
            break;
        }
    }
    setitimer(ITIMER_VIRTUAL, nullptr, nullptr);
    double wall = now() - t0;
    if (!out_prefix.empty()) {
        dump_set((out_prefix + ".states").c_str(), c->states);
        dump_set((out_prefix + ".hist").c_str(), c->histories);
    }
    printf("STATS {\"runs\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"wall\":%.6f,\"sim_time\":%.6f,",
           (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)discarded,
           wall, c->sim_time);
    print_map(stdout, "faults", c->faults);
    printf(",");
    print_map(stdout, "counters", c->counters);
    printf(",");
    print_map(stdout, "runs_with", c->runs_with);
    printf(",\"samples\":[");
    for (std::size_t k = 0; k < samples.size(); k++)
        printf("%s%s", k ? "," : "", json_str(samples[k]).c_str());
    printf("],\"bad\":%d,\"bad_run\":%llu,\"cls\":%s,\"msg\":%s}\n", rc == 10 ? 1 : 0,
           (unsigned long long)bad_run, json_str(c->violation.cls).c_str(),
           json_str(c->violation.msg).c_str());
    fflush(stdout);
    _exit(rc);
}

// ---- Placement pool --------------------------------------------------------
thread_local unsigned char Pool::fill = 0xA5;
static thread_local unsigned char* pool_mem = nullptr;
static thread_local std::vector<int>* pool_free = nullptr;
static thread_local int pool_live = 0;

void Pool::reset(u64 perm_seed, int use_slots) {
    AllocQuiet q;
    if (pool_mem == nullptr) {
        pool_mem = (unsigned char*)mmap(nullptr, slot_size * slots, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        pool_free = new std::vector<int>;
    }
    if (use_slots > slots) use_slots = slots;
    if (pool_live != 0) return;  // models outlive a run only after a violation
    pool_free->resize((std::size_t)use_slots);
    for (int i = 0; i < use_slots; i++) (*pool_free)[(std::size_t)i] = use_slots - 1 - i;
    if (perm_seed != 0) {
        u64 s = perm_seed;
        for (int i = use_slots - 1; i > 0; i--) {
            s = mix(s, (u64)i);
            std::swap((*pool_free)[(std::size_t)i], (*pool_free)[(std::size_t)(s % (u64)(i + 1))]);
        }
    }
#ifdef VSIM_ASAN
    ASAN_POISON_MEMORY_REGION(pool_mem, slot_size * slots);
#endif
}

void* Pool::alloc(std::size_t n) {
    AllocQuiet q;
    if (n > slot_size || pool_free == nullptr || pool_free->empty()) {
        fprintf(stderr, "pool exhausted (%zu)\n", n);
        abort();
    }
    int i = pool_free->back();
    pool_free->pop_back();
    pool_live++;
    void* p = pool_mem + slot_size * (std::size_t)i;
#ifdef VSIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(p, n);
#endif
    memset(p, Pool::fill, n);
    return p;
}

void Pool::release(void* p) {
    AllocQuiet q;
    if (p == nullptr) return;
    int i = (int)(((unsigned char*)p - pool_mem) / (long)slot_size);
#ifdef VSIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(p, slot_size);
#endif
    memset(p, 0xDD, slot_size);
#ifdef VSIM_ASAN
    ASAN_POISON_MEMORY_REGION(p, slot_size);
#endif
    pool_free->insert(pool_free->begin(), i);
    pool_live--;
}

int Pool::live() { return pool_live; }
void Pool::forget() { pool_live = 0; }

}  // namespace vsim

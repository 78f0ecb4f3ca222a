// Driver of the generated-input search: forked workers, crash isolation, shrinking, replay.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

#include "gen.h"

Mirror *g_mirror = nullptr;

std::vector<Prop> &props() {
    static std::vector<Prop> p;
    return p;
}

extern "C" __attribute__((visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16:print_summary=1";
}
extern "C" __attribute__((visibility("default"))) const char *__ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=77";
}

static const int CPU_LIMIT_S = 60;  // one case normally takes well under 10 ms

struct Slot {
    volatile long idx;       // case being executed, -1 when idle
    volatile long done;      // cases completed
    volatile int started;    // cpu timer
};

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static int g_null = -1, g_out = 1, g_err = 2;
static void silence() {
    g_out = dup(1);
    g_err = dup(2);
    g_null = open("/dev/null", O_WRONLY);
    dup2(g_null, 1);
}

struct Outcome {
    int kind = 0;  // 0 pass, 1 violation, 2 discard, 3 crash, 4 timeout, 5 infrastructure
    std::string msg, text;
    std::vector<uint32_t> rec;
    Case c;
};

static uint64_t caseSeed(uint64_t seed, const std::string &id, long idx) {
    return mix64(mix64(seed * 1000003 + 17) ^ hashStr(id) ^ mix64((uint64_t)idx * 0x9E3779B97F4A7C15ull + 1));
}

static void runCase(const Prop &p, Gen &g, Case &c, Outcome &o) {
    try {
        p.fn(g, c);
        o.kind = 0;
    } catch (const Violation &v) {
        o.kind = 1;
        o.msg = v.what();
    } catch (const Discard &d) {
        o.kind = 2;
        o.msg = d.what();
    } catch (const std::exception &e) {
        o.kind = 1;
        o.msg = std::string("unexpected exception: ") + e.what();
    }
    std::cout.flush();
    o.text = c.text;
    o.rec = g.rec;
}

static void armTimer(int s) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
    signal(SIGPROF, SIG_DFL);
}

static std::string readAll(const std::string &f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static std::string crashLine(const std::string &err) {
    std::istringstream i(err);
    std::string l, first, fr;
    int frames = 0;
    while (std::getline(i, l)) {
        if (first.empty() && (l.find("ERROR:") != std::string::npos || l.find("runtime error:") != std::string::npos ||
                              l.find("Error:") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("free()") != std::string::npos))
            first = l;
        if (frames < 6 && l.find("    #") == 0 && l.find("STLRom::") != std::string::npos) {
            fr += "\n    " + l.substr(l.find("in ") == std::string::npos ? 0 : l.find("in "));
            frames++;
        }
    }
    return first + fr;
}

// run one choice sequence (or seed) in a child process
static Outcome runForked(const Prop &p, const std::vector<uint32_t> *choices, uint64_t seed, const std::string &tier, const std::string &tmp) {
    Outcome o;
    std::string errF = tmp + "/e." + std::to_string(getpid());
    static Mirror *mir = (Mirror *)mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mir->n = mir->msgLen = mir->textLen = 0;
    mir->kind = -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(errF.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(e, 2);
        armTimer(CPU_LIMIT_S);
        g_mirror = mir;
        Gen g = choices ? Gen(choices) : Gen(seed);
        Case c;
        c.tier = tier;
        Outcome r;
        runCase(p, g, c, r);
        c.commit();
        mir->msgLen = (uint32_t)std::min<size_t>(r.msg.size(), Mirror::MAXT);
        memcpy(mir->msg, r.msg.data(), mir->msgLen);
        mir->kind = r.kind;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    o.rec.assign(mir->v, mir->v + mir->n);
    o.text.assign(mir->text, mir->textLen);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && mir->kind >= 0) {
        o.kind = mir->kind;
        o.msg.assign(mir->msg, mir->msgLen);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        o.kind = 4;
        o.msg = "no result within " + std::to_string(CPU_LIMIT_S) + " s of processor time (endless loop)";
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        o.kind = 5;
        o.msg = "killed";
    } else {
        o.kind = 3;
        std::ostringstream m;
        m << "crash: ";
        if (WIFSIGNALED(st)) m << "signal " << WTERMSIG(st) << " ";
        m << crashLine(readAll(errF));
        o.msg = m.str();
    }
    unlink(errF.c_str());
    return o;
}
static bool bad(const Outcome &o) { return o.kind == 1 || o.kind == 3 || o.kind == 4; }

static Outcome shrink(const Prop &p, Outcome best, const std::string &tier, const std::string &tmp, int budget, double tmax) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint32_t> &cand) {
        if (budget <= 0 || now() - t0 > tmax) return false;
        budget--;
        Outcome o = runForked(p, &cand, 0, tier, tmp);
        if (!bad(o)) return false;
        std::vector<uint32_t> r = o.rec;
        // keep only if simpler
        if (r.size() < best.rec.size() || (r.size() == best.rec.size() && r < best.rec)) {
            best = o;
            best.rec = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && budget > 0 && now() - t0 < tmax) {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 4, 2, 1}) {
            if (len > best.rec.size()) continue;
            for (size_t i = 0; i + len <= best.rec.size();) {
                auto c = best.rec;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c))
                    progress = true;
                else
                    i += len;
                if (budget <= 0) break;
            }
        }
        for (size_t len : {8, 4, 2}) {
            for (size_t i = 0; i + len <= best.rec.size(); i += len) {
                auto c = best.rec;
                bool z = true;
                for (size_t k = i; k < i + len; k++) {
                    z = z && c[k] == 0;
                    c[k] = 0;
                }
                if (!z && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.rec.size(); i++) {
            if (best.rec[i] == 0) continue;
            auto c = best.rec;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            while (i < best.rec.size() && best.rec[i] > 1) {
                c = best.rec;
                c[i] /= 2;
                if (!attempt(c)) break;
                progress = true;
            }
            if (i < best.rec.size() && best.rec[i] > 0) {
                c = best.rec;
                c[i]--;
                if (attempt(c)) progress = true;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

static void writeReplay(const std::string &path, const Prop &p, const Outcome &o, const std::string &tier) {
    std::ofstream f(path);
    f << "PROPERTY " << p.id << "\nTIER " << tier << "\nCHOICES " << o.rec.size();
    for (auto x : o.rec) f << " " << x;
    f << "\n\n# what failed\n" << o.msg << "\n\n# case\n" << o.text << "\n";
}

// message per worker: one line records appended to a file
struct WorkerOut {
    long cases = 0, nontriv = 0, discards = 0, checks = 0;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::set<uint64_t> hashes;
};

static void workerLoop(const Prop &p, uint64_t seed, const std::string &tier, long from, long n, int w, int W, Slot *slot, const std::string &tmp, volatile int *stop) {
    WorkerOut out;
    auto flush = [&]() {
        std::ofstream f(tmp + "/w" + std::to_string(w) + "." + std::to_string(getpid()));
        f << out.cases << " " << out.nontriv << " " << out.discards << " " << out.checks << "\n";
        f << out.labels.size() << "\n";
        for (auto &l : out.labels) f << l.second << " " << l.first << "\n";
        f << out.hashes.size() << "\n";
        for (auto h : out.hashes) f << h << "\n";
        f << out.samples.size() << "\n";
        for (auto &s : out.samples) f << s.size() << "\n" << s << "\n";
    };
    double lastFlush = now();
    for (long i = from; i < n; i += W) {
        if (*stop) break;
        slot->idx = i;
        armTimer(CPU_LIMIT_S);
        Gen g(caseSeed(seed, p.id, i));
        Case c;
        c.tier = tier;
        Outcome o;
        runCase(p, g, c, o);
        if (o.kind == 1) {
            std::ofstream f(tmp + "/fail." + std::to_string(i));
            f << "V\n";
            f.close();
            *stop = 1;
        }
        if (o.kind == 2) {
            out.discards++;
            out.labels["discard:" + o.msg]++;
        } else {
            out.cases++;
            out.checks += c.checks;
            for (auto &l : c.labels) out.labels[l]++;
            if (c.nontrivial) {
                out.nontriv++;
                out.hashes.insert(c.hash ? c.hash : hashStr(c.text));
                if (out.samples.size() < 2 || (out.samples.size() < 4 && (i / W) % 97 == 5)) out.samples.push_back(c.text);
            }
        }
        slot->done++;
        if (now() - lastFlush > 1.0) {
            flush();
            lastFlush = now();
        }
    }
    slot->idx = -1;
    flush();
}

int main(int argc, char **argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    auto arg = [&](const std::string &k, const std::string &d) {
        for (int i = 2; i + 1 < argc; i++)
            if (k == argv[i]) return std::string(argv[i + 1]);
        return d;
    };
    std::sort(props().begin(), props().end(), [](const Prop &a, const Prop &b) { return a.id < b.id; });
    if (cmd == "list") {
        for (auto &p : props()) std::cout << p.id << "\n";
        return 0;
    }
    std::string id = arg("--prop", ""), tier = arg("--tier", "quick"), tmp = arg("--tmp", "/tmp");
    const Prop *P = nullptr;
    for (auto &p : props())
        if (p.id == id) P = &p;
    if (cmd == "replay") {
        std::string file = arg("--file", "");
        std::ifstream f(file);
        std::string k, pid;
        f >> k >> pid >> k >> tier >> k;
        size_t n = 0;
        f >> n;
        std::vector<uint32_t> ch(n);
        for (auto &x : ch) f >> x;
        for (auto &p : props())
            if (p.id == pid) P = &p;
        if (!P) {
            std::cerr << "unknown property in replay file\n";
            return 2;
        }
        Outcome o = runForked(*P, &ch, 0, tier, tmp);
        std::cout << "kind " << o.kind << "\n" << o.msg << "\n" << o.text << "\n";
        return bad(o) ? 1 : o.kind == 5 ? 2 : 0;
    }
    if (cmd != "run" || !P) {
        std::cerr << "usage: vh run --prop ID --seed N --tier quick|thorough --tmp DIR --json OUT --replaydir DIR\n";
        return 2;
    }
    uint64_t seed = strtoull(arg("--seed", "1").c_str(), nullptr, 10);
    int W = atoi(arg("--workers", "8").c_str());
    long n = tier == "thorough" ? P->thorough : P->quick;
    std::string ov = arg("--cases", "");
    if (!ov.empty()) n = atol(ov.c_str());
    long maxFail = atol(arg("--maxfail", "1").c_str());
    long first = atol(arg("--first", "0").c_str());
    bool verbose = arg("--verbose", "0") == "1";

    double t0 = now();
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    silence();
    struct Failure {
        long idx;
        int kind;
        std::string msg;
    };
    std::vector<Failure> fails;
    std::vector<pid_t> pids(W, 0);
    auto spawn = [&](int w, long from) {
        slots[w].idx = -1;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            std::string ef = tmp + "/err." + std::to_string(w);
            int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(e, 2);
            workerLoop(*P, seed, tier, from, n, w, W, &slots[w], tmp, stop);
            _exit(0);
        }
        pids[w] = pid;
    };
    int live = 0, infra = 0;
    for (int w = 0; w < W; w++) {
        spawn(w, first + w);
        live++;
    }
    while (live > 0) {
        int st;
        pid_t pid = wait(&st);
        if (pid < 0) break;
        int w = -1;
        for (int i = 0; i < W; i++)
            if (pids[i] == pid) w = i;
        if (w < 0) continue;
        live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        long idx = slots[w].idx;
        Failure f;
        f.idx = idx;
        std::string err = readAll(tmp + "/err." + std::to_string(w));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            if (++infra > 3) {
                fails.push_back({idx, 5, "killed repeatedly"});
                *stop = 1;
                continue;
            }
            spawn(w, idx);
            live++;
            continue;
        }
        f.kind = (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) ? 4 : 3;
        f.msg = f.kind == 4 ? "endless loop" : "crash: " + crashLine(err);
        fails.push_back(f);
        if (idx < 0 || (long)fails.size() >= maxFail) {
            *stop = 1;
            continue;
        }
        spawn(w, idx + W);
        live++;
    }
    // gather
    WorkerOut tot;
    {
        std::string ls = tmp;
        FILE *d = popen(("ls " + tmp).c_str(), "r");
        char b[256];
        std::vector<std::string> names;
        while (d && fgets(b, sizeof b, d)) {
            std::string s = b;
            while (!s.empty() && s.back() == '\n') s.pop_back();
            names.push_back(s);
        }
        if (d) pclose(d);
        for (auto &s : names) {
            if (s.compare(0, 5, "fail.") == 0) fails.push_back({atol(s.c_str() + 5), 1, ""});
            if (s.size() > 2 && s[0] == 'w' && isdigit(s[1])) {
                std::ifstream f(tmp + "/" + s);
                long a = 0, bb = 0, c = 0, dd = 0;
                f >> a >> bb >> c >> dd;
                tot.cases += a;
                tot.nontriv += bb;
                tot.discards += c;
                tot.checks += dd;
                size_t k = 0;
                f >> k;
                for (size_t i = 0; i < k; i++) {
                    long v;
                    std::string l;
                    f >> v;
                    f.get();
                    std::getline(f, l);
                    tot.labels[l] += v;
                }
                f >> k;
                for (size_t i = 0; i < k; i++) {
                    uint64_t h;
                    f >> h;
                    tot.hashes.insert(h);
                }
                f >> k;
                for (size_t i = 0; i < k; i++) {
                    size_t m = 0;
                    f >> m;
                    f.get();
                    std::string t(m, ' ');
                    f.read(&t[0], m);
                    if (tot.samples.size() < 6) tot.samples.push_back(t);
                }
            }
        }
    }
    std::sort(fails.begin(), fails.end(), [](const Failure &a, const Failure &b) { return a.idx < b.idx; });
    double tSearch = now() - t0;
    // confirm and shrink the first failure
    std::string status = "pass", rmsg, rpath;
    int confirmed = 0;
    for (auto &f : fails) {
        if (f.kind == 5 || f.idx < 0) {
            status = "error";
            rmsg = f.msg;
            continue;
        }
        Outcome o = runForked(*P, nullptr, caseSeed(seed, P->id, f.idx), tier, tmp);
        if (!bad(o)) {
            if (verbose) dprintf(g_err, "case %ld did not reproduce: %s\n", f.idx, f.msg.c_str());
            continue;
        }
        Outcome again = runForked(*P, &o.rec, 0, tier, tmp);
        if (!bad(again)) {
            if (verbose) dprintf(g_err, "case %ld: recorded choices do not reproduce\n", f.idx);
            status = "error";
            rmsg = "failure of case " + std::to_string(f.idx) + " not reproduced from its choices: " + o.msg;
            continue;
        }
        o = again;
        double budget = tier == "thorough" ? 60 : 25;
        Outcome s = shrink(*P, o, tier, tmp, 1500, budget);
        int rep = 0;
        for (int k = 0; k < 3; k++) {
            Outcome r = runForked(*P, &s.rec, 0, tier, tmp);
            if (bad(r)) {
                rep++;
                s.msg = r.msg;
                if (!r.text.empty()) s.text = r.text;
            }
        }
        if (rep < 3) continue;
        confirmed++;
        std::string path = arg("--replaydir", tmp) + "/" + P->id + "-" + std::to_string(confirmed) + ".replay";
        writeReplay(path, *P, s, tier);
        if (verbose) dprintf(g_err, "---- case %ld\n%s\n%s\n", f.idx, s.msg.c_str(), s.text.c_str());
        if (status != "violation") {
            status = "violation";
            rmsg = s.msg + "\n" + s.text;
            rpath = path;
        }
        if (confirmed >= maxFail) break;
    }
    std::string js = arg("--json", tmp + "/out.json");
    std::ofstream f(js);
    f << "{\"property\":" << jstr(P->id) << ",\"status\":" << jstr(status) << ",\"message\":" << jstr(rmsg) << ",\"replay\":" << jstr(rpath)
      << ",\"planned\":" << n << ",\"cases\":" << tot.cases << ",\"nontrivial\":" << tot.nontriv << ",\"distinct\":" << tot.hashes.size()
      << ",\"discards\":" << tot.discards << ",\"comparisons\":" << tot.checks << ",\"failures\":" << fails.size() << ",\"search_s\":" << tSearch
      << ",\"rule\":" << jstr(P->rule) << ",\"labels\":{";
    bool c0 = false;
    for (auto &l : tot.labels) {
        f << (c0 ? "," : "") << jstr(l.first) << ":" << l.second;
        c0 = true;
    }
    f << "},\"samples\":[";
    c0 = false;
    for (auto &s : tot.samples) {
        f << (c0 ? "," : "") << jstr(s);
        c0 = true;
    }
    f << "]}\n";
    f.close();
    dprintf(g_err, "%s %s cases=%ld nontrivial=%ld distinct=%zu discards=%ld checks=%ld failures=%zu search=%.1fs total=%.1fs\n", P->id.c_str(), status.c_str(),
            tot.cases, tot.nontriv, tot.hashes.size(), tot.discards, tot.checks, fails.size(), tSearch, now() - t0);
    return status == "pass" ? 0 : status == "violation" ? 1 : 2;
}

#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace mc {

using json = nlohmann::json;
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string fmt(const char *f, ...) {
    char buf[8192];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}

static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
static std::map<std::string, std::vector<std::string>> &assumptions() {
    static std::map<std::string, std::vector<std::string>> m; return m; }
void add(Scenario s) { scenarios().push_back(std::move(s)); }
void assume(const std::string &p, const std::string &t) { assumptions()[p].push_back(t); }

// Shared page: what the worker is executing right now (survives a crash of the worker).
struct Shared {
    volatile uint64_t execs;
    volatile uint32_t len;
    volatile int32_t choices[4096];
};

class Engine {
public:
    Scenario *sc = nullptr;
    int shard = 0, shards = 1, tier = 0;
    double deadline = 0;
    Shared *sh = nullptr;
    // results
    uint64_t execs = 0, rejected = 0, transitions = 0;
    uint64_t max_depth = 0;
    bool capped = false, states_capped = false;
    std::unordered_set<uint64_t> states;
    std::map<std::string, std::pair<uint64_t, std::vector<int>>> known; // known findings hit: sig -> count, example
    std::vector<std::vector<int>> samples;
    struct Found { std::vector<int> choices; std::string msg, sig; };
    std::vector<Found> found;
    std::set<std::string> known_sigs;
    // bfs
    std::unordered_set<uint64_t> visited;
    std::deque<std::vector<int>> frontier;
    static constexpr size_t kStateCap = 4000000;

    void publish(const Ctx &c) {
        if (!sh) return;
        sh->len = (uint32_t)std::min<size_t>(c.choice.size(), 4096);
        for (size_t i = 0; i < sh->len; ++i) sh->choices[i] = c.choice[i];
    }
    enum class R { Ok, Viol, Pruned, Reject };
    R run_one(Ctx &c) {
        c.eng = this; c.pos = 0; c.tier = tier; c.bfs_arrived = false; c.transitions = 0;
        R r = R::Ok;
        try { sc->fn(c); }
        catch (Violation &v) { last = v; r = R::Viol; }
        catch (Pruned &) { r = R::Pruned; }
        catch (Reject &) { r = R::Reject; }
        catch (std::exception &e) { last = {std::string("unexpected exception: ") + e.what(), ""}; r = R::Viol; }
        catch (...) { last = {"unexpected exception of unknown type", ""}; r = R::Viol; }
        return r;
    }
    Violation last;

    void sample(const Ctx &c) {
        // executions 1, 10, 100, ... of this shard
        if (execs == 1 || execs == 10 || execs == 100 || execs == 1000 || execs == 10000) samples.push_back(c.choice);
    }
    bool account(Ctx &c, R r) { // returns false to stop
        if (r == R::Reject) { rejected++; return true; }
        if (r == R::Pruned && !c.bfs) return true;
        execs++;
        max_depth = std::max<uint64_t>(max_depth, c.choice.size());
        transitions += c.bfs ? (c.bfs_arrived && c.transitions ? 1 : 0) : c.transitions;
        sample(c);
        if (r == R::Viol) {
            if (!last.sig.empty() && known_sigs.count(last.sig)) {
                auto &k = known[last.sig];
                if (!k.first++) k.second = c.choice;
                return true;
            }
            found.push_back({c.choice, last.msg, last.sig});
            return false;
        }
        return true;
    }
    void dfs() {
        Ctx c;
        for (;;) {
            if (sh) sh->execs = sh->execs + 1;
            R r = run_one(c);
            if (c.choice.size() > c.pos) { c.choice.resize(c.pos); c.arity.resize(c.pos); }
            // Small executions that end before the sharding point are executed by every shard but
            // counted by one.
            bool mine = true;
            if (r != R::Pruned && !sharded_here && shards > 1) {
                Hash h; for (int x : c.choice) h.add(x);
                mine = (uint64_t)h % shards == (uint64_t)shard;
            }
            if (mine && !account(c, r)) return;
            while (!c.choice.empty() && c.choice.back() + 1 >= c.arity.back()) { c.choice.pop_back(); c.arity.pop_back(); }
            if (c.choice.empty()) return;
            c.choice.back()++;
            if ((execs & 63) == 0 && now() > deadline) { capped = true; return; }
        }
    }
    void bfs() {
        frontier.push_back({});
        while (!frontier.empty()) {
            Ctx c; c.bfs = true;
            c.choice = std::move(frontier.front()); frontier.pop_front();
            if (sh) { sh->execs = sh->execs + 1; publish(c); }
            R r = run_one(c);
            if (!account(c, r)) return;
            if ((execs & 63) == 0 && now() > deadline) { capped = true; return; }
        }
    }
    bool sharded_here = false;
    bool replaying = false;
};

int Ctx::pick(int n) {
    if (n <= 0) throw std::logic_error("mc: pick from an empty menu");
    if (bfs) {
        if (pos < choice.size()) {
            int v = choice[pos++];
            if (v < 0 || v >= n) throw std::logic_error("mc: replay divergence");
            return v;
        }
        for (int i = 0; i < n; ++i) {
            std::vector<int> p(choice); p.push_back(i);
            eng->frontier.push_back(std::move(p));
        }
        throw Pruned{};
    }
    if (pos == 0) eng->sharded_here = false;
    int v;
    if (pos < choice.size()) {
        v = choice[pos];
        if (pos < arity.size()) { if (arity[pos] != n) throw std::logic_error("mc: replay divergence"); }
        else arity.push_back(n);
        if (v < 0 || v >= n) throw std::logic_error("mc: replay divergence");
    } else { choice.push_back(0); arity.push_back(n); v = 0; }
    pos++;
    if (eng->shards > 1 && !eng->sharded_here) {
        uint64_t prod = 1, idx = 0;
        for (size_t i = 0; i < pos; ++i) { idx = idx * arity[i] + choice[i]; prod *= arity[i]; }
        if (prod >= (uint64_t)eng->shards * 16) {
            eng->sharded_here = true;
            uint64_t h = idx * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
            if (h % eng->shards != (uint64_t)eng->shard) throw Pruned{};
        }
    }
    if (eng->sh) eng->publish(*this);
    return v;
}

void Ctx::state(uint64_t hash) {
    if (eng->states.size() >= Engine::kStateCap) { eng->states_capped = true; return; }
    eng->states.insert(hash);
}

void Ctx::expand(uint64_t canonical) {
    if (!bfs) { state(canonical); return; }
    if (pos < choice.size()) return;               // still replaying the history
    bfs_arrived = true;
    if (eng->replaying) throw Pruned{};
    if (!eng->visited.insert(canonical).second) throw Pruned{};
    state(canonical);
    eng->max_depth = std::max<uint64_t>(eng->max_depth, choice.size());
}

void Ctx::fail(const char *f, ...) {
    char buf[8192];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    throw Violation{buf, ""};
}
void Ctx::fail_sig(const std::string &sig, const char *f, ...) {
    char buf[8192];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    throw Violation{buf, sig};
}
static int g_live = -1;   // in a replay: where the trace survives a crash of the code under test
void Ctx::log(const char *f, ...) {
    if (!verbose) return;
    char buf[8192];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    trace += buf; trace += '\n';
    if (g_live >= 0) { strcat(buf + std::min<size_t>(strlen(buf), sizeof buf - 2), "\n"); if (write(g_live, buf, strlen(buf)) < 0) {} }
}

// ---------------------------------------------------------------------------------------------------
static std::string g_prop, g_evidence, g_outdir, g_tmp, g_known_file, g_replay, g_only;
const std::string &tmp() { return g_tmp; }
static int g_tier = 0, g_jobs = 8;
static double g_budget = 600;

static json vec(const std::vector<int> &v) { return json(v); }

static void silence() { // the library prints warnings on stdout/stderr
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!getenv("MC_STDERR")) dup2(fd, 2);
    close(fd);
    std::cout.setstate(std::ios::failbit);
}

static void worker(Scenario &s, int shard, int shards, Shared *sh, double deadline,
                   const std::set<std::string> &known, const std::string &out) {
    silence();
    Engine e; e.sc = &s; e.shard = shard; e.shards = shards; e.tier = g_tier; e.deadline = deadline; e.sh = sh; e.known_sigs = known;
    if (s.mode == Mode::Bfs) e.bfs(); else e.dfs();
    json j;
    j["execs"] = e.execs; j["rejected"] = e.rejected; j["transitions"] = e.transitions; j["max_depth"] = e.max_depth;
    j["capped"] = e.capped; j["states_capped"] = e.states_capped;
    j["found"] = json::array();
    for (auto &f : e.found) j["found"].push_back({{"choices", vec(f.choices)}, {"msg", f.msg}, {"sig", f.sig}});
    j["known"] = json::object();
    for (auto &k : e.known) j["known"][k.first] = {{"count", k.second.first}, {"choices", vec(k.second.second)}};
    j["samples"] = json::array();
    for (auto &p : e.samples) j["samples"].push_back(vec(p));
    {
        std::ofstream sf(out + ".states", std::ios::binary);
        std::vector<uint64_t> v(e.states.begin(), e.states.end());
        sf.write((const char *)v.data(), (std::streamsize)(v.size() * 8));
    }
    std::ofstream f(out + ".tmp"); f << j.dump(-1, ' ', false, json::error_handler_t::replace); f.close();
    rename((out + ".tmp").c_str(), out.c_str());
    _exit(0);
}

// Re-executes one choice sequence in a forked child. Outcome: 0 ok, 1 violation, 2 crash, 3 hang, 4 diverged
struct ReplayOut { int outcome; std::string msg, sig, trace; };
static ReplayOut replay(Scenario &s, const std::vector<int> &choices, int limit_s) {
    int p[2]; if (pipe(p)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        silence();
        if (int fd = open((g_tmp + "/replay.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); fd >= 0) { dup2(fd, 2); close(fd); }
        g_live = open((g_tmp + "/replay.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        Engine e; e.sc = &s; e.tier = g_tier; e.deadline = 1e18; e.replaying = true;
        Ctx c; c.choice = choices; c.bfs = s.mode == Mode::Bfs; c.verbose = true;
        // keep the trace even if the code under test crashes
        Engine::R r = e.run_one(c);
        json j; j["r"] = (int)r; j["msg"] = e.last.msg; j["sig"] = e.last.sig; j["trace"] = c.trace;
        std::string t = j.dump(-1, ' ', false, json::error_handler_t::replace);
        size_t off = 0; while (off < t.size()) { ssize_t k = write(p[1], t.data() + off, t.size() - off); if (k <= 0) break; off += (size_t)k; }
        _exit(0);
    }
    close(p[1]);
    std::string t; char buf[65536];
    double end = now() + limit_s; bool hang = false;
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    for (;;) {
        ssize_t k = read(p[0], buf, sizeof buf);
        if (k > 0) { t.append(buf, (size_t)k); continue; }
        if (k == 0) break;
        if (now() > end) { hang = true; kill(pid, SIGKILL); break; }
        usleep(2000);
    }
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (hang) return {3, "the execution does not terminate", "", ""};
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || t.empty())
    {
        auto text = [](const std::string &f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); };
        std::string err = text(g_tmp + "/replay.err"), why, line; std::istringstream is(err);
        while (why.empty() && std::getline(is, line)) if (line.find("Assertion") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("ERROR:") != std::string::npos || line.find("terminate called") != std::string::npos) why = line.substr(0, 600);
        return {2, fmt("the execution crashed (wait status 0x%x) %s", st, why.c_str()), "", text(g_tmp + "/replay.log")};
    }
    json j = json::parse(t);
    int r = j["r"].get<int>();
    return {r == (int)Engine::R::Viol ? 1 : 0, j["msg"].get<std::string>(), j["sig"].get<std::string>(), j["trace"].get<std::string>()};
}

static int main_impl(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--prop") g_prop = val();
        else if (a == "--tier") g_tier = val() == "thorough";
        else if (a == "--evidence") g_evidence = val();
        else if (a == "--out") g_outdir = val();
        else if (a == "--tmp") g_tmp = val();
        else if (a == "--known") g_known_file = val();
        else if (a == "--jobs") g_jobs = atoi(val().c_str());
        else if (a == "--budget") g_budget = atof(val().c_str());
        else if (a == "--replay") g_replay = val();
        else if (a == "--only") g_only = val();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (!g_replay.empty()) {
        std::ifstream f(g_replay); json j = json::parse(f);
        g_tier = j.value("tier", "quick") == std::string("thorough");
        for (auto &s : scenarios()) if (s.prop == j["property"] && s.name == j["scenario"]) {
            auto o = replay(s, j["choices"].get<std::vector<int>>(), 300);
            printf("%s", o.trace.c_str());
            printf("outcome: %s %s\n", o.outcome == 0 ? "no violation" : o.outcome == 1 ? "VIOLATION" : o.outcome == 2 ? "CRASH" : "HANG", o.msg.c_str());
            return o.outcome ? 1 : 0;
        }
        fprintf(stderr, "no such scenario\n"); return 2;
    }
    double t0 = now();
    std::set<std::string> known; json known_list = json::array();
    if (!g_known_file.empty()) {
        std::ifstream f(g_known_file);
        if (f) { json j = json::parse(f); for (auto &k : j["findings"]) if (k["property"] == g_prop) { known.insert(k["signature"].get<std::string>()); known_list.push_back(k); } }
    }
    struct Task { Scenario *s; int shard, shards; std::string out; Shared *sh; pid_t pid = 0; uint64_t last_execs = 0; double last_t = 0; bool done = false; };
    std::vector<Task> tasks;
    int nsc = 0;
    for (auto &s : scenarios()) {
        if (s.prop != g_prop || !(s.tiers & (g_tier ? 2 : 1))) continue;
        if (!g_only.empty() && s.name.find(g_only) == std::string::npos) continue;
        nsc++;
        int sh = s.mode == Mode::Bfs ? 1 : g_jobs;
        for (int i = 0; i < sh; ++i) {
            Task t{&s, i, sh, g_tmp + "/r" + std::to_string(tasks.size()), nullptr};
            tasks.push_back(t);
        }
    }
    if (!nsc) { fprintf(stderr, "no scenario for property %s\n", g_prop.c_str()); return 2; }
    // explicit-state searches run in one process each: start them first
    std::stable_sort(tasks.begin(), tasks.end(), [](const Task &a, const Task &b) { return a.shards < b.shards; });
    struct Cand { Scenario *s; std::vector<int> choices; std::string msg, sig; int kind; int shard, shards; };
    std::vector<Cand> cands;
    size_t next = 0, running = 0; double deadline = t0 + g_budget;
    bool stop = false;
    while ((next < tasks.size() && !stop) || running) {
        while (next < tasks.size() && running < (size_t)g_jobs && !stop) {
            Task &t = tasks[next++];
            t.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) worker(*t.s, t.shard, t.shards, t.sh, deadline, known, t.out);
            t.pid = pid; t.last_t = now(); running++;
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (auto &t : tasks) if (t.pid == p && !t.done) {
                t.done = true; running--;
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    std::vector<int> ch(t.sh->choices, t.sh->choices + t.sh->len);
                    cands.push_back({t.s, ch, fmt("worker ended abnormally (wait status 0x%x)", st), "", 2, t.shard, t.shards});
                    stop = true;
                }
            }
            continue;
        }
        double n = now();
        for (auto &t : tasks) if (t.pid && !t.done) {
            if (t.sh->execs != t.last_execs) { t.last_execs = t.sh->execs; t.last_t = n; }
            else if (n - t.last_t > 90) {
                std::vector<int> ch(t.sh->choices, t.sh->choices + t.sh->len);
                kill(t.pid, SIGKILL);
                t.last_t = n + 1e9;
            }
        }
        usleep(3000);
    }
    // merge
    uint64_t execs = 0, rejected = 0, trans = 0, states = 0; bool capped = false, scap = false;
    json per = json::array(); json samples = json::array();
    std::map<std::string, std::pair<uint64_t, std::pair<Scenario *, std::vector<int>>>> khits;
    for (auto &s : scenarios()) {
        bool any = false; json js; uint64_t e = 0, r = 0, tr = 0, md = 0; bool cp = false;
        std::vector<uint64_t> st;
        for (auto &t : tasks) if (t.s == &s) {
            any = true;
            std::ifstream f(t.out); if (!f) continue;
            json j = json::parse(f);
            e += j["execs"].get<uint64_t>(); r += j["rejected"].get<uint64_t>(); tr += j["transitions"].get<uint64_t>();
            md = std::max(md, j["max_depth"].get<uint64_t>());
            cp |= j["capped"].get<bool>(); scap |= j["states_capped"].get<bool>();
            for (auto &x : j["found"]) cands.push_back({&s, x["choices"].get<std::vector<int>>(), x["msg"], x["sig"], 1, t.shard, t.shards});
            for (auto &k : j["known"].items()) {
                auto &kh = khits[k.key()]; if (!kh.first) kh.second = {&s, k.value()["choices"].get<std::vector<int>>()};
                kh.first += k.value()["count"].get<uint64_t>();
            }
            if (t.shard == 0) for (auto &x : j["samples"]) {
                js["_samples"].push_back(x);
            }
            std::ifstream sf(t.out + ".states", std::ios::binary | std::ios::ate);
            size_t bytes = sf ? (size_t)sf.tellg() : 0; sf.seekg(0);
            size_t base = st.size(); st.resize(base + bytes / 8); sf.read((char *)(st.data() + base), (std::streamsize)bytes);
        }
        if (!any) continue;
        std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end());
        js["scenario"] = s.name; js["mode"] = s.mode == Mode::Bfs ? "explicit-state" : "stateless"; js["enumerates"] = s.note;
        js["executions"] = e; js["distinct_states"] = st.size(); js["transitions"] = tr; js["max_choice_depth"] = md; js["completed"] = !cp;
        if (r) js["rejected_choice_combinations"] = r;
        execs += e; rejected += r; trans += tr; states += st.size(); capped |= cp;
        // written-out samples
        if (js.contains("_samples")) {
            auto v = js["_samples"]; js.erase("_samples");
            if (samples.size() < 12 && !v.empty()) {
                auto ch = v[v.size() - 1].get<std::vector<int>>();
                auto o = replay(s, ch, 60);
                std::string tr2 = o.trace; if (tr2.size() > 1500) tr2 = tr2.substr(0, 1500) + "...";
                samples.push_back({{"scenario", s.name}, {"choices", ch}, {"trace", tr2}});
            }
        }
        per.push_back(js);
    }
    // confirm candidates
    std::stable_sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.choices.size() < b.choices.size(); });
    int nviol = 0; bool unconfirmed = false; std::string replay_path;
    for (auto &c : cands) {
        auto o = replay(*c.s, c.choices, 120);
        auto o2 = replay(*c.s, c.choices, 120);
        std::string how = "choices";
        if (o.outcome == 0 || o.outcome != o2.outcome) {
            // not reproducible on its own: does the explorer's whole sequence reproduce it (state that the
            // code under test keeps between executions)?
            std::string out = g_tmp + "/again";
            unlink(out.c_str());
            Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            pid_t pid = fork();
            if (pid == 0) worker(*c.s, c.shard, c.shards, sh, now() + g_budget, known, out);
            int st; waitpid(pid, &st, 0);
            bool again = false;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) again = c.kind == 2;
            else { std::ifstream f(out); json j = json::parse(f); for (auto &x : j["found"]) if (x["choices"].get<std::vector<int>>() == c.choices) again = true; }
            if (!again) { unconfirmed = true; fprintf(stderr, "unconfirmed (not reproducible): %s: %s\n", c.s->name.c_str(), c.msg.c_str()); continue; }
            how = "sequence";
            o.msg = c.msg + (c.kind == 2 ? "" : " (depends on state left behind by earlier executions in the same process)");
        }
        nviol++;
        if (replay_path.empty()) {
            mkdir(g_outdir.c_str(), 0777);
            replay_path = g_outdir + "/" + g_prop + ".json";
            json j; j["property"] = g_prop; j["scenario"] = c.s->name; j["tier"] = g_tier ? "thorough" : "quick"; j["choices"] = c.choices;
            j["how"] = how; j["message"] = o.msg; j["trace"] = o.trace; j["signature"] = o.sig;
            std::ofstream f(replay_path); f << j.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
            printf("%s\n", o.trace.c_str());
            printf("scenario %s: %s\n", c.s->name.c_str(), o.msg.c_str());
        }
        if (nviol >= 5) break;
    }
    json ev;
    ev["property"] = g_prop; ev["tier"] = g_tier ? "thorough" : "quick";
    ev["seed"] = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    ev["level"] = "model_checking";
    json cov;
    cov["states"] = states; cov["transitions"] = trans; cov["traces_validated_against_impl"] = execs;
    cov["samples"] = samples; cov["exhaustive"] = !capped && cands.empty();
    cov["scenarios"] = per; if (rejected) cov["rejected_choice_combinations"] = rejected;
    cov["explanation"] = "Every execution drives the real code compiled from /repo; each one is compared step by step with "
        "the reference model, so model and implementation are bound on every explored trace. 'states' counts distinct "
        "canonical reference-model states seen, 'transitions' the operations executed, 'traces_validated_against_impl' the executions.";
    if (scap) cov["states_counter_saturated"] = true;
    if (capped) cov["stopped_by_time_budget_s"] = g_budget;
    ev["coverage"] = cov;
    ev["assumptions"] = assumptions()[g_prop];
    json kj = json::array();
    for (auto &k : known_list) {
        auto it = khits.find(k["signature"].get<std::string>());
        uint64_t n = it == khits.end() ? 0 : it->second.first;
        kj.push_back({{"signature", k["signature"]}, {"hits", n}});
        printf("KNOWN-FINDING: property=%s %s%s\n", g_prop.c_str(), k["what"].get<std::string>().c_str(), n ? "" : " (not reached in this run)");
    }
    if (!kj.empty()) ev["known_findings"] = kj;
    ev["wall_s"] = now() - t0; ev["violations"] = nviol;
    if (!g_evidence.empty()) { std::ofstream f(g_evidence); f << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n"; }
    printf("property=%s tier=%s scenarios=%d executions=%llu states=%llu transitions=%llu exhaustive=%d wall=%.1fs\n", g_prop.c_str(),
           g_tier ? "thorough" : "quick", nsc, (unsigned long long)execs, (unsigned long long)states, (unsigned long long)trans,
           (int)(!capped && cands.empty()), now() - t0);
    if (nviol) { printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), replay_path.c_str()); return 1; }
    if (unconfirmed) return 3;
    return 0;
}

} // namespace mc

int main(int argc, char **argv) { return mc::main_impl(argc, argv); }

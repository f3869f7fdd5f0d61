#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t max_tape = 1u << 18;
constexpr size_t max_text = 1u << 18;

struct Slot {
    std::atomic<int> busy;
    std::atomic<int> block;
    std::atomic<uint64_t> idx;
    std::atomic<uint64_t> len;
    uint64_t tape[max_tape];
};

struct Outcome {
    enum Kind { pass, fail, discard, timeout, crash } kind = pass;
    std::string msg;
    std::string note;
    std::vector<uint64_t> used;
};

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
double cpu_now()
{
    timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void set_case_timer(double cpu)
{
    itimerval it{};
    it.it_value.tv_sec = static_cast<long>(cpu);
    it.it_value.tv_usec = static_cast<long>((cpu - static_cast<long>(cpu)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(cpu == 0 ? 0 : static_cast<unsigned>(cpu * 20 + 60));
}

constexpr long rss_limit_mb = 2500;
long rss_mb(pid_t pid)
{
    std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
    long a = 0, b = 0;
    f >> a >> b;
    return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

std::string json_str(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

std::string read_file(std::string const& p, size_t limit = 200000)
{
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > limit) s.resize(limit);
    return s;
}

std::string crash_summary(std::string const& err, int status)
{
    std::ostringstream os;
    if (WIFSIGNALED(status)) os << "killed by signal " << WTERMSIG(status);
    else os << "exit status " << WEXITSTATUS(status);
    for (auto key : {"Assertion", "ERROR: AddressSanitizer", "runtime error", "terminate called", "what():"}) {
        auto p = err.find(key);
        if (p != std::string::npos) {
            auto b = err.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            auto e = err.find('\n', p);
            os << "; " << err.substr(b, std::min<size_t>(e == std::string::npos ? 400 : e - b, 400));
        }
    }
    return os.str();
}

/** Run one case in a forked child. */
Outcome run_forked(Sub const& sub, std::vector<uint64_t> const& tape, double cpu, std::string const& scratch)
{
    Outcome res;
    std::string errf = scratch + "/fork.err";
    auto* text = static_cast<char*>(mmap(nullptr, max_text * 2 + max_tape * 8 + 64, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (text == MAP_FAILED) { perror("mmap"); exit(3); }
    auto* nused = reinterpret_cast<uint64_t*>(text);
    auto* used = nused + 8;
    char* msg = reinterpret_cast<char*>(used + max_tape);
    char* note = msg + max_text;
    auto put = [](char* dst, std::string const& s) {
        size_t n = std::min(s.size(), max_text - 1);
        memcpy(dst, s.data(), n);
        dst[n] = 0;
    };
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        signal(SIGINT, SIG_DFL);
        set_case_timer(cpu);
        Ctx ctx(tape);
        uint64_t k = 0;
        int code = 0;
        ctx.on_publish = [&](std::string const& n) {
            put(note, n);
            uint64_t j = 0;
            for (auto v : ctx.used) { if (j < max_tape) used[j++] = v; }
            *nused = j;
        };
        try {
            sub.fn(ctx);
        } catch (Failure const& f) {
            put(msg, f.msg);
            code = 41;
        } catch (Discard const&) {
            code = 42;
        } catch (std::exception const& e) {
            put(msg, std::string("uncaught exception: ") + e.what());
            code = 41;
        } catch (...) {
            put(msg, "uncaught exception of unknown type");
            code = 41;
        }
        set_case_timer(0);
        for (auto v : ctx.used) { if (k < max_tape) used[k++] = v; }
        *nused = k;
        put(note, ctx.note.str());
        _exit(code);
    }
    int status = 0;
    for (useconds_t d = 100;; d = std::min<useconds_t>(d * 2, 20000)) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) break;
        if (rss_mb(pid) > rss_limit_mb) kill(pid, SIGKILL);
        usleep(d);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) res.kind = Outcome::pass;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 41) res.kind = Outcome::fail;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 42) res.kind = Outcome::discard;
    else if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGALRM)) {
        res.kind = Outcome::timeout;
        res.msg = "no answer within " + std::to_string(cpu) + " s of CPU time";
    } else {
        std::string err = read_file(errf);
        res.msg = "crash: " + crash_summary(err, status);
        res.kind = Outcome::crash;
        if (err.find("rss limit") != std::string::npos || (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL))
            res.kind = Outcome::timeout;
    }
    if (res.kind == Outcome::fail) res.msg = msg;
    if (res.kind == Outcome::pass || res.kind == Outcome::fail || res.kind == Outcome::discard) {
        res.used.assign(used, used + *nused);
        res.note = note;
    } else {
        res.used.assign(used, used + *nused);
        if (res.used.empty()) res.used = tape;
        res.note = note;
    }
    munmap(text, max_text * 2 + max_tape * 8 + 64);
    return res;
}

bool is_bad(Outcome const& o, bool hang) { return o.kind == Outcome::fail || o.kind == Outcome::crash || (hang && o.kind == Outcome::timeout); }

std::vector<uint64_t> shrink(Sub const& sub, std::vector<uint64_t> tape, Outcome& best, bool hang, double cpu,
                             std::string const& scratch, double budget, int max_tries, int& tries)
{
    double end = now() + budget;
    auto done = [&] { return now() > end || tries >= max_tries; };
    auto better = [](std::vector<uint64_t> const& a, std::vector<uint64_t> const& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](std::vector<uint64_t> const& cand) {
        if (done()) return false;
        ++tries;
        auto o = run_forked(sub, cand, cpu, scratch);
        if (!is_bad(o, hang)) return false;
        auto t = o.kind == Outcome::fail || o.kind == Outcome::crash ? o.used : cand;
        if (!better(t, tape)) {
            if (!better(cand, tape)) return false;
            t = cand;
        }
        tape = t;
        best = o;
        return true;
    };
    bool progress = true;
    while (progress && !done()) {
        progress = false;
        // delete chunks
        for (size_t len : {512u, 128u, 64u, 32u, 16u, 8u, 6u, 4u, 3u, 2u, 1u}) {
            if (len > tape.size()) continue;
            for (size_t i = tape.size(); i >= len && !done();) {
                i = std::min(i, tape.size());
                if (i < len) break;
                size_t start = i - len;
                auto cand = tape;
                cand.erase(cand.begin() + start, cand.begin() + i);
                if (attempt(cand)) { progress = true; continue; }
                // deleting and lowering the preceding count
                if (start > 0 && tape[start - 1] > 0) {
                    cand[start - 1]--;
                    if (attempt(cand)) { progress = true; continue; }
                }
                i -= std::max<size_t>(1, len / 2);
            }
        }
        // zero blocks
        for (size_t len : {64u, 16u, 4u, 1u}) {
            for (size_t i = 0; i + len <= tape.size() && !done(); i += len) {
                if (std::all_of(tape.begin() + i, tape.begin() + i + len, [](uint64_t v) { return v == 0; })) continue;
                auto cand = tape;
                std::fill(cand.begin() + i, cand.begin() + i + len, 0);
                if (attempt(cand)) progress = true;
            }
        }
        // lower single values
        for (size_t i = 0; i < tape.size() && !done(); ++i) {
            if (tape[i] == 0) continue;
            uint64_t lo = 0, hi = tape[i];
            while (lo + 1 < hi && !done()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto cand = tape;
                if (i >= cand.size()) break;
                cand[i] = mid;
                if (attempt(cand)) { hi = mid; progress = true; if (i >= tape.size()) break; hi = std::min(hi, tape[i]); }
                else lo = mid;
            }
            if (i < tape.size() && tape[i] > 0) {
                auto cand = tape;
                cand[i]--;
                if (attempt(cand)) progress = true;
            }
        }
    }
    return tape;
}

struct Block {
    int sub;
    uint64_t start, end;
};

struct Args {
    std::string tier = "quick", evidence, replay_dir = ".", replay, only, scratch, known;
    uint64_t seed = 1;
    double time_cap = 0;
    double scale = 1;
    int workers = 8;
    bool verbose = false;
    bool survey = false; // development aid: collect failure kinds instead of stopping
    double shrink_s = 45;
};

void worker_main(Prop const& prop, Args const& a, std::vector<Block> const& blocks, std::atomic<int>* next, Slot* slot,
                 int fd, Block resume, int resume_block, std::string errf)
{
    int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    uint64_t seed = a.seed;
    int samples_sent = 0;
    auto run_block = [&](Block b, int bi) {
        Sub const& sub = prop.subs[b.sub];
        uint64_t evals = 0, disc = 0;
        double maxcpu = 0;
        std::map<std::string, uint64_t> labels;
        std::vector<uint64_t> hashes;
        std::ostringstream out;
        slot->block = bi;
        for (uint64_t i = b.start; i < b.end; ++i) {
            uint64_t s = seed * 0x9e3779b97f4a7c15ull + hash_str(prop.id + "/" + sub.name);
            s ^= (i + 1) * 0xd6e8feb86659fd93ull;
            splitmix(s);
            Ctx ctx(s);
            slot->len = 0;
            slot->idx = i;
            slot->busy = 1;
            uint64_t k = 0;
            ctx.on_choice = [&](uint64_t v) {
                if (k < max_tape) { slot->tape[k++] = v; slot->len.store(k, std::memory_order_relaxed); }
            };
            set_case_timer(sub.cpu_limit);
            double c0 = cpu_now();
            std::string failmsg;
            bool failed = false;
            try {
                sub.fn(ctx);
                ++evals;
            } catch (Failure const& f) {
                failed = true;
                failmsg = f.msg;
            } catch (Discard const&) {
                ++disc;
                ctx.nontriv = false;
            } catch (std::exception const& ex) {
                failed = true;
                failmsg = std::string("uncaught exception: ") + ex.what();
            } catch (...) {
                failed = true;
                failmsg = "uncaught exception of unknown type";
            }
            set_case_timer(0);
            slot->busy = 0;
            maxcpu = std::max(maxcpu, cpu_now() - c0);
            if (failed) {
                ++evals;
                out << "F " << b.sub << " " << i << " " << ctx.tape.size();
                for (auto v : ctx.tape) out << " " << v;
                out << "\n";
            }
            for (auto& [l, n] : ctx.labels) labels[l] += n;
            if (ctx.nontriv) {
                hashes.push_back(ctx.nontriv_hash);
                auto n = ctx.note.str();
                if (samples_sent < 3 && n.size() < 3000 && n.size() > 0) {
                    ++samples_sent;
                    out << "S " << json_str("[" + sub.name + " #" + std::to_string(i) + "] " + n) << "\n";
                }
            }
            if (failed) {
                // flush at once and stop at the first failure of this block
                ++i;
                out << "R " << b.sub << " " << bi << " " << i << " " << b.end << "\n";
                break;
            }
        }
        out << "E " << b.sub << " " << evals << " " << disc << " " << maxcpu << "\n";
        for (auto& [l, n] : labels) out << "L " << n << " " << prop.subs[b.sub].name << "/" << l << "\n";
        out << "H";
        for (auto h : hashes) out << " " << h;
        out << "\n.\n";
        std::string s = out.str();
        size_t off = 0;
        while (off < s.size()) {
            ssize_t w = write(fd, s.data() + off, s.size() - off);
            if (w < 0) { if (errno == EINTR) continue; _exit(9); }
            off += static_cast<size_t>(w);
        }
    };
    if (resume.end > resume.start) run_block(resume, resume_block);
    for (;;) {
        int b = next->fetch_add(1);
        if (b >= static_cast<int>(blocks.size())) break;
        run_block(blocks[b], b);
    }
    _exit(0);
}

struct Failing {
    int sub;
    uint64_t idx;
    std::vector<uint64_t> tape;
    bool hang;
};

} // namespace

int run_main(int argc, char** argv, Prop const& prop_)
{
    Args a;
    Prop prop = prop_;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--tier") a.tier = val();
        else if (k == "--seed") a.seed = std::stoull(val());
        else if (k == "--evidence") a.evidence = val();
        else if (k == "--replay-dir") a.replay_dir = val();
        else if (k == "--replay") a.replay = val();
        else if (k == "--only") a.only = val();
        else if (k == "--scratch") a.scratch = val();
        else if (k == "--known") a.known = val();
        else if (k == "--time") a.time_cap = std::stod(val());
        else if (k == "--scale") a.scale = std::stod(val());
        else if (k == "--workers") a.workers = std::stoi(val());
        else if (k == "--shrink") a.shrink_s = std::stod(val());
        else if (k == "--survey") a.survey = true;
        else if (k == "--hang-fails") for (auto& sb : prop.subs) sb.hang_fails = true; // look at slow cases
        else if (k == "--cpu") { double v = std::stod(val()); for (auto& sb : prop.subs) sb.cpu_limit = v; }
        else if (k == "-v") a.verbose = true;
        else { std::cerr << "unknown option " << k << "\n"; return 2; }
    }
    double t0 = now();
    if (a.time_cap == 0) a.time_cap = a.tier == "quick" ? 240 : 3000;
    if (a.scratch.empty()) {
        char tmpl[] = "/tmp/pbtXXXXXX";
        a.scratch = mkdtemp(tmpl);
    }
    mkdir(a.scratch.c_str(), 0700);
    mkdir(a.replay_dir.c_str(), 0755);

    if (!a.replay.empty()) {
        std::ifstream f(a.replay);
        std::string line, subname;
        std::vector<uint64_t> tape;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string w;
            is >> w;
            if (w == "sub") is >> subname;
            else if (w == "tape") { uint64_t v; while (is >> v) tape.push_back(v); }
        }
        for (auto& s : prop.subs) {
            if (s.name == subname) {
                auto o = run_forked(s, tape, s.cpu_limit * 3, a.scratch);
                std::cout << o.note << "\n";
                bool bad = is_bad(o, s.hang_fails);
                std::cout << (bad ? "FAILS: " : "passes: ") << o.msg << "\n";
                if (bad) std::cout << read_file(a.scratch + "/fork.err", 6000) << "\n";
                return bad ? 1 : 0;
            }
        }
        std::cerr << "no such sub-check: " << subname << "\n";
        return 2;
    }

    // interleaved schedule of blocks
    std::vector<Block> blocks;
    {
        std::vector<std::pair<double, Block>> tmp;
        for (int s = 0; s < static_cast<int>(prop.subs.size()); ++s) {
            auto& sub = prop.subs[s];
            if (!a.only.empty() && sub.name != a.only) continue;
            uint64_t n = static_cast<uint64_t>((a.tier == "quick" ? sub.quick : sub.thorough) * a.scale);
            uint64_t bl = std::max<uint64_t>(1, std::min<uint64_t>(200, n / 64));
            for (uint64_t i = 0; i < n; i += bl)
                tmp.push_back({static_cast<double>(i) / static_cast<double>(n), Block{s, i, std::min(n, i + bl)}});
        }
        std::stable_sort(tmp.begin(), tmp.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& t : tmp) blocks.push_back(t.second);
    }
    auto* next = static_cast<std::atomic<int>*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (next) std::atomic<int>(0);
    int W = std::max(1, a.workers);
    std::vector<Slot*> slots(W);
    for (auto& s : slots) {
        s = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (s == MAP_FAILED) { perror("mmap"); return 3; }
    }
    struct Wk { pid_t pid = -1; int fd = -1; std::string buf; std::string errf; bool eof = true; };
    std::vector<Wk> wk(W);
    auto spawn = [&](int w, Block resume, int rb) {
        int p[2];
        if (pipe(p)) { perror("pipe"); exit(3); }
        slots[w]->busy = 0;
        wk[w].errf = a.scratch + "/w" + std::to_string(w) + ".err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) {
            close(p[0]);
            for (auto& o : wk) if (o.fd >= 0) close(o.fd);
            worker_main(prop, a, blocks, next, slots[w], p[1], resume, rb, wk[w].errf);
        }
        close(p[1]);
        wk[w].pid = pid;
        wk[w].fd = p[0];
        wk[w].buf.clear();
        wk[w].eof = false;
    };

    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<uint64_t> evals(prop.subs.size()), discards(prop.subs.size()), timeouts(prop.subs.size()), nontriv(prop.subs.size());
    std::vector<double> maxcpu(prop.subs.size());
    uint64_t flaky = 0;
    std::vector<std::string> flaky_notes;
    std::vector<Failing> failing;

    auto parse = [&](int w, std::string const& chunk, Block& resume, int& rb) {
        std::istringstream is(chunk);
        std::string line;
        int cur = 0;
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            std::string k;
            ls >> k;
            if (k == "E") {
                uint64_t e, d; double m;
                ls >> cur >> e >> d >> m;
                evals[cur] += e; discards[cur] += d; maxcpu[cur] = std::max(maxcpu[cur], m);
            } else if (k == "L") {
                uint64_t n; std::string l;
                ls >> n; std::getline(ls, l);
                labels[l.substr(1)] += n;
            } else if (k == "H") {
                uint64_t h;
                while (ls >> h) { distinct.insert(h); nontriv[cur]++; }
            } else if (k == "S") {
                if (samples.size() < 12) samples.push_back(line.substr(2));
            } else if (k == "F") {
                Failing f{};
                uint64_t n;
                ls >> f.sub >> f.idx >> n;
                f.tape.resize(n);
                for (auto& v : f.tape) ls >> v;
                failing.push_back(std::move(f));
            } else if (k == "R") {
                ls >> resume.sub >> rb >> resume.start >> resume.end;
            }
        }
        (void)w;
    };

    std::map<std::string, std::pair<uint64_t, std::pair<std::string, std::string>>> survey;
    bool capped = false;
    std::unique_ptr<Failing> confirmed;
    Outcome confirmed_out;
    for (int w = 0; w < W; ++w) spawn(w, Block{0, 0, 0}, -1);
    std::vector<std::vector<std::pair<Block, int>>> pend(W);
    int alive = W;
    while (alive > 0 && !confirmed) {
        std::vector<pollfd> pf;
        std::vector<int> who;
        for (int w = 0; w < W; ++w) if (!wk[w].eof) { pf.push_back({wk[w].fd, POLLIN, 0}); who.push_back(w); }
        poll(pf.data(), pf.size(), 500);
        for (size_t i = 0; i < pf.size(); ++i) {
            if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            int w = who[i];
            char b[65536];
            ssize_t n = read(wk[w].fd, b, sizeof b);
            if (n > 0) {
                wk[w].buf.append(b, static_cast<size_t>(n));
                size_t p;
                while ((p = wk[w].buf.find("\n.\n")) != std::string::npos) {
                    Block r{0, 0, 0}; int rb = -1;
                    parse(w, wk[w].buf.substr(0, p + 1), r, rb);
                    wk[w].buf.erase(0, p + 3);
                }
            } else if (n == 0 || (n < 0 && errno != EINTR)) {
                close(wk[w].fd);
                wk[w].fd = -1;
                wk[w].eof = true;
                int status = 0;
                while (waitpid(wk[w].pid, &status, 0) < 0 && errno == EINTR) {}
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { --alive; continue; }
                Slot* s = slots[w];
                if (s->busy) {
                    Block b = blocks[s->block];
                    evals[b.sub]++;
                    bool tmo = WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL);
                    std::string err = read_file(wk[w].errf);
                    if (err.find("rss limit") != std::string::npos) tmo = true;
                    Failing f{b.sub, s->idx, std::vector<uint64_t>(s->tape, s->tape + s->len), tmo};
                    if (tmo) timeouts[b.sub]++;
                    if (!tmo || prop.subs[b.sub].hang_fails) failing.push_back(std::move(f));
                    spawn(w, Block{b.sub, s->idx + 1, b.end}, s->block);
                } else {
                    std::cerr << "worker died outside a case, status " << status << "\n" << read_file(wk[w].errf, 3000) << "\n";
                    --alive;
                    ++flaky;
                    flaky_notes.push_back("worker died outside a case");
                    if (flaky > 20) { alive = 0; }
                    else { spawn(w, Block{0, 0, 0}, -1); ++alive; }
                }
            }
        }
        while (!failing.empty() && !confirmed) {
            Failing f = std::move(failing.front());
            failing.erase(failing.begin());
            Sub const& sub = prop.subs[f.sub];
            if (a.survey) {
                auto o = run_forked(sub, f.tape, sub.cpu_limit * 2, a.scratch);
                std::string key;
                for (char ch : o.msg.substr(0, 300)) { if (ch == '\n') break; if (!(ch >= '0' && ch <= '9')) key += ch; }
                key = sub.name + " | " + key;
                auto& sv = survey[key];
                if (++sv.first <= 1 || o.note.size() < sv.second.first.size()) {
                    sv.second = {o.note, o.msg};
                }
                continue;
            }
            bool ok = true;
            Outcome o;
            int reps = f.hang ? 2 : 3;
            for (int r = 0; r < reps && ok; ++r) {
                o = run_forked(sub, f.tape, sub.cpu_limit * 3, a.scratch);
                ok = is_bad(o, f.hang);
            }
            if (ok) {
                confirmed = std::make_unique<Failing>(f);
                confirmed_out = o;
            } else {
                ++flaky;
                std::string fn = sub.name + " #" + std::to_string(f.idx) + (f.hang ? " (slow, finished within the larger budget)" : "");
                flaky_notes.push_back(fn);
                std::cerr << "not reproduced: " << fn << "\n";
            }
        }
        for (auto& w : wk) if (!w.eof && rss_mb(w.pid) > rss_limit_mb) kill(w.pid, SIGKILL);
        if (now() - t0 > a.time_cap) { capped = true; break; }
    }
    for (auto& w : wk) {
        if (!w.eof) {
            kill(w.pid, SIGKILL);
            int st;
            waitpid(w.pid, &st, 0);
            close(w.fd);
        }
    }

    for (auto& [k, v] : survey)
        std::cout << "=== " << v.first << " x " << k << "\n" << v.second.second.substr(0, 1200) << "\n--- case\n" << v.second.first.substr(0, 1500) << "\n";
    int exit_code = 0;
    std::string violation;
    int shrink_tries = 0;
    if (confirmed) {
        Sub const& sub = prop.subs[confirmed->sub];
        Outcome best = confirmed_out;
        std::cerr << "failure in " << sub.name << " #" << confirmed->idx << ": " << best.msg.substr(0, 500) << "\nshrinking...\n";
        double lim = confirmed->hang ? sub.cpu_limit * 2 : sub.cpu_limit;
        auto tape = shrink(sub, confirmed->tape, best, confirmed->hang, lim, a.scratch, a.shrink_s, 4000, shrink_tries);
        // replay the shrunk case three times; fall back to the original one
        bool ok = true;
        for (int r = 0; r < 3 && ok; ++r) {
            auto o = run_forked(sub, tape, sub.cpu_limit * 3, a.scratch);
            ok = is_bad(o, confirmed->hang);
            if (ok) best = o;
        }
        if (!ok) { tape = confirmed->tape; best = run_forked(sub, tape, sub.cpu_limit * 3, a.scratch); }
        std::string err = best.kind == Outcome::crash ? read_file(a.scratch + "/fork.err", 20000) : "";
        std::ostringstream rp;
        uint64_t h = hash_bytes(tape.data(), tape.size() * 8);
        rp << a.replay_dir << "/" << prop.id << "-" << sub.name << "-" << std::hex << (h & 0xffffffff) << ".txt";
        violation = rp.str();
        std::ofstream f(violation);
        f << "property " << prop.id << "\nsub " << sub.name << "\nseed " << a.seed << "\ncase " << confirmed->idx << "\ntape";
        for (auto v : tape) f << " " << v;
        f << "\n\n--- message ---\n" << best.msg << "\n\n--- case ---\n" << best.note << "\n";
        if (!err.empty()) f << "\n--- stderr ---\n" << err << "\n";
        f.close();
        std::cout << best.msg.substr(0, 1500) << "\n--- minimal case (" << shrink_tries << " shrink runs) ---\n" << best.note.substr(0, 4000) << "\n";
        exit_code = 1;
    }

    double wall = now() - t0;
    uint64_t te = 0, td = 0, tt = 0;
    for (auto v : evals) te += v;
    for (auto v : discards) td += v;
    for (auto v : timeouts) tt += v;
    if (!a.evidence.empty()) {
        std::ofstream f(a.evidence);
        f << "{\n \"property\": " << json_str(prop.id) << ",\n \"tier\": " << json_str(a.tier) << ",\n \"seed\": " << a.seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << te
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << json_str(prop.rule)
          << ",\n  \"discarded\": " << td << ",\n  \"inconclusive_timeouts\": " << tt << ",\n  \"not_reproduced\": " << flaky
          << ",\n  \"time_cap_reached\": " << (capped ? "true" : "false") << ",\n  \"sub_checks\": [";
        for (size_t i = 0; i < prop.subs.size(); ++i) {
            f << (i ? "," : "") << "\n   {\"name\": " << json_str(prop.subs[i].name) << ", \"evaluations\": " << evals[i]
              << ", \"nontrivial\": " << nontriv[i] << ", \"discarded\": " << discards[i] << ", \"timeouts\": " << timeouts[i]
              << ", \"max_case_cpu_s\": " << maxcpu[i] << "}";
        }
        f << "\n  ],\n  \"labels\": {";
        bool first = true;
        for (auto& [l, n] : labels) { f << (first ? "" : ",") << "\n   " << json_str(l) << ": " << n; first = false; }
        f << "\n  },\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << "\n   " << samples[i];
        f << "\n  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < prop.assumptions.size(); ++i) f << (i ? ", " : "") << json_str(prop.assumptions[i]);
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (confirmed ? 1 : 0) << "\n}\n";
    }
    std::cout << prop.id << ": " << te << " cases, " << distinct.size() << " distinct non-trivial, " << td << " discarded, " << tt
              << " timeouts, " << flaky << " not reproduced, " << wall << " s" << (capped ? " (time cap reached)" : "") << "\n";
    if (a.verbose) {
        for (size_t i = 0; i < prop.subs.size(); ++i)
            std::cout << "  " << prop.subs[i].name << ": " << evals[i] << " evals, " << nontriv[i] << " nontrivial, " << discards[i]
                      << " discarded, " << timeouts[i] << " timeouts, max cpu " << maxcpu[i] << "\n";
        for (auto& [l, n] : labels) std::cout << "    " << l << ": " << n << "\n";
    }
    if (exit_code == 1) std::cout << "VIOLATION property=" << prop.id << " replay=" << violation << std::endl;
    return exit_code;
}

} // namespace pbt

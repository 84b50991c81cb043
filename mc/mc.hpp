// Stateless explicit enumeration of driver programs (see DESIGN.md, "Explorer").
//
// A check is a set of driver programs ("suites").  A driver calls c.pick(n) at each point where its
// input, the next operation or a parameter is left open; the explorer runs the driver once for every
// sequence of answers, depth first, until the whole tree is exhausted.  A path (the list of answers) is
// a complete execution and is also the replay artefact.  c.shard() marks the node below which one
// subtree is explored by one worker process; every subtree is claimed by exactly one worker.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_set>
#include <atomic>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

#include <random>
extern "C" const char* __asan_default_options();
// The library seeds generators from std::random_device (XYZ::CreateRandomOrthogonal): the environment's answer
// is a choice of the explorer, not chance.  Successive draws differ so that retry loops make progress.
namespace mc { inline thread_local unsigned g_random = 1; }
unsigned int std::random_device::_M_getval() { return mc::g_random++; }

namespace mc {

struct Skip {};
struct Known {};
struct Fail { std::string key, msg; };

inline std::string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hd(uint64_t h, double d) {           // hash of a double rounded to 1e-9 relative steps
  if (d == 0 || !std::isfinite(d)) return mix(h, std::isfinite(d) ? 0 : 77);
  int e; double m = std::frexp(d, &e); return mix(mix(h, (uint64_t)(int64_t)std::llround(m * 1e9)), (uint64_t)(e + 5000));
}

enum { MAXPATH = 96, MAXW = 64, MAXCLAIM = 1 << 22, HIST = 32 };
struct Slot {
  std::atomic<uint64_t> execs; std::atomic<int> len; int path[MAXPATH];
  std::atomic<uint64_t> ordinal; std::atomic<int> done; char note[2048];
  int hist[HIST][MAXPATH], hlen[HIST]; std::atomic<uint64_t> hn;      // the executions before the current one
};
struct Shared { std::atomic<int> stop; Slot slot[MAXW]; std::atomic<unsigned char> claim[MAXCLAIM]; };

inline bool g_thorough = false;
inline std::set<std::string> g_known;
inline bool thorough() { return g_thorough; }
template <class T> T tier(T q, T t) { return g_thorough ? t : q; }

class Ctx {
 public:
  std::vector<int> path, arity; size_t pos = 0;
  std::vector<int> lastPrefix; bool owned = true; bool havePrefix = false; uint64_t ordinal = 0;
  Shared* sh = nullptr; Slot* slot = nullptr; bool replay = false;
  std::unordered_set<uint64_t> states; uint64_t transitions = 0, execs = 0, complete = 0, skipped = 0;
  std::map<std::string, uint64_t> counters; std::vector<std::string> samples; std::string noteText;
  std::map<std::string, uint64_t> knownHits;

  int pick(int n) {
    if (n <= 0) throw Skip();
    if (pos < path.size()) {
      if (path[pos] >= n) { fprintf(stderr, "mc: replay divergence at %zu: %d of %d\n", pos, path[pos], n); _exit(77); }
      if (pos < arity.size()) { if (arity[pos] != n) { fprintf(stderr, "mc: nondeterministic driver\n"); _exit(77); } }
      else arity.push_back(n);
    } else { path.push_back(0); arity.push_back(n); }
    if (path.size() > MAXPATH) { fprintf(stderr, "mc: path too long\n"); _exit(77); }
    publish();
    return path[pos++];
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[pick((int)v.size())]; }
  bool flip() { return pick(2) == 1; }
  void skip() { skipped++; throw Skip(); }

  void publish() {
    if (!slot) return;
    slot->path[pos] = path[pos]; slot->len.store((int)pos + 1, std::memory_order_relaxed);
  }
  void shard() {
    if (replay || !sh) return;
    if (havePrefix && lastPrefix.size() == pos && std::equal(lastPrefix.begin(), lastPrefix.end(), path.begin())) {
      if (!owned) prune(); return;
    }
    lastPrefix.assign(path.begin(), path.begin() + pos); havePrefix = true;
    uint64_t o = ordinal++; slot->ordinal.store(ordinal, std::memory_order_relaxed);
    if (o >= MAXCLAIM) { fprintf(stderr, "mc: too many shards\n"); _exit(77); }
    owned = sh->claim[o].exchange(1) == 0;
    if (!owned) prune();
  }
  void prune() { path.resize(pos); arity.resize(pos); throw Skip(); }

  void trans(uint64_t n = 1) { transitions += n; }
  void state(uint64_t h) { states.insert(h); }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void note(const char* f, ...) {
    char buf[2040]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); noteText = buf;
    if (slot) { strncpy(slot->note, buf, sizeof slot->note - 1); }
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) {
    if (g_known.count(key)) { knownHits[key]++; throw Known(); }
    throw Fail{key, msg};
  }
  void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
};

struct Suite { const char* name; std::function<void(Ctx&)> fn; };

inline bool nextPath(Ctx& c) {
  if (c.path.size() > c.pos) { c.path.resize(c.pos); c.arity.resize(c.pos); }
  while (!c.path.empty() && c.path.back() + 1 >= c.arity.back()) { c.path.pop_back(); c.arity.pop_back(); }
  if (c.path.empty()) return false;
  c.path.back()++; return true;
}

inline void runBody(Ctx& c, const std::vector<Suite>& suites) {
  c.pos = 0; g_random = 1; c.noteText.clear(); if (c.slot) c.slot->note[0] = 0;
  int s = c.pick((int)suites.size());
  suites[s].fn(c);
}

inline std::string jesc(const std::string& s) {
  std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o;
}
inline std::string pathStr(const std::vector<int>& p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]); return s; }

// outcome of one execution: 0 ok, 1 fail, 2 skipped, 3 known
inline int exec1(Ctx& c, const std::vector<Suite>& suites, std::string& key, std::string& msg) {
  try { runBody(c, suites); return 0; }
  catch (Skip&) { return 2; }
  catch (Known&) { return 3; }
  catch (Fail& f) { key = f.key; msg = f.msg; return 1; }
  catch (std::exception& e) {
    key = "exception"; msg = std::string("unexpected exception: ") + e.what();
    if (g_known.count(key)) { c.knownHits[key]++; return 3; }
    return 1;
  }
}

struct Opts { int workers = 8; double timeLimit = 840; double hang = 40, hangReplay = 100; std::string out = "."; std::string replay; };

inline void workerMain(Shared* sh, int w, const std::vector<Suite>& suites, const Opts& o, std::vector<int> resume, uint64_t ord, bool doResume, int gen) {
  Ctx c; c.sh = sh; c.slot = &sh->slot[w];
  bool alive = true; bool first = true;
  if (doResume) {                       // continue after the path a predecessor died on (it was reported)
    c.path = resume; c.ordinal = ord; c.replay = true; std::string k, m; c.replay = false;
  }
  (void)first;
  while (alive) {
    if (sh->stop.load(std::memory_order_relaxed)) break;
    std::string key, msg; int r = exec1(c, suites, key, msg);
    c.execs++; c.slot->execs.fetch_add(1, std::memory_order_relaxed);
    if (r != 1 && c.pos < MAXPATH && (r != 2 || !c.path.empty())) { uint64_t k = c.slot->hn.load() % HIST; int n = (int)std::min(c.pos, c.path.size()); std::copy(c.path.begin(), c.path.begin() + n, c.slot->hist[k]); c.slot->hlen[k] = n; if (!(r == 2 && !c.owned)) c.slot->hn.fetch_add(1); }
    if (r == 0) {
      c.complete++;
      uint64_t n = c.complete;
      if (c.samples.size() < 12 && ((n & (n - 1)) == 0) && !c.noteText.empty()) c.samples.push_back(c.noteText);
    }
    if (r == 1 && getenv("MC_SURVEY")) {       // development aid: tally every failure key instead of stopping
      if (c.counters["FAIL " + key]++ == 0) c.samples.push_back("FAIL " + key + ": " + msg);
    } else if (r == 1) {
      FILE* f = fopen(fmt("%s/fail.%d.%d", o.out.c_str(), w, gen).c_str(), "w");
      std::vector<int> p(c.path.begin(), c.path.begin() + std::min(c.pos, c.path.size()));
      fprintf(f, "%s\n%s\n%s\n%s\n", pathStr(p).c_str(), key.c_str(), jesc(msg).c_str(), jesc(c.noteText).c_str());
      fclose(f); sh->stop.store(1); break;
    }
    alive = nextPath(c);
  }
  FILE* f = fopen(fmt("%s/stats.%d.%d", o.out.c_str(), w, gen).c_str(), "w");
  fprintf(f, "%llu %llu %llu %llu\n", (unsigned long long)c.transitions, (unsigned long long)c.complete, (unsigned long long)c.execs, (unsigned long long)c.skipped);
  for (auto& kv : c.counters) fprintf(f, "C %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
  for (auto& kv : c.knownHits) fprintf(f, "K %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
  for (auto& s : c.samples) fprintf(f, "S %s\n", jesc(s).c_str());
  fclose(f);
  f = fopen(fmt("%s/states.%d.%d", o.out.c_str(), w, gen).c_str(), "wb");
  std::vector<uint64_t> v(c.states.begin(), c.states.end());
  fwrite(v.data(), 8, v.size(), f); fclose(f);
  c.slot->done.store(1);
  fflush(nullptr); _exit(0);
}

// Replays one path in a fresh child. 0 = ok, 1 = failure (text in msg), 2 = crash, 3 = hang
typedef std::vector<std::vector<int>> History;
inline History history(const Slot& s) { History h; uint64_t n = s.hn.load(); for (uint64_t i = n > HIST ? n - HIST : 0; i < n; i++) h.emplace_back(s.hist[i % HIST], s.hist[i % HIST] + s.hlen[i % HIST]); return h; }
inline int replayChild(const std::vector<Suite>& suites, const std::vector<int>& path, double limit, const Opts& o, std::string& msg, const History& before = {}) {
  std::string f = o.out + "/replay.txt", errf = o.out + "/replay.err"; unlink(f.c_str());
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
    for (auto& b : before) { Ctx c; c.replay = true; c.path = b; std::string key, m; exec1(c, suites, key, m); }
    Ctx c; c.replay = true; c.path = path; std::string key, m; int r = exec1(c, suites, key, m);
    FILE* h = fopen(f.c_str(), "w"); fprintf(h, "%d\n%s\n%s\n%s\n", r, key.c_str(), jesc(m).c_str(), jesc(c.noteText).c_str()); fclose(h);
    fflush(nullptr); _exit(r == 1 ? 1 : 0);
  }
  auto t0 = std::chrono::steady_clock::now(); int st = 0;
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    usleep(5000);
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = "does not terminate"; return 3; }
  }
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1)) {
    msg = WIFSIGNALED(st) ? fmt("crash, signal %d", WTERMSIG(st)) : fmt("crash, exit %d", WEXITSTATUS(st));
    FILE* h = fopen(errf.c_str(), "r"); if (h) { char buf[400]; int n = 0; while (fgets(buf, sizeof buf, h) && n < 14) { if (strstr(buf, "ERROR") || strstr(buf, "    #") || strstr(buf, "Assert") || strstr(buf, "runtime error")) { msg += " | "; msg += buf; n++; } } fclose(h); }
    return 2;
  }
  return WEXITSTATUS(st);
}

inline int mainImpl(int argc, char** argv, const char* id, const std::vector<Suite>& allSuites) {
  Opts o; std::string knownList, only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--thorough") g_thorough = true;
    else if (a == "--workers") o.workers = atoi(nx().c_str());
    else if (a == "--time") o.timeLimit = atof(nx().c_str());
    else if (a == "--out") o.out = nx();
    else if (a == "--replay") o.replay = nx();
    else if (a == "--known") knownList = nx();
    else if (a == "--only") only = nx();
  }
  if (!knownList.empty()) { FILE* f = fopen(knownList.c_str(), "r"); char b[1000]; while (f && fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) g_known.insert(s); } if (f) fclose(f); }
  std::vector<Suite> suites;
  for (auto& s : allSuites) if (only.empty() || only == s.name) suites.push_back(s);
  if (!o.replay.empty()) {
    History before; std::vector<int> p; std::string cur; for (char ch : o.replay + ",") { if (ch == ',' || ch == ';') { if (!cur.empty()) p.push_back(atoi(cur.c_str())); cur.clear(); if (ch == ';') { before.push_back(p); p.clear(); } } else cur += ch; }
    g_known.clear(); std::string msg; int r = replayChild(suites, p, 200, o, msg, before);
    printf("replay result %d %s\n", r, msg.c_str()); FILE* h = fopen((o.out + "/replay.txt").c_str(), "r"); char b[5000]; while (h && fgets(b, sizeof b, h)) fputs(b, stdout); return r ? 1 : 0;
  }
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(o.workers); std::vector<uint64_t> last(o.workers, 0); std::vector<double> lastT(o.workers, 0); std::vector<bool> fin(o.workers, false);
  for (int w = 0; w < o.workers; w++) {
    fflush(nullptr); pid[w] = fork();
    if (pid[w] == 0) { int fd = open(fmt("%s/stderr.%d", o.out.c_str(), w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); workerMain(sh, w, suites, o, {}, 0, false, 0); }
  }
  struct Rep { std::vector<int> path; std::string key, msg, note; History before; }; std::vector<Rep> reps; bool capped = false; std::string error;
  int live = o.workers;
  while (live > 0) {
    usleep(20000);
    for (int w = 0; w < o.workers; w++) if (!fin[w]) {
      int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
      Slot& s = sh->slot[w];
      auto cur = [&] { std::vector<int> p; int n = s.len.load(); for (int i = 0; i < n; i++) p.push_back(s.path[i]); return p; };
      if (q == pid[w]) {
        fin[w] = true; live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.done.load()) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { error = "driver error (see stderr)"; sh->stop.store(1); continue; }
        std::vector<int> p = cur(); std::string msg; int r = 0;
        for (size_t cut = 0; cut < 1; cut++) r = replayChild(suites, p, o.hangReplay, o, msg);
        History h; if (r == 0) { h = history(s); r = replayChild(suites, p, o.hangReplay, o, msg, h); if (r) msg += " (only after the executions before it)"; }
        if (r == 0) { error = fmt("worker died (status %d) but path %s replays cleanly", st, pathStr(p).c_str()); }
        else reps.push_back({p, r == 2 ? "crash" : r == 3 ? "hang" : "fail", msg, s.note, h});
        sh->stop.store(1); continue;
      }
      uint64_t e = s.execs.load();
      if (e != last[w]) { last[w] = e; lastT[w] = elapsed(); }
      else if (elapsed() - lastT[w] > o.hang) {
        std::vector<int> p = cur(); std::string msg;
        kill(pid[w], SIGSTOP);
        int r = replayChild(suites, p, o.hangReplay, o, msg);
        if (r == 0) { kill(pid[w], SIGCONT); lastT[w] = elapsed() + o.hang; }      // slow, not stuck
        else { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); fin[w] = true; live--; reps.push_back({p, r == 3 ? "hang" : "crash", msg, s.note}); sh->stop.store(1); }
      }
    }
    if (elapsed() > o.timeLimit && !capped) { capped = true; sh->stop.store(1); }
  }
  uint64_t trans = 0, complete = 0, execs = 0, skipped = 0; std::map<std::string, uint64_t> counters, known; std::vector<std::string> samples; std::vector<uint64_t> st;
  for (int w = 0; w < o.workers; w++) {
    FILE* f = fopen(fmt("%s/stats.%d.0", o.out.c_str(), w).c_str(), "r"); if (!f) continue;
    unsigned long long a, b, d, e; if (fscanf(f, "%llu %llu %llu %llu\n", &a, &b, &d, &e) == 4) { trans += a; complete += b; execs += d; skipped += e; }
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
      std::string s(line); while (!s.empty() && s.back() == '\n') s.pop_back();
      if (s[0] == 'S') samples.push_back(s.substr(2));
      else { size_t sp = s.find(' ', 2); (s[0] == 'C' ? counters : known)[s.substr(sp + 1)] += strtoull(s.c_str() + 2, nullptr, 10); }
    }
    fclose(f);
    f = fopen(fmt("%s/states.%d.0", o.out.c_str(), w).c_str(), "rb"); if (f) { uint64_t buf[4096]; size_t n; while ((n = fread(buf, 8, 4096, f)) > 0) st.insert(st.end(), buf, buf + n); fclose(f); }
    f = fopen(fmt("%s/fail.%d.0", o.out.c_str(), w).c_str(), "r");
    if (f) { std::vector<std::string> L; while (fgets(line, sizeof line, f)) { std::string s(line); while (!s.empty() && s.back() == '\n') s.pop_back(); L.push_back(s); } fclose(f);
      if (L.size() >= 4) { std::vector<int> p; std::string cur; for (char ch : L[0] + ",") { if (ch == ',') { if (!cur.empty()) p.push_back(atoi(cur.c_str())); cur.clear(); } else cur += ch; } reps.push_back({p, L[1], L[2], L[3], history(sh->slot[w])}); } }
  }
  std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end());
  std::sort(reps.begin(), reps.end(), [](const Rep& a, const Rep& b) { return a.path < b.path; });
  // replay before report
  Rep* rep = nullptr; std::string rmsg;
  for (auto& r : reps) {
    if (r.key == "crash" || r.key == "hang") { rep = &r; break; }   // already replayed above
    std::string m; int x = replayChild(suites, r.path, o.hangReplay, o, m);
    if (x != 0) { r.before.clear(); rep = &r; break; }
    x = replayChild(suites, r.path, o.hangReplay * 2, o, m, r.before); if (x != 0) { r.msg += " (only after the executions before it)"; rep = &r; break; } else error = "failure did not replay: " + r.msg;
  }
  FILE* f = fopen((o.out + "/summary.json").c_str(), "w");
  fprintf(f, "{\"id\":\"%s\",\"states\":%zu,\"transitions\":%llu,\"traces\":%llu,\"executions\":%llu,\"skipped\":%llu,\"exhaustive\":%s,\"wall\":%.2f,", id, st.size(), (unsigned long long)trans, (unsigned long long)complete, (unsigned long long)execs, (unsigned long long)skipped, (!capped && reps.empty() && error.empty()) ? "true" : "false", elapsed());
  fprintf(f, "\"counters\":{"); bool fi = true; for (auto& kv : counters) { fprintf(f, "%s\"%s\":%llu", fi ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); fi = false; }
  fprintf(f, "},\"known\":{"); fi = true; for (auto& kv : known) { fprintf(f, "%s\"%s\":%llu", fi ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); fi = false; }
  fprintf(f, "},\"suites\":["); for (size_t i = 0; i < suites.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", suites[i].name);
  fprintf(f, "],\"samples\":["); size_t step = getenv("MC_SURVEY") ? 1 : std::max<size_t>(1, samples.size() / 8); fi = true; for (size_t i = 0; i < samples.size(); i += step) { fprintf(f, "%s\"%s\"", fi ? "" : ",", samples[i].c_str()); fi = false; }
  fprintf(f, "],\"error\":\"%s\"", jesc(error).c_str());
  if (rep) {
    const char* sn = !rep->path.empty() && rep->path[0] < (int)suites.size() ? suites[rep->path[0]].name : "?";
    fprintf(f, ",\"violation\":{\"path\":\"%s\",\"suite\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}", [&] { std::string h; for (auto& b : rep->before) h += pathStr(b) + ";"; return h + pathStr(rep->path); }().c_str(), sn, jesc(rep->key).c_str(), jesc(rep->msg).c_str(), jesc(rep->note).c_str());
  }
  fprintf(f, "}\n"); fclose(f);
  return rep ? 1 : error.empty() ? 0 : 3;
}
}  // namespace mc

#define MC_MAIN(ID, ...) \
  extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:disable_coredump=1:hard_rss_limit_mb=6000:allocator_may_return_null=0:max_allocation_size_mb=2000:handle_abort=1:detect_stack_use_after_return=0"; } \
  int main(int argc, char** argv) { return mc::mainImpl(argc, argv, ID, std::vector<mc::Suite>__VA_ARGS__); }

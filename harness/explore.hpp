// Exhaustive enumeration driver: forked workers take task indices from a shared counter, publish the
// case they are executing (so that a crash or hang is attributed and replayed alone), count states in
// one shared hash table and append findings to a file.
#pragma once
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

namespace ex {
using json = nlohmann::json;
constexpr int MAXW = 16, MAXC = 64, CASELEN = 4096;
constexpr size_t NT = size_t(1) << 23;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct Slot { char cs[CASELEN]; std::atomic<double> t0; std::atomic<int> busy; std::atomic<long> cnt[MAXC]; int task; };
struct Shared
{
  std::atomic<int> next, nfail, nsample;
  std::atomic<long> states;
  std::atomic<bool> stop;
  Slot s[MAXW];
  std::atomic<uint64_t> tab[NT];
};
inline Shared* sh = nullptr;
inline std::vector<std::string>& names() { static std::vector<std::string> v; return v; }
inline int ctr(const char* n) { auto& v = names(); for (size_t i = 0; i < v.size(); ++i) if (v[i] == n) return i; v.push_back(n); if (v.size() > MAXC) abort(); return v.size() - 1; }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
inline uint64_t mixd(uint64_t h, double x, double q = 1e-7) { if (!std::isfinite(x)) return mix(h, std::isnan(x) ? 77 : 78); return mix(h, (uint64_t)(int64_t)std::llround(x / q)); }

struct Ctx
{
  int w = -1;
  FILE* f = nullptr;
  int maxfail = 6;
  std::string cur, tier;
  int group = 0;
  void begin(const std::string& cs)
  {
    cur = cs;
    if (w < 0) return;
    auto& s = sh->s[w];
    strncpy(s.cs, cs.c_str(), CASELEN - 1);
    s.t0 = now();
    s.busy = 1;
  }
  void end() { if (w >= 0) sh->s[w].busy = 0; }
  void count(int c, long n = 1) { if (w >= 0) sh->s[w].cnt[c] += n; }
  void state(uint64_t h)
  {
    if (w < 0) return;
    if (!h) h = 1;
    size_t i = h & (NT - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & (NT - 1)) {
      uint64_t z = 0;
      if (sh->tab[i].load(std::memory_order_relaxed) == h) return;
      if (sh->tab[i].compare_exchange_strong(z, h)) { sh->states++; return; }
      if (z == h) return;
    }
  }
  std::vector<std::string> local;
  void fail(const std::string& cs, const std::string& msg)
  {
    local.push_back(msg);
    if (!f) return;
    json j = {{"case", cs}, {"msg", msg}, {"task", "task:" + tier + ":" + std::to_string(group) + ":" + std::to_string(w >= 0 ? sh->s[w].task : 0)}};
    fprintf(f, "%s\n", j.dump(-1, ' ', true, json::error_handler_t::replace).c_str());
    fflush(f);
    if (sh && ++sh->nfail >= maxfail) sh->stop = true;
  }
  void sample(const json& j)
  {
    if (!f || sh->nsample.fetch_add(1) >= 6) return;
    json k = {{"sample", j}};
    fprintf(f, "%s\n", k.dump(-1, ' ', true, json::error_handler_t::replace).c_str());
    fflush(f);
  }
  bool stopped() const { return sh && sh->stop; }
};

struct Opts
{
  int workers = 8;
  double budget = 700;     // overall cap [s]
  double hang = 20;        // one case [s]
  std::string scratch = ".";
  int maxfail = 6;
  int group = 0, only = -1, onlygroup = 0;   // replay of one whole exploration task
  std::string tier = "quick";
};
// a crash that one case alone does not reproduce is replayed as the whole task it happened in:
// --replay task:<tier>:<group>:<index>
inline bool task_replay(std::string& replay, std::string& tier, Opts& o)
{
  if (replay.compare(0, 5, "task:")) return false;
  auto a = replay.find(':', 5), b = replay.find(':', a + 1);
  tier = replay.substr(5, a - 5);
  o.onlygroup = atoi(replay.c_str() + a + 1);
  o.only = atoi(replay.c_str() + b + 1);
  o.workers = 1;
  o.hang = 200;
  replay.clear();
  return true;
}
inline int report(const json& res, int out)
{
  for (auto& f : res["findings"]) { std::string l = "FINDING " + f["msg"].get<std::string>() + "\n"; if (write(out, l.data(), l.size()) < 0) return 2; }
  return res["findings"].empty() ? 0 : 1;
}

// task(i, ctx); replay(case) returns messages (used for crash / hang confirmation)
inline json explore(int ntasks, const std::function<void(int, Ctx&)>& task, const std::function<void(const std::string&, Ctx&)>& replay, const Opts& o)
{
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now();
  int last = ntasks;
  if (o.only >= 0) { if (o.group != o.onlygroup) last = 0; else { sh->next = o.only; last = std::min(ntasks, o.only + 1); } }
  std::vector<pid_t> pid(o.workers, -1);
  fflush(stdout); fflush(stderr);
  auto spawn = [&](int w, int gen) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      std::string d = o.scratch + "/w" + std::to_string(w) + "_" + std::to_string(gen);
      mkdir(d.c_str(), 0700);
      Ctx c;
      c.w = w;
      c.maxfail = o.maxfail;
      c.tier = o.tier;
      c.group = o.group;
      c.f = fopen((o.scratch + "/res_" + std::to_string(w) + "_" + std::to_string(gen) + ".jsonl").c_str(), "w");
      if (chdir(d.c_str())) _exit(9);
      while (!sh->stop) {
        int i = sh->next++;
        if (i >= last) break;
        sh->s[w].task = i;
        double tt = now();
        task(i, c);
        c.end();
        if (getenv("NLCG_PROFILE") && now() - tt > 3) fprintf(stderr, "task %d: %.1f s, %s\n", i, now() - tt, sh->s[w].cs);
      }
      fflush(c.f);
      _exit(0);
    }
    pid[w] = p;
  };
  struct Bad { std::string first, second; int task; };
  std::vector<Bad> bad; // case, reason (crash or hang)
  int gen = 0;
  std::vector<std::string> files;
  for (int w = 0; w < o.workers; ++w) spawn(w, 0);
  bool capped = false;
  int alive = o.workers;
  while (alive > 0) {
    usleep(20000);
    for (int w = 0; w < o.workers; ++w) {
      if (pid[w] < 0) continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool dead = r == pid[w];
      bool hung = !dead && sh->s[w].busy && now() - sh->s[w].t0 > o.hang;
      if (hung) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = true; }
      if (!dead) continue;
      pid[w] = -1; --alive;
      if (hung) bad.push_back({sh->s[w].cs, "hang", sh->s[w].task});
      else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
        bad.push_back({sh->s[w].cs, WIFSIGNALED(st) ? std::string("crash, signal ") + std::to_string(WTERMSIG(st)) : std::string("process exit ") + std::to_string(WEXITSTATUS(st)), sh->s[w].task});
      else continue;
      if (bad.size() >= 4) sh->stop = true;
      if (!sh->stop) { sh->s[w].busy = 0; spawn(w, ++gen); ++alive; }
    }
    if (now() - t0 > o.budget && !sh->stop) { sh->stop = true; capped = true; }
  }
  json out;
  out["findings"] = json::array();
  out["samples"] = json::array();
  // confirm crashes and hangs: the case alone with a longer limit, else the whole task in a fresh process
  for (auto& b : bad) {
    auto again = [&](bool whole, double limit) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        std::string d = o.scratch + "/confirm" + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        if (chdir(d.c_str())) _exit(9);
        Ctx c;
        if (whole) { sh->stop = false; task(b.task, c); } else replay(b.first, c);
        _exit(0);
      }
      double s = now();
      int st = 0;
      while (true) {
        usleep(10000);
        if (waitpid(p, &st, WNOHANG) == p) break;
        if (now() - s > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 2; }
      }
      return WIFSIGNALED(st) || WEXITSTATUS(st) != 0 ? 1 : 0;
    };
    int r = o.only >= 0 ? 1 : again(false, 4 * o.hang);
    if (r) { out["findings"].push_back({{"case", b.first}, {"msg", r == 2 ? "no termination" : b.second}}); continue; }
    if (b.second != "hang" && again(true, 150) == 1) out["findings"].push_back({{"case", "task:" + o.tier + ":" + std::to_string(o.group) + ":" + std::to_string(b.task)}, {"msg", b.second + " (at case " + b.first + ", after the preceding cases of its task)"}});
    else out["unconfirmed"].push_back({{"case", b.first}, {"msg", b.second}});
  }
  for (int g = 0; g <= gen; ++g) for (int w = 0; w < o.workers; ++w) {
    std::ifstream in(o.scratch + "/res_" + std::to_string(w) + "_" + std::to_string(g) + ".jsonl");
    std::string l;
    while (std::getline(in, l)) {
      json j = json::parse(l, nullptr, false);
      if (j.is_discarded()) continue;
      if (j.contains("sample")) out["samples"].push_back(j["sample"]); else out["findings"].push_back(j);
    }
  }
  for (size_t c = 0; c < names().size(); ++c) { long n = 0; for (int w = 0; w < o.workers; ++w) n += sh->s[w].cnt[c]; out["counters"][names()[c]] = n; }
  out["states"] = (long)sh->states;
  out["tasks"] = ntasks;
  out["complete"] = !capped && !sh->stop && sh->next >= ntasks;
  out["capped"] = capped;
  out["wall"] = now() - t0;
  return out;
}
}  // namespace ex

// Controller of several ranks.  Ranks are processes that share only collectives and files; every such
// operation is a message to this controller, which decides what happens next.  All interleavings of the
// file operations are enumerated (sleep sets over "same file"; collectives of all ranks are barriers).
#pragma once
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include "mpi_shim.hpp"

namespace multi {
struct Msg { shim::Hdr h; std::string sig, pay; };
struct Op { int rank; std::string what, path; };
struct Node { std::vector<Op> en; std::set<int> sleep, done; int pick = -1; };  // per choice point
struct Result
{
  std::vector<std::string> payload;   // one per rank
  std::vector<std::string> problems;  // deadlock, mismatch, crash, misuse
  std::vector<Op> ops;                // file operations in the order executed
  long ncoll = 0;
  bool blocked = false;               // redundant by the reduction
};
struct Setup { int R = 1, wsize = 2, woff = 0; bool revreduce = false; double hang = 20; };

inline bool dep(const Op& a, const Op& b) { return a.path == b.path && !(a.what == "read" && b.what == "read"); }

template <class T>
void red1(std::string& acc, const std::string& x, int op)
{
  size_t n = acc.size() / sizeof(T);
  for (size_t i = 0; i < n; ++i) {
    T a, b;
    memcpy(&a, &acc[i * sizeof(T)], sizeof(T));
    memcpy(&b, &x[i * sizeof(T)], sizeof(T));
    if (op == 1) a = a + b;
    else if (op == 4) a = a * b;
    else if constexpr (!std::is_same<T, std::complex<double>>::value) { if (op == 2) a = a < b ? b : a; else if (op == 3) a = b < a ? b : a; }
    memcpy(&acc[i * sizeof(T)], &a, sizeof(T));
  }
}
inline bool reduce(std::string& acc, const std::string& x, const std::string& sig, int op)
{
  if (sig.size() != 1 || acc.size() != x.size()) return false;
  switch (sig[0]) {
    case 'd': red1<double>(acc, x, op); return op >= 1 && op <= 4;
    case 'z': red1<std::complex<double>>(acc, x, op); return op == 1 || op == 4;
    case 'i': red1<int>(acc, x, op); return op >= 1 && op <= 4;
    case 'l': red1<long>(acc, x, op); return op >= 1 && op <= 4;
    case 'u': red1<unsigned>(acc, x, op); return op >= 1 && op <= 4;
    case 'L': red1<unsigned long>(acc, x, op); return op >= 1 && op <= 4;
    case 'f': red1<float>(acc, x, op); return op >= 1 && op <= 4;
    case 's': red1<short>(acc, x, op); return op >= 1 && op <= 4;
    default: return false;  // MPI does not define sums, minima and maxima of characters
  }
}

// one execution; stack holds the choices to follow and is extended by the new choice points
inline Result execute(const Setup& S, const std::function<std::string(int)>& body, std::vector<Node>& stack)
{
  Result R;
  int n = S.R;
  std::vector<pid_t> pid(n);
  std::vector<int> fd(n);
  fflush(stdout);
  for (int r = 0; r < n; ++r) {
    int sp[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) { R.problems.push_back("harness: socketpair"); return R; }
    pid[r] = fork();
    if (pid[r] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (int q = 0; q < r; ++q) close(fd[q]);
      close(sp[0]);
      shim::fd = sp[1];
      shim::configure(S.wsize, r + S.woff, n, r);
      std::string p = body(r);
      shim::send_done(p);
      _exit(0);
    }
    close(sp[1]);
    fd[r] = sp[0];
  }
  R.payload.resize(n);
  std::vector<int> state(n, 0);  // 0 running 1 pending 2 done
  std::vector<Msg> msg(n);
  auto rd = [&](int r, void* p, size_t len) {
    char* c = (char*)p;
    while (len) {
      pollfd pf{fd[r], POLLIN, 0};
      int k = poll(&pf, 1, (int)(S.hang * 1000));
      if (k == 0) return 0;
      ssize_t g = ::read(fd[r], c, len);
      if (g <= 0) return -1;
      c += g; len -= g;
    }
    return 1;
  };
  auto reply = [&](int r, const std::string& s) { uint64_t l = s.size(); std::string b((char*)&l, 8); b += s; shim::write_all(fd[r], b.data(), b.size()); };
  size_t depth = 0;
  std::set<int> sleep;  // sleep set carried along the execution
  bool stop = false;
  auto name = [](int c) { const char* t[] = {"?", "barrier", "allgather", "allreduce", "broadcast", "reduce", "gather", "host evaluation"}; return std::string(t[c >= 0 && c < 8 ? c : 0]); };
  while (!stop) {
    bool all = true;
    for (int r = 0; r < n && !stop; ++r) {
      while (state[r] == 0) {
        Msg m;
        int k = rd(r, &m.h, sizeof m.h);
        if (k == 1) { m.sig.resize(m.h.siglen); m.pay.resize(m.h.len); if (m.h.siglen) k = rd(r, &m.sig[0], m.h.siglen); if (k == 1 && m.h.len) k = rd(r, &m.pay[0], m.h.len); }
        if (k == 0) { R.problems.push_back("rank " + std::to_string(r) + " makes no progress"); stop = true; break; }
        if (k < 0) {
          int st = 0;
          waitpid(pid[r], &st, 0);
          pid[r] = -1;
          R.problems.push_back("rank " + std::to_string(r) + (WIFSIGNALED(st) ? " is killed by signal " + std::to_string(WTERMSIG(st)) : " exits with status " + std::to_string(WEXITSTATUS(st))));
          stop = true;
          break;
        }
        if (m.h.kind == shim::K_LOCAL_ERR) { R.problems.push_back("rank " + std::to_string(r) + ": " + m.sig); reply(r, ""); continue; }
        if (m.h.kind == shim::K_ABORT) { R.problems.push_back("rank " + std::to_string(r) + " calls MPI_Abort"); stop = true; break; }
        if (m.h.kind == shim::K_DONE) { R.payload[r] = m.pay; state[r] = 2; reply(r, ""); break; }
        msg[r] = m;
        state[r] = 1;
      }
      if (state[r] != 2) all = false;
    }
    if (stop || all) break;
    std::vector<Op> en;
    for (int r = 0; r < n; ++r) if (state[r] == 1 && msg[r].h.kind == shim::K_FILE) {
      auto sp = msg[r].sig.find(' ');
      en.push_back({r, msg[r].sig.substr(0, sp), msg[r].sig.substr(sp + 1)});
    }
    if (!en.empty()) {
      if (depth == stack.size()) {
        Node nd;
        nd.en = en;
        nd.sleep = sleep;
        for (auto& o : en) if (!sleep.count(o.rank)) { nd.pick = o.rank; break; }
        if (nd.pick < 0) { R.blocked = true; break; }
        stack.push_back(nd);
      }
      Node& nd = stack[depth++];
      Op* o = nullptr;
      for (auto& e : en) if (e.rank == nd.pick) o = &e;
      if (!o) { R.problems.push_back("harness: execution is not reproducible"); break; }
      sleep.clear();
      for (auto& e : en) if (e.rank != o->rank && (nd.sleep.count(e.rank) || nd.done.count(e.rank)) && !dep(e, *o)) sleep.insert(e.rank);
      R.ops.push_back(*o);
      state[o->rank] = 0;
      reply(o->rank, "");
      continue;
    }
    // no file operation pending: a collective must be complete
    std::string why;
    int c0 = -1;
    for (int r = 0; r < n; ++r) if (state[r] == 1) { if (c0 < 0) c0 = r; }
    for (int r = 0; r < n && why.empty(); ++r) {
      if (state[r] == 2) { why = "deadlock: rank " + std::to_string(r) + " has finished while rank " + std::to_string(c0) + " waits in " + name(msg[c0].h.coll); break; }
      auto &a = msg[r].h, &b = msg[c0].h;
      if (a.comm == 1) { why = "deadlock: " + name(a.coll) + " on the world communicator, of which the k-point communicator is only a part"; break; }
      if (a.comm != b.comm || a.coll != b.coll) { why = "deadlock: rank " + std::to_string(r) + " waits in " + name(a.coll) + ", rank " + std::to_string(c0) + " in " + name(b.coll); break; }
      if (msg[r].sig != msg[c0].sig) why = "mismatched " + name(a.coll) + ": ranks disagree about element type or receive counts";
      if (a.b != b.b) why = "mismatched " + name(a.coll) + ": ranks disagree about the operation";
      if ((a.coll == shim::C_ALLREDUCE || a.coll == shim::C_BCAST || a.coll == shim::C_REDUCE || a.coll == shim::C_GATHER || a.coll == shim::C_HOST) && a.a != b.a) why = "mismatched " + name(a.coll) + ": ranks disagree about count or root";
    }
    if (!why.empty()) { R.problems.push_back(why); break; }
    R.ncoll++;
    auto& h = msg[0].h;
    std::string res;
    if (h.coll == shim::C_ALLGATHER || h.coll == shim::C_GATHER) {
      if (h.coll == shim::C_ALLGATHER) {
        auto p = msg[0].sig.find('|');
        const int* cnt = (const int*)(msg[0].sig.data() + p + 1);
        std::vector<int> cc(n);
        memcpy(cc.data(), cnt, sizeof(int) * n);
        for (int r = 0; r < n; ++r) if (cc[r] != msg[r].h.a) { R.problems.push_back("mismatched allgather: rank " + std::to_string(r) + " sends another number of elements than is received"); stop = true; }
      }
      for (int r = 0; r < n; ++r) res += msg[r].pay;
    } else if (h.coll == shim::C_BCAST) res = msg[h.a].pay;
    else if (h.coll != shim::C_BARRIER) {
      for (int i = 0; i < n; ++i) {
        int r = S.revreduce ? n - 1 - i : i;
        if (i == 0) res = msg[r].pay;
        else if (!reduce(res, msg[r].pay, msg[r].sig, h.coll == shim::C_HOST ? 1 : h.b)) { R.problems.push_back("reduction with mismatched sizes or undefined operation"); stop = true; break; }
      }
    }
    sleep.clear();
    for (int r = 0; r < n && !stop; ++r) { state[r] = 0; reply(r, res); }
  }
  for (int r = 0; r < n; ++r) {
    close(fd[r]);
    if (pid[r] > 0) { if (state[r] != 2) kill(pid[r], SIGKILL); int st; waitpid(pid[r], &st, 0); }
  }
  return R;
}

// all schedules; visit returns false to stop
inline long schedules(const Setup& S, const std::function<std::string(int)>& body, const std::function<bool(const Result&, const std::vector<int>&)>& visit, const std::function<void()>& before, long cap)
{
  std::vector<Node> stack;
  long n = 0;
  while (true) {
    before();
    Result r = execute(S, body, stack);
    ++n;
    if (!r.blocked) {
      std::vector<int> sched;
      for (auto& nd : stack) sched.push_back(nd.pick);
      if (!visit(r, sched)) return n;
    }
    if (n >= cap) return -n;
    // backtrack
    while (!stack.empty()) {
      Node& nd = stack.back();
      nd.done.insert(nd.pick);
      int nx = -1;
      for (auto& o : nd.en) if (!nd.done.count(o.rank) && !nd.sleep.count(o.rank)) { nx = o.rank; break; }
      if (nx >= 0) { nd.pick = nx; break; }
      stack.pop_back();
    }
    if (stack.empty()) return n;
  }
}
}  // namespace multi

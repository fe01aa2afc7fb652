// C28: the log writers.  Every sequence of operations up to a depth is executed on the real Logger (text log)
// and the real StepLogger (JSON log) and compared with a model that says what must be in which file and on
// standard output after every step.
#include <sstream>
#include <mpi.h>
#include <nlcglib.hpp>
#include "utils/logger.hpp"
#include "utils/step_logger.hpp"
#include "explore.hpp"
#include "mpi_shim.hpp"
#include <cstdarg>
#include <dirent.h>
#include <map>
#include <set>

using namespace nlcglib;
using ex::Ctx;
using json = nlohmann::json;
static int C_ops = ex::ctr("operations_checked"), C_seq = ex::ctr("sequences");
static std::string TIER = "quick";
static bool thorough() { return TIER == "thorough"; }
static std::string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string slurp(const std::string& n)
{
  std::string s;
  int f = ::open(n.c_str(), O_RDONLY);
  if (f < 0) return s;
  char b[4096];
  for (ssize_t k; (k = ::read(f, b, sizeof b)) > 0;) s.append(b, k);
  ::close(f);
  return s;
}
static std::set<std::string> files()
{
  std::set<std::string> s;
  if (DIR* d = opendir(".")) { while (auto* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(d); }
  return s;
}
static void wipe() { for (auto& f : files()) ::unlink(f.c_str()); }
static int outfd = -1;
static std::string printed()
{
  std::cout.flush();
  fflush(stdout);
  std::string s;
  char b[4096];
  off_t o = 0;
  for (ssize_t k; (k = pread(outfd, b, sizeof b, o)) > 0; o += k) s.append(b, k);
  return s;
}

// ------------------------------------------------------------------ Logger
enum { lAF0, lAF1, lAM0, lAM1, lTXT, lNUM, lSCI, lEMP, lPA, lPB, lPOP, lCLR, lFL, lDET, lATT, lOUT, lCHAIN, lNL, lWID, lNOPS };
static const char* const OPN[] = {"attach_file()", "attach_file(p,.q)", "attach_file_master()", "attach_file_master(m.txt)", "<< text", "<< 42", "<< scientific number", "<< empty text", "push_prefix(a)", "push_prefix(b)", "pop_prefix", "clear_prefix", "flush", "detach_stdout", "attach_stdout", "<< TO_STDOUT << ...", "<< a << b", "<< long text", "<< setw << text"};
static bool logger_case(int rank, const std::string& ops, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  wipe();
  printed();
  if (ftruncate(outfd, 0)) return true;
  lseek(outfd, 0, SEEK_SET);
  shim::configure(3, rank, 1, 0);
  std::map<std::string, std::string> want;   // contents of the files
  std::string file, out;                     // attached file, standard output
  std::vector<std::string> pre;
  bool det = false;
  auto prefix = [&] { std::string s; for (auto& p : pre) s += p + "::"; return s; };
  auto put = [&](const std::string& t, bool so) { std::string s = prefix() + t; if (!file.empty()) want[file] += s; if (so && rank == 0) out += s; };
  auto open = [&](const std::string& f) { file = f; want[f] = ""; };
  std::string hist;
  bool ok = true;
  x.count(C_seq);
  {
    std::unique_ptr<Logger> lp(new Logger);
    Logger& L = *lp;
    for (char ch : ops) {
      int o = ch - 'a';
      hist += std::string(hist.empty() ? "" : ", ") + OPN[o];
      x.count(C_ops);
      switch (o) {
        case lAF0: L.attach_file(); open("out" + std::to_string(rank) + ".log"); break;
        case lAF1: L.attach_file("p", ".q"); open("p" + std::to_string(rank) + ".q"); break;
        case lAM0: L.attach_file_master(); if (rank == 0) open("nlcg.out"); break;
        case lAM1: L.attach_file_master("m.txt"); if (rank == 0) open("m.txt"); break;
        case lTXT: L << "text\n"; put("text\n", !det); break;
        case lNUM: L << 42; put("42", !det); break;
        case lSCI: L << std::scientific; put("", !det); L << std::setprecision(3); put("", !det); L << 0.1234567; put("1.235e-01", !det); L << std::defaultfloat; put("", !det); break;
        case lEMP: L << std::string(); put("", !det); break;
        case lPA: L.push_prefix("a"); pre.push_back("a"); break;
        case lPB: L.push_prefix("b"); pre.push_back("b"); break;
        case lPOP: if (!pre.empty()) { L.pop_prefix(); pre.pop_back(); } break;
        case lCLR: L.clear_prefix(); pre.clear(); break;
        case lFL: L.flush(); break;
        case lDET: L.detach_stdout(); det = true; break;
        case lATT: L.attach_stdout(); det = false; break;
        case lOUT: L << TO_STDOUT << "t" << 7; put("t", true); put("7", true); break;
        case lCHAIN: L << "u" << 'v'; put("u", !det); put("v", !det); break;
        case lNL: { std::string s(5000, 'x'); L << s; put(s, !det); break; }
        case lWID: if (pre.empty()) { L << std::setw(6) << "w"; put("     w", !det); } break;
      }
      if (L.is_detached() != det) { bad("is_detached() is wrong after " + hist); ok = false; break; }
      if (o == lFL && !file.empty() && slurp(file) != want[file]) { bad(fmt("rank %d: after %s the log file %s does not hold all the text", rank, hist.substr(0, 300).c_str(), file.c_str())); ok = false; break; }
      if (o >= lTXT) for (auto& w : want) if (w.first != file && slurp(w.first) != w.second) { bad(fmt("rank %d: after %s the detached log file %s holds other text", rank, hist.substr(0, 300).c_str(), w.first.c_str())); ok = false; break; }
    }
  }
  if (!ok) return false;
  for (auto& w : want) if (slurp(w.first) != w.second) return bad(fmt("rank %d: after %s the file %s holds '%s', wanted '%s'", rank, hist.substr(0, 250).c_str(), w.first.c_str(), slurp(w.first).substr(0, 60).c_str(), w.second.substr(0, 60).c_str()));
  std::set<std::string> have = files(), exp;
  for (auto& w : want) exp.insert(w.first);
  if (have != exp) { std::string s; for (auto& f : have) s += f + " "; return bad(fmt("rank %d: %s leaves the files: %s", rank, hist.substr(0, 250).c_str(), s.c_str())); }
  std::string pr = printed();
  if (pr != out) return bad(fmt("rank %d: %s prints '%s' on standard output, wanted '%s'", rank, hist.substr(0, 250).c_str(), pr.substr(0, 60).c_str(), out.substr(0, 60).c_str()));
  x.state(std::hash<std::string>()(out + "|" + file + want[file] + char('0' + rank)));
  return true;
}
// the one logger of the process
static bool instance_case(Ctx& x, const std::string& cs)
{
  shim::configure(3, 0, 1, 0);
  Logger* a = &Logger::GetInstance();
  for (int i = 0; i < 5; ++i) { x.count(C_ops); if (&Logger::GetInstance() != a) { x.fail(cs, "there is more than one logger"); return false; } }
  return true;
}

// ------------------------------------------------------------------ StepLogger
typedef Kokkos::View<double*, Kokkos::HostSpace> V1;
typedef Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace> V1S;
typedef Kokkos::View<Kokkos::complex<double>*, Kokkos::HostSpace> VZ;
typedef Kokkos::View<int*, Kokkos::HostSpace> VI;
static const double ODD[] = {0.1, -1.0 / 3, 6.02214076e23, -4.9406564584124654e-324, 1.7976931348623157e308, 0, -0.0, 123456789.123456789, 2.5};
enum { oSD, oSF, oSI, oSB, oSL, oSO, oSNAN, oSOVER, oMP, oME, oMO, oVD, oVE, oVS, oVC, oVK, oVG, oVL, oNSO };
static const char* const SON[] = {"double", "float", "int", "bool", "long", "odd double", "nan and inf", "same key again", "map", "empty map", "map of doubles", "vectors", "no vectors", "strided vectors", "complex vectors", "int vectors", "more vectors under the same key", "long vectors"};
template <class V, class F>
static void vecs(StepLogger& L, json& d, const std::string& key, const std::vector<std::pair<int, int>>& ks, int n, F f)
{
  mvector<V> m;
  for (auto k : ks) {
    V v(Kokkos::ViewAllocateWithoutInitializing("v"), n);
    json e;
    e["ik"] = k.first; e["ispn"] = k.second; e["value"] = json::array();
    for (int i = 0; i < n; ++i) e["value"].push_back(f(v, i, k));
    m[k] = v;
  }
  std::vector<std::pair<int, int>> s = ks;
  std::sort(s.begin(), s.end());
  for (auto k : s) {
    V v = m[k];
    json e;
    e["ik"] = k.first; e["ispn"] = k.second; e["value"] = json::array();
    for (int i = 0; i < n; ++i) e["value"].push_back(f(v, i, k));
    d[key] += e;
  }
  L.log(key, m);
}
static bool same(const json& a, const json& b)
{
  if (a.is_number() && b.is_number()) return a.get<double>() == b.get<double>() && std::signbit(a.get<double>()) == std::signbit(b.get<double>());
  if (a.type() != b.type() || a.size() != b.size()) return false;
  if (a.is_object()) { for (auto it = a.begin(); it != a.end(); ++it) if (!b.count(it.key()) || !same(it.value(), b[it.key()])) return false; return true; }
  if (a.is_array()) { for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
  return a == b;
}
// the records of a file: JSON values one after another
static bool records(const std::string& s, std::vector<json>& r)
{
  int depth = 0;
  size_t from = 0;
  bool str = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (str) { if (c == '\\') ++i; else if (c == '"') str = false; continue; }
    if (c == '"') str = true;
    else if (c == '{') { if (!depth++) from = i; }
    else if (c == '}') {
      if (--depth < 0) return false;
      if (!depth) { try { r.push_back(json::parse(s.substr(from, i + 1 - from))); } catch (std::exception&) { return false; } }
    } else if (!depth && !isspace((unsigned char)c) && c != ',') return false;
  }
  return !depth && !str;
}
// tokens: records separated by '/': <file><active><operations>
static bool step_case(const std::string& desc, Ctx& x, const std::string& cs)
{
  auto bad = [&](const std::string& m) { x.fail(cs, m); return false; };
  wipe();
  printed();
  if (ftruncate(outfd, 0)) return true;
  lseek(outfd, 0, SEEK_SET);
  std::map<std::string, std::vector<json>> want;
  std::istringstream is(desc);
  std::string rec, hist;
  int step = 0;
  x.count(C_seq);
  while (std::getline(is, rec, '/')) {
    ++step;
    int no = step % 3 == 2 ? 1000000 + step : step - 1;
    bool act = rec[1] != '0';
    json d;
    d["type"] = "cg_iteration";
    d["step"] = no;
    std::string fn = rec[0] == '1' ? "other.json" : rec[0] == '2' ? "deep.name.txt" : "nlcg.json";
    hist += std::string(hist.empty() ? "" : "; ") + fn + (act ? "" : " inactive");
    {
      std::unique_ptr<StepLogger> lp(rec[0] == '3' ? new StepLogger(no) : rec[1] == '2' ? new StepLogger(no, fn) : new StepLogger(no, fn, act));
      StepLogger& L = *lp;
      int j = 0;
      for (size_t i = 2; i < rec.size(); ++i, ++j) {
        int o = rec[i] - 'a';
        hist += std::string(", ") + SON[o];
        x.count(C_ops);
        switch (o) {
          case oSD: { double v = 1.25 + step + j; L.log("d", v); d["d"] = v; const double w = 3.5; L.log("cd", w); d["cd"] = w; break; }
          case oSF: { float v = 0.5f * j; L.log("f", v); d["f"] = v; break; }
          case oSI: L.log("i", -7 - j); d["i"] = -7 - j; break;
          case oSB: L.log("b", true); d["b"] = true; break;
          case oSL: L.log("l", 123456789012345l); d["l"] = 123456789012345l; break;
          case oSO: for (int k = 0; k < 9; ++k) { L.log("o" + std::to_string(k), ODD[k]); d["o" + std::to_string(k)] = ODD[k]; } break;
          case oSNAN: L.log("nan", std::nan("")); d["nan"] = nullptr; L.log("inf", HUGE_VAL); d["inf"] = nullptr; break;
          case oSOVER: L.log("i", 99); d["i"] = 99; break;
          case oMP: { std::map<std::string, double> m{{"a", 1.5}, {"b \"q\"\n\\", 1.0 / 7}, {"", -2}}; L.log("m", m); d["m"] = m; break; }
          case oME: { std::map<std::string, double> m; L.log("m", m); d["m"] = json::object(); break; }
          case oMO: { std::map<std::string, double> m; for (int k = 0; k < 9; ++k) m["e" + std::to_string(k)] = ODD[k]; m["nan"] = std::nan(""); L.log("comps", m); d["comps"] = m; d["comps"]["nan"] = nullptr; break; }
          case oVD: vecs<V1>(L, d, "v", {{0, 0}, {0, 1}, {1, 0}}, 3, [](V1& v, int i, std::pair<int, int> k) { return v(i) = ODD[i] + k.first + 0.25 * k.second; }); break;
          case oVE: vecs<V1>(L, d, "none", {}, 3, [](V1& v, int i, std::pair<int, int>) { return v(i) = 1; }); vecs<V1>(L, d, "zero", {{2, 0}}, 0, [](V1& v, int i, std::pair<int, int>) { return v(i) = 1; }); break;
          case oVS: {
            std::vector<double> a(40, -77);
            mvector<V1S> m;
            int off = 1;
            for (auto k : {std::make_pair(1, 1), std::make_pair(4, 0)}) {
              int st = 2 + k.second, n = 4;
              json e;
              e["ik"] = k.first; e["ispn"] = k.second; e["value"] = json::array();
              for (int i = 0; i < n; ++i) { a[off + st * i] = k.first + i / 8.; e["value"].push_back(k.first + i / 8.); }
              m[k] = V1S(a.data() + off, Kokkos::LayoutStride(n, st));
              off += st * n;
              d["s"] += e;
            }
            L.log("s", m);
            break;
          }
          case oVC: vecs<VZ>(L, d, "z", {{3, 1}, {2, 0}}, 2, [](VZ& v, int i, std::pair<int, int> k) { v(i) = Kokkos::complex<double>(i + 0.5, -k.first / 3.); return json::array({i + 0.5, -k.first / 3.}); }); break;
          case oVK: vecs<VI>(L, d, "k", {{7, 0}}, 3, [](VI& v, int i, std::pair<int, int>) { return v(i) = 5 * i - 1; }); break;
          case oVG: vecs<V1>(L, d, "v", {{9, 1}}, 1, [&](V1& v, int i, std::pair<int, int>) { return v(i) = j; }); break;
          case oVL: vecs<V1>(L, d, "many", {{0, 0}, {12, 1}, {1, 0}, {11, 0}, {2, 0}, {10, 1}, {140, 0}, {-1, 3}}, 5, [](V1& v, int i, std::pair<int, int> k) { return v(i) = i / 7. + k.first; }); vecs<V1>(L, d, "long", {{0, 0}, {1, 0}}, thorough() ? 5000 : 1100, [](V1& v, int i, std::pair<int, int> k) { return v(i) = i / 7. + k.first; }); break;
        }
        for (auto& f : files()) if (!want.count(f) && f != fn) return bad(hist + ": writes to the file " + f);
      }
    }
    if (!act) { for (auto& f : files()) if (!want.count(f)) return bad(hist + ": an inactive logger writes the file " + f); }
    else want[fn].push_back(d);
    for (auto& w : want) {
      std::vector<json> r;
      if (!records(slurp(w.first), r)) return bad(hist + ": the file " + w.first + " is not a sequence of JSON records");
      if (r.size() != w.second.size()) return bad(fmt("%s: the file %s has %zu records, wanted %zu", hist.c_str(), w.first.c_str(), r.size(), w.second.size()));
      for (size_t i = 0; i < r.size(); ++i) if (!same(w.second[i], r[i])) return bad(hist.substr(0, 200) + ": record " + std::to_string(i) + " of " + w.first + " is " + r[i].dump().substr(0, 200) + ", wanted " + w.second[i].dump().substr(0, 200));
    }
    for (auto& f : files()) if (!want.count(f)) return bad(hist + ": writes the file " + f);
  }
  if (!printed().empty()) return bad(hist + ": prints on standard output");
  uint64_t h = 7;
  for (auto& w : want) for (auto& r : w.second) h = ex::mix(h, std::hash<std::string>()(r.dump()));
  x.state(h);
  return true;
}

static void check_case(const std::string& cs, Ctx& x)
{
  x.begin(cs);
  if (cs[0] == 'L') logger_case(cs[1] - '0', cs.substr(3), x, cs);
  else if (cs[0] == 'J') step_case(cs.substr(2), x, cs);
  else instance_case(x, cs);
  x.end();
}

int main(int argc, char** argv)
{
  std::string out, replay;
  ex::Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") nx();
    else if (a == "--tier") TIER = nx();
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") o.scratch = nx();
    else if (a == "--budget") o.budget = atof(nx().c_str());
  }
  mallopt(M_PERTURB, 0x80);
  if (chdir(o.scratch.c_str())) return 2;
  Kokkos::initialize();
  shim::configure(1, 0, 1, 0);
  int so = dup(1);
  bool whole = ex::task_replay(replay, TIER, o);
  o.tier = TIER;
  auto begin = [&] {
    // every worker has a directory and an output of its own
    std::string d = fmt("log.%d", (int)getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) _exit(2);
    outfd = ::open(".stdout", O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(outfd, 1);
  };
  pid_t mine = 0;
  auto one = [&](const std::string& cs, Ctx& x) { if (mine != getpid()) { mine = getpid(); begin(); } check_case(cs, x); };
  if (!replay.empty() && !whole) {
    Ctx x;
    one(replay, x);
    fflush(stdout); std::cout.flush();
    dup2(so, 1);
    for (auto& m : x.local) printf("FINDING %s\n", m.c_str());
    fflush(stdout);
    _exit(x.local.empty() ? 0 : 1);
  }
  // sequences: every one of the full alphabet to a depth, and deeper ones of the smaller alphabets
  struct Task { std::string head, alpha; int depth; };
  std::vector<Task> tasks;
  std::string full, sfull;
  for (int i = 0; i < lNOPS; ++i) full += char('a' + i);
  for (int i = 0; i < oNSO; ++i) sfull += char('a' + i);
  auto letters = [](std::initializer_list<int> l) { std::string s; for (int i : l) s += char('a' + i); return s; };
  std::string pre = letters({lPA, lPB, lPOP, lCLR, lCHAIN, lOUT}), fil = letters({lAF0, lAM0, lAM1, lNUM, lFL, lDET, lOUT}), std_ = letters({lDET, lATT, lTXT, lOUT, lAM0, lPA});
  tasks.push_back({"I", "", 0});
  for (int r = 0; r < 3; ++r) {
    std::string h = fmt("L%d ", r);
    tasks.push_back({h, full, 0}); tasks.push_back({h, full, 1});
    for (char c : full) tasks.push_back({h + c, full, thorough() ? 4 : r ? 2 : 3});
    for (auto* a : {&pre, &fil, &std_}) for (char c : *a) for (char d : *a) tasks.push_back({h + letters({lAM0}) + c + d, *a, (thorough() ? 5 : 3) - (r == 2)});
  }
  for (const char* fn : {"0", "1", "2", "3"}) for (const char* act : {"1", "0", "2"}) {
    if (fn[0] == '3' && act[0] != '1') continue;
    std::string h = std::string("J ") + fn + act;
    tasks.push_back({h, sfull, 0}); tasks.push_back({h, sfull, 1}); tasks.push_back({h, sfull, 2});
    if (thorough() || (fn[0] == '1' && act[0] == '1')) for (char c : sfull) tasks.push_back({h + c, sfull, 2});
  }
  // several records, in the same and in different files
  std::string few = letters({oSD, oMO, oVD, oVS});
  for (int n = 2; n <= (thorough() ? 4 : 3); ++n) {
    int m = 1;
    for (int i = 0; i < n; ++i) m *= 6;
    for (int q = 0; q < m; ++q) {
      std::string h = "J ";
      int z = q;
      for (int i = 0; i < n; ++i, z /= 6) { const char* K[] = {"01", "11", "21", "10", "02", "31"}; if (i) h += "/"; h += K[z % 6]; if (i % 2 == 0) h += few[(i + q) % 4]; }
      tasks.push_back({h, few, 2});
    }
  }
  ex::json res = ex::explore(tasks.size(), [&](int i, Ctx& x) {
    auto& t = tasks[i];
    if (t.head == "I") { one("I", x); return; }
    long m = 1;
    for (int k = 0; k < t.depth; ++k) m *= t.alpha.size();
    for (long q = 0; q < m; ++q) {
      if (x.stopped()) return;
      std::string cs = t.head;
      long z = q;
      for (int k = 0; k < t.depth; ++k, z /= t.alpha.size()) cs += t.alpha[z % t.alpha.size()];
      one(cs, x);
      if (q == m - 1 && i % 17 == 2) x.sample({{"case", cs}});
    }
  }, [&](const std::string& cs, Ctx& x) { one(cs, x); }, o);
  res["transitions"] = res["counters"]["operations_checked"].get<long>();
  res["traces"] = res["counters"]["sequences"].get<long>();
  if (whole) { dup2(so, 1); _exit(ex::report(res, 1)); }
  std::ofstream(out) << res.dump(1) << "\n";
  _exit(0);
}

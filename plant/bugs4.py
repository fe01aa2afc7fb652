LG = "src/utils/logger.hpp"

bug("s45-static-view", "C26", [("src/nlcglib.cpp", "      eta = eval_threaded(tapply(make_diag(), ek));\n      fn = free_energy.get_fn();", "      eta = eval_threaded(tapply(make_diag(), ek));\n      // keep the last pseudo-Hamiltonian alive for later diagnostics\n      static auto last_eta = eta;\n      if (force_restart) last_eta = eta;\n      fn = free_energy.get_fn();")], r'''
#include "host.hpp"
#include <sys/wait.h>
int main(int argc, char** argv)
{
  pid_t p = fork();
  if (p == 0) {
    init(argc, argv);
    { Par q; q.maxiter = 3; Host h{q}; minimise(h); }
    exit(done());
  }
  int st = 0;
  waitpid(p, &st, 0);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process does not end normally (status %x)", st);
  return 0;
}
''', "the end of a process that made at least one step and called finalize()", "a Kokkos view outlives finalize(): the process aborts when it ends")

bug("s46-stdout-format", "C26", [(LG, "if (!detach_stdout_ && pid_ == 0) std::cout << sbuf_.str();", "if (!detach_stdout_ && pid_ == 0) {\n      std::cout.flags(sbuf_.flags());\n      std::cout.precision(sbuf_.precision());\n      std::cout << sbuf_.str();\n    }")], main(r'''
  std::ostringstream want;
  want << 0.1 << " " << 255;
  { Par q; q.maxiter = 2; Host h{q}; minimise(h); }
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  std::cout << 0.1 << " " << 255;
  std::cout.rdbuf(old);
  REQUIRE(o.str() == want.str(), "the host now prints %s instead of %s", o.str().c_str(), want.str().c_str());
'''), "a host that prints numbers after a minimisation", "number formats of the library stay on the host's standard output")

bug("s47-self-check-commutator", "C27", [("src/nlcglib.cpp", "      X,\n      Xref);", "      Xref2,\n      Xref);")], r'''
#include "host.hpp"
namespace nlcglib { void nlcheck_overlap(EnergyBase&, OverlapBase&, OverlapBase&); }
struct Id : nlcglib::OverlapBase
{
  Host& h;
  explicit Id(Host& h) : h(h) {}
  void apply(const key2&, nlcglib::MatrixBaseZ::buffer_t& o, nlcglib::MatrixBaseZ::buffer_t& in) const override { for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < in.size[0]; ++i) o.data[i * o.stride[0] + j * o.stride[1]] = in.data[i * in.stride[0] + j * in.stride[1]]; }
  std::vector<key2> get_keys() const override { std::vector<key2> r; for (auto& x : h.p) r.push_back(x.key); return r; }
};
int main(int argc, char** argv)
{
  init(argc, argv);
  {
    Par q; Host h{q};
    OpS S(h);
    Id I(h);
    std::ostringstream o;
    auto* old = std::cout.rdbuf(o.rdbuf());
    nlcglib::nlcheck_overlap(h, S, I);
    std::cout.rdbuf(old);
    std::string s = o.str();
    auto p = s.find("error:");
    REQUIRE(p != std::string::npos, "no error is reported");
    double e = atof(s.c_str() + p + 6);
    REQUIRE(e > 1e-3, "the identity passes as the inverse of the overlap: %g", e);
  }
  return done();
}
''', "a second operator that is not the inverse but commutes with the overlap", "a wrong inverse is reported as exact")

bug("s48-prefix-lost", "C28", [(LG, "    log.prefixes_ = prefixes_;\n", "")], r'''
#include "host.hpp"
#include "utils/logger.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  auto& L = nlcglib::Logger::GetInstance();
  L.detach_stdout();
  L.attach_file_master("a.txt");
  L.push_prefix("scf");
  L << nlcglib::TO_STDOUT << "hello\n";
  L.flush();
  std::ifstream f("a.txt");
  std::string s;
  std::getline(f, s);
  REQUIRE(s == "scf::hello", "the log holds '%s'", s.c_str());
  return done();
}
''', "a prefix and output that is sent to standard output too", "the prefixes are missing")

bug("s49-truncated-array", "C28", [("src/utils/step_logger.hpp", "std::vector<typename V::value_type> v(array.size());", "std::vector<typename V::value_type> v(std::min<size_t>(array.size(), 512));")], r'''
#include "host.hpp"
#include "utils/step_logger.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  {
    typedef Kokkos::View<double*, Kokkos::HostSpace> V;
    nlcglib::mvector<V> m;
    m[key2(0, 0)] = V("v", 700);
    for (int i = 0; i < 700; ++i) m[key2(0, 0)](i) = i;
    { nlcglib::StepLogger l(0, "nlcg.json", true); l.log("eta", m); }
    auto r = log_records();
    REQUIRE(r.size() == 1, "%zu records", r.size());
    REQUIRE(r[0]["eta"][0]["value"].size() == 700, "%zu values are logged", r[0]["eta"][0]["value"].size());
  }
  return done();
}
''', "more than 512 bands", "the rest of the band energies and occupations is missing from the log")

bug("s50-log-backup", "C26", [("src/nlcglib.cpp", 'remove("nlcg.json");', 'rename("nlcg.json", "nlcg.json.old");')], main(r'''
  for (int i = 0; i < 2; ++i) { Par q; q.maxiter = 2; Host h{q}; minimise(h); }
  FILE* f = fopen("nlcg.json.old", "r");
  REQUIRE(!f, "a file of another name is left in the working directory");
'''), "a log of an earlier run in the working directory", "a file that may belong to the host is overwritten or created")

bug("s51-fp-traps", "C26", [("src/nlcglib.cpp", "  // std::feclearexcept(FE_ALL_EXCEPT);\n", "  std::feclearexcept(FE_ALL_EXCEPT);\n  if (tol <= 0) feenableexcept(FE_DIVBYZERO);  // no tolerance: make sure that divisions are well defined\n")], r'''
#include "host.hpp"
#include <fenv.h>
int main(int argc, char** argv)
{
  init(argc, argv);
  int t0 = fegetexcept();
  { Par q; q.maxiter = 2; q.tol = 0; Host h{q}; minimise(h); }
  REQUIRE(fegetexcept() == t0, "floating-point traps of the host are changed: %x", fegetexcept());
  return done();
}
''', "a call with tolerance zero", "divisions by zero in the host raise SIGFPE from then on")

#include "host.hpp"
int main(int argc, char** argv)
{
  init(argc, argv);
  Host h{Par{}};
  auto r = minimise(h);
  fprintf(stderr, "F %.14g conv %d it %d res %g evals %zu records %zu\n", r.F, r.converged, r.iter, r.tolerance, h.ev.size(), log_records().size());
  return done();
}

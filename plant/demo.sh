#!/bin/bash
# run in /repo after its build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
NP=1
[ -f "$D/np" ] && NP=$(cat "$D/np")
M=/usr/lib/x86_64-linux-gnu/openmpi
g++ -std=c++17 -O1 -w -DOMPI_SKIP_MPICXX -DNDEBUG -I"$D" -I"$R/include" -I"$R/src" -isystem /usr/include/trilinos -isystem $M/include -isystem $M/include/openmpi \
  -isystem /usr/include/x86_64-linux-gnu/openblas-pthread "$D/demo.cpp" -o "$T/demo" \
  -L"$R/_build/src" -Wl,-rpath,"$R/_build/src" -lnlcglib -L$M/lib -lmpi -ltrilinos_kokkoscore -llapacke -lopenblas -lpthread -ldl || exit 99
cd "$T" || exit 99
if [ "$NP" -gt 1 ]; then timeout 60 mpirun -n "$NP" ./demo > out.txt 2> err.txt; else timeout 60 ./demo > out.txt 2> err.txt; fi
rc=$?
tail -n 5 err.txt >&2
exit $rc

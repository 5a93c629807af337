// exchanges between ranks
#include <cfloat>
#include <iostream>
#include "vf_out.h"
#include <mpi.h>
#include "default_physics.h"
#include "bodies_system.h"
#include "tree_colorer.h"
#define X extern "C"
struct vf_item { double a; int64_t b; int c; };
typedef std::vector<vf_item> vf_v;
static void vf_put(const vf_v & v, vf_item * o, int * n) {
  *n = v.size();
  for(size_t i = 0; i < v.size(); ++i) o[i] = v[i];
}
X unsigned long vf_item_size() { return sizeof(vf_item); }
// count: elements for each rank; s: elements in the order of the ranks; o, n: what arrives
X void vf_gather(vf_item * s, int k, vf_item * o, int * n, int * counts, int * nc) {
  vf_v send(s, s + k), recv(3);
  std::vector<int> c(1);
  mpi_utils::mpi_allgatherv(send, recv, c);
  vf_put(recv, o, n);
  *nc = c.size();
  for(size_t i = 0; i < c.size(); ++i) counts[i] = c[i];
}
X void vf_all2all(vf_item * s, int k, int * count, int size, vf_item * o, int * n) {
  vf_v send(s, s + k), recv(3);
  std::vector<int> c(count, count + size);
  mpi_utils::mpi_alltoallv(c, send, recv);
  vf_put(recv, o, n);
}
X void vf_p2p(vf_item * s, int k, int * count, int size, vf_item * o, int * n) {
  vf_v send(s, s + k), recv(3);
  std::vector<int> c(count, count + size);
  mpi_utils::mpi_alltoallv_p2p(c, send, recv);
  vf_put(recv, o, n);
}
X void vf_bucket(vf_item * s, int * count, int size, vf_item * o, int * ns) {
  std::vector<vf_v> send(size), recv(size);
  for(int i = 0; i < size; ++i) {
    send[i] = vf_v(s, s + count[i]);
    s += count[i];
  }
  std::vector<int> c(count, count + size);
  mpi_utils::mpi_alltoallv_p2p(c, send, recv);
  for(size_t i = 0; i < recv.size(); ++i) {
    vf_put(recv[i], o, ns + i);
    o += recv[i].size();
  }
}
#define VF_RED(n, T) \
  X void vf_min_##n(T * x) { mpi_utils::reduce_min(*x); } \
  X void vf_max_##n(T * x) { mpi_utils::reduce_max(*x); } \
  X void vf_sum_##n(T * x) { mpi_utils::reduce_sum(*x); }
VF_RED(double, double)
VF_RED(float, float)
VF_RED(uint64_t, uint64_t)
VF_RED(int, int)
X void vf_sum_point(double * x) {
  point_t p;
  for(size_t d = 0; d < gdimension; ++d) p[d] = x[d];
  mpi_utils::reduce_sum(p);
  for(size_t d = 0; d < gdimension; ++d) x[d] = p[d];
}
X void vf_params(const char * f) { param::mpi_read_params(f); }

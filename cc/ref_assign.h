// Reference maximum-weight assignment: O(n^3) shortest augmenting paths with
// potentials on the negated weights, 64-bit.
#ifndef VERIF_REF_ASSIGN_H_
#define VERIF_REF_ASSIGN_H_
#include <limits>
#include <vector>
namespace ref {
inline long long MaxWeightAssignment(int n, const std::vector<int>& w, std::vector<int>* assign = nullptr) {
  const long long kInf = std::numeric_limits<long long>::max() / 4;
  std::vector<long long> u(n + 1, 0), v(n + 1, 0);
  std::vector<int> p(n + 1, 0), way(n + 1, 0);
  for (int i = 1; i <= n; ++i) {
    p[0] = i;
    int j0 = 0;
    std::vector<long long> minv(n + 1, kInf);
    std::vector<char> used(n + 1, 0);
    do {
      used[j0] = 1;
      const int i0 = p[j0];
      int j1 = 0;
      long long delta = kInf;
      for (int j = 1; j <= n; ++j) {
        if (used[j]) continue;
        const long long cur = -static_cast<long long>(w[(i0 - 1) * n + j - 1]) - u[i0] - v[j];
        if (cur < minv[j]) {
          minv[j] = cur;
          way[j] = j0;
        }
        if (minv[j] < delta) {
          delta = minv[j];
          j1 = j;
        }
      }
      for (int j = 0; j <= n; ++j) {
        if (used[j]) {
          u[p[j]] += delta;
          v[j] -= delta;
        } else {
          minv[j] -= delta;
        }
      }
      j0 = j1;
    } while (p[j0] != 0);
    do {
      const int j1 = way[j0];
      p[j0] = p[j1];
      j0 = j1;
    } while (j0);
  }
  long long total = 0;
  if (assign) assign->assign(n, -1);
  for (int j = 1; j <= n; ++j) {
    total += w[(p[j] - 1) * n + j - 1];
    if (assign) (*assign)[p[j] - 1] = j - 1;
  }
  return total;
}
}  // namespace ref
#endif

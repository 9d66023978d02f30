import sys; sys.path.insert(0, '/verif/tools')
from seedlib import seed
I = 'include/ftk/'
H = '#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#include <vector>\n#include <algorithm>\n'
seed('sos-det4-deep-sign', 'P02', [(I + 'numeric/sign_det.hh', '''        {X[1][1], T(1)},
        {X[3][1], T(1)}
      };
      sigma = sign(det2(M));''', '''        {X[1][1], T(1)},
        {X[3][1], T(1)}
      };
      sigma = -sign(det2(M));''')], 'four vectors so degenerate that the twelve lower-order perturbation terms all vanish (three share all coordinates but one component)', 'the perturbed orientation no longer flips under an exchange of two vertices, so the decision depends on the listing order', H + '''#include <ftk/numeric/sign_det.hh>
int main() { long long V[4][3]; srand(1); int bad = 0;
  for (int it = 0; it < 200000 && !bad; it++) { for (auto &r : V) for (auto &x : r) x = rand() % 2;
    int id[4] = {0, 1, 2, 3}; 
    // position dependent on purpose: rows are listed in increasing id, so the definition is checked on symbolic expansion instead: compare with the polynomial in a tiny epsilon
    long double e[4][3]; int k = 0; for (int i = 0; i < 4; i++) for (int j = 2; j >= 0; j--) { e[i][j] = 0; (void)k; }
    // exact sign of det(V + eps(i,j)) with eps(i,j) = 2^-(4^(...)) through rational arithmetic on exponents: use __int128 scaled base
    // eps order: eps(i,j) with exponent 2^(3*i - j): evaluate the determinant as a polynomial in t = eps, coefficients by exponent
    typedef std::vector<std::pair<long long,long long>> P; // exponent, coefficient
    int p[4] = {0,1,2,3}; std::vector<long long> co(5000, 0);
    do { int inv = 0; for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) inv += p[a] > p[b];
      P t = {{0, inv % 2 ? -1 : 1}};
      for (int r = 0; r < 4; r++) { int c = p[r]; if (c == 3) continue; long long ex = 1ll << (3 * r + (2 - c)); P n; for (auto &m : t) { if (V[r][c]) n.push_back({m.first, m.second * V[r][c]}); n.push_back({m.first + ex, m.second}); } t = n; }
      for (auto &m : t) co[m.first] += m.second; } while (std::next_permutation(p, p + 4));
    int s = 0; for (auto c : co) if (c) { s = c > 0 ? 1 : -1; break; }
    if (ftk::robust_sign_det4(V) != s) bad++; }
  return bad ? 1 : 0; }
''')
seed('partition-ghost-high', 'P05', [(I + 'mesh/lattice_partitioner.hh', '''      size_t offset = (l.start(d) + l.size(d)) - (starts[d] + sizes[d]); ''', '''      size_t offset = l.size(d) - (starts[d] + sizes[d]); ''', 2, 1)], 'a lattice whose lower corner is not the origin, with a ghost width on the upper side', 'block extents are cut short (or leave the domain) for lattices with a non-zero lower corner', H + '''#include <ftk/mesh/lattice_partitioner.hh>
int main() { ftk::lattice l(std::vector<size_t>{4, 3}, std::vector<size_t>{10, 8}); ftk::lattice_partitioner p(l); p.partition(4, {}, {1, 1}, {2, 2});
  if (p.np() != 4) return 1;
  for (size_t i = 0; i < 4; i++) for (int d = 0; d < 2; d++) { size_t cu = p.get_core(i).start(d) + p.get_core(i).size(d), eu = p.get_ext(i).start(d) + p.get_ext(i).size(d), du = l.start(d) + l.size(d);
    if (eu < cu || eu > du || eu != std::min(cu + 2, du)) return 2; }
  return 0; }
''')
seed('partition-uneven', 'P05', [(I + 'mesh/lattice_partitioner.hh', '''        sizes[curr] = p.size(curr) - ns * (nslice - 1);''', '''        sizes[curr] = ns + p.size(curr) % ns;''')], 'an extent and a block count for which extent mod (extent / blocks) differs from extent mod blocks', 'the last block along an axis gets the wrong extent: lattice points are lost or counted twice', H + '''#include <ftk/mesh/lattice_partitioner.hh>
int main() { for (size_t n = 3; n < 20; n++) for (size_t np : {2, 3, 5, 7}) { if (np > n) continue; ftk::lattice l(std::vector<size_t>{0, 0}, std::vector<size_t>{n, 1}); ftk::lattice_partitioner p(l); p.partition(np, {np, 1}); size_t s = 0; for (size_t i = 0; i < p.np(); i++) s += p.get_core(i).size(0); if (s != n) { printf("%zu %zu %zu\\n", n, np, s); return 1; } } return 0; }
''')
seed('lattice-dim3-stride', 'P04', [(I + 'mesh/lattice.hh', '''  for (auto j = nd()-1; j > 0; j --) {
    idx[j] = i / prod_[j];
    i -= idx[j] * prod_[j];
  }
  idx[0] = i;
''', '''  for (auto j = nd()-1; j > 0; j --) {
    idx[j] = (i / prod_[j]) % (j == 3 ? sizes_[2] : sizes_[j]);
    i -= idx[j] * prod_[j];
  }
  idx[0] = i;
''')], 'a four-dimensional lattice whose fourth extent is larger than its third', 'indices of later time steps convert back to the wrong point', H + '''#include <ftk/mesh/lattice.hh>
int main() { ftk::lattice l(std::vector<size_t>{1, 0, 2, 0}, std::vector<size_t>{2, 3, 2, 5}); for (size_t i = 0; i < 60; i++) { auto x = l.from_integer<size_t>(i); for (int d = 0; d < 4; d++) if (x[d] < (int)l.start(d) || x[d] >= (int)(l.start(d) + l.size(d))) return 2; if (l.to_integer<size_t>(x) != i) return 1; } return 0; }
''')

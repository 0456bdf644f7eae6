#include "zones.hh"
using namespace sv;
static void extra(int n, int mode, int maxc) {
  Ref ref(n); Zone z = mkZone("z", n, maxc, 0, ref, 10, mode); auto v = mkVal("v", n, maxc + 3, 2); ref.close(); sv_assume(ref.nonEmpty()); z.canonize();
  Zone e = z; std::vector<int> M; for (int i = 0; i < n; i++) { M.push_back(sv_choose("M", 3)); e.maxConstraints.push_back(M[i]); }
  bool in = inZone(z, v);
  e.extrapolate();
  bool in2 = inZone(e, v);
  sv_assert(!in | in2, "extrapolation contains the original zone");
  e.canonize(); sv_assert(inZone(e, v) == in2, "canonizing the extrapolated zone keeps it");
  // some member of z agrees with v on all comparisons with constants up to the maxima
  Ref r = ref;
  // unit 1/2 would be needed for regions with fractional order only; plain comparisons need integer bounds
  bool ok; 
  { Ref q(n); for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && ref.h(i, j)) q.addE(i, j, ref.at(i, j));
    for (int i = 0; i < n; i++) { long f = (long)std::floor(v[i]); bool isInt = v[i] == (double)f; bool above = v[i] > M[i];
      // lower bound: above ? u > M : isInt ? u >= f : u > f ; upper bound: above ? none : isInt ? u <= f : u < f + 1
      q.add(0, i + 1, above ? -(long)M[i] : -(long)f, !above & isInt);
      q.add(i + 1, 0, above ? 1000L : isInt ? (long)f : (long)f + 1, !above & isInt); }
    q.close(); ok = q.nonEmpty(); }
  sv_assert(!in2 | ok, "every added valuation agrees with a member on all comparisons up to the maxima");
}
SV_HARNESS(c05_extra1) { extra(1, 2, 4); }
SV_HARNESS(c05_extra2_box) { extra(2, 1, 3); }
SV_HARNESS(c05_extra2) { extra(2, 2, 3); }
SV_HARNESS(c05_abstractize) { // one common threshold
  Ref ref(2); Zone z = mkZone("z", 2, 4, 0, ref); auto v = mkVal("v", 2, 7, 2); ref.close(); sv_assume(ref.nonEmpty()); z.canonize(); int M = sv_choose("M", 4); z.M = Bounds{(double)M, true}; Zone e = z; e.abstractize();
  sv_assert(!inZone(z, v) | inZone(e, v), "abstraction contains the original zone");
  bool small = (v[0] <= M) & (v[1] <= M); sv_assert(!small | (inZone(e, v) == inZone(z, v)), "abstraction is exact on valuations below the threshold");
}

#include "zones.hh"
using namespace sv;
static void samp(int n, int mode, int maxc, int scale) {
  Ref ref(n); Zone z = mkZone("z", n, maxc, scale, ref, 10, mode); ref.close(); sv_assume(ref.nonEmpty());
  Zone s = z; auto v = s.sample();
  sv_assert(v.size() == (size_t)n, "dimension");
  sv_assert(inZone(z, v), "the sample satisfies every bound of the zone");
}
SV_HARNESS(c06_sample1) { samp(1, 2, 4, 0); }
SV_HARNESS(c06_sample2) { samp(2, 2, 4, 0); }
SV_HARNESS(c06_sample2h) { samp(2, 0, 3, 1); }
SV_HARNESS(c06_sample3_box) { samp(3, 1, 4, 0); }
SV_HARNESS(c06_sample3) { samp(3, 0, 3, 0); }

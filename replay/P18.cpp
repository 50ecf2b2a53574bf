// SRC: sample_generator random_sample_generator parameter input_parser etc hdf5_utils
#include "random_sample_generator.hpp"
#include "etc.hpp"
#include "vr.hpp"
#include <map>
using namespace mfem; using namespace vr;
struct Base : SampleGenerator { using SampleGenerator::SampleGenerator; void procs(int n) { num_procs = n; } void rank(int r) { proc_rank = r; } Array<int> &off() { return sample_offsets; } };
struct Rnd : RandomSampleGenerator { using RandomSampleGenerator::RandomSampleGenerator; void procs(int n) { num_procs = n; } void rank(int r) { proc_rank = r; } Array<int> &off() { return sample_offsets; } };
template <class G> void go(bool random)
{
   int np = I(1, 4); std::vector<int> sz; long total = 1; YAML::Node list; std::string what = random ? "random samples" : "samples";
   for (int p = 0; p < np; p++) { int s = I(0, 3) ? I(1, 5) : 1; sz.push_back(s); total *= s; YAML::Node n; n["key"] = fmt("sect/par%d", p); n["type"] = "integer"; n["minimum"] = 100 * p; n["maximum"] = 100 * p + 7 * (s - 1); n["sample_size"] = s; list.push_back(n); what += fmt(" %d", s); }
   int want = random ? I(1, 40) : (int)total; int n = I(0, 2) ? I(1, 9) : I(1, 60); what += fmt(" of %d, processes %d", want, n); casef(what);
   config = InputParser(); config.dict_ = YAML::Node(); config.dict_["sample_generation"]["parameters"] = list; if (random) config.dict_["sample_generation"]["random_sample_generator"]["number_of_samples"] = want;
   G g(MPI_COMM_SELF); g.procs(n); g.SetParamSpaceSizes(); Array<int> z = g.GetSampleSizes(); expect(g.GetTotalSampleSize() == want && z.Size() == np, "number of samples"); if (g.GetTotalSampleSize() != want || z.Size() != np) return;
   for (int p = 0; p < np; p++) expect(z[p] == (random ? want : sz[p]) && g.GetParam(p)->GetSize() == z[p], "sample size of a parameter");
   // pieces
   std::vector<int> cnt(want, 0), len(n, 0); std::vector<int> owner(want, -1);
   for (int r = 0; r < n; r++) { g.rank(r); for (int i = 0; i < want; i++) if (g.IsMyJob(i)) { cnt[i]++; len[r]++; if (i && owner[i - 1] > r) fail("pieces are not in the order of the processes"); owner[i] = r; } }
   for (int i = 0; i < want; i++) if (cnt[i] != 1) { fail(fmt("sample %d is assigned to %d processes", i, cnt[i])); break; }
   if (*std::max_element(len.begin(), len.end()) - *std::min_element(len.begin(), len.end()) > 1) fail("processes differ by more than one sample");
   // numbering
   std::vector<int> x(np, 0);
   for (int i = 0; i < want; i++)
   {
      Array<int> a = g.GetSampleIndex(i); if (a.Size() != np) { fail("number of indices"); return; }
      for (int p = 0; p < np; p++) if (a[p] != (random ? i : x[p])) { fail(fmt("sample %d has index %d of parameter %d, specified %d", i, a[p], p, random ? i : x[p])); return; }
      if (g.GetSampleIndex(a) != i) { fail(fmt("number of the indices of sample %d is %d", i, g.GetSampleIndex(a))); return; }
      g.rank(owner[i] < 0 ? 0 : owner[i]); expect(g.IsMyJob(a), "assignment by indices"); if (i < 30) { g.SetSampleParams(i); for (int p = 0; p < np; p++) { int v = config.GetRequiredOption<int>(fmt("sect/par%d", p)); if (random ? v < 100 * p || v > 100 * p + 7 * (sz[p] - 1) : v != 100 * p + 7 * x[p]) { fail(fmt("parameter %d of sample %d is %d", p, i, v)); return; } } }
      for (int p = np - 1; p >= 0; p--) { if (++x[p] < sz[p]) break; x[p] = 0; }
   }
   std::set<std::string> names; for (int i = 0; i < want; i++) names.insert(g.GetSamplePath(i)); expect((int)names.size() == want, "samples share a file name");
}
int main(int ac, char **av)
{
   MPI_Init(&ac, &av);
   for (int it = 0; it < reps(400); it++) if (I(0, 3)) go<Base>(false); else go<Rnd>(true);
   for (int it = 0; it < reps(200); it++)
   {
      PortTag t[3]; const char *nm[] = {"", "a", "ab", "b"}; for (auto &x : t) x = {nm[I(0, 3)], nm[I(0, 3)], I(0, 2), I(0, 2)}; auto str = [](PortTag &x) { return x.Mesh1 + "," + x.Mesh2 + fmt(",%d,%d", x.Attr1, x.Attr2); }; casef("tags " + str(t[0]) + " " + str(t[1]) + " " + str(t[2]));
      for (auto &a : t) { if (a < a) fail("a tag is before itself"); for (auto &b : t) { bool w = std::make_tuple(a.Mesh1, a.Mesh2, a.Attr1, a.Attr2) < std::make_tuple(b.Mesh1, b.Mesh2, b.Attr1, b.Attr2); if ((a < b) && (b < a)) fail("two tags are each before the other"); if (str(a) != str(b) && !(a < b) && !(b < a)) fail("different tags are not ordered"); for (auto &c : t) if ((a < b) && (b < c) && !(a < c)) fail("order is not transitive"); } }
   }
   int r = done(); MPI_Finalize(); return r;
}

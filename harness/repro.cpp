// C31: the same history gives the same results, in the same order, wherever the objects lie in memory.
// Every allocation up to 1 KB comes from pools that hand out addresses in an order of their own per execution.
#include <cstddef>
#include <cstdlib>
#include <cstdint>
#include <new>
#include <vector>
namespace pool
{
  enum { CLASSES = 64, STEP = 16, CHUNK = 128 };
  struct Free { void ** p; std::size_t n, cap; };
  static Free lists[CLASSES + 1]; static uint64_t state = 1; static int mode = 0; static long served = 0;
  inline uint64_t next() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
  inline void push(Free & f, void * q) { if (f.n == f.cap) { f.cap = f.cap ? 2 * f.cap : 1024; f.p = static_cast<void **>(std::realloc(f.p, f.cap * sizeof(void *))); } f.p[f.n++] = q; }
  // each block: 16 byte header holding the class
  inline void * get(std::size_t n)
  {
    std::size_t c = (n + STEP - 1) / STEP; if (c == 0) c = 1;
    if (c > CLASSES) { char * q = static_cast<char *>(std::malloc(n + 16)); if (!q) throw std::bad_alloc(); *reinterpret_cast<std::size_t *>(q) = 0; return q + 16; }
    Free & f = lists[c]; if (f.n < CHUNK / 2) { char * b = static_cast<char *>(std::malloc((c * STEP + 16) * CHUNK)); if (!b) throw std::bad_alloc(); for (int i = 0; i < CHUNK; ++i) push(f, b + i * (c * STEP + 16)); }
    std::size_t i = f.n - 1;
    if (mode == 2) i = next() % f.n; else if (mode == 1) { for (int k = 0; k < 3; ++k) { std::size_t j = next() % f.n; if (f.p[j] < f.p[i]) i = j; } }
    void * q = f.p[i]; f.p[i] = f.p[--f.n]; *static_cast<std::size_t *>(q) = c; ++served; return static_cast<char *>(q) + 16;
  }
  inline void put(void * p) { if (!p) return; char * q = static_cast<char *>(p) - 16; std::size_t c = *reinterpret_cast<std::size_t *>(q); if (c == 0) std::free(q); else push(lists[c], q); }
}
void * operator new(std::size_t n) { return pool::get(n); }
void * operator new[](std::size_t n) { return pool::get(n); }
void operator delete(void * p) noexcept { pool::put(p); }
void operator delete[](void * p) noexcept { pool::put(p); }
void operator delete(void * p, std::size_t) noexcept { pool::put(p); }
void operator delete[](void * p, std::size_t) noexcept { pool::put(p); }

#include "ask.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#if KIND == 9
#include "viennagrid/io/mphtxt_writer.hpp"
#endif

// ids of everything in a mesh or segment, in the order of the ranges, with adjacency
template<class ET, class MS> void dump(Res & q, MS & ms)
{
  typedef typename vg::result_of::element_range<MS, ET>::type R; R rg(ms); q.push_back(double(rg.size()));
  for (typename vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { q.push_back(double((*it).id().get())); for (int v : vids(*it)) q.push_back(v); q.push_back(vg::is_boundary(ms, *it)); typedef typename vg::result_of::coboundary_range<MS, ET, CellTag>::type B; B b(ms, it.handle()); ids(q, b); }
}
template<class MS> void dump_all(Res & q, MS & ms)
{
  FOR_ALL_BELOW_CELL(dump, q, ms);
  typedef typename vg::result_of::cell_range<MS>::type R; R rg(ms);
  for (typename vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { q.push_back(double((*it).id().get())); typedef typename vg::result_of::neighbor_range<MS, CellTag, FacetTag>::type N; N n(ms, it.handle()); ids(q, n); typedef typename vg::result_of::neighbor_range<MS, CellTag, vg::vertex_tag>::type V; V v(ms, it.handle()); ids(q, v); }
}
static Res history(Model const & m, uint64_t seed, std::string const & file)
{
  Rng r(seed); Shared s; Res q; s.sg.reset(new Segmentation(s.mesh)); int ns = r.range(0, 4); for (int g = 0; g < ns; ++g) { s.sg->get_make_segment(3 * g + 1); s.sid.push_back(3 * g + 1); }
  std::vector<VH> v; for (P3 const & p : m.p) v.push_back(vg::make_vertex(s.mesh, mkpt(p))); std::vector<CH> ch;
  for (IV const & c : m.c) { int g = r.below(ns + 1); if (g < ns) ch.push_back(add_cell((*s.sg)(s.sid[g]), v, c)); else ch.push_back(add_cell(s.mesh, v, c)); if (ns && r.chance(0.4)) vg::add((*s.sg)(s.sid[r.below(ns)]), r.pick(ch)); if (r.chance(0.1)) dump<vg::vertex_tag>(q, s.mesh); }
  for (std::size_t i = 0; i < m.p.size(); ++i) s.vdata.push_back(r.real(-1, 1)); { typedef vg::result_of::cell_range<Mesh>::type R; R rg(s.mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) if (r.chance(0.7)) s.cdata[(*it).id()] = r.real(-1, 1); }
  s.probe = m.p[r.below(int(m.p.size()))]; for (int d = 0; d < m.gdim; ++d) s.probe[d] += r.real(-0.5, 0.5);
  dump_all(q, s.mesh); for (int k : s.sid) dump_all(q, (*s.sg)(k));
  { typedef vg::result_of::cell_range<Segmentation>::type R; R rg(*s.sg); ids(q, rg); typedef vg::result_of::vertex_range<Segmentation>::type RV; RV rv(*s.sg); ids(q, rv); }
  for (std::size_t i = 0; i < m.c.size(); ++i) { Res a = about_cell(s, i); q.insert(q.end(), a.begin(), a.end()); auto si = vg::segment_ids(*s.sg, vg::cells(s.mesh)[i]); for (auto x = si.begin(); x != si.end(); ++x) q.push_back(double(*x)); }
  for (int w = 0; w < WHOLE; ++w) { Res a = about_mesh(s, file, w); q.insert(q.end(), a.begin(), a.end()); }
  if (ns) { vg::io::vtk_writer<Mesh> w; vg::result_of::accessor<std::vector<double> const, Vertex>::type a(s.vdata); w.add_scalar_data_on_vertices(a, "v"); w(s.mesh, *s.sg, file); for (int k : s.sid) q.push_back(double(hash_str(slurp(file + "_" + std::to_string(k) + ".vtu")) >> 20));
    if (ns > 1) { Mesh b; Segmentation bs(b); vg::io::vtk_reader<Mesh> rd; rd(b, bs, file + "_main.pvd"); dump_all(q, b); for (Segmentation::iterator g = bs.begin(); g != bs.end(); ++g) dump_all(q, *g); mon().hit("read-back"); } }
#if KIND == 9
  { vg::io::mphtxt_writer w; w(s.mesh, *s.sg, file + ".mphtxt"); q.push_back(double(hash_str(slurp(file + ".mphtxt")) >> 20)); }
#endif
#if KIND == 3 || KIND == 9
  { Mesh out; vg::cell_refine_uniformly(s.mesh, out); dump_all(q, out); typedef vg::result_of::vertex_range<Mesh>::type R; R rg(out); for (std::size_t i = 0; i < rg.size(); ++i) put(q, vg::point(rg[i])); mon().hit("refined"); }
  { std::vector<char> fl(m.c.size() + 4); for (char & x : fl) x = r.chance(0.3); vg::result_of::accessor<std::vector<char>, Cell>::type a(fl); Mesh out; vg::cell_refine(s.mesh, out, a); dump_all(q, out); typedef vg::result_of::vertex_range<Mesh>::type R; R rg(out); for (std::size_t i = 0; i < rg.size(); ++i) put(q, vg::point(rg[i])); }
#endif
  { Hull h; vg::result_of::segmentation<Hull>::type hs(h); vg::extract_boundary(s.mesh, *s.sg, h, hs); typedef vg::result_of::cell_range<Hull>::type R; R rg(h); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int x : vids(*it)) q.push_back(x); typedef vg::result_of::vertex_range<Hull>::type V; V vr(h); for (std::size_t i = 0; i < vr.size(); ++i) put(q, vg::point(vr[i])); }
  if (!ns && !m.c.empty())
  {
    { typedef vg::result_of::cell_range<Mesh>::type R; R rg(s.mesh); vg::erase_element(s.mesh, rg.handle_at(r.below(int(rg.size())))); dump_all(q, s.mesh); } { typedef vg::result_of::vertex_range<Mesh>::type R; R rg(s.mesh); vg::erase_element(s.mesh, rg.handle_at(r.below(int(rg.size())))); dump_all(q, s.mesh); mon().hit("erased"); }
    Mesh c(s.mesh); dump_all(q, c);
  }
  else if (ns) { int k = r.pick(s.sid); Segment & g = (*s.sg)(k); if (!vg::cells(g).empty()) { vg::erase(g, vg::cells(g)[0]); dump_all(q, g); } vg::clear(g); dump_all(q, g); mon().hit("segments-changed"); }
  return q;
}
void run_case(Rng & r, long)
{
  static NullBuf nb; static bool once = (std::cout.rdbuf(&nb), true); (void)once;
  GenOpt o; o.large = 0; o.maxn = 3 - (KIND >= 9); o.drop = r.real(0, 0.4); o.isolated = r.below(2); Model m = gen_model(r, KIND, o); uint64_t seed = r.next(); Scratch sd; Res first;
  for (int e = 0; e < 4; ++e)
  {
    pool::mode = e == 0 ? 1 : 2; pool::state = mix(seed, e + 1) | 1; long n0 = pool::served; Res q = history(m, seed, sd.path("out")); pool::mode = 0;
    if (!e) { first = q; continue; }
    std::size_t i = 0; while (i < q.size() && i < first.size() && !std::memcmp(&q[i], &first[i], sizeof(double))) ++i;
    CHECK(same(q, first), "not-reproducible", "results of execution " << e << " differ from entry " << i << " of " << first.size() << " on | " << m.str()); mon().hit("executions"); mon().hit("results-compared", long(q.size())); mon().hit("placed-allocations", pool::served - n0);
  }
  mon().state(m.hash()); mon().sample(m.str());
}

// C04-C07: long runs of unrelated modifications between two queries (the number of modifications passes powers of two).
// A fan of cells around an edge or vertex: cell i has the ring vertices i and i+1.
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/algorithm/interface.hpp"

struct Fan { Mesh mesh; Segmentation sg; Segment a, b; std::vector<VH> v; std::set<int> cells, in_a, in_b; int first_id, n; Fan() : sg(mesh), a(sg.make_segment()), b(sg.make_segment()), first_id(0), n(0) {} };
enum { CORE = KIND == 9 ? 2 : 1 };
static IV tuple(int i) { IV c; for (int k = 0; k < CORE; ++k) c.push_back(k); c.push_back(CORE + i); c.push_back(CORE + i + 1); return c; }
template<class MS> int make(Fan & f, MS & ms, int i) { CH h = add_cell(ms, f.v, tuple(i)); f.cells.insert(i); return int(vg::dereference_handle(f.mesh, h).id().get()); }
template<class E> int ring_of(E const & c) { IV k = sorted(vids(c)); return k[CORE] - CORE; }
static IV facet(int i) { IV k; for (int q = 0; q < CORE; ++q) k.push_back(q); k.push_back(CORE + i); return k; }

template<class MS> void check(Fan & f, MS & ms, std::set<int> const & cells, const char * what, int detail)
{
  std::ostringstream ctx; ctx << what << ", cells " << show(cells) << ", " << detail; (void)ms;
#if PROP == 4
  if (!cells.empty())
  {
    typedef typename vg::result_of::coboundary_range<MS, vg::vertex_tag, CellTag>::type R; R r(ms, f.v[0]); std::set<int> got; for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) CHECK(got.insert(ring_of(*it)).second, "coboundary-duplicate", ctx.str());
    CHECK(got == cells, "coboundary-cells", "co-boundary of the first vertex is " << show(got) << " | " << ctx.str()); mon().hit("long-run-coboundaries");
  }
  typedef typename vg::result_of::element_range<MS, FacetTag>::type FR; FR fr(ms);
  for (typename vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    IV k = sorted(vids(*it)); std::set<int> want; for (int c : cells) { IV t = sorted(tuple(c)); if (std::includes(t.begin(), t.end(), k.begin(), k.end())) want.insert(c); }
    typedef typename vg::result_of::coboundary_range<MS, FacetTag, CellTag>::type R; R r(ms, it.handle()); std::set<int> got; for (typename vg::result_of::iterator<R>::type q = r.begin(); q != r.end(); ++q) got.insert(ring_of(*q));
    CHECK(got == want, "coboundary-cells", "co-boundary of facet " << show(k) << " is " << show(got) << " | " << ctx.str());
  }
#elif PROP == 5
  typedef typename vg::result_of::cell_range<MS>::type CR; CR cr(ms);
  for (typename vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it)
  {
    int i = ring_of(*it); std::set<int> w1, w2, g1, g2; for (int c : cells) { if (c == i - 1 || c == i + 1) w1.insert(c); if (c != i) w2.insert(c); }
    typedef typename vg::result_of::neighbor_range<MS, CellTag, FacetTag>::type R; R r(ms, it.handle()); for (typename vg::result_of::iterator<R>::type q = r.begin(); q != r.end(); ++q) g1.insert(ring_of(*q));
    typedef typename vg::result_of::neighbor_range<MS, CellTag, vg::vertex_tag>::type Q; Q s(ms, it.handle()); for (typename vg::result_of::iterator<Q>::type q = s.begin(); q != s.end(); ++q) g2.insert(ring_of(*q));
    CHECK(g1 == w1, "neighbor-cells", "neighbors of " << i << " via facets are " << show(g1) << " | " << ctx.str()); CHECK(g2 == w2, "neighbor-cells", "neighbors of " << i << " via vertices are " << show(g2) << " | " << ctx.str()); mon().hit("long-run-neighbors");
  }
#elif PROP == 6
  typedef typename vg::result_of::element_range<MS, FacetTag>::type FR; FR fr(ms);
  for (typename vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    IV k = sorted(vids(*it)); int n = 0; for (int c : cells) { IV t = sorted(tuple(c)); n += std::includes(t.begin(), t.end(), k.begin(), k.end()); }
    CHECK(vg::is_boundary(ms, *it) == (n == 1), "is-boundary", "facet " << show(k) << " of " << n << " cells | " << ctx.str()); mon().hit("long-run-boundaries");
  }
#endif
}
static void check_all(Fan & f, bool segs, int detail)
{
  check(f, f.mesh, f.cells, "mesh", detail); if (segs) { check(f, f.a, f.in_a, "segment a", detail); check(f, f.b, f.in_b, "segment b", detail); }
#if PROP == 7
  typedef vg::result_of::element_range<Mesh, FacetTag>::type FR; FR fr(f.mesh);
  for (vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    IV k = sorted(vids(*it)); bool want = false; for (int i = 1; i < f.n; ++i) if (k == facet(i)) want = (f.in_a.count(i - 1) && f.in_b.count(i)) || (f.in_b.count(i - 1) && f.in_a.count(i));
    CHECK(vg::is_interface(f.a, f.b, *it) == want, "is-interface", "facet " << show(k) << " | a " << show(f.in_a) << " b " << show(f.in_b) << " " << detail); CHECK(vg::is_interface(f.b, f.a, *it) == want, "is-interface", "reversed, facet " << show(k)); mon().hit("long-run-interfaces");
  }
#endif
}
// isolated vertices: modifications that change no answer
template<class MS> void pad(MS & ms, int n) { Point p = mkpt(P3{{5, 5, 5}}); for (int i = 0; i < n; ++i) vg::make_vertex(ms, p); }

void run_case(Rng & r, long)
{
  const long cur = mon().cur; Fan f; f.n = r.range(3, 6); const bool big = cur % 11 == 10; const int N = big ? 65536 : r.chance(0.5) ? 256 : 128 << r.below(4); const int j = r.chance(0.4) ? 1 : r.range(1, 24);
  for (int i = 0; i < CORE + f.n + 1; ++i) f.v.push_back(vg::make_vertex(f.mesh, mkpt(i < CORE ? P3{{0, 0, double(i)}} : P3{{std::cos(0.7 * i), std::sin(0.7 * i), 0.5}})));
  int op = r.below(PROP == 7 ? 3 : 6); const bool segs = op < 4; IV todo; for (int i = 0; i < f.n; ++i) todo.push_back(i); int last = segs ? r.below(f.n) : r.below(f.n); std::map<int,int> id;
  for (int i : todo) { if (i == last && (op == 0 || op == 1 || op == 4)) continue; if (!segs) id[i] = make(f, f.mesh, i); else if (i == last && op == 2) id[i] = make(f, f.mesh, i); else if (i % 2) { id[i] = make(f, f.a, i); f.in_a.insert(i); } else { id[i] = make(f, f.b, i); f.in_b.insert(i); } }
  check_all(f, segs, 0);
  switch (op)
  {
    case 0: id[last] = make(f, f.a, last); f.in_a.insert(last); pad(f.a, N - j); break;
    case 1: id[last] = make(f, f.b, last); f.in_b.insert(last); pad(f.b, N - j); break;
    case 2: vg::add(f.a, *vg::find(f.mesh, vg::result_of::cell_id<Mesh>::type(id[last]))); f.in_a.insert(last); pad(f.a, N - j); break;
    case 3: if (last % 2) { vg::erase(f.a, *vg::find(f.mesh, vg::result_of::cell_id<Mesh>::type(id[last]))); f.in_a.erase(last); pad(f.a, N - j); } else { vg::erase(f.b, *vg::find(f.mesh, vg::result_of::cell_id<Mesh>::type(id[last]))); f.in_b.erase(last); pad(f.b, N - j); } break;
    case 4: id[last] = make(f, f.mesh, last); pad(f.mesh, N - j); break;
    default: vg::erase_element(f.mesh, vg::find(f.mesh, vg::result_of::cell_id<Mesh>::type(id[last])).handle()); f.cells.erase(last); pad(f.mesh, N - j); break;
  }
  check_all(f, segs, N - j); mon().hit("long-runs"); if (big) mon().hit("very-long-runs");
  uint64_t h = mix(mix(f.n, op), mix(N, j)); mon().state(mix(h, last)); std::ostringstream o; o << "fan of " << f.n << ", operation " << op << " on cell " << last << " followed by " << N - j << " vertices"; mon().sample(o.str());
}

// C06 boundary detection, C07 interface detection, C28 hull extraction and seed points.
#include <memory>
#include "shadow.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/interface.hpp"
#if PROP == 28
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#endif

static int TD() { return Shadow::tdim(); }
// facets with exactly one of the given cells
static std::set<IV> hull_of(Shadow const & s, std::set<int> const & cells)
{
  std::map<IV,int> n; for (int c : cells) for (IV const & b : s.cell_bnd(s.cells.at(c), TD() - 1)) ++n[sorted(b)];
  std::set<IV> r; for (auto const & x : n) if (x.second == 1) r.insert(x.first); return r;
}
static std::set<IV> facets_of(Shadow const & s, std::set<int> const & cells)
{ std::set<IV> r; for (int c : cells) for (IV const & b : s.cell_bnd(s.cells.at(c), TD() - 1)) r.insert(sorted(b)); return r; }
static std::set<int> all_cells(Shadow const & s) { std::set<int> r; for (auto const & c : s.cells) r.insert(c.first); return r; }
static bool on_any(Shadow & s, std::set<IV> const & facets, int e, IV const & k)
{
  for (IV const & f : facets) { if (TD() == 1) { if (f == k) return true; } else if (e == TD() - 1 ? f == k : s.low_contains(TD() - 1, f, s.low[TD() - 1][f].stored, e, k)) return true; }
  return false;
}

struct World
{
  Mesh mesh; Shadow s; std::vector<VH> vh; Segmentation sg; std::map<int, std::set<int> > in; // segment -> cells
  World() : sg(mesh) {}
  CH cell(IV const & c, int seg)
  {
    CH h = seg < 0 ? add_cell(mesh, vh, c) : add_cell(sg(seg), vh, c); int id = int(vg::dereference_handle(mesh, h).id().get());
    s.add_cell(id, c); for (int d = 1; d < TD(); ++d) for (IV const & b : s.cell_bnd(c, d)) s.note_low(d, b);
    if (seg >= 0) in[seg].insert(id);
    return h;
  }
  std::string str() const { std::ostringstream o; o << s.str(); for (auto const & x : in) o << " seg" << x.first << "=" << show(x.second); return o.str(); }
};

#if PROP == 6
template<class ET, class MS> void check_bnd(World & w, MS const & ms, std::set<int> const & cells, const char * what)
{
  typedef typename vg::result_of::const_element_range<MS, ET>::type R; R r(ms); std::set<IV> hull = hull_of(w.s, cells);
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
  {
    IV k = sorted(vids(*it)); bool want = on_any(w.s, hull, ET::dim, k), got = vg::is_boundary(ms, *it);
    CHECK(got == want, "is-boundary", what << ": element " << show(k) << " of dimension " << ET::dim << " reported " << got << ", " << (want ? "lies on" : "does not lie on") << " a facet with exactly one cell | " << w.str());
    mon().hit(want ? "boundary-elements" : "interior-elements");
  }
}
template<class ET> void check_host(World & w, Rng & r)
{
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(const_cast<Mesh const &>(w.mesh)); typedef typename vg::result_of::const_element_range<Mesh, ET>::type R; R er(const_cast<Mesh const &>(w.mesh));
  for (vg::result_of::iterator<CR>::type c = cr.begin(); c != cr.end(); ++c) if (r.chance(0.2))
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it)
    { bool want = w.s.cell_contains(w.s.cells[int((*c).id().get())], ET::dim, sorted(vids(*it))); CHECK(vg::is_boundary(*c, *it) == want, "is-boundary-of-element", "dim " << ET::dim << " " << show(vids(*it)) << " of cell " << (*c).id().get() << " expected " << want << " | " << w.str()); mon().hit("host-element-queries"); }
}
#if KIND >= 9
static void check_facet_host(World & w)
{
  typedef vg::result_of::const_element_range<Mesh, FacetTag>::type FR; FR fr(const_cast<Mesh const &>(w.mesh)); typedef vg::result_of::const_line_range<Mesh>::type LR; LR lr(const_cast<Mesh const &>(w.mesh));
  int n = 0;
  for (vg::result_of::iterator<FR>::type f = fr.begin(); f != fr.end() && n < 4; ++f, ++n) for (vg::result_of::iterator<LR>::type l = lr.begin(); l != lr.end(); ++l)
  { IV k = sorted(vids(*f)); bool want = w.s.low_contains(2, k, w.s.low[2][k].stored, 1, sorted(vids(*l))); CHECK(vg::is_boundary(*f, *l) == want, "is-boundary-of-element", "line " << show(vids(*l)) << " of facet " << show(k) << " | " << w.str()); }
}
#endif
static void check(World & w, Rng & r)
{
  Mesh const & cm = w.mesh;
  FOR_ALL_BELOW_CELL(check_bnd, w, cm, all_cells(w.s), "mesh");
  for (auto const & x : w.in) { Segment const & cs = const_cast<Segmentation const &>(w.sg)(x.first); FOR_ALL_BELOW_CELL(check_bnd, w, cs, x.second, "segment"); mon().hit("segments-checked"); }
  if (r.chance(0.15)) { FOR_ALL_BELOW_CELL(check_host, w, r);
#if KIND >= 9
    check_facet_host(w);
#endif
  }
  mon().hit("meshes-checked");
}
void run_case(Rng & r, long)
{
  World w; GenOpt o; o.large = 1; o.seam = 0.4; o.maxn = 3 - (KIND >= 9); o.drop = r.real(0, 0.5); o.isolated = r.below(2);
  Model m = gen_model(r, KIND, o);
  while (!m.manifold()) m = gen_model(r, KIND, o);
  Built b; add_vertices(w.mesh, m, b); w.vh = b.v; for (std::size_t i = 0; i < m.p.size(); ++i) w.s.v[int(i)] = m.p[i];
  int ns = r.chance(0.5) ? many(r, r.range(1, 3)) : 0; for (int i = 0; i < ns; ++i) { w.sg.make_segment(); w.in[i]; }
  std::size_t nx = 0; bool erased = false; uint64_t h = 0;
  std::vector<IV> todo = m.c;
  int steps = int(m.c.size()) + r.range(2, 10);
  for (int t = 0; t < steps; ++t)
  {
    int x = r.below(100);
    if (x < 65) { if (nx < todo.size()) { w.cell(todo[nx++], ns && r.chance(0.7) ? r.below(ns) : -1); mon().hit("cells-added"); } }
    else if (x < 75)
    { // same cell in several segments
      if (!ns || w.s.cells.empty()) continue; IV ids; for (auto const & c : w.s.cells) ids.push_back(c.first); int id = r.pick(ids), g = r.below(ns);
      vg::add(w.sg(g), *vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(id))); w.in[g].insert(id); mon().hit("cells-shared");
    }
    else if (x < 82)
    {
      if (!ns) continue; int g = r.below(ns); if (w.in[g].empty()) continue; IV ids(w.in[g].begin(), w.in[g].end()); int id = r.pick(ids);
      if (r.chance(0.7)) { vg::erase(w.sg(g), *vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(id))); w.in[g].erase(id); mon().hit("cell-left-segment"); }
      else { vg::clear(w.sg(g)); w.in[g].clear(); mon().hit("segment-cleared"); }
    }
    else if (x < 92)
    {
      if (ns || w.s.cells.empty()) continue; // deletion from the mesh: only without segments
      IV ids; for (auto const & c : w.s.cells) ids.push_back(c.first); int id = r.pick(ids);
      IV c = w.s.cells[id];
      if (r.chance(0.6)) { vg::erase_element(w.mesh, vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(id)).handle()); w.s.erase_cell(id); if (r.chance(0.5)) todo.push_back(c); }
      else { int v = r.pick(c); vg::erase_element(w.mesh, vg::find(w.mesh, vg::result_of::vertex_id<Mesh>::type(v)).handle()); w.s.erase(0, IV{v}); std::vector<IV> rest; for (std::size_t q = 0; q < todo.size(); ++q) { bool has = std::find(todo[q].begin(), todo[q].end(), v) != todo[q].end(); if (q < nx || !has) rest.push_back(todo[q]); } todo = rest; for (IV & q : todo) (void)q; std::vector<IV> clean; for (std::size_t q = nx; q < todo.size(); ++q) clean.push_back(todo[q]); todo = clean; nx = 0;
             w.vh.clear(); w.vh.resize(m.p.size()); for (auto const & y : w.s.v) w.vh[y.first] = vg::find(w.mesh, vg::result_of::vertex_id<Mesh>::type(y.first)).handle(); }
      erased = true; mon().hit("erased-from-mesh");
    }
    else if (x < 97) { if (ns) continue; Mesh copy(w.mesh); std::swap(copy, copy); w.mesh = copy; w.vh.assign(m.p.size(), VH()); for (auto const & y : w.s.v) w.vh[y.first] = vg::find(w.mesh, vg::result_of::vertex_id<Mesh>::type(y.first)).handle(); mon().hit("mesh-reassigned"); }
    if (r.chance(0.5)) check(w, r);
  }
  (void)erased; check(w, r); check(w, r);
  h = w.s.hash(); for (auto const & x : w.in) for (int c : x.second) h = mix(h, c + 100 * x.first);
  mon().state(h); mon().sample(w.str());
}
#endif

#if PROP == 7
template<class ET> void check_if(World & w, int a, int b)
{
  Segment const & sa = const_cast<Segmentation const &>(w.sg)(a); Segment const & sb = const_cast<Segmentation const &>(w.sg)(b);
  std::set<IV> fa = facets_of(w.s, w.in[a]), fb = facets_of(w.s, w.in[b]), shared; std::set_intersection(fa.begin(), fa.end(), fb.begin(), fb.end(), std::inserter(shared, shared.begin()));
  typedef typename vg::result_of::const_element_range<Mesh, ET>::type R; R r(const_cast<Mesh const &>(w.mesh));
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
  {
    IV k = sorted(vids(*it)); bool want = on_any(w.s, shared, ET::dim, k), got = vg::is_interface(sa, sb, *it);
    CHECK(got == want, "is-interface", "element " << show(k) << " of dimension " << ET::dim << " between segments " << a << " and " << b << " reported " << got << ", expected " << want << " | " << w.str());
    mon().hit(want ? "interface-elements" : "non-interface-elements");
  }
}
void run_case(Rng & r, long)
{
  World w; GenOpt o; o.seam = 0.4; o.maxn = 3 - (KIND >= 9); o.drop = r.real(0, 0.3); o.isolated = r.below(2); o.min_cells = 2;
  Model m = gen_model(r, KIND, o); int guard = 0;
  while (!m.manifold() && guard++ < 50) m = gen_model(r, KIND, o);
  if (!m.manifold()) return;
  Built b; add_vertices(w.mesh, m, b); w.vh = b.v; for (std::size_t i = 0; i < m.p.size(); ++i) w.s.v[int(i)] = m.p[i];
  int ns = many(r, r.range(2, 4)); std::vector<int> ids; for (int i = 0; i < ns; ++i) { int id = i * 2 + r.below(2); w.sg(id); w.in[id]; ids.push_back(id); }
  std::size_t nx = 0; std::vector<int> owner; int steps = int(m.c.size()) * 3 / 2 + r.range(2, 8);
  for (int t = 0; t < steps; ++t)
  {
    int x = r.below(100);
    if (x < 70) { if (nx < m.c.size()) { int g = r.chance(0.9) ? r.pick(ids) : -1; w.cell(m.c[nx++], g); mon().hit("cells-added"); } }
    else if (x < 80)
    { // a free cell joins a segment
      std::set<int> freec = all_cells(w.s); for (auto const & q : w.in) for (int c : q.second) freec.erase(c);
      if (freec.empty()) continue; IV f(freec.begin(), freec.end()); int id = r.pick(f), g = r.pick(ids);
      vg::add(w.sg(g), *vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(id))); w.in[g].insert(id); mon().hit("cell-joined-segment");
    }
    else if (x < 88) { int g = r.pick(ids); vg::clear(w.sg(g)); w.in[g].clear(); mon().hit("segment-cleared"); }
    else if (x < 94)
    { // a segment is emptied and refilled without some of its cells
      int g = r.pick(ids); std::set<int> keep; for (int c : w.in[g]) if (r.chance(0.6)) keep.insert(c); vg::clear(w.sg(g)); w.in[g] = keep;
      for (int c : keep) vg::add(w.sg(g), *vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(c))); mon().hit("segment-rebuilt");
    }
    if (r.chance(0.5)) { int a = r.pick(ids), c = r.pick(ids); if (a == c) continue; FOR_ALL_BELOW_CELL(check_if, w, a, c); if (r.chance(0.5)) FOR_ALL_BELOW_CELL(check_if, w, c, a); mon().hit("pairs-checked"); }
  }
  for (int a : ids) for (int c : ids) if (a != c) { FOR_ALL_BELOW_CELL(check_if, w, a, c); mon().hit("pairs-checked"); }
  uint64_t h = w.s.hash(); for (auto const & x : w.in) for (int c : x.second) h = mix(h, c + 100 * x.first);
  mon().state(h); mon().sample(w.str());
}
#endif

#if PROP == 28
template<int K> struct HullOf;
template<> struct HullOf<TRI2> { enum { k = LINE2 }; }; template<> struct HullOf<QUAD2> { enum { k = LINE2 }; }; template<> struct HullOf<POLY2> { enum { k = LINE2 }; };
template<> struct HullOf<TRI3> { enum { k = LINE3 }; }; template<> struct HullOf<QUAD3> { enum { k = LINE3 }; }; template<> struct HullOf<POLY3> { enum { k = LINE3 }; };
template<> struct HullOf<TET3> { enum { k = TRI3 }; }; template<> struct HullOf<HEX3> { enum { k = QUAD3 }; };
template<> struct HullOf<LINE1> { enum { k = LINE1 }; }; template<> struct HullOf<LINE2> { enum { k = LINE2 }; }; template<> struct HullOf<LINE3> { enum { k = LINE3 }; };
typedef MeshOf<HullOf<KIND>::k>::type Hull; typedef vg::result_of::segmentation<Hull>::type HullSeg; typedef vg::result_of::segment_handle<HullSeg>::type HSeg;
typedef std::vector<P3> PL;
template<class MS> std::multiset<PL> polys(Hull const & hm, MS const & ms)
{
  std::multiset<PL> out; typedef typename vg::result_of::const_cell_range<MS>::type R; R r(ms); typedef vg::result_of::cell<Hull>::type HC;
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
  { PL p; typedef vg::result_of::const_vertex_range<HC>::type VR; VR vr(*it); for (vg::result_of::iterator<VR>::type v = vr.begin(); v != vr.end(); ++v) p.push_back(to_p3(vg::point(hm, *v))); out.insert(p); }
  return out;
}
static PL pts(World & w, IV const & f) { PL p; for (int v : f) p.push_back(w.s.v[v]); return p; }
static std::multiset<PL> want_polys(World & w, std::set<IV> const & fs) { std::multiset<PL> r; for (IV const & f : fs) r.insert(pts(w, TD() == 1 ? f : w.s.low[TD() - 1][f].stored)); return r; }
static std::size_t nverts(std::set<IV> const & fs) { std::set<int> v; for (IV const & f : fs) v.insert(f.begin(), f.end()); return v.size(); }
static std::vector<std::set<int> > components(World & w, std::set<int> const & cells)
{
  std::vector<std::set<int> > out; std::set<int> left = cells;
  while (!left.empty())
  {
    std::set<int> comp; std::vector<int> st; st.push_back(*left.begin()); left.erase(left.begin());
    while (!st.empty())
    {
      int c = st.back(); st.pop_back(); comp.insert(c); std::set<IV> f = facets_of(w.s, std::set<int>{c}); std::vector<int> take;
      for (int d : left) { for (IV const & b : w.s.cell_bnd(w.s.cells[d], TD() - 1)) if (f.count(sorted(b))) { take.push_back(d); break; } }
      for (int d : take) { left.erase(d); st.push_back(d); }
    }
    out.push_back(comp);
  }
  return out;
}
#if KIND != 7 && KIND != 8
static void check_seeds(World & w, std::vector<Point> const & seeds, std::set<int> const & cells, const char * what)
{
  std::vector<std::set<int> > comp = components(w, cells);
  CHECK(seeds.size() == comp.size(), "seed-point-count", what << ": " << seeds.size() << " seed points for " << comp.size() << " connected parts | " << w.str());
  std::vector<int> used(comp.size(), 0);
  for (Point const & p : seeds)
  {
    int hit = -1;
    for (std::size_t i = 0; i < comp.size() && hit < 0; ++i) for (int c : comp[i])
    { Point q = vg::centroid(*vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(c))); double d = 0; for (std::size_t k = 0; k < q.size(); ++k) d += std::fabs(q[k] - p[k]); if (d < 1e-9) { hit = int(i); break; } }
    CHECK(hit >= 0, "seed-point-outside", what << ": a seed point is not inside any cell's part | " << w.str()); ++used[hit];
  }
  for (int u : used) CHECK(u == 1, "seed-point-distribution", what << ": a connected part has " << u << " seed points | " << w.str());
  mon().hit("seed-queries"); if (comp.size() > 1) mon().hit("several-parts");
}
#endif
void run_case(Rng & r, long)
{
  World w; GenOpt o; o.seam = 0.4; o.maxn = 3 - (KIND >= 9); o.drop = r.real(0, 0.6); o.isolated = r.below(2);
  Model m = gen_model(r, KIND, o); int guard = 0; while (!m.manifold() && guard++ < 50) m = gen_model(r, KIND, o); if (!m.manifold()) return;
  Built b; add_vertices(w.mesh, m, b); w.vh = b.v; for (std::size_t i = 0; i < m.p.size(); ++i) w.s.v[int(i)] = m.p[i];
  int ns = r.chance(0.7) ? many(r, r.range(1, 3)) : 0; std::vector<int> ids; for (int i = 0; i < ns; ++i) { int id = 2 * i + r.below(2); w.sg(id); w.in[id]; ids.push_back(id); }
  for (IV const & c : m.c) w.cell(c, ns && r.chance(0.85) ? r.pick(ids) : -1);
  if (ns > 1 && r.chance(0.2)) { int id = w.s.cells.begin()->first, g = r.pick(ids); vg::add(w.sg(g), *vg::find(w.mesh, vg::result_of::cell_id<Mesh>::type(id))); w.in[g].insert(id); }
  std::set<int> all = all_cells(w.s);
#if KIND != 7 && KIND != 8   // the library has no centroid of general polygons
  { std::vector<Point> seeds; vg::extract_seed_points(w.mesh, seeds); check_seeds(w, seeds, all, "mesh"); }
  { std::vector<std::pair<Point,int> > sp; vg::extract_seed_points(w.mesh, w.sg, sp);
    if (!ns) { std::vector<Point> q; for (auto const & x : sp) { CHECK(x.second == 0, "seed-point-segment", x.second); q.push_back(x.first); } check_seeds(w, q, all, "unsegmented"); }
    else { std::size_t n = 0; for (int g : ids) { std::vector<Point> q; for (auto const & x : sp) if (x.second == g) q.push_back(x.first); n += q.size(); check_seeds(w, q, w.in[g], "segment"); } CHECK(n == sp.size(), "seed-point-segment", "seed points with unknown segment"); } }
#endif
#if KIND > 2
  Hull hull; HullSeg hs(hull);
  for (int round = 0; round < 2; ++round)
  {
    bool seg = r.chance(0.6);
    if (!seg)
    {
      vg::clear(hs); vg::extract_boundary(w.mesh, hull); std::set<IV> f = hull_of(w.s, all);
      CHECK(polys(hull, hull) == want_polys(w, f), "hull-elements", "hull has " << vg::cells(hull).size() << " elements, expected " << f.size() << " | " << w.str());
      CHECK(vg::vertices(hull).size() == nverts(f), "hull-vertices", vg::vertices(hull).size() << " vs " << nverts(f) << " | " << w.str());
      mon().hit("mesh-hulls");
    }
    else
    {
      vg::extract_boundary(w.mesh, w.sg, hull, hs); std::set<IV> u; mon().hit("segmentation-hulls");
      if (!ns) u = hull_of(w.s, all);
      CHECK(hs.size() == std::size_t(ns), "hull-segments", hs.size());
      for (int g : ids)
      {
        std::set<IV> f = hull_of(w.s, w.in[g]); CHECK(hs.segment_present(g), "hull-segments", "segment " << g << " missing");
        for (IV const & x : f) if (u.count(x)) mon().hit("shared-hull-elements"); u.insert(f.begin(), f.end());
        HSeg const & s = const_cast<HullSeg const &>(hs)(g);
        CHECK(polys(hull, s) == want_polys(w, f), "hull-segment-elements", "hull segment " << g << " has " << vg::cells(s).size() << " elements, expected " << f.size() << " | " << w.str());
        CHECK(vg::vertices(s).size() == nverts(f), "hull-segment-vertices", g << " | " << w.str());
      }
      CHECK(polys(hull, hull) == want_polys(w, u), "hull-elements", "hull has " << vg::cells(hull).size() << " elements, expected " << u.size() << " | " << w.str());
      CHECK(vg::vertices(hull).size() == nverts(u), "hull-vertices", vg::vertices(hull).size() << " vs " << nverts(u) << " | " << w.str());
    }
  }
#endif
  uint64_t h = w.s.hash(); for (auto const & x : w.in) for (int c : x.second) h = mix(h, c + 100 * x.first);
  mon().state(h); mon().sample(w.str());
}
#endif

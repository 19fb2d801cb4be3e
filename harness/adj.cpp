// C04 co-boundary ranges / C05 neighbor ranges, on meshes and segments, across histories of modification and query.
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"

struct Sub { std::vector<int> cells; };          // model cell indices of a mesh or segment
struct World
{
  Mesh mesh; Model m; Built b; std::map<int,int> id2idx; std::set<IV> extra_lines;
  std::vector<Segment> segs; std::vector<std::set<int> > in;   // cells per segment
};
inline IV to_idx(World const & w, IV const & ids)
{ IV r; for (int i : ids) { std::map<int,int>::const_iterator it = w.id2idx.find(i); CHECK(it != w.id2idx.end(), "dangling-vertex-id", i); r.push_back(it->second); } return r; }
template<class E> IV keyof(World const & w, E const & e) { return sorted(to_idx(w, vids(e))); }

typedef std::map<IV, std::set<IV> > Inc;
inline std::vector<IV> faces_edges(IV const & f) { std::vector<IV> r; for (IV const & l : ref_boundary(f.size() == 3 ? TRI3 : QUAD3, 1, int(f.size()))) r.push_back(sub(f, l)); return r; }
// incidence from the model: for each E-element key (dim dE) the set of C-element keys (dim dC) having it on their boundary
inline Inc model_inc(World const & w, std::vector<int> const & cells, int dE, int dC, bool with_extra)
{
  Inc inc; int td = w.m.tdim;
  if (with_extra && dE == 0) for (std::size_t i = 0; i < w.m.p.size(); ++i) inc[IV{int(i)}];
  if (with_extra && dE == 1 && dE != td) for (IV const & l : w.extra_lines) inc[l];
  if (with_extra && dE == 0 && dC == 1 && td > 1) for (IV const & l : w.extra_lines) { inc[IV{l[0]}].insert(l); inc[IV{l[1]}].insert(l); }
  for (int c : cells)
  {
    for (IV const & e : w.m.boundary(c, dE)) inc[sorted(e)];
    if (dC == td) { for (IV const & e : w.m.boundary(c, dE)) inc[sorted(e)].insert(sorted(w.m.c[c])); continue; }
    for (IV const & f : w.m.boundary(c, dC))
    {
      if (dE == 0) { for (int v : f) inc[IV{v}].insert(sorted(f)); }
      else for (IV const & e : faces_edges(f)) inc[sorted(e)].insert(sorted(f));
    }
  }
  return inc;
}

template<class R> std::vector<IV> drain(World const & w, R & r)
{
  std::vector<IV> v; std::size_t n = 0;
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n) v.push_back(keyof(w, *it));
  CHECK(n == r.size(), "range-size", "size() " << r.size() << " iterated " << n);
  CHECK(r.empty() == (n == 0), "range-empty", n);
  return v;
}
inline void compare(std::vector<IV> const & got, std::set<IV> const & want, const char * sig, std::string const & ctx)
{
  std::set<IV> g; for (IV const & k : got) CHECK(g.insert(k).second, std::string(sig) + "-duplicate", ctx << " lists " << show(k) << " twice");
  for (IV const & k : got) CHECK(want.count(k), std::string(sig) + "-spurious", ctx << " lists " << show(k));
  for (IV const & k : want) CHECK(g.count(k), std::string(sig) + "-missing", ctx << " lacks " << show(k));
}

// ---- one query sweep over all E elements of a mesh or a segment
#if PROP == 4
template<class ET, class CT, class MS> void sweep(World & w, MS & ms, std::vector<int> const & cells, bool is_mesh, Rng & r)
{
  typedef typename vg::result_of::element<MS, ET>::type E;
  typedef typename vg::result_of::element_range<MS, ET>::type ER;
  typedef typename vg::result_of::coboundary_range<MS, ET, CT>::type CR;
  typedef typename vg::result_of::const_coboundary_range<MS, ET, CT>::type CCR;
  Inc inc = model_inc(w, cells, ET::dim, CT::dim, is_mesh);
  MS const & cms = ms;
  ER er(ms); std::size_t n = 0; int form = r.below(4);
  for (typename vg::result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it, ++n)
  {
    IV k = keyof(w, *it);
    if (er.size() > 30 && !r.chance(0.3)) continue;
    CHECK(inc.count(k), "unknown-element", "dim " << ET::dim << " " << show(k) << (is_mesh ? " in mesh" : " in segment"));
    std::ostringstream ctx; ctx << "coboundary<" << ET::dim << "," << CT::dim << "> of " << show(k) << (is_mesh ? " in mesh | " : " in segment | ") << w.m.str();
    std::vector<IV> got;
    switch (form)
    {
      case 0: { CR c = vg::coboundary_elements<ET, CT>(ms, it.handle()); got = drain(w, c); break; }
      case 1: { CCR c = vg::coboundary_elements<ET, CT>(cms, it.handle()); got = drain(w, c); break; }
      case 2: { CR c(ms, *it); got = drain(w, c); break; }
      default:{ CCR c(cms, const_cast<E const &>(*it)); got = drain(w, c); break; }
    }
    compare(got, inc[k], "coboundary", ctx.str());
    mon().hit(is_mesh ? "mesh-queries" : "segment-queries"); if (inc[k].empty()) mon().hit("empty-coboundary"); if (inc[k].size() > 2) mon().hit("coboundary-3+");
  }
  CHECK(n == inc.size(), "element-count", "dim " << ET::dim << " " << n << " elements, model has " << inc.size());
}
template<class MS> void query(World & w, MS & ms, std::vector<int> const & cells, bool is_mesh, Rng & r)
{
  switch (r.below(6))
  {
#if KIND >= 9
    case 0: sweep<vg::vertex_tag, vg::line_tag>(w, ms, cells, is_mesh, r); break;
    case 1: sweep<vg::vertex_tag, FacetTag>(w, ms, cells, is_mesh, r); break;
    case 2: sweep<vg::vertex_tag, CellTag>(w, ms, cells, is_mesh, r); break;
    case 3: sweep<vg::line_tag, FacetTag>(w, ms, cells, is_mesh, r); break;
    case 4: sweep<vg::line_tag, CellTag>(w, ms, cells, is_mesh, r); break;
    default: sweep<FacetTag, CellTag>(w, ms, cells, is_mesh, r); break;
#elif KIND > 2
    case 0: case 1: sweep<vg::vertex_tag, vg::line_tag>(w, ms, cells, is_mesh, r); break;
    case 2: case 3: sweep<vg::vertex_tag, CellTag>(w, ms, cells, is_mesh, r); break;
    default: sweep<vg::line_tag, CellTag>(w, ms, cells, is_mesh, r); break;
#else
    default: sweep<vg::vertex_tag, CellTag>(w, ms, cells, is_mesh, r); break;
#endif
  }
}
#else // PROP 5
template<class ET, class CT, class MS> void sweep(World & w, MS & ms, std::vector<int> const & cells, bool is_mesh, Rng & r)
{
  typedef typename vg::result_of::element<MS, ET>::type E;
  typedef typename vg::result_of::element_range<MS, ET>::type ER;
  typedef typename vg::result_of::neighbor_range<MS, ET, CT>::type NR;
  typedef typename vg::result_of::const_neighbor_range<MS, ET, CT>::type CNR;
  Inc inc = model_inc(w, cells, CT::dim, ET::dim, is_mesh);   // connector -> elements
  Inc nb; for (auto const & c : inc) for (IV const & a : c.second) for (IV const & b : c.second) if (a != b) nb[a].insert(b);
  MS const & cms = ms; ER er(ms); int form = r.below(4);
  for (typename vg::result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it)
  {
    IV k = keyof(w, *it);
    if (er.size() > 40 && !r.chance(0.3)) continue;
    std::ostringstream ctx; ctx << "neighbors<" << ET::dim << "," << CT::dim << "> of " << show(k) << (is_mesh ? " in mesh | " : " in segment | ") << w.m.str();
    std::vector<IV> got;
    switch (form)
    {
      case 0: { NR c = vg::neighbor_elements<ET, CT>(ms, it.handle()); got = drain(w, c); break; }
      case 1: { CNR c = vg::neighbor_elements<ET, CT>(cms, it.handle()); got = drain(w, c); break; }
      case 2: { NR c(ms, *it); got = drain(w, c); break; }
      default:{ CNR c(cms, const_cast<E const &>(*it)); got = drain(w, c); break; }
    }
    for (IV const & g : got) CHECK(g != k, "neighbor-self", ctx.str());
    compare(got, nb[k], "neighbor", ctx.str());
    mon().hit(is_mesh ? "mesh-queries" : "segment-queries"); if (nb[k].empty()) mon().hit("no-neighbors"); if (nb[k].size() > 3) mon().hit("neighbors-4+");
  }
}
template<class MS> void query(World & w, MS & ms, std::vector<int> const & cells, bool is_mesh, Rng & r)
{
  switch (r.below(6))
  {
#if KIND >= 9
    case 0: sweep<vg::line_tag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
    case 1: sweep<FacetTag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
    case 2: sweep<CellTag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
    case 3: sweep<FacetTag, vg::line_tag>(w, ms, cells, is_mesh, r); break;
    case 4: sweep<CellTag, vg::line_tag>(w, ms, cells, is_mesh, r); break;
    default: sweep<CellTag, FacetTag>(w, ms, cells, is_mesh, r); break;
#elif KIND > 2
    case 0: case 1: sweep<vg::line_tag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
    case 2: case 3: sweep<CellTag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
    default: sweep<CellTag, vg::line_tag>(w, ms, cells, is_mesh, r); break;
#else
    default: sweep<CellTag, vg::vertex_tag>(w, ms, cells, is_mesh, r); break;
#endif
  }
}
#endif

inline std::vector<int> all_cells(World const & w) { std::vector<int> v; for (std::size_t i = 0; i < w.m.c.size(); ++i) v.push_back(int(i)); return v; }
inline void query_any(World & w, Rng & r)
{
  if (w.segs.empty() || r.chance(0.5)) query(w, w.mesh, all_cells(w), true, r);
  else { int s = r.below(int(w.segs.size())); query(w, w.segs[s], std::vector<int>(w.in[s].begin(), w.in[s].end()), false, r); }
}

void run_case(Rng & r, long)
{
  GenOpt o; o.seam = 0.4; o.wild = r.chance(0.3); o.drop = r.chance(0.5) ? 0 : r.real(0, 0.5); o.maxn = r.chance(0.1) ? 5 : 3; o.isolated = r.below(2);
  Model t = gen_model(r, KIND, o);
  { std::set<IV> seen; std::vector<IV> u; for (IV const & c : t.c) if (seen.insert(sorted(c)).second) u.push_back(c); t.c = u; }
  World w; w.m.kind = t.kind; w.m.gdim = t.gdim; w.m.tdim = t.tdim;
  Segmentation seg(w.mesh);
  int ns = many(r, r.below(4)); for (int i = 0; i < ns; ++i) { w.segs.push_back(seg.make_segment()); w.in.push_back(std::set<int>()); }
  std::size_t nextv = 0, nextc = 0; double pq = r.real(0.05, 0.5); bool dirty = false, queried = false;
  bool interleave = r.chance(0.5);
  auto addv = [&]() { w.b.v.push_back(vg::make_vertex(w.mesh, mkpt(t.p[nextv]))); w.id2idx[int(vg::dereference_handle(w.mesh, w.b.v.back()).id().get())] = int(nextv); w.m.p.push_back(t.p[nextv]); ++nextv; };
  if (!interleave) while (nextv < t.p.size()) addv();
  int budget = 400;
  while ((nextc < t.c.size() || nextv < t.p.size()) && budget-- > 0)
  {
    int need = -1; if (nextc < t.c.size()) need = *std::max_element(t.c[nextc].begin(), t.c[nextc].end());
    if (nextv < t.p.size() && (nextc >= t.c.size() || need >= int(nextv))) { addv(); dirty = true; }
    else
    {
      double x = r.u();
      if (x < 0.15 && !w.segs.empty() && !w.m.c.empty())
      { // an existing cell joins another segment
        int s = r.below(int(w.segs.size())), c = r.below(int(w.m.c.size()));
        vg::add(w.segs[s], vg::dereference_handle(w.mesh, w.b.c[c])); w.in[s].insert(c); mon().hit("add-existing-to-segment");
      }
#if KIND > 2
      else if (x < 0.2 && w.m.p.size() >= 2)
      { int a = r.below(int(w.m.p.size())), b = r.below(int(w.m.p.size())); if (a != b) { vg::make_line(w.mesh, w.b.v[a], w.b.v[b]); w.extra_lines.insert(sorted(IV{a,b})); mon().hit("explicit-line"); } }
#endif
      else if (!w.segs.empty() && r.chance(0.6))
      { int s = r.below(int(w.segs.size())); w.b.c.push_back(add_cell(w.segs[s], w.b.v, t.c[nextc])); w.in[s].insert(int(w.m.c.size())); w.m.c.push_back(t.c[nextc++]); }
      else { w.b.c.push_back(add_cell(w.mesh, w.b.v, t.c[nextc])); w.m.c.push_back(t.c[nextc++]); }
      dirty = true;
    }
    if (r.chance(pq)) { if (dirty && queried) mon().hit("query-after-modification"); query_any(w, r); queried = true; dirty = false; }
  }
  if (queried && dirty) mon().hit("query-after-modification");
  for (int i = 0; i < 6; ++i) query_any(w, r);
  query(w, w.mesh, all_cells(w), true, r);
  for (std::size_t s = 0; s < w.segs.size(); ++s) query(w, w.segs[s], std::vector<int>(w.in[s].begin(), w.in[s].end()), false, r);
  if (w.m.c.size() >= 2) { uint64_t h = w.m.topo_hash(); for (auto const & s : w.in) for (int c : s) h = mix(h, c + 1); mon().state(h); }
  mon().sample(w.m.str());
}

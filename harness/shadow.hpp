// Shadow state of one mesh: what the public operations applied so far must have produced, keyed by element ids.
#ifndef VH_SHADOW_HPP
#define VH_SHADOW_HPP
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"

inline std::vector<IV> face_edges(IV const & f) { std::vector<IV> r; for (IV const & l : ref_boundary(f.size() == 3 ? TRI3 : QUAD3, 1, int(f.size()))) r.push_back(sub(f, l)); return r; }

struct Shadow
{
  std::map<int,P3> v;                 // vertex id -> coordinates
  struct Low { int id; IV stored; Low() : id(-1) {} };
  std::map<IV,Low> low[3];            // dims 1..tdim-1: sorted vertex ids -> id and stored vertex order
  std::map<int,IV> cells;             // cell id -> ordered vertex ids
  std::set<int> dead_v, dead_c; std::set<int> dead_low[3];

  static int tdim() { return kind_tdim(KIND); }
  std::vector<IV> cell_bnd(IV const & c, int d) const { std::vector<IV> r; for (IV const & l : ref_boundary(KIND, d, int(c.size()))) r.push_back(sub(c, l)); return r; }
  void note_low(int d, IV const & ordered) { Low & l = low[d][sorted(ordered)]; if (l.stored.empty()) l.stored = ordered; }
  void add_cell(int id, IV const & c)
  {
    CHECK(!cells.count(id), "id-reused", "cell id " << id); CHECK(!dead_c.count(id), "deleted-id-reused", "cell id " << id);
    cells[id] = c;
    for (int d = 1; d < tdim(); ++d) for (IV const & b : cell_bnd(c, d)) low[d][sorted(b)];
  }
  // boundary elements of dimension d of a lower element (key order irrelevant for d == 0)
  bool low_contains(int d, IV const & key, IV const & stored, int e, IV const & ekey) const
  {
    if (e == 0) return std::binary_search(key.begin(), key.end(), ekey[0]);
    if (e == d) return key == ekey;
    for (IV const & x : face_edges(stored)) if (sorted(x) == ekey) return true;   // d == 2, e == 1
    return false;
  }
  bool cell_contains(IV const & c, int e, IV const & ekey) const
  { for (IV const & b : cell_bnd(c, e)) if (sorted(b) == ekey) return true; return false; }
  void erase_cell(int id) { cells.erase(id); dead_c.insert(id); }
  // erases an element of dimension e and everything that has it on its boundary
  void erase(int e, IV const & ekey)
  {
    for (auto it = cells.begin(); it != cells.end(); ) if (cell_contains(it->second, e, ekey)) { dead_c.insert(it->first); cells.erase(it++); } else ++it;
    for (int d = tdim() - 1; d >= 1; --d) if (d >= e)
      for (auto it = low[d].begin(); it != low[d].end(); ) if (low_contains(d, it->first, it->second.stored, e, ekey)) { if (it->second.id >= 0) dead_low[d].insert(it->second.id); low[d].erase(it++); } else ++it;
    if (e == 0) { v.erase(ekey[0]); dead_v.insert(ekey[0]); }
  }
  std::set<int> cells_of(int e, IV const & ekey) const { std::set<int> r; for (auto const & c : cells) if (cell_contains(c.second, e, ekey)) r.insert(c.first); return r; }
  bool manifold() const
  { std::map<IV,int> n; for (auto const & c : cells) for (IV const & b : cell_bnd(c.second, tdim() - 1)) if (++n[sorted(b)] > 2) return false; return true; }
  std::set<IV> boundary_facets() const
  { std::map<IV,int> n; for (auto const & c : cells) for (IV const & b : cell_bnd(c.second, tdim() - 1)) ++n[sorted(b)]; std::set<IV> r; for (auto const & x : n) if (x.second == 1) r.insert(x.first); return r; }
  uint64_t hash() const { uint64_t h = v.size(); for (auto const & c : cells) { h = mix(h, c.first); for (int x : c.second) h = mix(h, x); } for (int d = 1; d < 3; ++d) for (auto const & l : low[d]) { h = mix(h, d); for (int x : l.first) h = mix(h, x); } return h; }
  std::string str() const
  { std::ostringstream o; o << kind_name(KIND) << " v=" << v.size() << " cells:"; int n = 0; for (auto const & c : cells) { if (n++ > 25) break; o << " " << c.first << ":" << show(c.second); } return o.str(); }
};

template<class ET, class MS> std::set<const void *> addresses(MS const & ms)
{
  typedef typename vg::result_of::const_element_range<MS, ET>::type R; R r(ms); std::set<const void *> s;
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) s.insert(&*it);
  return s;
}

template<class ET, class H> void check_links(H const & host, std::set<const void *> const & own, const char * what)
{
  typedef typename vg::result_of::const_element_range<H, ET>::type R; R r(host);
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
    CHECK(own.count(&*it), "boundary-link-outside-mesh", what << " links a boundary element of dimension " << ET::dim << " that is not stored in its mesh");
}

// complete comparison of a mesh with its shadow
struct CheckMesh
{
  Mesh const & mesh; Shadow & s;
  CheckMesh(Mesh const & m, Shadow & s_) : mesh(m), s(s_) {}

  template<class ET> void low_level()
  {
    const int d = ET::dim;
    typedef typename vg::result_of::const_element_range<Mesh, ET>::type R; R r(mesh);
    typedef typename vg::result_of::element<Mesh, ET>::type E;
    std::set<const void *> va = addresses<vg::vertex_tag>(mesh), la;
#if KIND >= 9
    la = addresses<vg::line_tag>(mesh);
#endif
    std::set<IV> seen; std::set<int> ids; std::size_t n = 0;
    for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n)
    {
      E const & e = *it; check_links<vg::vertex_tag>(e, va, "a lower element");
      IV ord = vids(e), k = sorted(ord); int id = int(e.id().get());
      CHECK(s.low[d].count(k), "stale-element", "dim " << d << " element " << show(ord) << " id " << id << " should not exist | " << s.str());
      CHECK(seen.insert(k).second, "duplicate-element", "dim " << d << " " << show(ord) << " | " << s.str());
      CHECK(ids.insert(id).second, "duplicate-id", "dim " << d << " id " << id);
      Shadow::Low & l = s.low[d][k];
      if (l.id < 0) { l.id = id; CHECK(!s.dead_low[d].count(id), "deleted-id-reused", "dim " << d << " id " << id); }
      if (l.stored.empty()) l.stored = ord;
      CHECK(l.id == id, "id-changed", "dim " << d << " " << show(k) << " had id " << l.id << " now " << id);
      CHECK(l.stored == ord, "vertex-order-changed", "dim " << d << " " << show(l.stored) << " now " << show(ord));
      CHECK(&*vg::find(mesh, e.id()) == &e, "find-by-id", "dim " << d << " id " << id);
#if KIND >= 9
      links_of_face<ET>(e, la);
#endif
    }
    CHECK(n == s.low[d].size(), "missing-element", "dim " << d << ": " << n << " stored, model has " << s.low[d].size() << " | " << s.str());
    CHECK(r.size() == n, "range-size", r.size() << " vs " << n);
  }
#if KIND >= 9
  template<class ET, class E> typename std::enable_if<ET::dim == 2>::type links_of_face(E const & e, std::set<const void *> const & la) { check_links<vg::line_tag>(e, la, "a facet"); }
  template<class ET, class E> typename std::enable_if<ET::dim != 2>::type links_of_face(E const &, std::set<const void *> const &) {}
#endif
  template<class ET> void cell_links(Cell const & c, std::set<const void *> const & own)
  {
    check_links<ET>(c, own, "a cell");
    typedef typename vg::result_of::const_element_range<Cell, ET>::type R; R r(c);
    std::set<IV> want, got; for (IV const & b : s.cell_bnd(s.cells[int(c.id().get())], ET::dim)) want.insert(sorted(b));
    for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) got.insert(sorted(vids(*it)));
    CHECK(want == got, "cell-boundary", "cell " << c.id().get() << " dim " << ET::dim << " | " << s.str());
  }
  void operator()()
  {
    { // vertices
      typedef vg::result_of::const_vertex_range<Mesh>::type R; R r(mesh); std::set<int> ids;
      for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
      {
        int id = int((*it).id().get());
        CHECK(s.v.count(id), "stale-element", "vertex id " << id << " should not exist | " << s.str());
        CHECK(ids.insert(id).second, "duplicate-id", "vertex " << id);
        CHECK(to_p3(vg::point(mesh, *it)) == s.v[id], "coordinates-changed", "vertex " << id);
        CHECK(&*vg::find(mesh, (*it).id()) == &*it, "find-by-id", "vertex " << id);
      }
      CHECK(ids.size() == s.v.size() && r.size() == s.v.size(), "missing-element", "vertices: " << ids.size() << " stored, model has " << s.v.size() << " | " << s.str());
    }
    FOR_LOWER(low_level);
    { // cells
      std::set<const void *> va = addresses<vg::vertex_tag>(mesh);
#if KIND > 2
      std::set<const void *> la = addresses<vg::line_tag>(mesh);
#endif
#if KIND >= 9
      std::set<const void *> fa = addresses<FacetTag>(mesh);
#endif
      typedef vg::result_of::const_cell_range<Mesh>::type R; R r(mesh); std::set<int> ids;
      for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it)
      {
        int id = int((*it).id().get());
        CHECK(s.cells.count(id), "stale-element", "cell id " << id << " should not exist | " << s.str());
        CHECK(ids.insert(id).second, "duplicate-id", "cell " << id);
        check_links<vg::vertex_tag>(*it, va, "a cell");
        CHECK(vids(*it) == s.cells[id], "cell-vertices-changed", "cell " << id << " has " << show(vids(*it)) << ", expected " << show(s.cells[id]) << " | " << s.str());
        CHECK(&*vg::find(mesh, (*it).id()) == &*it, "find-by-id", "cell " << id);
#if KIND > 2
        cell_links<vg::line_tag>(*it, la);
#endif
#if KIND >= 9
        cell_links<FacetTag>(*it, fa);
#endif
      }
      CHECK(ids.size() == s.cells.size() && r.size() == s.cells.size(), "missing-element", "cells: " << ids.size() << " stored, model has " << s.cells.size() << " | " << s.str());
      int n = 0; for (int id : s.dead_c) { if (++n > 5) break; CHECK(vg::find(mesh, vg::result_of::cell_id<Mesh>::type(id)) == vg::cells(mesh).end(), "deleted-still-found", "cell id " << id); mon().hit("deleted-lookup"); }
      n = 0; for (int id : s.dead_v) { if (++n > 5) break; CHECK(vg::find(mesh, vg::result_of::vertex_id<Mesh>::type(id)) == vg::vertices(mesh).end(), "deleted-still-found", "vertex id " << id); mon().hit("deleted-lookup"); }
    }
    mon().hit("meshes-compared");
  }
};

// derived (cached) queries must reflect the current state
struct CheckQueries
{
  Mesh & mesh; Shadow & s; Rng & r;
  CheckQueries(Mesh & m, Shadow & s_, Rng & r_) : mesh(m), s(s_), r(r_) {}
  template<class ET> void cob()
  {
    typedef typename vg::result_of::element_range<Mesh, ET>::type R; R er(mesh);
    typedef typename vg::result_of::coboundary_range<Mesh, ET, CellTag>::type CR;
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it)
    {
      if (er.size() > 12 && !r.chance(0.4)) continue;
      CR cr = vg::coboundary_elements<ET, CellTag>(mesh, it.handle());
      std::multiset<int> got; for (typename vg::result_of::iterator<CR>::type c = cr.begin(); c != cr.end(); ++c) got.insert(int((*c).id().get()));
      std::set<int> want = s.cells_of(ET::dim, sorted(vids(*it)));
      CHECK(got == std::multiset<int>(want.begin(), want.end()), "coboundary-stale", "element dim " << ET::dim << " " << show(vids(*it)) << " : got " << got.size() << " cells, expected " << want.size() << " | " << s.str());
      mon().hit("coboundary-queries");
    }
  }
  template<class ET> void bnd()
  {
    typedef typename vg::result_of::const_element_range<Mesh, ET>::type R; R er(static_cast<Mesh const &>(mesh));
    std::set<IV> bf = s.boundary_facets();
    std::set<IV> want; for (IV const & f : bf) { if (ET::dim == s.tdim() - 1) want.insert(f); else if (ET::dim == 0) { for (int x : f) want.insert(IV{x}); } else for (IV const & e : face_edges(s.low[2][f].stored)) want.insert(sorted(e)); }
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it)
    {
      bool b = vg::is_boundary(static_cast<Mesh const &>(mesh), *it); IV k = sorted(vids(*it));
      CHECK(b == bool(want.count(k)), "boundary-stale", "element dim " << ET::dim << " " << show(k) << " reported " << b << " | " << s.str());
      mon().hit("boundary-queries");
    }
  }
  void operator()()
  {
    FOR_ALL_BELOW_CELL(cob);
    if (s.manifold()) { FOR_ALL_BELOW_CELL(bnd); }
  }
};
#endif

// Thin meshes (vertices and cells only), cell-only segmentations and oriented hull segmentations with per-element information
// under random histories: C01 (creation), C04 (co-boundaries), C05 (neighbors), C08 (segments), C10 (deletion).
#include "kinds.hpp"
#include <memory>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"

template<class S, class C> struct HasInfo { enum { value = 0 }; };
#define HULL(S) template<class C> struct HasInfo<S, C> { enum { value = 1 }; }
HULL(vg::triangular_hull_3d_segmentation); HULL(vg::thin_triangular_hull_3d_segmentation);

template<class M, class S, bool COB> struct World
{
  typedef typename vg::result_of::segment_handle<S>::type Seg; typedef typename vg::result_of::cell_tag<M>::type CT; typedef typename vg::result_of::cell<M>::type C;
  typedef typename vg::result_of::vertex<M>::type V; typedef typename vg::result_of::point<M>::type Pt;
  typedef typename vg::result_of::vertex_handle<M>::type VH; typedef typename vg::result_of::cell_handle<M>::type CH;
  M mesh; std::unique_ptr<S> sg; std::map<int, P3> v; std::map<int, IV> c; std::map<int, std::map<int, bool> > in; // segment -> cell -> information
  std::string str() const { std::ostringstream o; for (auto const & x : c) o << x.first << "=" << show(x.second) << " "; for (auto const & s : in) { o << "{" << s.first << ":"; for (auto const & q : s.second) o << q.first << (q.second ? "+" : "-") << ","; o << "}"; } return o.str(); }
  C & cell(int id) { return *vg::find(mesh, typename C::id_type(id)); }
  V & vert(int id) { return *vg::find(mesh, typename V::id_type(id)); }

  template<class X, class E> static typename std::enable_if<HasInfo<X, int>::value>::type set_info(Seg & s, E & e, bool b) { bool * p = vg::segment_element_info(s, e); CHECK(p, "no-element-info", e.id()); *p = b; mon().hit("info-written"); }
  template<class X, class E> static typename std::enable_if<!HasInfo<X, int>::value>::type set_info(Seg &, E &, bool) {}
  template<class X, class E> static typename std::enable_if<HasInfo<X, int>::value>::type chk_info(Seg const & s, E const & e, bool present, bool val)
  { bool const * p = vg::segment_element_info(s, e); CHECK(bool(p) == present, "element-info-presence", e.id()); if (p) { CHECK(*p == val, "element-info", "cell " << e.id() << " in segment " << s.id() << ": " << *p); mon().hit("info-read"); } }
  template<class X, class E> static typename std::enable_if<!HasInfo<X, int>::value>::type chk_info(Seg const &, E const &, bool, bool) {}

  void check_mesh()
  {
    M const & cm = mesh; typedef typename vg::result_of::const_cell_range<M>::type CR; typedef typename vg::result_of::const_vertex_range<M>::type VR; CR cr(cm); VR vr(cm);
    CHECK(cr.size() == c.size() && vr.size() == v.size(), "thin-element-count", cr.size() << "/" << vr.size() << " expected " << c.size() << "/" << v.size() << " | " << str());
    std::set<int> seen;
    for (typename vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it)
    { int id = int((*it).id().get()); CHECK(seen.insert(id).second && c.count(id) && vids(*it) == c[id], "thin-cell", id << " " << show(vids(*it)) << " | " << str()); CHECK(&*vg::find(cm, (*it).id()) == &*it, "thin-find", id); mon().hit("cells-compared"); }
    seen.clear();
    for (typename vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { int id = int((*it).id().get()); CHECK(seen.insert(id).second && v.count(id) && to_p3(vg::point(cm, *it)) == v[id], "thin-vertex", id); }
  }
  void check_adj()
  {
    for (auto const & x : v)
    {
      V & q = vert(x.first); std::multiset<int> want, got; for (auto const & y : c) if (std::count(y.second.begin(), y.second.end(), x.first)) want.insert(y.first);
      if (mon().cases % 2) { typedef typename vg::result_of::coboundary_range<M, vg::vertex_tag, CT>::type R; R r(mesh, vg::handle(mesh, q)); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) got.insert(int((*it).id().get())); }
      else { typedef typename vg::result_of::const_coboundary_range<M, vg::vertex_tag, CT>::type R; M const & cm = mesh; R r(cm, vg::handle(cm, static_cast<V const &>(q))); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) got.insert(int((*it).id().get())); }
      CHECK(got == want, "thin-coboundary", "vertex " << x.first << " has " << got.size() << " cells, expected " << want.size() << " | " << str()); mon().hit("thin-coboundaries");
    }
    for (auto const & x : c)
    {
      std::multiset<int> want, got; for (auto const & y : c) if (y.first != x.first) { bool share = false; for (int a : x.second) share = share || std::count(y.second.begin(), y.second.end(), a); if (share) want.insert(y.first); }
      typedef typename vg::result_of::neighbor_range<M, CT, vg::vertex_tag>::type R; R r(mesh, vg::handle(mesh, cell(x.first))); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) got.insert(int((*it).id().get()));
      CHECK(got == want, "thin-neighbors", "cell " << x.first << " has " << got.size() << " neighbors, expected " << want.size() << " | " << str()); mon().hit("thin-neighbors");
    }
  }
  void check_seg()
  {
    S const & cs = *sg; std::set<int> all;
    for (auto const & s : in)
    {
      Seg const & g = cs.at(s.first); typedef typename vg::result_of::const_cell_range<Seg>::type R; R r(g); std::set<int> got; std::size_t n = 0;
      for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++n) { got.insert(int((*it).id().get())); CHECK(&*it == &cell(int((*it).id().get())), "foreign-cell", (*it).id()); }
      std::set<int> want; for (auto const & q : s.second) want.insert(q.first); all.insert(want.begin(), want.end());
      CHECK(got == want && n == want.size(), "variant-segment-cells", "segment " << s.first << " holds " << show(got) << " (" << n << "), expected " << show(want) << " | " << str()); mon().hit("variant-segments");
    }
    typedef typename vg::result_of::const_cell_range<S>::type AR; AR ar(cs); std::set<int> got; std::size_t n = 0;
    for (typename vg::result_of::iterator<AR>::type it = ar.begin(); it != ar.end(); ++it, ++n) got.insert(int((*it).id().get()));
    CHECK(got == all && n == all.size(), "variant-segmentation-cells", show(got) << " (" << n << ") expected " << show(all) << " | " << str());
    for (auto const & x : c)
    {
      C const & e = cell(x.first); std::set<int> want, ids; for (auto const & s : in) if (s.second.count(x.first)) want.insert(s.first);
      typedef typename vg::result_of::segment_id_range<S, C>::type IR; IR ir = vg::segment_ids(cs, e); std::size_t k = 0; for (typename vg::result_of::iterator<IR>::type q = ir.begin(); q != ir.end(); ++q, ++k) ids.insert(int(*q));
      CHECK(ids == want && k == want.size(), "variant-segment-ids", x.first << ": " << show(ids) << " expected " << show(want) << " | " << str());
      for (auto const & s : in) { CHECK(vg::is_in_segment(cs.at(s.first), e) == bool(want.count(s.first)), "variant-is-in-segment", x.first); auto f = s.second.find(x.first); chk_info<S>(cs.at(s.first), e, f != s.second.end(), f != s.second.end() && f->second); }
    }
    for (auto const & x : c) for (auto const & y : c) if ((x.first + y.first) % 3 == 0)
    {
      typedef typename vg::result_of::segment_id_range<S, C>::type IR; IR a = vg::segment_ids(cs, cell(x.first)), b = vg::segment_ids(cs, cell(y.first)); bool want = true; for (auto const & s : in) want = want && s.second.count(x.first) == s.second.count(y.first);
      CHECK(bool(a.is_equal(b)) == want, "segment-ids-equal", x.first << "," << y.first << " | " << str()); mon().hit(want ? "equal-segment-ids" : "different-segment-ids");
    }
  }
  void run(Rng & r, int kind)
  {
    GenOpt o; o.maxn = 2 + (kind != TET3); o.drop = r.real(0, 0.4); o.seam = 0.3; o.wild = r.chance(0.4); Model m = gen_model(r, kind, o); std::map<int, VH> vh; sg.reset(new S(mesh));
    for (std::size_t i = 0; i < m.p.size(); ++i) { VH h = vg::make_vertex(mesh, MkPoint<vg::result_of::static_size<Pt>::value>::template mk<Pt>(m.p[i])); vh[int(i)] = h; int id = int(vg::dereference_handle(mesh, h).id().get()); CHECK(id == int(i), "thin-vertex-id", id); v[id] = m.p[i]; for (int d = kind_gdim(kind); d < 3; ++d) v[id][d] = 0; }
    std::size_t next = 0; uint64_t hs = 0; bool seg = PROP == 8, del = PROP == 10; int last = -1;
    for (int t = r.range(20, 60); t > 0; --t)
    {
      int x = r.below(100); auto some = [&](std::map<int, IV> const & q) { auto it = q.begin(); std::advance(it, r.below(int(q.size()))); return it->first; };
      int g = in.empty() ? -1 : [&] { auto it = in.begin(); std::advance(it, r.below(int(in.size()))); return it->first; }();
      if (x < 45)
      {
        if (next >= m.c.size()) continue; IV k = m.c[next++]; std::vector<VH> h; bool ok = true; for (int q : k) { ok = ok && v.count(q); } if (!ok) continue;
        for (int q : k) h.push_back(vg::handle(mesh, vert(q))); bool inseg = seg && g >= 0 && r.chance(0.5);
        CH ch = inseg ? vg::make_element<C>(sg->get_segment(g), h.begin(), h.end()) : vg::make_cell(mesh, h.begin(), h.end()); int id = int(vg::dereference_handle(mesh, ch).id().get());
        CHECK(id == last + 1, "thin-cell-id", id << " after " << last); last = id; c[id] = k; if (inseg) { in[g][id] = false; mon().hit("cell-made-in-variant-segment"); }
      }
      else if (seg && x < 52) { int id = int(in.size()); if (r.chance(0.5)) { Seg & s = sg->make_segment(); CHECK(int(s.id()) == id, "segment-id", s.id()); } else sg->get_make_segment(id); in[id]; }
      else if (seg && x < 66 && g >= 0 && !c.empty()) { int id = some(c); if (r.chance(0.5)) vg::add(sg->get_segment(g), cell(id)); else vg::add(sg->get_segment(g), vg::handle(mesh, cell(id))); if (in[g].count(id)) mon().hit("variant-added-again"); else in[g][id] = false; }
      else if (seg && x < 78 && g >= 0 && !in[g].empty()) { auto it = in[g].begin(); std::advance(it, r.below(int(in[g].size()))); it->second = HasInfo<S, int>::value && r.chance(0.6); set_info<S>(sg->get_segment(g), cell(it->first), it->second); }
      else if (seg && x < 84 && g >= 0 && !in[g].empty()) { auto it = in[g].begin(); std::advance(it, r.below(int(in[g].size()))); int id = it->first; in[g].erase(it); vg::erase(sg->get_segment(g), cell(id)); mon().hit("variant-erased"); }
      else if (seg && x >= 84 && x < 86 && g >= 0) { vg::clear(sg->get_segment(g)); in[g].clear(); mon().hit("variant-cleared"); }
      else if (del && x < 70 && !c.empty())
      { if (r.chance(0.6)) { int id = some(c); vg::erase_element(mesh, vg::handle(mesh, cell(id))); c.erase(id); mon().hit("thin-cell-erased"); }
        else { auto it = v.begin(); std::advance(it, r.below(int(v.size()))); int id = it->first; vg::erase_element(mesh, vg::handle(mesh, vert(id))); v.erase(id); for (auto q = c.begin(); q != c.end(); ) if (std::count(q->second.begin(), q->second.end(), id)) c.erase(q++); else ++q; mon().hit("thin-vertex-erased"); } }
      if (r.chance(0.3)) { if (seg) check_seg(); check_mesh(); if (COB && PROP != 1 && PROP != 8) check_adj(); }
    }
    if (seg) check_seg(); check_mesh(); if (COB && PROP != 1 && PROP != 8) check_adj();
    for (auto const & q : c) for (int z : q.second) hs = mix(hs, z); for (auto const & s : in) for (auto const & q : s.second) hs = mix(hs, q.first * 2 + q.second);
    mon().state(hs); mon().sample(str());
  }
};
template<class M, class S> static void go(Rng & r, int kind) { World<M, S, true> w; w.run(r, kind); }

void run_case(Rng & r, long)
{
#if UNIT == 0
  switch (r.below(3)) {
    case 0: mon().hit("thin-triangles-2d"); go<vg::thin_triangular_2d_mesh, vg::thin_cell_only_triangular_2d_segmentation>(r, TRI2); break;
    case 1: mon().hit("thin-tetrahedra"); go<vg::thin_tetrahedral_3d_mesh, vg::thin_cell_only_tetrahedral_3d_segmentation>(r, TET3); break;
    default: mon().hit("thin-hull"); go<vg::thin_triangular_3d_mesh, vg::thin_triangular_hull_3d_segmentation>(r, TRI3); break; }
#else
  switch (r.below(3)) {
    case 0: mon().hit("hull"); go<vg::triangular_3d_mesh, vg::triangular_hull_3d_segmentation>(r, TRI3); break;
    case 1: mon().hit("cell-only-lines"); go<vg::line_2d_mesh, vg::cell_only_line_2d_segmentation>(r, LINE2); break;
    default: mon().hit("thin-cell-only-triangles-3d"); go<vg::thin_triangular_3d_mesh, vg::thin_cell_only_triangular_3d_segmentation>(r, TRI3); break; }
#endif
}

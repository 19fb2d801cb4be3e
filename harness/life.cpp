// C09 copies, assignment and clear / C10 deletion: histories over several meshes, each compared with its own shadow.
#include "shadow.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include <memory>

struct W { std::unique_ptr<Mesh> m; Shadow s; W() : m(new Mesh) {} };

static VH vh_of(Mesh & m, int id) { return vg::find(m, vg::result_of::vertex_id<Mesh>::type(id)).handle(); }

static void add_vertex(W & w, Rng & r)
{
  P3 q = {{0,0,0}}; for (int d = 0; d < kind_gdim(KIND); ++d) q[d] = r.real(-5, 5);
  VH h = vg::make_vertex(*w.m, mkpt(q)); int id = int(vg::dereference_handle(*w.m, h).id().get());
  CHECK(!w.s.v.count(id), "id-reused", "vertex id " << id); CHECK(!w.s.dead_v.count(id), "deleted-id-reused", "vertex id " << id);
  w.s.v[id] = q;
}
static void add_random_cell(W & w, Rng & r)
{
  int k = KIND <= 2 ? 2 : KIND <= 4 ? 3 : KIND <= 6 ? 4 : KIND <= 8 ? r.range(3, 6) : KIND == 9 ? 4 : 8;
  IV ids; for (auto const & x : w.s.v) ids.push_back(x.first);
  IV c;
  if (!w.s.cells.empty() && r.chance(0.7))
  { // glue to an existing cell along one of its facets where possible
    auto it = w.s.cells.begin(); std::advance(it, r.below(int(w.s.cells.size())));
    std::vector<IV> f = w.s.cell_bnd(it->second, Shadow::tdim() - 1); c = f[r.below(int(f.size()))];
#if KIND != 10 && KIND != 5 && KIND != 6
    r.shuffle(c);
#endif
  }
  int tries = 0; while (int(c.size()) < k && tries++ < 400 && !ids.empty()) { int x = r.pick(ids); if (std::find(c.begin(), c.end(), x) == c.end()) c.push_back(x); }
  if (int(c.size()) != k) return;
  for (auto const & o : w.s.cells) if (sorted(o.second) == sorted(c)) return;
  // complexes in which one quadrilateral vertex set is used with two different cyclic orders are out of scope
#if KIND == 10
  for (IV const & f : w.s.cell_bnd(c, 2)) { auto it = w.s.low[2].find(sorted(f)); if (it != w.s.low[2].end()) { std::set<IV> a, b; for (IV const & e : face_edges(f)) a.insert(sorted(e)); for (IV const & e : face_edges(it->second.stored.empty() ? f : it->second.stored)) b.insert(sorted(e)); if (a != b) return; } }
#endif
  std::vector<VH> h; for (int x : c) h.push_back(vh_of(*w.m, x));
  CH ch = vg::make_cell(*w.m, h.begin(), h.end());
  w.s.add_cell(int(vg::dereference_handle(*w.m, ch).id().get()), c);
  for (int d = 1; d < Shadow::tdim(); ++d) for (IV const & b : w.s.cell_bnd(c, d)) if (d == 2) w.s.note_low(2, b);
  mon().hit("cells-added");
}
static void add_line(W & w, Rng & r)
{
#if KIND > 2
  if (w.s.v.size() < 2) return; IV ids; for (auto const & x : w.s.v) ids.push_back(x.first); int a = r.pick(ids), b = r.pick(ids); if (a == b) return;
  vg::make_line(*w.m, vh_of(*w.m, a), vh_of(*w.m, b)); w.s.low[1][sorted(IV{a, b})];
#else
  (void)w; (void)r;
#endif
}

#if PROP == 10
typedef vg::result_of::mesh_view<Mesh>::type View;
struct Eraser
{
  W & w; Rng & r; bool batch; View * view;
  template<class ET> void pick()
  {
    typedef typename vg::result_of::element_range<Mesh, ET>::type R; R er(*w.m); if (er.size() == 0) return;
    int n = r.chance(0.15) ? int(er.size()) - 1 : r.below(int(er.size())), i = 0;
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it, ++i) if (i == n)
    {
      IV k = sorted(vids(*it)); int id = int((*it).id().get());
      if (batch) vg::mark_erase_elements(*w.m, *view, it.handle()); else vg::erase_element(*w.m, it.handle());
      if (ET::dim == Shadow::tdim()) { w.s.erase_cell(id); mon().hit("erase-cell"); }
      else { w.s.erase(ET::dim, k); mon().hit(ET::dim == 0 ? "erase-vertex" : ET::dim == 1 ? "erase-line" : "erase-facet"); }
      return;
    }
  }
  void run()
  {
    switch (r.below(4))
    {
      case 0: pick<CellTag>(); break;
      case 1: pick<vg::vertex_tag>(); break;
      default:
#if KIND <= 2
        pick<vg::vertex_tag>();
#else
        if (r.chance(0.5)) pick<vg::line_tag>(); else pick<FacetTag>();
#endif
    }
  }
};
static void erase_some(W & w, Rng & r)
{
  if (r.chance(0.6)) { Eraser e = { w, r, false, 0 }; e.run(); }
  else
  {
    View view = vg::make_view(*w.m); Eraser e = { w, r, true, &view };
    int n = r.range(2, 4); for (int i = 0; i < n; ++i) e.run();
    vg::erase_elements(*w.m, view); mon().hit("erase-batch");
  }
  CheckMesh(*w.m, w.s)();
}
#endif

#if PROP == 10
// deletion from a view: the member and all members that have it on their boundary leave the view, the mesh is untouched
struct ViewTest
{
  W & w; Rng & r; View view; std::set<IV> keys[3]; std::set<int> cells; int todo;
  ViewTest(W & w_, Rng & r_) : w(w_), r(r_), view(vg::make_view(*w_.m)), todo(0) {}
  template<class ET> void join()
  {
    typedef typename vg::result_of::element_range<Mesh, ET>::type R; R er(*w.m);
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it) if (r.chance(0.6))
    {
      vg::add_single_handle(view, it.handle()); if (r.chance(0.2)) vg::add_single_handle(view, it.handle());
      if (ET::dim == Shadow::tdim()) cells.insert(int((*it).id().get())); else keys[ET::dim].insert(sorted(vids(*it)));
    }
  }
  template<class ET> void compare()
  {
    typedef typename vg::result_of::element_range<View, ET>::type R; R er(view); std::size_t n = 0;
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it, ++n)
      CHECK(ET::dim == Shadow::tdim() ? cells.count(int((*it).id().get())) : keys[ET::dim].count(sorted(vids(*it))), "view-holds-erased", "dim " << ET::dim << " " << show(vids(*it)) << " | " << w.s.str());
    CHECK(n == (ET::dim == Shadow::tdim() ? cells.size() : keys[ET::dim].size()), "view-lost-element", "dim " << ET::dim << " holds " << n << " | " << w.s.str());
  }
  template<class ET> void drop()
  {
    typedef typename vg::result_of::element_range<View, ET>::type R; R er(view); if (er.size() == 0) return;
    int n = r.below(int(er.size())), i = 0;
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it, ++i) if (i == n)
    {
      IV k = sorted(vids(*it)); int id = int((*it).id().get());
      vg::erase_element(view, it.handle()); mon().hit("erase-from-view");
      if (ET::dim == Shadow::tdim()) { cells.erase(id); return; }
      for (auto c = cells.begin(); c != cells.end(); ) if (w.s.cell_contains(w.s.cells[*c], ET::dim, k)) cells.erase(c++); else ++c;
      for (int d = Shadow::tdim() - 1; d >= ET::dim; --d) for (auto e = keys[d].begin(); e != keys[d].end(); ) if (d == 0 ? *e == k : w.s.low_contains(d, *e, w.s.low[d][*e].stored, ET::dim, k)) keys[d].erase(e++); else ++e;
      return;
    }
  }
  void run()
  {
    FOR_ALL(join); FOR_ALL(compare);
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) { switch (r.below(3)) { case 0: drop<CellTag>(); break; case 1: drop<vg::vertex_tag>(); break; default: drop<FacetTag>(); } FOR_ALL(compare); }
    CheckMesh(*w.m, w.s)();
  }
};
#endif

static void fill(W & w, Rng & r)
{
  GenOpt o; o.large = 1; o.seam = 0.4; o.maxn = 2; o.drop = r.real(0, 0.4); o.isolated = r.below(2);
  Model m = gen_model(r, KIND, o);
  std::vector<VH> h; IV id;
  for (P3 const & q : m.p) { h.push_back(vg::make_vertex(*w.m, mkpt(q))); id.push_back(int(vg::dereference_handle(*w.m, h.back()).id().get())); CHECK(!w.s.v.count(id.back()), "id-reused", id.back()); CHECK(!w.s.dead_v.count(id.back()), "deleted-id-reused", id.back()); w.s.v[id.back()] = q; }
  for (IV const & c : m.c)
  {
    CH ch = add_cell(*w.m, h, c); IV g; for (int x : c) g.push_back(id[x]);
    w.s.add_cell(int(vg::dereference_handle(*w.m, ch).id().get()), g);
    if (Shadow::tdim() == 3) for (IV const & b : w.s.cell_bnd(g, 2)) w.s.note_low(2, b);
  }
}

#if PROP == 9
// copies the cells selected by a predicate into another mesh: same geometry and cell vertex order, one vertex per used source vertex
struct Pick { std::set<int> keep; template<class C> bool operator()(C const & c) const { return keep.count(int(c.id().get())); } };
static void cell_copy(W & w, Rng & r)
{
  Pick p; for (auto const & c : w.s.cells) if (r.chance(0.6)) p.keep.insert(c.first);
  Mesh dst; if (r.chance(0.5)) vg::make_vertex(dst, mkpt(P3{{1,2,3}}));
  vg::copy(*w.m, dst, p); mon().hit("selective-copy");
  std::multiset<std::vector<P3> > want, got; std::set<P3> wv;
  for (int id : p.keep) { std::vector<P3> c; for (int v : w.s.cells[id]) { c.push_back(w.s.v[v]); wv.insert(w.s.v[v]); } want.insert(c); }
  typedef vg::result_of::const_cell_range<Mesh>::type R; R cr(static_cast<Mesh const &>(dst));
  for (vg::result_of::iterator<R>::type it = cr.begin(); it != cr.end(); ++it)
  {
    std::vector<P3> c; typedef vg::result_of::const_vertex_range<Cell>::type VR; VR vr(*it);
    for (vg::result_of::iterator<VR>::type v = vr.begin(); v != vr.end(); ++v) c.push_back(to_p3(vg::point(dst, *v)));
    got.insert(c);
  }
  CHECK(want == got, "selective-copy-cells", "copied " << got.size() << " cells, expected " << want.size() << " | " << w.s.str());
  CHECK(vg::vertices(dst).size() == wv.size(), "selective-copy-vertices", vg::vertices(dst).size() << " vertices, expected " << wv.size());
}
static void segmented_copy(Rng & r)
{
  typedef vg::segmented_mesh<Mesh, Segmentation> SM;
  GenOpt o; o.large = 1; o.seam = 0.4; o.maxn = 2; o.drop = r.real(0, 0.3); Model m = gen_model(r, KIND, o);
  std::unique_ptr<SM> a(new SM); Built b; add_vertices(a->mesh, m, b);
  int ns = many(r, r.range(0, 3)); std::vector<std::set<int> > in(m.c.size());
  for (std::size_t i = 0; i < m.c.size(); ++i)
  {
    b.c.push_back(add_cell(a->mesh, b.v, m.c[i]));
    for (int s = 0; s < ns; ++s) if (r.chance(0.5)) { vg::add(a->segmentation.get_make_segment(s * 3 + 1), vg::dereference_handle(a->mesh, b.c.back())); in[i].insert(s * 3 + 1); }
  }
  std::unique_ptr<SM> c; if (r.chance(0.5)) c.reset(new SM(*a)); else { c.reset(new SM); if (r.chance(0.7)) { Built x; GenOpt o2; o2.large = 0; o2.maxn = 2; Model m2 = gen_model(r, KIND, o2); x = build(c->mesh, m2); vg::add(c->segmentation.make_segment(), vg::dereference_handle(c->mesh, x.c[0])); } *c = *a; if (r.chance(0.3)) *c = *a; }
  if (r.chance(0.3)) { SM & self = *c; SM const & alias = self; self = alias; mon().hit("segmented-mesh-self-assigned"); }
  auto snap = [&](SM & s) { std::multiset<std::pair<std::vector<P3>, std::set<int> > > out;
    typedef vg::result_of::cell_range<Mesh>::type R; R cr(s.mesh);
    for (vg::result_of::iterator<R>::type it = cr.begin(); it != cr.end(); ++it)
    {
      std::vector<P3> c; typedef vg::result_of::const_vertex_range<Cell>::type VR; VR vr(*it);
      for (vg::result_of::iterator<VR>::type v = vr.begin(); v != vr.end(); ++v) c.push_back(to_p3(vg::point(s.mesh, *v)));
      std::set<int> ids; typedef vg::result_of::segment_id_range<Segmentation, Cell>::type SR; SR sr = vg::segment_ids(s.segmentation, *it);
      for (vg::result_of::iterator<SR>::type x = sr.begin(); x != sr.end(); ++x) ids.insert(int(*x));
      for (int q = 0; q < ns; ++q) { auto f = s.segmentation.find(q * 3 + 1); bool inside = f != s.segmentation.end() && vg::is_in_segment(*f, *it); CHECK(inside == bool(ids.count(q * 3 + 1)), "segmented-copy-membership", q); }
      out.insert(std::make_pair(c, ids));
    } return out; };
  std::multiset<std::pair<std::vector<P3>, std::set<int> > > want;
  for (std::size_t i = 0; i < m.c.size(); ++i) { std::vector<P3> q; for (int v : m.c[i]) q.push_back(m.p[v]); want.insert(std::make_pair(q, in[i])); }
  CHECK(snap(*a) == want, "segmented-copy-source-changed", m.str());
  CHECK(snap(*c) == want, "segmented-copy", m.str());
  if (r.chance(0.5)) { a.reset(); CHECK(snap(*c) == want, "segmented-copy-depends-on-source", m.str()); }
  else { c->clear(); CHECK(vg::cells(c->mesh).size() == 0 && c->segmentation.size() == 0, "segmented-clear", ""); c.reset(); CHECK(snap(*a) == want, "segmented-copy-source-changed", m.str()); }
  mon().hit("segmented-mesh-copies");
}
#endif

void run_case(Rng & r, long)
{
  std::vector<W> ws; ws.emplace_back(); if (r.chance(0.9)) fill(ws[0], r);
  int steps = r.range(10, 40); uint64_t h = 0;
  for (int t = 0; t < steps; ++t)
  {
    W & w = ws[r.below(int(ws.size()))];
    int x = r.below(100);
    if (x < 15) add_vertex(w, r);
    else if (x < 35) { if (w.s.cells.size() < 40) add_random_cell(w, r); }
    else if (x < 40) add_line(w, r);
    else if (x < 50) CheckQueries(*w.m, w.s, r)();
#if PROP == 9
    else if (x < 60) { if (ws.size() < 4) { W n; n.m.reset(new Mesh(*w.m)); n.s = w.s; ws.push_back(std::move(n)); mon().hit("copy-constructed"); } }
    else if (x < 72) { int j = r.below(int(ws.size())); if (&ws[j] != &w) { if (!ws[j].s.cells.empty() && !w.s.cells.empty()) mon().hit("assigned-over-nonempty"); *ws[j].m = *w.m; ws[j].s = w.s; mon().hit("assigned"); } }
    else if (x < 75) { Mesh & self = *w.m; Mesh const & alias = self; self = alias; mon().hit("self-assigned"); }
    else if (x < 79) { if (r.chance(0.5)) w.m->clear(); else vg::clear(*w.m); w.s = Shadow(); mon().hit("cleared"); }
    else if (x < 84) { if (ws.size() > 1) { int j = r.below(int(ws.size())); ws.erase(ws.begin() + j); mon().hit("copy-destroyed"); } }
    else if (x < 88) fill(w, r);
    else if (x < 91) cell_copy(w, r);
#else
    else if (x < 92) { erase_some(w, r); if (r.chance(0.6)) CheckQueries(*w.m, w.s, r)(); }
    else if (x < 95) fill(w, r);
    else { CheckMesh(*w.m, w.s)(); ViewTest(w, r).run(); }
#endif
    if (r.chance(0.4)) for (W & y : ws) CheckMesh(*y.m, y.s)();
    if (r.chance(0.3)) { W & y = ws[r.below(int(ws.size()))]; CheckQueries(*y.m, y.s, r)(); }
  }
  for (W & y : ws) { CheckMesh(*y.m, y.s)(); CheckQueries(*y.m, y.s, r)(); h = mix(h, y.s.hash()); }
#if PROP == 9
  if (r.chance(0.4)) segmented_copy(r);
#endif
  mon().state(h); mon().sample(ws[0].s.str());
}

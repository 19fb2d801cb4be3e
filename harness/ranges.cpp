// C26: every range (mesh, segment, view, boundary, co-boundary, neighbors; const or not) is one consistent sequence however it is traversed.
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/element/element_view.hpp"

static std::string ctx_;
template<class R, class MS> IV traverse(R & g, MS & ms, Rng & r, const char * what)
{
  typedef typename vg::result_of::iterator<R>::type It; typedef typename vg::result_of::const_iterator<R>::type CIt;
  IV f; std::vector<const void *> adr; for (It it = g.begin(); it != g.end(); ++it) { f.push_back(int((*it).id().get())); adr.push_back(&*it); }
  int n = int(f.size()); auto at = [&](int i) { std::ostringstream o; o << what << " of " << n << " at " << i << " | " << ctx_; return o.str(); };
  CHECK(int(g.size()) == n && g.empty() == (n == 0), "range-size", at(n) << ": size() " << g.size() << " empty() " << g.empty());
  { IV b; It it = g.begin(); while (it != g.end()) { It old = it++; b.push_back(int((*old).id().get())); } CHECK(b == f, "postfix-increment", at(0) << " " << show(b) << " " << show(f)); }
  { IV b; It it = g.end(); while (it != g.begin()) { --it; b.push_back(int((*it).id().get())); } std::reverse(b.begin(), b.end()); CHECK(b == f, "prefix-decrement", at(0) << " " << show(b)); }
  { IV b; It it = g.end(); bool first = true; while (it != g.begin()) { It old = it--; if (first) CHECK(old == g.end(), "postfix-decrement", at(n)); else CHECK(&*old == adr[n - b.size()], "postfix-decrement", at(n)); first = false; b.push_back(int((*it).id().get())); } std::reverse(b.begin(), b.end()); CHECK(b == f, "postfix-decrement", at(0) << " " << show(b)); }
  { R const & cg = g; IV b; int i = 0; for (CIt it = cg.begin(); it != cg.end(); ++it, ++i) { b.push_back(int((*it).id().get())); CHECK(&*it == adr[i], "const-traversal", at(i)); } CHECK(b == f, "const-traversal", at(0)); CHECK(int(cg.size()) == n, "const-size", at(0)); for (i = 0; i < n; ++i) CHECK(&cg[i] == adr[i], "const-index", at(i)); }
  for (int i = 0; i < n; ++i)
  {
    CHECK(&g[i] == adr[i], "index", at(i)); auto h = g.handle_at(i); CHECK(&vg::dereference_handle(ms, h) == adr[i], "handle-at", at(i));
    It it = g.begin(); std::advance(it, i); CHECK(&*it == adr[i], "advance", at(i)); CHECK(&vg::dereference_handle(ms, it.handle()) == adr[i], "iterator-handle", at(i)); CHECK(std::distance(g.begin(), it) == i, "distance", at(i));
    It e = g.end(); std::advance(e, i - n); CHECK(e == it && !(e != it), "iterator-equality", at(i)); It cp = it; CHECK(cp == it, "iterator-copy", at(i)); ++cp; CHECK(cp != it, "iterator-copy", at(i)); It as = g.begin(); as = it; CHECK(as == it && &*as == adr[i], "iterator-assign", at(i));
    CHECK((*it).id() == vg::dereference_handle(ms, h).id(), "id", at(i));
  }
  if (n) CHECK(&*g.begin() == adr[0], "front", at(0));
  { int k = n ? r.below(n) : 0; It a = g.begin(); std::advance(a, k); int c = 0; IV b; for (It it = a; it != g.end(); ++it) b.push_back(int((*it).id().get())); c = int(b.size()); CHECK(c == n - k && std::equal(b.begin(), b.end(), f.begin() + k), "from-the-middle", at(k)); }
  { R g2(g); IV b; for (It it = g2.begin(); it != g2.end(); ++it) b.push_back(int((*it).id().get())); CHECK(b == f, "range-copy", at(0)); }
  mon().hit(what); mon().hit("elements", n); if (!n) mon().hit("empty-range"); return f;
}
static void same(IV const & a, IV const & b, const char * what) { CHECK(a == b, "const-and-mutable-differ", what << ": " << show(a) << " / " << show(b) << " | " << ctx_); }

template<class T, class MS> void elements_of(MS & ms, Rng & r, bool mesh, std::vector<int> * ids = 0)
{
  typedef typename vg::result_of::element_range<MS, T>::type R; typedef typename vg::result_of::const_element_range<MS, T>::type CR; MS const & cms = ms;
  R g(ms); IV a = traverse(g, ms, r, mesh ? "mesh-range" : "segment-range"); CR c(cms); IV b = traverse(c, cms, r, mesh ? "const-mesh-range" : "const-segment-range"); same(a, b, "elements");
  R h = vg::elements<T>(ms); same(a, traverse(h, ms, r, "elements()"), "elements()"); CR k = vg::elements<T>(cms); same(a, traverse(k, cms, r, "elements() const"), "elements() const"); CR m(ms); same(a, traverse(m, cms, r, "const range of mutable"), "const range of mutable");
  std::set<int> s(a.begin(), a.end()); CHECK(s.size() == a.size(), "element-repeated", "an element appears twice | " << ctx_); if (ids) *ids = a;
}
// ranges over vertices and cells of a mesh also offer front, back, reverse iteration and find
template<class R, class MS> void ends(R & g, MS const & ms, IV const & ids, Rng & r, int absent)
{
  int i = 0, n = int(ids.size()); if (n) { CHECK(&g.front() == &g[0] && &g.back() == &g[n - 1], "front-back", ctx_); mon().hit("front-back"); }
  for (typename R::reverse_iterator it = g.rbegin(); it != g.rend(); ++it, ++i) CHECK(i < n && &*it == &g[n - 1 - i], "reverse-iteration", i << " of " << n); CHECK(i == n, "reverse-iteration", i << " of " << n);
  { R const & cg = g; if (n) CHECK(&cg.front() == &g[0] && &cg.back() == &g[n - 1], "const-front-back", ctx_); i = 0; for (typename R::const_reverse_iterator it = cg.rbegin(); it != cg.rend(); ++it, ++i) CHECK(i < n && &*it == &g[n - 1 - i], "const-reverse-iteration", i << " of " << n); CHECK(i == n, "const-reverse-iteration", i << " of " << n); if (n) { int k = r.below(n); CHECK(&*cg.find(g[k].id()) == &g[k], "const-range-find", "id " << ids[k]); CHECK(&vg::dereference_handle(ms, cg.handle_at(k)) == &g[k], "const-handle-at", k); } }
  if (n) { int k = r.below(n); CHECK(&*g.find(g[k].id()) == &g[k], "range-find", "id " << ids[k]); mon().hit("range-find"); } typedef typename R::value_type::id_type ID; CHECK(g.find(ID(absent)) == g.end(), "range-find-absent", absent);
}
template<class ET, class T, class MS> void boundary_of(MS & ms, Rng & r)
{
  typedef typename vg::result_of::element_range<MS, ET>::type ER; typedef typename vg::result_of::element<MS, ET>::type E; MS const & cms = ms; ER er(ms);
  for (typename vg::result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it)
  {
    if (!r.chance(0.5)) continue; E & e = *it; E const & ce = e; typedef typename vg::result_of::element_range<E, T>::type R; typedef typename vg::result_of::const_element_range<E, T>::type CR;
    R g(e); IV a = traverse(g, ms, r, "boundary-range"); CR c(ce); same(a, traverse(c, cms, r, "const-boundary-range"), "boundary"); R h = vg::elements<T>(e); same(a, traverse(h, ms, r, "boundary elements()"), "boundary elements()"); CR k = vg::elements<T>(ce); same(a, traverse(k, cms, r, "boundary elements() const"), "boundary elements() const");
  }
}
template<class ET, class T, class MS> void coboundary_of(MS & ms, Rng & r)
{
  typedef typename vg::result_of::element_range<MS, ET>::type ER; MS const & cms = ms; ER er(ms); typedef typename vg::result_of::element<MS, ET>::type E;
  for (typename vg::result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it)
  {
    if (!r.chance(0.3)) continue; typedef typename vg::result_of::coboundary_range<MS, ET, T>::type R; typedef typename vg::result_of::const_coboundary_range<MS, ET, T>::type CR; E const & ce = *it;
    R g(ms, it.handle()); IV a = traverse(g, ms, r, "coboundary-range"); CR c(cms, it.handle()); same(a, traverse(c, cms, r, "const-coboundary-range"), "coboundary"); R h = vg::coboundary_elements<ET, T>(ms, it.handle()); same(a, traverse(h, ms, r, "coboundary_elements()"), "coboundary_elements()"); CR k = vg::coboundary_elements<ET, T>(cms, it.handle()); same(a, traverse(k, cms, r, "coboundary_elements() const"), "coboundary_elements() const"); CR l(cms, ce); same(a, traverse(l, cms, r, "coboundary of element"), "coboundary of element");
  }
}
template<class ET, class T, class MS> void neighbors_of(MS & ms, Rng & r)
{
  typedef typename vg::result_of::element_range<MS, ET>::type ER; MS const & cms = ms; ER er(ms); typedef typename vg::result_of::element<MS, ET>::type E;
  for (typename vg::result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it)
  {
    if (!r.chance(0.3)) continue; typedef typename vg::result_of::neighbor_range<MS, ET, T>::type R; typedef typename vg::result_of::const_neighbor_range<MS, ET, T>::type CR; E const & ce = *it;
    R g(ms, it.handle()); IV a = traverse(g, ms, r, "neighbor-range"); CR c(cms, it.handle()); same(a, traverse(c, cms, r, "const-neighbor-range"), "neighbors"); R h = vg::neighbor_elements<ET, T>(ms, it.handle()); same(a, traverse(h, ms, r, "neighbor_elements()"), "neighbor_elements()"); CR k = vg::neighbor_elements<ET, T>(cms, it.handle()); same(a, traverse(k, cms, r, "neighbor_elements() const"), "neighbor_elements() const"); CR l(cms, ce); same(a, traverse(l, cms, r, "neighbors of element"), "neighbors of element");
  }
}
// the same ranges under their other names
template<class T, class G> void named(G g, IV const & want, const char * what) { IV a; std::size_t n = 0; for (typename vg::result_of::iterator<G>::type it = g.begin(); it != g.end(); ++it, ++n) { a.push_back(int((*it).id().get())); CHECK(T::dim == std::remove_reference<decltype(*it)>::type::tag::dim, "named-range-type", what); } CHECK(a == want && g.size() == n, "named-range", what << ": " << show(a) << " instead of " << show(want) << " | " << ctx_); mon().hit("named-ranges"); }
template<class T, class X> IV plain(X & x) { typedef typename vg::result_of::element_range<X, T>::type R; R r(x); IV a; for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) a.push_back(int((*it).id().get())); return a; }
#define NAMED(X, F, T) do { IV w_ = plain<T>(X); auto const & cx_ = X; named<T>(vg::F(X), w_, #F); named<T>(vg::F(cx_), w_, #F " const"); } while (0)
template<class X, bool CELL> void names(X & x)
{
  NAMED(x, vertices, vg::vertex_tag); NAMED(x, facets, FacetTag);
#if KIND > 2
  NAMED(x, lines, vg::line_tag); NAMED(x, edges, vg::line_tag);
#endif
#if KIND == 9
  NAMED(x, triangles, vg::triangle_tag);
#elif KIND == 10
  NAMED(x, quadrilaterals, vg::quadrilateral_tag);
#endif
}
template<class X> void own_names(X & x)
{
  NAMED(x, cells, CellTag);
#if KIND <= 2
  NAMED(x, lines, CellTag); NAMED(x, edges, CellTag);
#elif KIND <= 4
  NAMED(x, triangles, CellTag);
#elif KIND <= 6
  NAMED(x, quadrilaterals, CellTag);
#elif KIND <= 8
  NAMED(x, polygons, CellTag);
#elif KIND == 9
  NAMED(x, tetrahedra, CellTag);
#else
  NAMED(x, hexahedra, CellTag);
#endif
}
// filtered views hold exactly the accepted elements, in the order of the range
struct Keep { int mod, rem; template<class E> bool operator()(E const & e) const { return int(e.id().get()) % mod == rem; } };
template<class T, class X, class MS> void filtered(X & x, MS & ms, Rng & r, const char * what)
{
  Keep k = {r.range(1, 4), 0}; k.rem = r.below(k.mod); IV all = plain<T>(x), want; for (int i : all) if (i % k.mod == k.rem) want.push_back(i);
  typedef typename vg::result_of::element_view<X, T>::type W; W v = vg::element_view<T>(x, k); W w; w = v; IV a, b; typename vg::result_of::element<X, T>::type * last = 0;
  for (typename W::iterator it = v.begin(); it != v.end(); ++it) { a.push_back(int((*it).id().get())); CHECK(&vg::dereference_handle(ms, it.handle()) == &*it, "view-handle", what << " | " << ctx_); last = &*it; }
  W const & cw = w; for (typename W::const_iterator it = cw.begin(); it != cw.end(); ++it) b.push_back(int((*it).id().get()));
  CHECK(a == want && b == want && v.size() == want.size() && v.empty() == want.empty(), "filtered-view", what << ": " << show(a) << " / " << show(b) << " instead of " << show(want) << " | " << ctx_);
  for (std::size_t i = 0; i < want.size(); ++i) CHECK(int(v[i].id().get()) == want[i] && int(cw[i].id().get()) == want[i] && int(vg::dereference_handle(ms, v.handle_at(i)).id().get()) == want[i], "view-index", what << " at " << i); if (!want.empty()) CHECK(&v.front() == &v[0] && &v.back() == last && &cw.front() == &v[0] && &cw.back() == last, "view-ends", what);
  mon().hit("filtered-views"); mon().hit(what); if (!want.empty() && want.size() < all.size()) mon().hit("proper-views");
}
// for_each visits every element of the mesh or segment (of one dimension) exactly once
struct Log { std::map<int, std::multiset<int> > * m; std::set<const void *> * a; template<class E> void operator()(E & e) { (*m)[int(E::tag::dim)].insert(int(e.id().get())); a->insert(&e); } };
template<class MS> void visits(MS & ms)
{
  std::map<int, std::multiset<int> > got, want; std::set<const void *> adr; Log l = {&got, &adr};
  auto put = [&](int d, IV const & a) { want[d] = std::multiset<int>(a.begin(), a.end()); if (a.empty()) want.erase(d); };
  put(0, plain<vg::vertex_tag>(ms)); put(CellTag::dim, plain<CellTag>(ms));
#if KIND > 2
  put(1, plain<vg::line_tag>(ms));
#endif
#if KIND >= 9
  put(2, plain<FacetTag>(ms));
#endif
  vg::for_each(ms, l); CHECK(got == want, "for-each", "visited elements differ | " << ctx_); std::size_t n = 0; for (auto const & x : want) n += x.second.size(); CHECK(adr.size() == n, "for-each-addresses", adr.size()); mon().hit("for-each");
  got.clear(); vg::for_each<0>(ms, l); CHECK(got.size() <= 1 && got[0] == want[0], "for-each-vertices", ctx_); got.clear(); vg::for_each<CellTag::dim>(ms, l); CHECK(got.size() <= 1 && got[int(CellTag::dim)] == want[int(CellTag::dim)], "for-each-cells", ctx_);
#if KIND >= 9
  got.clear(); vg::for_each<2>(ms, l); CHECK(got.size() <= 1 && got[2] == want[2], "for-each-facets", ctx_);
#endif
}
// lookups by identifier and handle in a mesh or segment
template<class T, class MS> void lookups(Mesh & mesh, MS & ms)
{
  IV in = plain<T>(ms); std::set<int> have(in.begin(), in.end()); typedef typename vg::result_of::element_range<Mesh, T>::type R; R all(mesh); typedef typename vg::result_of::element<Mesh, T>::type E; MS const & cms = ms;
  typedef typename vg::result_of::element_range<MS, T>::type SR; SR sr(ms); typedef typename vg::result_of::const_element_range<MS, T>::type CSR; CSR csr(cms);
  for (typename vg::result_of::iterator<R>::type it = all.begin(); it != all.end(); ++it)
  {
    E & e = *it; bool w = have.count(int(e.id().get())); auto a = vg::find(ms, e.id()); auto b = vg::find(cms, e.id()); auto c = vg::find_by_handle(ms, it.handle()); auto d = vg::find_by_handle(cms, it.handle());
    CHECK((a != sr.end()) == w && (c != sr.end()) == w && (d != csr.end()) == w, "membership-lookup", e.id() << " | " << ctx_); if (w) { CHECK(&*a == &e && &*c == &e && &*d == &e && &*b == &e, "lookup", e.id() << " | " << ctx_); CHECK(vg::handle(ms, e) == it.handle() && vg::handle(ms, it.handle()) == it.handle(), "handle-of", e.id()); mon().hit("found"); } else mon().hit("not-in-segment");
  }
}
template<class MS> void more(Mesh & mesh, MS & ms, Rng & r)
{
  names<MS, false>(ms); own_names(ms); filtered<vg::vertex_tag>(ms, mesh, r, "view-vertices"); filtered<CellTag>(ms, mesh, r, "view-cells"); visits(ms); lookups<vg::vertex_tag>(mesh, ms); lookups<CellTag>(mesh, ms);
#if KIND > 2
  filtered<FacetTag>(ms, mesh, r, "view-facets"); lookups<FacetTag>(mesh, ms);
#endif
  typedef typename vg::result_of::element_range<MS, CellTag>::type R; R cs(ms); if (cs.size()) { Cell & c = cs[r.below(int(cs.size()))]; names<Cell, true>(c); filtered<vg::vertex_tag>(c, mesh, r, "view-of-cell");
    typedef typename vg::result_of::element_range<Cell, vg::vertex_tag>::type V; V vs(c); for (typename vg::result_of::iterator<V>::type it = vs.begin(); it != vs.end(); ++it) CHECK(vg::handle(c, *it) == it.handle(), "handle-on-cell", ctx_); }
}
template<class T> void of_segmentation(Segmentation & sg, Segment & a, Segment & b)
{
  IV x = plain<T>(a), y = plain<T>(b), u = plain<T>(sg); std::set<int> w(x.begin(), x.end()); w.insert(y.begin(), y.end()); CHECK(std::set<int>(u.begin(), u.end()) == w && u.size() == w.size(), "segmentation-range", show(u) << " | " << ctx_);
  Segmentation const & cs = sg; typedef typename vg::result_of::const_element_range<Segmentation, T>::type CR; CR c(cs); IV k; for (typename vg::result_of::iterator<CR>::type it = c.begin(); it != c.end(); ++it) k.push_back(int((*it).id().get())); CHECK(k == u, "segmentation-const-range", show(k)); named<T>(vg::elements<T>(sg), u, "elements of segmentation"); mon().hit("segmentation-ranges");
}
template<class MS> void sweep(MS & ms, Rng & r, bool mesh, IV * vs, IV * cs)
{
  elements_of<vg::vertex_tag>(ms, r, mesh, vs); elements_of<CellTag>(ms, r, mesh, cs); boundary_of<CellTag, vg::vertex_tag>(ms, r); coboundary_of<vg::vertex_tag, CellTag>(ms, r); neighbors_of<CellTag, vg::vertex_tag>(ms, r);
#if KIND > 2
  elements_of<FacetTag>(ms, r, mesh); boundary_of<CellTag, FacetTag>(ms, r); boundary_of<FacetTag, vg::vertex_tag>(ms, r); coboundary_of<FacetTag, CellTag>(ms, r); neighbors_of<CellTag, FacetTag>(ms, r);
#endif
#if KIND >= 9
  elements_of<vg::line_tag>(ms, r, mesh); boundary_of<CellTag, vg::line_tag>(ms, r); boundary_of<FacetTag, vg::line_tag>(ms, r); coboundary_of<vg::line_tag, FacetTag>(ms, r);
#endif
}

void run_case(Rng & r, long)
{
  GenOpt o; o.maxn = 2; o.isolated = r.chance(0.3) ? 1 : 0; Model m = gen_model(r, KIND, o); ctx_ = m.str(); if (r.chance(0.03)) { m.p.clear(); m.c.clear(); }
  Mesh mesh; Segmentation sg(mesh); Built b; IV vid, cid; int next = 0; bool gaps = r.chance(0.4);
  for (P3 const & q : m.p) { if (gaps && r.chance(0.3)) { next += id_gap(r); b.v.push_back(vg::make_vertex_with_id(mesh, Vertex::id_type(next), mkpt(q))); } else b.v.push_back(vg::make_vertex(mesh, mkpt(q))); next = int(vg::dereference_handle(mesh, b.v.back()).id().get()) + 1; vid.push_back(next - 1); }
  Segment s1 = sg.make_segment(), s2 = sg.make_segment(); std::set<int> in1, in1v; bool seg_made = false;
  for (std::size_t i = 0; i < m.c.size(); ++i) { CH h; bool into = r.chance(0.4); if (into && r.chance(0.5)) { h = add_cell(s1, b.v, m.c[i]); seg_made = true; } else { h = add_cell(mesh, b.v, m.c[i]); if (into) vg::add(s1, vg::dereference_handle(mesh, h)); } b.c.push_back(h); cid.push_back(int(vg::dereference_handle(mesh, h).id().get())); if (into) { in1.insert(cid.back()); for (int x : m.c[i]) in1v.insert(vid[x]); } }
  (void)seg_made; IV vs, cs; sweep(mesh, r, true, &vs, &cs); CHECK(vs == vid, "creation-order", "vertices are not listed in order of creation: " << show(vs)); CHECK(cs == cid, "creation-order", "cells are not listed in order of creation: " << show(cs));
  { typedef vg::result_of::element_range<Mesh, vg::vertex_tag>::type A; A a(mesh); ends(a, mesh, vid, r, 100000); typedef vg::result_of::const_element_range<Mesh, vg::vertex_tag>::type B; B b2(mesh); ends(b2, mesh, vid, r, 100000); typedef vg::result_of::element_range<Mesh, CellTag>::type C; C c(mesh); ends(c, mesh, cid, r, 100000); typedef vg::result_of::const_element_range<Mesh, CellTag>::type D; D d(mesh); ends(d, mesh, cid, r, 100000); }
  sweep(s1, r, false, &vs, &cs); CHECK(std::set<int>(vs.begin(), vs.end()) == in1v && std::set<int>(cs.begin(), cs.end()) == in1, "segment-content", show(cs) << " instead of " << show(in1));
  more(mesh, mesh, r); more(mesh, s1, r); more(mesh, s2, r); of_segmentation<vg::vertex_tag>(sg, s1, s2); of_segmentation<CellTag>(sg, s1, s2);
  if (m.c.size() > 1) mon().state(m.topo_hash()); mon().sample(m.str());
}

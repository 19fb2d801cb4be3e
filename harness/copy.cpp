// C27: element copying between meshes and segments.
#include "kinds.hpp"
#include <memory>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/topology/plc.hpp"

static double dist(P3 const & a, P3 const & b) { double s = 0; for (int d = 0; d < 3; ++d) s += (a[d] - b[d]) * (a[d] - b[d]); return std::sqrt(s); }
template<class M> struct Snap { std::vector<P3> p; std::map<int,int> pos; };
template<class M> Snap<M> vsnap(M const & mesh) { Snap<M> s; typedef typename vg::result_of::const_vertex_range<M>::type VR; VR vr(mesh); for (typename vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { s.pos[int((*it).id().get())] = int(s.p.size()); s.p.push_back(to_p3(vg::point(mesh, *it))); } return s; }
template<class T, class M> std::vector<IV> esnap(M const & mesh, std::map<int,int> const & pos) { std::vector<IV> c; typedef typename vg::result_of::const_element_range<M, T>::type R; R r(mesh); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { IV v = vids(*it); for (int & x : v) { CHECK(pos.count(x), "dangling-vertex", "element refers to vertex " << x << " which is not in the mesh"); x = pos.at(x); } c.push_back(v); } return c; }

#ifndef PLC_COPY
struct Src { Mesh mesh; Model m; Built b; IV vid; };
static void make(Rng & r, Src & s, double spread, Model const * near = 0)   // near: the same points up to the spread
{
  GenOpt o; o.maxn = 2; o.isolated = r.chance(0.3) ? 1 : 0; o.jitter = 0; Model m = gen_model(r, KIND, o); if (near) { m = *near; for (std::size_t i = 0; i < m.c.size(); ) if (m.c.size() > 1 && r.chance(0.3)) m.c.erase(m.c.begin() + i); else ++i; mon().hit("near-source"); } s.m = m; bool gaps = r.chance(0.4); int next = 0;
  for (P3 & q : s.m.p) for (int d = 0; d < m.gdim; ++d) q[d] += r.real(-spread, spread);
  for (P3 const & q : s.m.p) { if (gaps && r.chance(0.3)) { next += id_gap(r); s.b.v.push_back(vg::make_vertex_with_id(s.mesh, Vertex::id_type(next), mkpt(q))); mon().hit("id-gaps"); } else s.b.v.push_back(vg::make_vertex(s.mesh, mkpt(q))); next = int(vg::dereference_handle(s.mesh, s.b.v.back()).id().get()) + 1; s.vid.push_back(next - 1); }
  for (IV const & c : s.m.c) s.b.c.push_back(add_cell(s.mesh, s.b.v, c));
}
// relation between the destination before and after an operation that copied the elements `el` (source vertex indices) one by one
struct Dst { std::vector<P3> p; std::vector<IV> c; std::set<int> in; };   // in: vertices visible to the search (mesh: all; segment: its own)
struct Chk
{
  Src const & s; Dst d; double tol; bool seg; std::map<int,int> op;
  int corner(int v, int m, bool keep)
  {
    if (keep && op.count(v)) { CHECK(m == op[v], "vertex-not-reused", "source vertex " << v << " was copied to vertex " << op[v] << " and later to " << m); if (seg) d.in.insert(m); return m; }
    bool any = false; if (tol > 0) for (int x : d.in) if (dist(d.p[x], s.m.p[v]) < tol) { any = true; if (x == m) { op[v] = m; mon().hit("merged-vertices"); return m; } }
    CHECK(!any, "vertex-not-merged", "source vertex " << v << " became vertex " << m << " although a vertex within the tolerance " << tol << " exists");
    CHECK(m == int(d.p.size()), "vertex-wrongly-merged", "source vertex " << v << " became the existing vertex " << m << ", tolerance " << tol); d.p.push_back(s.m.p[v]); d.in.insert(m); op[v] = m; mon().hit("new-vertices"); return m;
  }
  void element(IV const & e, IV const & got, bool keep) { CHECK(e.size() == got.size(), "element-size", show(got)); if (!keep) op.clear(); for (std::size_t i = 0; i < e.size(); ++i) corner(e[i], got[i], keep); d.c.push_back(got); }
};
static void compare(Mesh const & mesh, Dst const & d, char const * what)
{
  auto s = vsnap(mesh); CHECK(s.p.size() == d.p.size(), "vertex-count", what << ": " << s.p.size() << " vertices instead of " << d.p.size());
  for (std::size_t i = 0; i < s.p.size(); ++i) for (int k = 0; k < 3; ++k) CHECK(s.p[i][k] == d.p[i][k], "vertex-moved", what << ": vertex " << i);
  std::vector<IV> c = esnap<CellTag>(mesh, s.pos); CHECK(c == d.c, "cells-differ", what << ": " << c.size() << " cells, expected " << d.c.size());
}
template<class T, class E> IV src_index(Src const & s, E const & e) { IV v = vids(e); for (int & x : v) x = int(std::find(s.vid.begin(), s.vid.end(), x) - s.vid.begin()); return v; }

// facets or edges copied to a mesh of their own: unique elements
template<class M2, class T> void lower(Rng & r, Src & s, Src & s2, double tol)
{
  M2 out; std::vector<P3> p; std::set<IV> keys; bool cells = vg::result_of::cell_tag<M2>::type::dim == T::dim; std::vector<IV> list;
  for (Src * q : {&s, &s2})
  {
    typedef typename vg::result_of::element_range<Mesh, T>::type R; R rg(q->mesh); std::vector<typename vg::result_of::handle<Mesh, T>::type> h; std::vector<IV> e;
    for (typename vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) if (r.chance(0.6)) { h.push_back(it.handle()); e.push_back(src_index<T>(*q, *it)); }
    if (r.chance(0.5)) { vg::copy_elements_by_handle(static_cast<Mesh const &>(q->mesh), h.begin(), h.end(), out, tol); mon().hit("lower-by-handle"); } else { for (auto & x : h) vg::copy_element(vg::dereference_handle(q->mesh, x), out, tol); mon().hit("lower-by-element"); }
    for (IV & x : e) { for (int & v : x) { int m = -1; for (std::size_t i = 0; i < p.size(); ++i) if (dist(p[i], q->m.p[v]) < tol) m = int(i); if (m < 0) { m = int(p.size()); p.push_back(q->m.p[v]); } v = m; } keys.insert(sorted(x)); list.push_back(x); }
  }
  auto sn = vsnap(out); CHECK(sn.p.size() == p.size(), "vertex-count", sn.p.size() << " vertices instead of " << p.size()); for (std::size_t i = 0; i < p.size(); ++i) CHECK(sn.p[i] == p[i], "vertex-moved", "vertex " << i);
  std::vector<IV> c = esnap<T>(out, sn.pos); if (cells) CHECK(c == list, "cells-differ", "copied lower elements as cells"); else { std::set<IV> k; for (IV const & x : c) CHECK(k.insert(sorted(x)).second, "element-repeated", show(x)); CHECK(k == keys, "elements-differ", k.size() << " elements instead of " << keys.size()); }
}

void run_case(Rng & r, long)
{
  double tol = std::pow(10.0, r.range(-6, -3)); const bool wide = r.chance(0.35); const double spread = wide ? tol * r.real(0.2, 0.9) : tol / 8; if (wide) mon().hit("distances-around-tolerance"); Src a, b; make(r, a, spread); Model const base = a.m; const double away = wide ? spread : tol / 8; make(r, b, away, r.chance(0.6) ? &base : 0); Src * srcs[] = {&a, &b};
  bool use_seg = r.chance(0.35); Mesh out; Segmentation sg(out); Dst d;
  if (use_seg || r.chance(0.4)) { Src t; make(r, t, away, r.chance(0.6) ? &base : 0); d.p = t.m.p; d.c = t.m.c; build(out, t.m, false); mon().hit("non-empty-destination"); }
  Segment seg = sg.make_segment(), other = sg.make_segment(); std::set<int> in; std::set<int> segcells;
  if (use_seg) { typedef vg::result_of::cell_range<Mesh>::type R; R rg(out); int i = 0; for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it, ++i) if (r.chance(0.4)) { vg::add(seg, *it); segcells.insert(i); in.insert(d.c[i].begin(), d.c[i].end()); } }
  else for (std::size_t i = 0; i < d.p.size(); ++i) in.insert(int(i));
  typedef vg::vertex_copy_map<Mesh, Mesh> VM; std::vector<std::unique_ptr<VM>> vms; for (int i = 0; i < 2; ++i) vms.emplace_back(new VM(out)); std::map<int,int> vmap[2];
  int ops = r.range(1, 6);
  for (int k = 0; k < ops; ++k)
  {
    int w = r.below(2); Src & s = *srcs[w]; double t = r.chance(0.5) ? tol : r.chance(0.5) ? 0.0 : -1.0; bool into_seg = use_seg && r.chance(0.7);
    Dst d0 = d; d0.in.clear(); if (into_seg) d0.in = in; else for (std::size_t i = 0; i < d.p.size(); ++i) d0.in.insert(int(i));
    std::vector<int> el; int op = r.below(into_seg ? 3 : 5); bool keep = true; std::vector<int> retv; std::vector<IV> ret;
    if (s.m.c.empty()) continue;
    auto note = [&](CH h) { ret.push_back(vids(vg::dereference_handle(out, h))); };
    std::map<int,int> seedmap;
    if (op == 0) { keep = false; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { int c = r.below(int(s.m.c.size())); el.push_back(c); Cell const & e = vg::dereference_handle(s.mesh, s.b.c[c]); bool def = t < 0 && r.chance(0.5); note(into_seg ? (def ? vg::copy_element(e, seg) : vg::copy_element(e, seg, t)) : (def ? vg::copy_element(e, out) : vg::copy_element(e, out, t))); } mon().hit("copy_element"); }
    else if (op == 1) { int f = r.below(int(s.m.c.size())), l = r.range(f, int(s.m.c.size())); for (int i = f; i < l; ++i) el.push_back(i); typedef vg::result_of::const_cell_range<Mesh>::type R; R rg(s.mesh); vg::result_of::iterator<R>::type x = rg.begin(), y = rg.begin(); std::advance(x, f); std::advance(y, l); bool def = t < 0 && r.chance(0.5); if (into_seg) { if (def) vg::copy_elements(x, y, seg); else vg::copy_elements(x, y, seg, t); } else { if (def) vg::copy_elements(x, y, out); else vg::copy_elements(x, y, out, t); } mon().hit("copy_elements"); }
    else if (op == 2) { std::vector<CH> h; int n = r.range(0, 4); for (int i = 0; i < n; ++i) { el.push_back(r.below(int(s.m.c.size()))); h.push_back(s.b.c[el.back()]); } bool def = t < 0 && r.chance(0.5); Mesh const & sm = s.mesh; if (into_seg) { if (def) vg::copy_elements_by_handle(sm, h.begin(), h.end(), seg); else vg::copy_elements_by_handle(sm, h.begin(), h.end(), seg, t); } else { if (def) vg::copy_elements_by_handle(sm, h.begin(), h.end(), out); else vg::copy_elements_by_handle(sm, h.begin(), h.end(), out, t); } mon().hit("copy_elements_by_handle"); }
    else if (op == 3) { seedmap = vmap[w]; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { el.push_back(r.below(int(s.m.c.size()))); Cell const & e = vg::dereference_handle(s.mesh, s.b.c[el.back()]); note(t == 0 && r.chance(0.5) ? vms[w]->copy_element(e) : vms[w]->copy_element(e, t)); } mon().hit("vertex_copy_map"); }
    else { int v = r.below(int(s.m.p.size())); VH h = (*vms[w])(vg::dereference_handle(s.mesh, s.b.v[v]), t); auto sn = vsnap(out); int m = sn.pos.at(int(vg::dereference_handle(out, h).id().get())); Chk c{s, d0, t, false, vmap[w]}; c.corner(v, m, true); vmap[w] = c.op; d = c.d; compare(out, d, "vertex copied"); mon().hit("vertex-copied"); continue; }
    auto sn = vsnap(out); std::vector<IV> cells = esnap<CellTag>(out, sn.pos); CHECK(cells.size() == d.c.size() + el.size(), "cell-count", cells.size() << " cells instead of " << d.c.size() + el.size());
    Chk c{s, d0, t, into_seg, seedmap}; for (std::size_t i = 0; i < el.size(); ++i) { c.element(s.m.c[el[i]], cells[d.c.size() + i], keep); if (into_seg) segcells.insert(int(d.c.size() + i)); }
    for (std::size_t i = 0; i < ret.size(); ++i) { for (int & x : ret[i]) x = sn.pos.at(x); CHECK(ret[i] == cells[d.c.size() + i], "returned-handle", "handle refers to " << show(ret[i])); }
    if (op == 3) vmap[w] = c.op;
    if (into_seg) in = c.d.in; d = c.d; compare(out, d, "elements copied");
    if (into_seg) mon().hit("into-segment");
    if (t > 0) mon().hit("with-tolerance"); else mon().hit("without-tolerance");
  }
  if (use_seg)
  {
    auto sn = vsnap(out); std::set<int> sv; auto ss = vsnap(seg); for (auto const & x : ss.pos) sv.insert(sn.pos.at(x.first)); CHECK(sv == in, "segment-vertices", "segment has vertices " << show(sv) << " instead of " << show(in));
    typedef vg::result_of::cell_range<Mesh>::type R; R rg(out); int i = 0; for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it, ++i) CHECK(vg::is_in_segment(seg, *it) == (segcells.count(i) > 0) && !vg::is_in_segment(other, *it), "segment-cells", "cell " << i);
  }
  for (Src * s : srcs) { Dst e; e.p = s->m.p; e.c = s->m.c; compare(s->mesh, e, "source"); }
#if KIND == 9
  if (!wide) { lower<vg::triangular_3d_mesh, vg::triangle_tag>(r, a, b, tol); lower<vg::line_3d_mesh, vg::line_tag>(r, a, b, tol); lower<vg::tetrahedral_3d_mesh, vg::triangle_tag>(r, a, b, tol); mon().hit("other-mesh-type"); }
#elif KIND == 10
  if (!wide) { lower<vg::quadrilateral_3d_mesh, vg::quadrilateral_tag>(r, a, b, tol); lower<vg::line_3d_mesh, vg::line_tag>(r, a, b, tol); mon().hit("other-mesh-type"); }
#elif KIND == 4
  if (!wide) { lower<vg::tetrahedral_3d_mesh, vg::triangle_tag>(r, a, b, tol); lower<vg::line_3d_mesh, vg::line_tag>(r, a, b, tol); mon().hit("other-mesh-type"); }
#elif KIND == 3
  if (!wide) { lower<vg::line_2d_mesh, vg::line_tag>(r, a, b, tol); lower<vg::triangular_2d_mesh, vg::line_tag>(r, a, b, tol); mon().hit("other-mesh-type"); }
#endif
  mon().state(mix(a.m.hash(), b.m.hash())); mon().sample(a.m.str());
}
#else
typedef vg::plc_3d_mesh PM; typedef vg::result_of::point<PM>::type PP; typedef vg::result_of::vertex_handle<PM>::type PVH; typedef vg::result_of::line_handle<PM>::type PLH; typedef vg::result_of::plc_handle<PM>::type PPH; typedef vg::result_of::element<PM, vg::plc_tag>::type PLC; typedef vg::result_of::element<PM, vg::line_tag>::type Line;
struct Facet { std::vector<std::array<P3,2>> lines; std::vector<P3> v, holes; };
static bool pless(P3 const & a, P3 const & b) { return a < b; }
static Facet facet(PM const & m, PLC const & f)
{
  Facet x; typedef vg::result_of::const_line_range<PLC>::type LR; LR l(f); for (vg::result_of::iterator<LR>::type it = l.begin(); it != l.end(); ++it) { typedef vg::result_of::const_vertex_range<Line>::type VR; VR v(*it); std::array<P3,2> e; int i = 0; for (vg::result_of::iterator<VR>::type k = v.begin(); k != v.end(); ++k) e[i++] = to_p3(vg::point(m, *k)); if (e[1] < e[0]) std::swap(e[0], e[1]); x.lines.push_back(e); }
  typedef vg::result_of::const_vertex_range<PLC>::type VR; VR v(f); for (vg::result_of::iterator<VR>::type k = v.begin(); k != v.end(); ++k) x.v.push_back(to_p3(vg::point(m, *k)));
  for (auto const & h : vg::hole_points(f)) x.holes.push_back(to_p3(h)); std::sort(x.lines.begin(), x.lines.end()); std::sort(x.v.begin(), x.v.end(), pless); return x;
}
static std::vector<Facet> all(PM const & m) { std::vector<Facet> r; typedef vg::result_of::const_plc_range<PM>::type R; R rg(m); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) r.push_back(facet(m, *it)); return r; }
static bool eq(Facet const & a, Facet const & b) { return a.lines == b.lines && a.v == b.v && a.holes == b.holes; }
void run_case(Rng & r, long)
{
  PM src; std::vector<PVH> v; std::set<P3> used; int n = r.range(4, 9); while (int(v.size()) < n) { P3 q = {{double(r.range(-4, 4)), double(r.range(-4, 4)), double(r.range(-4, 4))}}; if (used.insert(q).second) v.push_back(vg::make_vertex(src, PP(q[0], q[1], q[2]))); }
  std::vector<PPH> h; std::vector<Facet> want; std::set<std::vector<std::array<P3,2>>> keys; int nf = r.range(1, 5);
  for (int f = 0; f < nf; ++f)
  {
    IV o; for (int i = 0; i < n; ++i) o.push_back(i); r.shuffle(o); int k = r.range(3, std::min(n, 5)); std::set<std::array<P3,2>> lk; std::vector<PLH> l;
    for (int i = 0; i < k; ++i) { l.push_back(vg::make_line(src, v[o[i]], v[o[(i + 1) % k]])); std::array<P3,2> e = {{to_p3(vg::point(src, v[o[i]])), to_p3(vg::point(src, v[o[(i + 1) % k]]))}}; if (e[1] < e[0]) std::swap(e[0], e[1]); lk.insert(e); }
    std::vector<std::array<P3,2>> key(lk.begin(), lk.end()); if (!keys.insert(key).second) continue;
    std::vector<PVH> loose; int nl = r.chance(0.5) ? 0 : r.range(1, n - k > 0 ? n - k : 1); for (int i = k; i < n && int(loose.size()) < nl; ++i) loose.push_back(v[o[i]]);
    std::vector<PP> holes; int nh = r.chance(0.5) ? 0 : r.range(1, 2); for (int i = 0; i < nh; ++i) holes.push_back(PP(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)));
    h.push_back(vg::make_plc(src, l.begin(), l.end(), loose.begin(), loose.end(), holes.begin(), holes.end())); if (!loose.empty()) mon().hit("plc-loose-vertices"); if (!holes.empty()) mon().hit("plc-holes");
  }
  std::vector<Facet> before = all(src); CHECK(before.size() == h.size(), "source-facets", before.size() << " facets made instead of " << h.size());
  PM out; double tol = r.chance(0.5) ? 1e-6 : -1.0; std::vector<int> pick; bool by = r.chance(0.5);
  if (by) { std::vector<PPH> hh; for (std::size_t i = 0; i < h.size(); ++i) if (r.chance(0.7)) { pick.push_back(int(i)); hh.push_back(h[i]); } vg::copy_elements_by_handle(static_cast<PM const &>(src), hh.begin(), hh.end(), out, tol); mon().hit("plc-by-handle"); }
  else { int f = r.below(int(h.size())), e = r.range(f, int(h.size())); for (int i = f; i < e; ++i) pick.push_back(i); typedef vg::result_of::const_plc_range<PM>::type R; R rg(src); vg::result_of::iterator<R>::type x = rg.begin(), y = rg.begin(); std::advance(x, f); std::advance(y, e); if (tol < 0 && r.chance(0.5)) vg::copy_elements(x, y, out); else vg::copy_elements(x, y, out, tol); mon().hit("plc-by-range"); }
  std::vector<Facet> got = all(out), after = all(src); CHECK(after.size() == before.size(), "source-changed", "source changed"); for (std::size_t i = 0; i < after.size(); ++i) CHECK(eq(after[i], before[i]), "source-changed", "facet " << i);
  CHECK(got.size() == pick.size(), "plc-count", got.size() << " facets instead of " << pick.size());
  std::set<P3> pts; std::set<std::array<P3,2>> ls; uint64_t hs = 0;
  for (std::size_t i = 0; i < pick.size(); ++i) { Facet const & w = before[pick[i]]; CHECK(got[i].lines == w.lines, "plc-lines", "facet " << i << " has " << got[i].lines.size() << " lines instead of " << w.lines.size()); CHECK(got[i].v == w.v, "plc-vertices", "facet " << i << " has " << got[i].v.size() << " vertices instead of " << w.v.size()); CHECK(got[i].holes == w.holes, "plc-hole-points", "facet " << i << " has " << got[i].holes.size() << " hole points instead of " << w.holes.size()); for (auto const & e : w.lines) ls.insert(e); for (auto const & q : w.v) { pts.insert(q); for (double c : q) hs = mix(hs, int(c) + 9); } }
  CHECK(vg::vertices(out).size() == pts.size(), "vertex-count", vg::vertices(out).size() << " vertices instead of " << pts.size()); CHECK(vg::lines(out).size() == ls.size(), "line-count", vg::lines(out).size() << " lines instead of " << ls.size());
  mon().state(hs);
}
#endif

// Piecewise linear complexes (facets with any number of lines, loose vertices and hole points) under random histories:
// C01 (creation), C04 (co-boundaries), C08 (segments), C09 (copies), C10 (deletion).
#include "kinds.hpp"
#include <memory>
#include "viennagrid/topology/plc.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"

typedef vg::plc_3d_mesh M; typedef vg::plc_3d_segmentation SG; typedef vg::result_of::segment_handle<SG>::type Seg; typedef vg::result_of::point<M>::type Pt;
typedef vg::result_of::vertex<M>::type V; typedef vg::result_of::line<M>::type L; typedef vg::result_of::plc<M>::type F;
typedef vg::result_of::vertex_handle<M>::type VH; typedef vg::result_of::line_handle<M>::type LH; typedef vg::result_of::plc_handle<M>::type FH;

struct Facet { IV lines; std::set<int> v; std::vector<P3> holes; };     // ids
struct World
{
  M mesh; std::unique_ptr<SG> sg; std::map<int, P3> v; std::map<int, IV> l; std::map<IV, int> key; std::map<int, Facet> f; std::map<int, std::set<int> > sf, sl, sv;   // segment -> ids
  std::string str() const { std::ostringstream o; for (auto const & x : l) o << x.first << "=" << show(x.second) << " "; for (auto const & x : f) o << x.first << ":" << show(x.second.lines) << show(x.second.v) << " "; return o.str(); }
  VH vh(int i) { return vg::handle(mesh, *vg::find(mesh, V::id_type(i))); } LH lh(int i) { return vg::handle(mesh, *vg::find(mesh, L::id_type(i))); } FH fh(int i) { return vg::handle(mesh, *vg::find(mesh, F::id_type(i))); }

  template<class T, class H> static IV ids(H const & h)
  { typedef typename vg::result_of::const_element_range<H, T>::type R; R r(h); IV x; for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) x.push_back(int((*it).id().get())); CHECK(x.size() == r.size(), "plc-range-size", r.size()); return x; }
  template<class T, class K> static void same(IV got, std::map<int, K> const & want, char const * what, std::string const & s)
  { IV w; for (auto const & x : want) w.push_back(x.first); std::sort(got.begin(), got.end()); CHECK(got == w, what, show(got) << " expected " << show(w) << " | " << s); }

  void check_mesh(M const & cm)
  {
    same<V>(ids<vg::vertex_tag>(cm), v, "plc-vertices", str()); same<L>(ids<vg::line_tag>(cm), l, "plc-lines", str()); same<F>(ids<vg::plc_tag>(cm), f, "plc-facets", str());
    for (auto const & x : v) { auto it = vg::find(cm, V::id_type(x.first)); CHECK(to_p3(vg::point(cm, *it)) == x.second, "plc-vertex", x.first << " | " << str()); }
    for (auto const & x : l) { auto it = vg::find(cm, L::id_type(x.first)); CHECK(sorted(vids(*it)) == sorted(x.second), "plc-line-vertices", x.first << " has " << show(vids(*it)) << " | " << str()); }
    for (auto const & x : f)
    {
      auto it = vg::find(cm, F::id_type(x.first)); F const & q = *it; IV gl = ids<vg::line_tag>(q), gv = ids<vg::vertex_tag>(q); CHECK(sorted(gl) == sorted(x.second.lines), "plc-facet-lines", "facet " << x.first << " has lines " << show(gl) << " expected " << show(x.second.lines) << " | " << str());
      std::set<int> s(gv.begin(), gv.end()); CHECK(s.size() == gv.size() && s == x.second.v, "plc-facet-vertices", "facet " << x.first << " has vertices " << show(gv) << " expected " << show(x.second.v) << " | " << str());
      std::vector<P3> h; for (auto const & y : vg::hole_points(q)) h.push_back(to_p3(y)); CHECK(h == x.second.holes, "plc-hole-points", "facet " << x.first << " has " << h.size() << " hole points instead of " << x.second.holes.size());
      std::set<void const *> own; typedef vg::result_of::const_line_range<M>::type LR; LR lr(cm); for (vg::result_of::iterator<LR>::type k = lr.begin(); k != lr.end(); ++k) own.insert(&*k);
      typedef vg::result_of::const_line_range<F>::type FL; FL fl(q); for (vg::result_of::iterator<FL>::type k = fl.begin(); k != fl.end(); ++k) CHECK(own.count(&*k), "plc-foreign-line", "facet " << x.first);
      mon().hit("plc-facets");
    }
  }
  template<class MS, class T> std::multiset<int> cob_line(MS & ms, V & q) { std::multiset<int> g; typedef typename vg::result_of::coboundary_range<MS, vg::vertex_tag, T>::type R; R r(ms, vg::handle(ms, q)); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) g.insert(int((*it).id().get())); return g; }
  void check_cob()
  {
    for (auto const & x : v)
    {
      V & q = *vg::find(mesh, V::id_type(x.first)); std::multiset<int> wl, wf; for (auto const & y : l) if (std::count(y.second.begin(), y.second.end(), x.first)) wl.insert(y.first); for (auto const & y : f) if (y.second.v.count(x.first)) wf.insert(y.first);
      CHECK((cob_line<M, vg::line_tag>(mesh, q)) == wl, "plc-coboundary", "lines of vertex " << x.first << " | " << str()); CHECK((cob_line<M, vg::plc_tag>(mesh, q)) == wf, "plc-coboundary", "facets of vertex " << x.first << " | " << str()); mon().hit("plc-coboundaries");
    }
    for (auto const & x : l)
    {
      L & q = *vg::find(mesh, L::id_type(x.first)); std::multiset<int> wf, g; for (auto const & y : f) if (std::count(y.second.lines.begin(), y.second.lines.end(), x.first)) wf.insert(y.first);
      typedef vg::result_of::coboundary_range<M, vg::line_tag, vg::plc_tag>::type R; R r(mesh, vg::handle(mesh, q)); for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) g.insert(int((*it).id().get()));
      CHECK(g == wf, "plc-coboundary", "facets of line " << x.first << " | " << str());
    }
  }
  void check_seg()
  {
    for (auto const & s : sf)
    {
      Seg const & g = (*sg)(s.first); IV a = sorted(ids<vg::plc_tag>(g)), b = sorted(ids<vg::line_tag>(g)), c = sorted(ids<vg::vertex_tag>(g));
      CHECK(a == IV(s.second.begin(), s.second.end()), "plc-segment-facets", "segment " << s.first << " " << show(a) << " | " << str());
      CHECK(b == IV(sl[s.first].begin(), sl[s.first].end()), "plc-segment-lines", "segment " << s.first << " " << show(b) << " expected " << show(sl[s.first]) << " | " << str());
      CHECK(c == IV(sv[s.first].begin(), sv[s.first].end()), "plc-segment-vertices", "segment " << s.first << " " << show(c) << " expected " << show(sv[s.first]) << " | " << str());
      for (auto const & x : f) CHECK(vg::is_in_segment(g, *vg::find(mesh, F::id_type(x.first))) == (s.second.count(x.first) > 0), "plc-membership", x.first); mon().hit("plc-segments");
    }
  }
  template<class MS> int line(MS & ms, int a, int b)
  {
    LH h = vg::make_line(ms, vh(a), vh(b)); int id = int(vg::dereference_handle(mesh, h).id().get()); IV k = sorted(IV{a, b});
    if (key.count(k)) { CHECK(key[k] == id, "plc-line-duplicated", "line " << show(k) << " got id " << id << " exists as " << key[k]); mon().hit("plc-line-existing"); } else { CHECK(!l.count(id), "plc-id-reused", id); key[k] = id; l[id] = IV{a, b}; mon().hit("plc-line-new"); }
    return id;
  }
  void kill_line(int id) { key.erase(sorted(l[id])); l.erase(id); for (auto y = f.begin(); y != f.end(); ) if (std::count(y->second.lines.begin(), y->second.lines.end(), id)) f.erase(y++); else ++y; }
  void note(int g, int id) { sf[g].insert(id); for (int x : f[id].lines) { sl[g].insert(x); for (int y : l[x]) sv[g].insert(y); } for (int y : f[id].v) sv[g].insert(y); }
  template<class MS> void facet(MS & ms, Rng & r, int g)
  {
    IV o; for (auto const & x : v) o.push_back(x.first); r.shuffle(o); int n = int(o.size()), k = r.chance(0.1) ? n : r.range(3, std::min(n, 6)); Facet q; std::vector<LH> lh_; std::set<int> seen;
    for (int i = 0; i < k; ++i) { int a = o[i], b = o[(i + 1) % k]; if (r.chance(0.5)) std::swap(a, b); int id = line(mesh, a, b); seen.insert(id); q.lines.push_back(id); q.v.insert(a); q.v.insert(b); }
    if (k < n && r.chance(0.3)) { int id = line(mesh, o[0], o[k]); if (seen.insert(id).second) { q.lines.push_back(id); q.v.insert(o[k]); } mon().hit("plc-dangling-line"); }
    for (auto const & x : f) if (sorted(x.second.lines) == sorted(q.lines)) return;
    for (int id : q.lines) lh_.push_back(lh(id));
    if (r.chance(0.2)) { lh_.push_back(lh_[r.below(int(lh_.size()))]); mon().hit("plc-line-given-twice"); }
    std::vector<VH> loose; if (r.chance(0.4)) for (int i = 0; i < n; ++i) if (r.chance(0.2)) { loose.push_back(vh(o[i])); q.v.insert(o[i]); mon().hit("plc-loose"); }
    std::vector<Pt> holes; if (r.chance(0.4)) { int m = r.range(1, 3); for (int i = 0; i < m; ++i) { P3 p = {{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}}; holes.push_back(Pt(p[0], p[1], p[2])); q.holes.push_back(p); } mon().hit("plc-holes"); }
    FH h = holes.empty() ? loose.empty() ? vg::make_plc(ms, lh_.begin(), lh_.end()) : vg::make_plc(ms, lh_.begin(), lh_.end(), loose.begin(), loose.end()) : vg::make_plc(ms, lh_.begin(), lh_.end(), loose.begin(), loose.end(), holes.begin(), holes.end());
    int id = int(vg::dereference_handle(mesh, h).id().get()); CHECK(!f.count(id), "plc-id-reused", id); f[id] = q; if (g >= 0) { note(g, id); mon().hit("plc-made-in-segment"); } else mon().hit("plc-made");
  }
};
void run_case(Rng & r, long)
{
  World w; w.sg.reset(new SG(w.mesh)); std::set<P3> used; int n = r.range(3, 10);
  while (int(w.v.size()) < n) { P3 q = {{double(r.range(-4, 4)), double(r.range(-4, 4)), double(r.range(-4, 4))}}; if (used.insert(q).second) { VH h = vg::make_vertex(w.mesh, Pt(q[0], q[1], q[2])); w.v[int(vg::dereference_handle(w.mesh, h).id().get())] = q; } }
#if PROP == 8
  int ns = r.range(1, 4); for (int g = 0; g < ns; ++g) { w.sg->get_make_segment(g); w.sf[g]; w.sl[g]; w.sv[g]; }
#endif
  int steps = r.range(3, 14);
  for (int t = 0; t < steps; ++t)
  {
    int x = r.below(12); IV k; for (auto const & y : w.v) k.push_back(y.first);
    if (k.size() < 3) break;
    if (x == 0) { int a = r.pick(k), b = r.pick(k); if (a != b) w.line(w.mesh, a, b); }
    else if (x < 6) w.facet(w.mesh, r, -1);
#if PROP == 8
    else if (x < 9) { int g = r.below(ns); w.facet((*w.sg)(g), r, g); }
    else if (!w.f.empty()) { IV q; for (auto const & y : w.f) q.push_back(y.first); int id = r.pick(q), g = r.below(ns); if (x < 11) { if (r.chance(0.5)) vg::add((*w.sg)(g), w.fh(id)); else vg::add((*w.sg)(g), vg::dereference_handle(w.mesh, w.fh(id))); w.note(g, id); mon().hit("plc-added"); } else if (w.sf[g].count(id)) { vg::erase((*w.sg)(g), vg::dereference_handle(w.mesh, w.fh(id))); w.sf[g].erase(id); mon().hit("plc-erased-from-segment"); } }
    w.check_seg();
#elif PROP == 10
    else if (x < 8 && !w.f.empty()) { IV q; for (auto const & y : w.f) q.push_back(y.first); int id = r.pick(q); vg::erase_element(w.mesh, w.fh(id)); w.f.erase(id); mon().hit("plc-erased"); }
    else if (x < 10 && !w.l.empty()) { IV q; for (auto const & y : w.l) q.push_back(y.first); int id = r.pick(q); vg::erase_element(w.mesh, w.lh(id)); w.kill_line(id); mon().hit("plc-line-erased"); }
    else { int id = r.pick(k); vg::erase_element(w.mesh, w.vh(id)); IV q; for (auto const & y : w.l) if (std::count(y.second.begin(), y.second.end(), id)) q.push_back(y.first); for (int y : q) w.kill_line(y); for (auto y = w.f.begin(); y != w.f.end(); ) if (y->second.v.count(id)) w.f.erase(y++); else ++y; w.v.erase(id); mon().hit("plc-vertex-erased"); }
    w.check_mesh(w.mesh); w.check_cob();
#else
    else w.facet(w.mesh, r, -1);
    w.check_mesh(w.mesh);
#endif
#if PROP == 4
    w.check_cob();
#endif
#if PROP == 9
    if (r.chance(0.4))
    {
      std::unique_ptr<M> c(r.chance(0.5) ? new M(w.mesh) : new M); if (vg::plcs(*c).empty()) { if (r.chance(0.5)) vg::make_vertex(*c, Pt(1, 2, 3)); *c = w.mesh; }
      w.check_mesh(*c); mon().hit("plc-mesh-copied");
      if (r.chance(0.3)) { w.mesh.clear(); w.v.clear(); w.l.clear(); w.f.clear(); w.key.clear(); mon().hit("plc-mesh-cleared"); w.check_mesh(w.mesh); break; }
      if (r.chance(0.5)) { c->clear(); w.check_mesh(w.mesh); }
    }
#endif
  }
  uint64_t h = 7; for (auto const & x : w.f) { for (int y : x.second.lines) for (int z : w.l[y]) h = mix(h, uint64_t(z)); h = mix(h, x.second.v.size()); } mon().state(h); mon().sample(w.str());
}

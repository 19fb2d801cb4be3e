// C25: meshes written to and restored from Boost archives through mesh_serializer.
#include "kinds.hpp"
#include <memory>
#include "iotools.hpp"
#include "viennagrid/io/serialization.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
typedef vg::io::mesh_serializer<Mesh> Ser;

struct Src { Mesh mesh; Model m; };   // m: vertices and cells in range order

static void make(Rng & r, Src & s)
{
  GenOpt o; o.maxn = 3; o.isolated = r.chance(0.4) ? r.range(1, 3) : 0; o.jitter = r.chance(0.4) ? 0 : 0.3; if (KIND <= 2 || KIND == 4) o.wild = r.chance(0.3);
  Model m = gen_model(r, KIND, o); if (r.chance(0.05)) { m.p.clear(); m.c.clear(); mon().hit("empty-mesh"); }
  if (!m.p.empty() && r.chance(0.002))
  { // more elements than 16 bits can count
    Model b = m; const bool tile = r.chance(0.5); std::size_t n = 65500 + r.below(3000); double k = 0; if (tile) while (m.p.size() < n && m.c.size() < n) { int off = int(m.p.size()); k += 10; for (P3 const & q : b.p) { m.p.push_back(q); m.p.back()[0] += k; } for (IV c : b.c) { for (int & v : c) v += off; m.c.push_back(c); } }
    while (m.p.size() < n) m.p.push_back(P3{{r.real(-9, 9), m.gdim > 1 ? r.real(-9, 9) : 0, m.gdim > 2 ? r.real(-9, 9) : 0}}); mon().hit("huge-mesh");
  }
  double f = r.chance(0.6) ? 1 : std::pow(10.0, r.range(-200, 200)); for (P3 & p : m.p) for (double & x : p) { x *= f; if (x == 0 && r.chance(0.1)) x = -0.0; }
  std::vector<VH> vh; int next = 0; bool gaps = r.chance(0.5);
  for (P3 const & q : m.p) { if (gaps && r.chance(0.3)) { next += id_gap(r); vh.push_back(vg::make_vertex_with_id(s.mesh, Vertex::id_type(next), mkpt(q))); mon().hit("id-gaps"); } else vh.push_back(vg::make_vertex(s.mesh, mkpt(q))); next = int(vg::dereference_handle(s.mesh, vh.back()).id().get()) + 1; }
  next = 0;
  for (IV const & x : m.c) { if (r.chance(0.1)) { std::vector<VH> h; for (int i : x) h.push_back(vh[i]); next += id_gap(r); next = int(vg::dereference_handle(s.mesh, vg::make_cell_with_id(s.mesh, h.begin(), h.end(), Cell::id_type(next))).id().get()) + 1; } else next = int(vg::dereference_handle(s.mesh, add_cell(s.mesh, vh, x)).id().get()) + 1; }
  s.m = m;
}
template<class M> Model observe(M const & mesh, int gdim, int tdim, int & edges)
{
  Model m; m.gdim = gdim; m.tdim = tdim; std::map<int,int> pos;
  typedef typename vg::result_of::const_vertex_range<M>::type VR; VR vr(mesh); for (typename vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { pos[int((*it).id().get())] = int(m.p.size()); m.p.push_back(to_p3(vg::point(mesh, *it))); }
  typedef typename vg::result_of::const_cell_range<M>::type CR; CR cr(mesh); for (typename vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) { IV v = vids(*it); for (int & x : v) x = pos.at(x); m.c.push_back(v); }
  CHECK(pos.size() == m.p.size(), "vertex-ids-repeat", "ids repeat"); edges = int(vg::elements<FacetTag>(mesh).size()); return m;
}
static void same(Mesh const & mesh, Src const & s)
{
  int e1, e2; Model a = observe(mesh, s.m.gdim, s.m.tdim, e1); Model b = observe(s.mesh, s.m.gdim, s.m.tdim, e2);
  CHECK(b.p.size() == s.m.p.size() && b.c == s.m.c, "source-changed", "the serialized mesh changed: " << s.m.str());
  CHECK(a.p.size() == s.m.p.size(), "vertex-count", a.p.size() << " vertices instead of " << s.m.p.size()); CHECK(a.c.size() == s.m.c.size(), "cell-count", a.c.size() << " cells instead of " << s.m.c.size());
  for (std::size_t i = 0; i < a.p.size(); ++i) for (int d = 0; d < s.m.gdim; ++d) CHECK(a.p[i][d] == s.m.p[i][d] && b.p[i][d] == s.m.p[i][d], "coordinates", "vertex " << i << " coordinate " << d << ": " << a.p[i][d] << " instead of " << s.m.p[i][d]);
  for (std::size_t i = 0; i < a.c.size(); ++i) CHECK(a.c[i] == s.m.c[i], "cell-vertices", "cell " << i << " has vertices " << show(a.c[i]) << " instead of " << show(s.m.c[i]) << "; " << s.m.str());
  CHECK(e1 == e2, "facets", e1 << " facets instead of " << e2);
}
template<class F> bool throws(F f) { try { f(); } catch (std::exception const &) { return true; } return false; }

template<class OA, class IA> void roundtrip(Rng & r, std::string const & name, Scratch & sd)
{
  int n = r.range(1, 3); std::vector<std::unique_ptr<Src>> src; std::string text; bool file = r.chance(0.3);
  for (int i = 0; i < n; ++i) { src.emplace_back(new Src); make(r, *src.back()); }
  {
    std::ostringstream ss; std::ofstream fs; if (file) fs.open(sd.path("mesh.txt").c_str(), std::ios::binary);
    OA oa(file ? static_cast<std::ostream &>(fs) : ss);
    Ser reused; for (auto & s : src) { if (r.chance(0.5)) { Ser a(s->mesh); Ser const & c = a; CHECK(&a() == &s->mesh && &c() == &s->mesh && &a.get() == &s->mesh && &c.get() == &s->mesh, "mesh-access", "serializer refers to another mesh"); oa << c; } else { reused.load(s->mesh); CHECK(&reused() == &s->mesh, "mesh-access", "serializer refers to another mesh"); oa << static_cast<Ser const &>(reused); } }
    if (!file) text = ss.str();
  }
  if (file) { text = slurp(sd.path("mesh.txt")); mon().hit("file"); }
  { std::istringstream is(text); IA ia(is); Ser reused; for (auto & s : src) { Mesh mesh; if (r.chance(0.5)) { Ser a(mesh); ia >> a; } else { reused.load(mesh); ia >> reused; } same(mesh, *s); if (!s->m.c.empty()) mon().hit(name); } }
  if (n > 1) mon().hit("several-meshes-in-one-archive");
  if (name != "text") return;
  // incomplete archives and vertices that do not exist are reported
  std::vector<std::string> tok; { std::istringstream i(text); std::string t; while (i >> t) tok.push_back(t); }
  if (n == 1 && src[0]->m.c.size() > 0)
  {
    std::size_t per = src[0]->m.c[0].size(), cells = src[0]->m.c.size(), first = tok.size() - per * cells;
    { std::size_t k = first + r.below(int(per * cells)); std::vector<std::string> t = tok; t[k] = std::to_string(src[0]->m.p.size() + (r.chance(0.5) ? 0 : r.below(1000000))); std::string s; for (auto & x : t) s += x + " "; Mesh mesh; Ser a(mesh); CHECK(throws([&] { std::istringstream is(s); IA ia(is); ia >> a; }), "unknown-vertex-accepted", "vertex " << t[k] << " of " << src[0]->m.p.size()); mon().hit("unknown-vertex"); }
    { std::size_t k = r.range(1, int(tok.size()) - 1); std::string s; for (std::size_t i = 0; i < k; ++i) s += (i ? " " : "") + tok[i]; Mesh mesh; Ser a(mesh); CHECK(throws([&] { std::istringstream is(s); IA ia(is); ia >> a; }), "truncated-accepted", "first " << k << " of " << tok.size() << " entries"); mon().hit("truncated"); }
  }
}

void run_case(Rng & r, long)
{
  Scratch sd; uint64_t h = 0;
  if (r.chance(0.5)) roundtrip<boost::archive::text_oarchive, boost::archive::text_iarchive>(r, "text", sd); else roundtrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(r, "binary", sd);
  // a serializer without mesh is reported
  { Ser e; std::ostringstream ss; bool ok = false; try { boost::archive::text_oarchive oa(ss); oa << static_cast<Ser const &>(e); } catch (vg::io::bad_serialization_state_exception const & x) { ok = std::string(x.what()).size() > 0; } CHECK(ok, "no-mesh-accepted", "saving without mesh"); mon().hit("no-mesh"); }
  { Src s; make(r, s); std::ostringstream ss; { boost::archive::text_oarchive oa(ss); Ser a(s.mesh); oa << static_cast<Ser const &>(a); } Ser e; bool ok = false; try { std::istringstream is(ss.str()); boost::archive::text_iarchive ia(is); ia >> e; } catch (vg::io::bad_serialization_state_exception const &) { ok = true; } CHECK(ok, "no-mesh-accepted", "loading without mesh");
    std::istringstream is(ss.str()); boost::archive::text_iarchive ia(is); Mesh mesh; e.load(mesh); ia >> e; same(mesh, s); h = s.m.hash(); if (s.m.c.size() > 1) { mon().state(h); mon().sample(s.m.str()); } }
}

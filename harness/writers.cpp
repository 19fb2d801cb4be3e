// C23: vmesh, OpenDX and Comsol mphtxt files are parsed independently and compared with the mesh.
#include "kinds.hpp"
#include "iotools.hpp"
#include "vec.hpp"
#include <functional>
#include <deque>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#if KIND == 0 || KIND == 3 || KIND == 9
#include "viennagrid/io/opendx_writer.hpp"
#define HAVE_DX
#endif
#if KIND == 9
#include "viennagrid/io/mphtxt_writer.hpp"
#endif

struct Put { Model m; IV vid, cid, seg; std::vector<int> ids; };   // ids in creation order; seg: segment id of a cell, -1: none

inline std::string between(std::string const & s, std::string const & tag, std::size_t & pos)
{ std::size_t a = s.find("<" + tag + ">", pos); CHECK(a != std::string::npos, "vmesh-tag", "no <" << tag << "> after offset " << pos); a += tag.size() + 2; std::size_t b = s.find("</" + tag + ">", a); CHECK(b != std::string::npos, "vmesh-tag", "<" << tag << "> is not closed"); pos = b; return s.substr(a, b - a); }
inline std::string lower(std::string s) { for (char & c : s) c = char(tolower(c)); return s; }

inline void check_vmesh(std::string const & s, Put const & w, std::string const & input)
{
  std::size_t p = 0; CHECK(s.find("<mesh>") == 0, "vmesh-root", s.substr(0, 20));
  CHECK(between(s, "file", p) == input, "vmesh-file", "input file name"); CHECK(between(s, "geomdim", p) == std::to_string(w.m.gdim), "vmesh-dimension", "geometric dimension");
  static const char * nm[] = {"line", "line", "line", "triangle", "triangle", "quadrilateral", "quadrilateral", "polygon", "polygon", "tetrahedron", "hexahedron"};
  std::string ct = lower(between(s, "celltype", p)); (void)nm; CHECK(!ct.empty(), "vmesh-celltype", ct);
  CHECK(between(s, "vertices", p) == std::to_string(w.m.p.size()), "vmesh-vertices", "number of vertices"); CHECK(between(s, "cells", p) == std::to_string(w.m.c.size()), "vmesh-cells", "number of cells"); CHECK(between(s, "segments", p) == std::to_string(w.ids.size()), "vmesh-segments", "number of segments");
  std::set<int> seen; std::size_t n = 0;
  for (std::size_t q = s.find("<segment>", p); q != std::string::npos; q = s.find("<segment>", q + 1), ++n)
  {
    std::size_t k = q; int id = atoi(between(s, "id", k).c_str()); CHECK(std::count(w.ids.begin(), w.ids.end(), id) && seen.insert(id).second, "vmesh-segment", "segment " << id << " unknown or repeated");
    std::set<int> v; int c = 0; for (std::size_t i = 0; i < w.m.c.size(); ++i) if (w.seg[i] == id) { ++c; v.insert(w.m.c[i].begin(), w.m.c[i].end()); }
    CHECK(between(s, "vertices", k) == std::to_string(v.size()), "vmesh-segment-vertices", "segment " << id); CHECK(between(s, "cells", k) == std::to_string(c), "vmesh-segment-cells", "segment " << id);
  }
  CHECK(n == w.ids.size(), "vmesh-segment-count", n << " segments listed instead of " << w.ids.size()); mon().hit("vmesh");
}

#ifdef HAVE_DX
struct Dx { std::vector<P3> p; std::vector<IV> c; std::vector<double> d; bool data, on_vertices; };
inline std::vector<std::string> split_lines(std::string const & s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
inline long items(std::string const & l) { std::size_t i = l.find(" items "); CHECK(i != std::string::npos, "dx-items", l); return atol(l.c_str() + i + 7); }
inline Dx parse_dx(std::string const & s, int gdim)
{
  Dx d; d.data = d.on_vertices = false; std::vector<std::string> l = split_lines(s); std::size_t i = 0; bool field = false;
  for (; i < l.size(); ++i)
  {
    if (l[i].find("object \"points\"") == 0) { CHECK(l[i].find("shape " + std::to_string(gdim) + " ") != std::string::npos, "dx-shape", l[i]); long n = items(l[i]); CHECK(i + n < l.size(), "dx-points", "too few points"); for (long k = 0; k < n; ++k) { std::vector<double> v = numbers(l[++i]); CHECK(int(v.size()) == gdim, "dx-point", l[i]); P3 q = {{0,0,0}}; for (int a = 0; a < gdim; ++a) q[a] = v[a]; d.p.push_back(q); } }
    else if (l[i].find("object \"grid_Line_One\"") == 0) { CHECK(l[i].find("shape " + std::to_string(gdim + 1) + " ") != std::string::npos, "dx-shape", l[i]); long n = items(l[i]); CHECK(i + n < l.size(), "dx-cells", "too few cells"); for (long k = 0; k < n; ++k) { std::vector<double> v = numbers(l[++i]); CHECK(int(v.size()) == gdim + 1, "dx-cell", l[i]); d.c.push_back(IV(v.begin(), v.end())); } }
    else if (l[i].find("object \"VisData\"") == 0) { d.data = true; long n = items(l[i]); CHECK(i + n < l.size(), "dx-data", "too few values"); for (long k = 0; k < n; ++k) { std::vector<double> v = numbers(l[++i]); CHECK(v.size() == 1, "dx-value", l[i]); d.d.push_back(v[0]); } CHECK(i + 1 < l.size() && l[i + 1].find("attribute \"dep\" string ") == 0, "dx-dep", "dependency missing"); d.on_vertices = l[i + 1].find("positions") != std::string::npos; }
    else if (l[i].find("class field") != std::string::npos) field = true;
  }
  CHECK(field, "dx-field", "no field object"); return d;
}
template<class W> void dx_case(Rng & r, Mesh & mesh, Put const & w, W & writer, std::vector<double> & vv, std::deque<double> & cv, std::map<int,double> & ev, std::map<int,double> & ec, Scratch & sd)
{
  bool newv = r.chance(0.4), newc = r.chance(0.4);
  std::vector<double> nv(w.m.p.size()); std::vector<double> ncv(w.m.c.size());
  auto val = [&] { return r.chance(0.2) ? double(r.range(-4, 4)) : r.chance(0.15) ? r.real(-9, 9) * std::pow(10.0, r.range(-6, 25)) : r.real(-1000, 1000); };
  if (newv || !ev.empty()) { ev.clear(); int mx = 0; for (int i : w.vid) mx = std::max(mx, i); vv.assign(mx + 1, -1); for (std::size_t i = 0; i < w.vid.size(); ++i) { ev[int(i)] = val(); vv[w.vid[i]] = ev[int(i)]; } typename vg::result_of::accessor<std::vector<double>, Vertex>::type a(vv); if (r.chance(0.5)) writer.add_scalar_data_on_vertices(a, "v"); else vg::io::add_scalar_data_on_vertices(writer, a, "v"); }
  if (newc || !ec.empty()) { ec.clear(); int mx = 0; for (int i : w.cid) mx = std::max(mx, i); cv.assign(mx + 1, -1); for (std::size_t i = 0; i < w.cid.size(); ++i) { ec[int(i)] = val(); cv[w.cid[i]] = ec[int(i)]; } typename vg::result_of::field<std::deque<double>, Cell>::type a(cv); if (r.chance(0.5)) writer.add_scalar_data_on_cells(a, "c"); else vg::io::add_scalar_data_on_cells(writer, a, "c"); }
  std::string f = sd.path("out.dx"); writer(mesh, f); Dx d = parse_dx(slurp(f), w.m.gdim);
  CHECK(d.p.size() == w.m.p.size(), "dx-point-count", d.p.size() << " points instead of " << w.m.p.size());
  IV pt; std::set<int> seen; for (P3 const & q : d.p) { int i = match(w.m.p, q, w.m.gdim); CHECK(i >= 0 && seen.insert(i).second, "dx-point", "point unknown or repeated"); pt.push_back(i); }
  CHECK(d.c.size() == w.m.c.size(), "dx-cell-count", d.c.size() << " cells instead of " << w.m.c.size());
  std::map<IV,int> want; for (std::size_t i = 0; i < w.m.c.size(); ++i) want[w.m.c[i]] = int(i); IV cl; std::set<int> sc;
  for (IV t : d.c) { for (int & x : t) { CHECK(x >= 0 && x < int(pt.size()), "dx-connection", "connection " << x << " with " << pt.size() << " points"); x = pt[x]; } CHECK(want.count(t) && sc.insert(want[t]).second, "dx-cell", "cell " << show(t) << " unknown or repeated; " << w.m.str()); cl.push_back(want[t]); }
  CHECK(d.data == (!ev.empty() || !ec.empty()), "dx-data-presence", "data written: " << d.data);
  if (d.data)
  {
    bool onv = !ev.empty(); CHECK(d.on_vertices == onv, "dx-dependency", "vertex data has precedence over cell data"); IV const & idx = onv ? pt : cl; std::map<int,double> & e = onv ? ev : ec; CHECK(d.d.size() == idx.size(), "dx-data-count", d.d.size() << " values instead of " << idx.size());
    for (std::size_t i = 0; i < idx.size(); ++i) CHECK(std::fabs(d.d[i] - e[idx[i]]) <= 2.5e-5 + 1e-14 * std::fabs(e[idx[i]]), "dx-data-value", "value " << d.d[i] << " instead of " << e[idx[i]]); mon().hit(onv ? "dx-vertex-data" : "dx-cell-data");
  }
  mon().hit("dx");
}
#endif

#if KIND == 9
inline void check_mphtxt(std::string const & text, Put const & w)
{
  std::string s; for (std::size_t i = 0; i < text.size(); ++i) { if (text[i] == '#') while (i < text.size() && text[i] != '\n') ++i; s += i < text.size() ? text[i] : ' '; }
  std::istringstream in(s); std::string tk; auto str = [&] { std::string x; CHECK(bool(in >> x), "mphtxt-end", "file ends early"); return x; };
  auto num1 = [&] { std::string x = str(); char * e; double v = strtod(x.c_str(), &e); CHECK(*e == 0, "mphtxt-number", "token " << x); return v; }; auto expect = [&](std::string const & x) { std::string y = str(); CHECK(x == y, "mphtxt-token", y << " instead of " << x); };
  for (char const * x : {"0", "1", "1", "15", "viennagrid_mesh", "1", "3", "obj", "0", "0", "1", "4", "Mesh", "2", "3"}) expect(x);
  std::size_t np = std::size_t(num1()); CHECK(np == w.m.p.size(), "mphtxt-points", np << " instead of " << w.m.p.size()); expect("0");
  IV pt; std::set<int> seen; for (std::size_t i = 0; i < np; ++i) { P3 q; for (double & x : q) x = num1(); int k = match(w.m.p, q, 3); CHECK(k >= 0 && seen.insert(k).second, "mphtxt-point", "unknown or repeated"); pt.push_back(k); }
  auto vertex = [&] { double x = num1(); CHECK(x >= 0 && x < double(np) && x == std::floor(x), "mphtxt-index", x); return pt[int(x)]; };
  expect("2"); expect("3"); expect("tri"); expect("3"); std::size_t nt = std::size_t(num1());
  // triangles on the hull of a segment, with the segment on either side
  std::map<IV, std::vector<std::pair<int,int> > > co;   // triangle -> (segment, opposite vertex)
  for (std::size_t i = 0; i < w.m.c.size(); ++i) for (int k = 0; k < 4; ++k) { IV t; for (int q = 0; q < 4; ++q) if (q != k) t.push_back(w.m.c[i][q]); co[sorted(t)].push_back(std::make_pair(w.seg[i], w.m.c[i][k])); }
  std::map<IV, std::set<int> > hull;
  for (auto const & t : co) { std::map<int,int> n; for (auto const & x : t.second) if (x.first >= 0) ++n[x.first]; for (auto const & x : n) if (x.second == 1) hull[t.first].insert(x.first); }
  CHECK(nt == hull.size(), "mphtxt-triangles", nt << " triangles instead of " << hull.size());
  std::vector<IV> tri; std::set<IV> st; for (std::size_t i = 0; i < nt; ++i) { IV t; for (int k = 0; k < 3; ++k) t.push_back(vertex()); CHECK(hull.count(sorted(t)) && st.insert(sorted(t)).second, "mphtxt-triangle", show(t) << " is not on the hull of a segment or repeated"); tri.push_back(t); }
  expect("3"); expect("0"); CHECK(std::size_t(num1()) == nt, "mphtxt-contacts", "count"); IV con; for (std::size_t i = 0; i < nt; ++i) con.push_back(int(num1()));
  CHECK(std::size_t(num1()) == nt, "mphtxt-sides", "count");
  for (std::size_t i = 0; i < nt; ++i)
  {
    int up = int(num1()), down = int(num1()), wu = 0, wd = 0; P3 a = w.m.p[tri[i][0]], n = cross(w.m.p[tri[i][1]] - a, w.m.p[tri[i][2]] - a);
    for (auto const & x : co[sorted(tri[i])]) if (x.first >= 0 && hull[sorted(tri[i])].count(x.first)) { if (dot(w.m.p[x.second] - a, n) < 0) wu = x.first + 1; else wd = x.first + 1; }
    CHECK(up == wu && down == wd, "mphtxt-side", "triangle " << show(tri[i]) << ": segments " << up << " " << down << " instead of " << wu << " " << wd); if (wu && wd) mon().hit("mphtxt-interface"); else mon().hit("mphtxt-outer");
  }
  // contacts: connected coplanar hull triangles of the same segments
  std::vector<int> comp(nt); for (std::size_t i = 0; i < nt; ++i) comp[i] = int(i); std::function<int(int)> root = [&](int i) { return comp[i] == i ? i : comp[i] = root(comp[i]); }; bool unclear = false;
  std::map<IV, std::set<int> > sids; for (auto const & t : co) for (auto const & x : t.second) if (x.first >= 0) sids[t.first].insert(x.first);
  for (std::size_t i = 0; i < nt; ++i) for (std::size_t k = 0; k < i; ++k)
  {
    bool share = false; for (int x : tri[i]) for (int y : tri[k]) share = share || x == y; if (!share || sids[sorted(tri[i])] != sids[sorted(tri[k])]) continue;
    P3 n1 = cross(w.m.p[tri[i][1]] - w.m.p[tri[i][0]], w.m.p[tri[i][2]] - w.m.p[tri[i][0]]), n2 = cross(w.m.p[tri[k][1]] - w.m.p[tri[k][0]], w.m.p[tri[k][2]] - w.m.p[tri[k][0]]); double c = std::fabs(dot(n1, n2)) / (len(n1) * len(n2));
    if (c > 1 - 1e-7) comp[root(int(i))] = root(int(k)); else if (c > 1 - 1e-5) unclear = true;
  }
  if (!unclear) for (std::size_t i = 0; i < nt; ++i) for (std::size_t k = 0; k < i; ++k) { CHECK((con[i] == con[k]) == (root(int(i)) == root(int(k))), "mphtxt-contact", "triangles " << show(tri[i]) << " and " << show(tri[k]) << ": contacts " << con[i] << " " << con[k]); if (con[i] == con[k]) mon().hit("mphtxt-shared-contact"); }
  expect("3"); expect("tet"); expect("4"); std::size_t nc = std::size_t(num1()); CHECK(nc == w.m.c.size(), "mphtxt-tetrahedra", nc << " instead of " << w.m.c.size());
  std::map<IV,int> want; for (std::size_t i = 0; i < w.m.c.size(); ++i) want[w.m.c[i]] = int(i); IV cl; std::set<int> sc;
  for (std::size_t i = 0; i < nc; ++i) { IV t; for (int k = 0; k < 4; ++k) t.push_back(vertex()); CHECK(want.count(t) && sc.insert(want[t]).second, "mphtxt-tetrahedron", show(t) << " unknown or repeated"); cl.push_back(want[t]); }
  expect("4"); expect("0"); CHECK(std::size_t(num1()) == nc, "mphtxt-segments", "count"); for (std::size_t i = 0; i < nc; ++i) { int x = int(num1()); CHECK(x == w.seg[cl[i]] + 1, "mphtxt-segment", "tetrahedron " << show(w.m.c[cl[i]]) << ": segment " << x << " instead of " << w.seg[cl[i]] + 1); if (x == 0) mon().hit("mphtxt-no-segment"); }
  expect("0"); CHECK(!(in >> tk), "mphtxt-tail", "trailing " << tk); mon().hit("mphtxt");
}
#endif

inline bool throws(std::function<void()> f) { try { f(); } catch (std::exception const &) { return true; } return false; }

void run_case(Rng & r, long)
{
  Scratch sd; vg::io::vmesh_writer<Mesh> vw;
#ifdef HAVE_DX
  vg::io::opendx_writer<Mesh> dw; std::vector<double> vv; std::deque<double> cv; std::map<int,double> ev, ec;
#endif
  int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round)
  {
    Put w; GenOpt o; o.maxn = 3; o.isolated = r.chance(0.3) ? r.range(1, 2) : 0; o.jitter = r.chance(0.4) ? 0 : 0.3; if (KIND <= 2 || KIND == 4) o.wild = r.chance(0.3); w.m = gen_model(r, KIND, o);
    { std::set<IV> k; std::vector<IV> c; for (IV const & x : w.m.c) if (k.insert(sorted(x)).second) c.push_back(x); w.m.c = c; }
    double f = r.chance(0.6) ? 1 : std::pow(10.0, r.range(-9, 9)); for (P3 & p : w.m.p) for (double & x : p) x *= f;
    if (mon().cur % 199 == 78) make_huge(w.m, r);
    Mesh mesh; Segmentation sg(mesh); std::vector<VH> vh; std::vector<CH> ch; int next = 0;
    for (P3 const & q : w.m.p) { if (r.chance(0.15)) { next += id_gap(r); mon().hit("id-gaps"); vh.push_back(vg::make_vertex_with_id(mesh, Vertex::id_type(next), mkpt(q))); } else vh.push_back(vg::make_vertex(mesh, mkpt(q))); next = int(vg::dereference_handle(mesh, vh.back()).id().get()) + 1; w.vid.push_back(next - 1); }
    next = 0;
    for (IV const & x : w.m.c) { if (r.chance(0.1)) { std::vector<VH> h; for (int i : x) h.push_back(vh[i]); next += id_gap(r); ch.push_back(vg::make_cell_with_id(mesh, h.begin(), h.end(), Cell::id_type(next))); } else ch.push_back(add_cell(mesh, vh, x)); next = int(vg::dereference_handle(mesh, ch.back()).id().get()) + 1; w.cid.push_back(next - 1); }
    int ns = many(r, r.below(4)), id = wide_id(r, r.below(3)); for (int i = 0; i < ns; ++i) { w.ids.push_back(id); sg.get_make_segment(id); id += r.chance(0.6) ? 1 : r.range(1, 5); }
    bool slab = r.chance(0.5); double cut = w.m.p[r.below(int(w.m.p.size()))][0];
    for (std::size_t i = 0; i < w.m.c.size(); ++i) { int s = -1; if (ns) { if (slab) { double x = 0; for (int v : w.m.c[i]) x += w.m.p[v][0]; s = w.ids[x / w.m.c[i].size() < cut ? 0 : ns - 1]; } else s = r.pick(w.ids); if (r.chance(0.07)) s = -1; } w.seg.push_back(s); if (s >= 0) vg::add(sg[s], vg::dereference_handle(mesh, ch[i])); else if (ns) mon().hit("cell-without-segment"); }
    if (!ns) mon().hit("no-segments");
    bool ex = r.chance(0.5); std::string input = "meshes/in.mesh"; vw(mesh, sg, input, sd.path(ex ? "out.vmesh" : "out")); check_vmesh(slurp(sd.path("out.vmesh")), w, input);
    CHECK(throws([&] { vw(mesh, sg, input, sd.path("nowhere/out.vmesh")); }), "unwritable-accepted", "vmesh writer"); mon().hit("unwritable-file");
#ifdef HAVE_DX
    dx_case(r, mesh, w, dw, vv, cv, ev, ec, sd);
    CHECK(throws([&] { dw(mesh, sd.path("nowhere/out.dx")); }), "unwritable-accepted", "OpenDX writer");
#endif
#if KIND == 9
    { vg::io::mphtxt_writer mw; bool e2 = r.chance(0.5); mw(mesh, sg, sd.path(e2 ? "m.mphtxt" : "m")); check_mphtxt(slurp(sd.path("m.mphtxt")), w); CHECK(throws([&] { mw(mesh, sg, sd.path("nowhere/m")); }), "unwritable-accepted", "mphtxt writer"); }
#endif
    mon().state(w.m.hash()); mon().sample(w.m.str()); if (round) mon().hit("writer-reused");
  }
}

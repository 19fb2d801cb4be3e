// C11 uniform refinement, C12 local refinement, C13 hyperplane refinement of simplicial meshes.
// Oracle: every refined cell is identified with its parent through exact barycentric coordinates; the children of each parent
// must tile it, and the tilings of neighboring parents must agree on the common facet.
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/refine.hpp"

typedef vg::result_of::line<Mesh>::type Line;
typedef std::map<int,double> Bary;       // old vertex id -> weight (>0)

struct In { std::map<int,P3> v; std::map<int,IV> c; std::map<IV,int> lines; std::map<int,std::set<int> > seg; std::string str() const
{ std::ostringstream o; o.precision(17); o << kind_name(KIND) << " cells:"; int n = 0; for (auto const & x : c) { if (n++ > 12) break; o << " " << x.first << ":" << show(x.second); } if (v.size() <= 12) for (auto const & p : v) { o << " " << p.first << "=("; for (int d = 0; d < kind_gdim(KIND); ++d) o << (d ? "," : "") << p.second[d]; o << ")"; } for (auto const & s : seg) if (!s.second.empty()) o << " segments(" << s.first << ")=" << show(s.second); return o.str(); } };

static In snapshot(Mesh const & m)
{
  In r;
  typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(m); for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) r.v[int((*it).id().get())] = to_p3(vg::point(m, *it));
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(m); for (vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) r.c[int((*it).id().get())] = vids(*it);
  typedef vg::result_of::const_line_range<Mesh>::type LR; LR lr(m); for (vg::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) r.lines[sorted(vids(*it))] = int((*it).id().get());
  return r;
}
static double dist(P3 const & a, P3 const & b) { return std::sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
static double extent(In const & in) { double e = 0; for (auto const & v : in.v) e = std::max(e, dist(in.v.begin()->second, v.second)); return e; }
static double magnitude(In const & in) { double e = 0; for (auto const & v : in.v) for (double x : v.second) e = std::max(e, std::fabs(x)); return e; }
static P3 lerp(P3 const & a, P3 const & b, double t) { P3 r; for (int i = 0; i < 3; ++i) r[i] = a[i] + t * (b[i] - a[i]); return r; }

static double det(std::vector<std::vector<double> > m)
{
  int n = int(m.size()); double d = 1;
  for (int c = 0; c < n; ++c) { int p = c; for (int r = c; r < n; ++r) if (std::fabs(m[r][c]) > std::fabs(m[p][c])) p = r; if (m[p][c] == 0) return 0; if (p != c) { std::swap(m[p], m[c]); d = -d; } d *= m[c][c]; for (int r = c + 1; r < n; ++r) { double f = m[r][c] / m[c][c]; for (int k = c; k < n; ++k) m[r][k] -= f * m[c][k]; } }
  return d;
}
static double rel_measure(std::vector<Bary> const & pts, IV const & verts)
{ std::vector<std::vector<double> > m; for (Bary const & b : pts) { std::vector<double> row; for (int v : verts) { auto it = b.find(v); row.push_back(it == b.end() ? 0.0 : it->second); } m.push_back(row); } return det(m); }

static double exact_tol(In const & in) { return 1e-12 * extent(in) + 2e-15 * magnitude(in); }
struct Out { std::map<int,Bary> bary; std::map<int,IV> cells; std::map<int,int> parent; };

// cuts: old edge (sorted vertex ids) -> weight of the second vertex
static Out check_refined(In const & in, Mesh const & out, std::map<IV,double> const & cuts, double tol /* absolute */, bool equal_children)
{
  Out o; const int N = kind_tdim(KIND) + 1;
  std::set<int> used; for (auto const & c : in.c) for (int v : c.second) used.insert(v);
  std::set<int> seen_old; std::set<IV> seen_cut;
  In res = snapshot(out);
  for (auto const & p : res.v)
  {
    bool found = false;
    for (int v : used) if (dist(in.v.at(v), p.second) <= tol)
    { CHECK(!found, "ambiguous", "harness"); CHECK(seen_old.insert(v).second, "vertex-duplicated", "old vertex " << v << " appears twice in the refined mesh | " << in.str()); o.bary[p.first][v] = 1; found = true; }
    if (!found) for (auto const & e : cuts) if (dist(lerp(in.v.at(e.first[0]), in.v.at(e.first[1]), e.second), p.second) <= tol)
    { CHECK(seen_cut.insert(e.first).second, "edge-split-twice", "edge " << show(e.first) << " has two new vertices | " << in.str()); o.bary[p.first][e.first[0]] = 1 - e.second; o.bary[p.first][e.first[1]] = e.second; found = true; break; }
    CHECK(found, "unexpected-vertex", "refined mesh has a vertex at (" << p.second[0] << "," << p.second[1] << "," << p.second[2] << "), neither an old vertex nor the split point of a marked edge | " << in.str());
  }
  CHECK(seen_old.size() == used.size(), "vertex-missing", seen_old.size() << " of " << used.size() << " old vertices present | " << in.str());
  CHECK(seen_cut.size() == cuts.size(), "edge-not-split", seen_cut.size() << " of " << cuts.size() << " edges split | " << in.str());
  std::map<IV,int> by_vertices; for (auto const & c : in.c) by_vertices[sorted(c.second)] = c.first;
  std::map<int,std::vector<int> > children;
  for (auto const & c : res.c)
  {
    std::set<int> sup; for (int v : c.second) for (auto const & b : o.bary[v]) sup.insert(b.first);
    auto it = by_vertices.find(IV(sup.begin(), sup.end()));
    CHECK(it != by_vertices.end(), "cell-not-inside-a-parent", "refined cell " << show(c.second) << " spans old vertices " << show(sup) << " | " << in.str());
    o.cells[c.first] = c.second; o.parent[c.first] = it->second; children[it->second].push_back(c.first);
  }
  std::map<IV,int> facet_uses;   // refined facet on a parent facet -> number of refined cells
  std::map<IV,int> parent_facet_cells; for (auto const & c : in.c) for (int k = 0; k < N; ++k) { IV f; for (int i = 0; i < N; ++i) if (i != k) f.push_back(c.second[i]); ++parent_facet_cells[sorted(f)]; }
  std::map<IV,IV> facet_parent;
  for (auto const & c : in.c)
  {
    IV pv = c.second; double vol = 0; std::map<IV,std::vector<double> > facets; std::map<IV,double> covered;
    int marked = 0; for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) if (cuts.count(sorted(IV{pv[i], pv[j]}))) ++marked;
    CHECK(!children[c.first].empty(), "cell-lost", "cell " << c.first << " has no refined cells | " << in.str());
    for (int ch : children[c.first])
    {
      IV const & cv = o.cells[ch]; std::vector<Bary> pts; for (int v : cv) pts.push_back(o.bary[v]);
      double d = rel_measure(pts, pv); CHECK(std::fabs(d) > 1e-22, "degenerate-cell", "refined cell " << show(cv) << " of parent " << show(pv) << " | " << in.str());
      vol += std::fabs(d);
      if (equal_children) CHECK(near(std::fabs(d), N == 3 ? 0.25 : 0.125, 1e-12), "unequal-children", "relative volume " << std::fabs(d) << " of a child of " << show(pv) << " | " << in.str());
      for (int k = 0; k < N; ++k)
      {
        IV f; std::vector<Bary> fb; for (int i = 0; i < N; ++i) if (i != k) f.push_back(cv[i]);
        f = sorted(f); for (int v : f) fb.push_back(o.bary[v]);
        std::set<int> sup; for (Bary const & b : fb) for (auto const & x : b) sup.insert(x.first);
        if (int(sup.size()) < N)
        { // lies on the facet of the parent spanned by sup
          IV pf(sup.begin(), sup.end()); CHECK(int(pf.size()) == N - 1, "degenerate-facet", show(f)); covered[pf] += std::fabs(rel_measure(fb, pf)); ++facet_uses[f]; facet_parent[f] = pf;
        }
        else { fb.push_back(o.bary[cv[k]]); facets[f].push_back(rel_measure(fb, pv)); }
      }
    }
    CHECK(near(vol, 1.0, 1e-9), "volume-not-preserved", "children of " << show(pv) << " cover " << vol << " of it (" << marked << " edges marked) | " << in.str());
    for (auto const & f : facets) CHECK(f.second.size() == 2 && f.second[0] * f.second[1] < 0, "children-do-not-tile", "inner facet " << show(f.first) << " of parent " << show(pv) << " has " << f.second.size() << " cells | " << in.str());
    for (int k = 0; k < N; ++k) { IV f; for (int i = 0; i < N; ++i) if (i != k) f.push_back(pv[i]); CHECK(near(covered[sorted(f)], 1.0, 1e-9), "facet-not-covered", "facet " << show(f) << " of parent covered " << covered[sorted(f)] << " | " << in.str()); }
    if (equal_children) CHECK(int(children[c.first].size()) == (N == 3 ? 4 : 8), "child-count", children[c.first].size() << " children | " << in.str());
    if (!marked) CHECK(children[c.first].size() == 1, "unmarked-cell-split", show(pv) << " | " << in.str());
    { std::ostringstream e; e << "cell-with-" << marked << "-marked-edges"; mon().hit(e.str()); }
    // distinct edge patterns seen
    IV pat; int bits = 0, q = 0; for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j, ++q) if (cuts.count(sorted(IV{pv[i], pv[j]}))) bits |= 1 << q;
    uint64_t h = mix(bits, 99); for (int ch : children[c.first]) { IV loc; for (int v : o.cells[ch]) { int code = 0; for (auto const & b : o.bary[v]) for (int i = 0; i < N; ++i) if (pv[i] == b.first) code |= 1 << i; loc.push_back(code); } for (int x : loc) h = mix(h, x); }
    mon().state(h);
  }
  for (auto const & f : facet_uses) CHECK(f.second == parent_facet_cells[facet_parent[f.first]], "non-conforming", "refined facet " << show(f.first) << " on old facet " << show(facet_parent[f.first]) << " is in " << f.second << " cells, the old facet in " << parent_facet_cells[facet_parent[f.first]] << " | " << in.str());
  mon().state(hash_str(in.str())); mon().hit("refined-meshes"); mon().hit("refined-cells", long(res.c.size()));
  return o;
}

static void check_segments(In const & in, Mesh const & out, Segmentation const & sg, Out const & o)
{
  std::map<int,std::set<int> > got;    // out cell -> segments by iteration
  for (Segmentation::const_iterator it = sg.begin(); it != sg.end(); ++it)
  {
    typedef vg::result_of::const_cell_range<Segment>::type CR; CR cr(*it);
    for (vg::result_of::iterator<CR>::type c = cr.begin(); c != cr.end(); ++c) CHECK(got[int((*c).id().get())].insert(int(it->id())).second, "listed-twice", "cell twice in segment | " << in.str());
  }
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(out);
  for (vg::result_of::iterator<CR>::type c = cr.begin(); c != cr.end(); ++c)
  {
    int id = int((*c).id().get()); auto w = in.seg.find(o.parent.at(id)); std::set<int> want; if (w != in.seg.end()) want = w->second;
    CHECK(got[id] == want, "segment-inheritance", "child of cell " << o.parent.at(id) << " is in segments " << show(got[id]) << ", the parent in " << show(want) << " | " << in.str());
    typedef vg::result_of::segment_id_range<Segmentation, CellTag>::type SR; SR sr = vg::segment_ids(sg, *c); std::set<int> ids; for (SR::const_iterator i = sr.begin(); i != sr.end(); ++i) ids.insert(int(*i));
    CHECK(ids == want, "segment-ids", "segment ids " << show(ids) << " expected " << show(want) << " | " << in.str());
    mon().hit("cells-with-segments", want.empty() ? 0 : 1); if (want.size() > 1) mon().hit("cells-in-several-segments");
  }
}

template<class H> static bool distinct_points(In const & in, H const & extra, double dmin)
{
  std::vector<P3> p; std::set<int> used; for (auto const & c : in.c) for (int v : c.second) used.insert(v); for (int v : used) p.push_back(in.v.at(v));
  for (P3 const & q : extra) p.push_back(q);
  for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (dist(p[i], p[j]) < dmin) return false;
  return true;
}
static std::vector<P3> split_points(In const & in, std::map<IV,double> const & cuts) { std::vector<P3> r; for (auto const & e : cuts) r.push_back(lerp(in.v.at(e.first[0]), in.v.at(e.first[1]), e.second)); return r; }

#if PROP == 13
static double inner(P3 const & a, P3 const & b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
#endif

#if KIND == 3 && PROP == 11
// more edges than 16 bits can count; the result is judged by counts, conformity and total area
static void large_case(Rng & r)
{
  Mesh mesh; Segmentation sg(mesh); const int n = 150 + r.below(4); std::vector<VH> v; IV in[2];
  for (int j = 0; j <= n; ++j) for (int i = 0; i <= n; ++i) v.push_back(vg::make_vertex(mesh, mkpt(P3{{double(i), double(j), 0}})));
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { int a = j * (n + 1) + i; IV t[2] = {IV{a, a + 1, a + n + 1}, IV{a + 1, a + n + 2, a + n + 1}}; for (IV const & c : t) { int g = j < n / 2 ? 0 : 1; add_cell(sg.get_make_segment(g), v, c); } }
  std::size_t nv = vg::vertices(mesh).size(), ne = vg::lines(mesh).size(), nc = vg::cells(mesh).size(); CHECK(nc == std::size_t(2 * n * n) && ne == std::size_t(3 * n * n + 2 * n), "oracle", ne);
  Mesh out; Segmentation os(out); vg::cell_refine_uniformly(mesh, sg, out, os);
  CHECK(vg::cells(out).size() == 4 * nc, "large-cells", vg::cells(out).size() << " cells from " << nc); CHECK(vg::vertices(out).size() == nv + ne, "large-vertices", vg::vertices(out).size() << " vertices from " << nv << " and " << ne << " edges"); CHECK(vg::lines(out).size() == 2 * ne + 3 * nc, "large-edges", vg::lines(out).size() << " edges from " << ne);
  std::set<std::pair<long,long> > seen; typedef vg::result_of::vertex_range<Mesh>::type VR; VR vr(out); for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { P3 p = to_p3(vg::point(*it)); CHECK(p[0] * 2 == std::floor(p[0] * 2) && p[1] * 2 == std::floor(p[1] * 2) && seen.insert(std::make_pair(long(p[0] * 2), long(p[1] * 2))).second, "large-point", p[0] << "," << p[1]); }
  typedef vg::result_of::cell_range<Mesh>::type CR; CR cr(out); for (vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) { IV c = vids(*it); P3 a = to_p3(vg::point(vr[c[0]])), b = to_p3(vg::point(vr[c[1]])), d = to_p3(vg::point(vr[c[2]])); double ar = std::fabs((b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])) / 2; CHECK(ar == 0.125, "large-area", ar); }
  for (int g = 0; g < 2; ++g) { std::size_t want = 4 * std::size_t(2 * n) * (g ? n - n / 2 : n / 2); CHECK(vg::cells(os(g)).size() == want, "large-segment", vg::cells(os(g)).size() << " cells instead of " << want); }
  mon().hit("large-mesh");
}
#endif
void run_case(Rng & r, long idx)
{
#if KIND == 3 && PROP == 11
  if (mon().cur % 1000 == 78) { large_case(r); return; }
#endif
  Mesh mesh; Segmentation sg(mesh); GenOpt o; o.maxn = KIND == TET3 ? 2 : 3; o.drop = r.real(0, 0.5); o.jitter = r.chance(0.35) ? 0 : 0.5; o.isolated = 0;
  if (r.chance(0.2)) { o.wild = true; o.jitter = 0.5; o.maxn = 2; }
  Model m = gen_model(r, KIND, o);
  { std::set<IV> seen; std::vector<IV> c; for (IV const & x : m.c) if (seen.insert(sorted(x)).second) c.push_back(x); m.c = c; }
  if (KIND == TET3 && r.chance(0.3)) { while (m.c.size() > 2) m.c.pop_back(); mon().hit("tiny-mesh"); }
  { std::vector<char> used(m.p.size(), 0); for (IV const & c : m.c) for (int v : c) used[v] = 1; IV inv(m.p.size(), -1); std::vector<P3> np; for (std::size_t i = 0; i < m.p.size(); ++i) if (used[i]) { inv[i] = int(np.size()); np.push_back(m.p[i]); } m.p = np; for (IV & c : m.c) for (int & v : c) v = inv[v]; }
#if PROP == 12
  const bool chain = r.chance(0.08);
  if (chain)
  { // cells around an axis whose outer edges grow: flags on a short edge have to travel through all of them
    m.p.clear(); m.c.clear(); int n = r.range(3, 12); double g = r.real(1.15, 1.5), st = std::min(0.5, 6.0 / (n + 1)), rad = 1; const int L = KIND == TET3 ? 2 : 1; IV ord;
    m.p.push_back(P3{{0,0,0}}); if (L == 2) m.p.push_back(P3{{0,0,0.3}});
    for (int k = 0; k <= n; ++k) { m.p.push_back(P3{{rad * std::cos(st * k), rad * std::sin(st * k), kind_gdim(KIND) == 3 ? -0.01 * rad : 0}}); rad *= g; }
    for (int k = 0; k < n; ++k) ord.push_back(n - 1 - k); if (r.chance(0.6)) r.shuffle(ord); else if (r.chance(0.2)) std::reverse(ord.begin(), ord.end());
    for (int k : ord) { IV c; for (int i = 0; i < L; ++i) c.push_back(i); c.push_back(L + k); c.push_back(L + k + 1); r.shuffle(c); m.c.push_back(c); }
    mon().hit("chain-of-growing-cells");
  }
#endif
  if (r.chance(0.25)) { double f = std::pow(10.0, r.range(-9, 9)); for (P3 & p : m.p) for (double & x : p) x *= f; mon().hit("scaled-mesh"); }
  bool far = r.chance(0.15);
  if (far) { double e = 0; for (P3 const & p : m.p) e = std::max(e, dist(p, m.p[0])); P3 of = {{0,0,0}}; for (int d = 0; d < kind_gdim(KIND); ++d) of[d] = e * std::pow(10.0, r.real(3, 7)) * (r.chance(0.5) ? 1 : -1); for (P3 & p : m.p) for (int d = 0; d < kind_gdim(KIND); ++d) p[d] += of[d]; mon().hit("mesh-far-from-origin"); }
  bool seg = r.chance(0.5); int ns = seg ? many(r, r.range(1, 3)) : 0; std::vector<int> sid; for (int i = 0; i < ns; ++i) { int id = sid.empty() ? wide_id(r, r.below(3)) : sid.back() + r.range(1, 3); sid.push_back(id); sg.get_make_segment(id); }
  Built b = build(mesh, m); In in;
  if (!seg && r.chance(0.3) && b.c.size() > 1)
  { // leaves gaps in the identifiers
    int n = r.range(1, int(b.c.size()) - 1); for (int i = 0; i < n; ++i) { typedef vg::result_of::cell_range<Mesh>::type CR; CR cr(mesh); if (cr.size() < 2) break; vg::result_of::iterator<CR>::type it = cr.begin(); for (int k = r.below(int(cr.size())); k > 0; --k) ++it; CH h = it.handle(); vg::erase_element(mesh, h); }
    // edges without cells would be split as well: remove them
    for (;;) { In t = snapshot(mesh); std::set<IV> e; for (auto const & c : t.c) for (std::size_t i = 0; i < c.second.size(); ++i) for (std::size_t j = 0; j < i; ++j) e.insert(sorted(IV{c.second[i], c.second[j]})); IV dead; for (auto const & l : t.lines) if (!e.count(l.first)) dead.push_back(l.second); if (dead.empty()) break; vg::erase_element(mesh, vg::find(mesh, vg::result_of::id<Line>::type(dead[0])).handle()); }
    mon().hit("after-deletions");
  }
  in = snapshot(mesh);
  for (auto const & c : in.c) if (ns) { int n = r.below(3); for (int i = 0; i < n; ++i) { int g = r.pick(sid); vg::add(sg(g), *vg::find(mesh, vg::result_of::cell_id<Mesh>::type(c.first))); in.seg[c.first].insert(g); } }
  std::set<IV> edges; for (auto const & c : in.c) for (std::size_t i = 0; i < c.second.size(); ++i) for (std::size_t j = 0; j < i; ++j) edges.insert(sorted(IV{c.second[i], c.second[j]}));
  Mesh const & cin = mesh; Segmentation const & csg = sg; Mesh out; Segmentation osg(out); std::map<IV,double> cuts;
  std::ostringstream note;
#if PROP == 11
  for (IV const & e : edges) cuts[e] = 0.5;
  if (!distinct_points(in, split_points(in, cuts), 1e-4 * extent(in))) { mon().hit("skipped-coincident-points"); return; }
  typedef vg::result_of::accessor<std::deque<bool>, Line>::type FA; std::deque<bool> fl; FA fa(fl);
  vg::vertex_copy_map<Mesh, Mesh> vm(out); typedef vg::result_of::vertex_handle<Mesh>::type VHT; std::deque<VHT> eh; vg::result_of::accessor<std::deque<VHT>, Line>::type ea(eh);
  int how = r.below(4); bool maps = false;
  if (seg) switch (how)
  {
    case 0: vg::cell_refine_uniformly(cin, csg, out, osg); break;
    case 1: vg::refine_uniformly<Cell>(cin, csg, out, osg); break;
    case 2: vg::refine_uniformly<CellTag>(cin, csg, out, osg, fa); break;
    default: vg::refine_uniformly<Cell>(cin, csg, out, osg, vg::default_point_accessor(cin), vm, fa, ea); maps = true;
  }
  else switch (how)
  {
    case 0: vg::cell_refine_uniformly(cin, out); break;
    case 1: vg::refine_uniformly<Cell>(cin, out); break;
    case 2: vg::refine_uniformly<CellTag>(cin, out, fa); break;
    default: vg::refine_uniformly<Cell>(cin, out, vg::default_point_accessor(cin), vm, fa, ea); maps = true;
  }
  mon().hit(seg ? "uniform-segmented" : "uniform-plain");
  Out res = check_refined(in, out, cuts, exact_tol(in), true);
  if (seg) check_segments(in, out, osg, res);
  if (maps)
  {
    typedef vg::result_of::const_line_range<Mesh>::type LR; LR lr(cin);
    for (vg::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) { IV k = sorted(vids(*it)); Bary w; w[k[0]] = 0.5; w[k[1]] = 0.5; CHECK(res.bary.at(int(vg::dereference_handle(out, ea(*it)).id().get())) == w, "edge-vertex-map", "edge " << show(k) << " | " << in.str()); }
    if (seg) { typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(cin); for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { Bary w; w[int((*it).id().get())] = 1; std::size_t before = vg::vertices(out).size(); if (!in.c.empty()) { VHT h = vm(*it); bool usedv = false; for (auto const & c : in.c) for (int x : c.second) usedv |= x == int((*it).id().get()); if (usedv) { CHECK(vg::vertices(out).size() == before, "vertex-map", "old vertex not known to the copy map"); CHECK(res.bary.at(int(vg::dereference_handle(out, h).id().get())) == w, "vertex-map", "old vertex " << w.begin()->first << " | " << in.str()); } } } }
    mon().hit("maps-checked");
  }
  // a second level
  if (!seg && r.chance(0.2) && in.c.size() < 8) { In in2 = snapshot(out); std::map<IV,double> c2; for (auto const & l : in2.lines) c2[l.first] = 0.5; Mesh out2; vg::cell_refine_uniformly(const_cast<Mesh const &>(out), out2); check_refined(in2, out2, c2, exact_tol(in2), true); mon().hit("second-level"); }
  { In after = snapshot(mesh); CHECK(after.v == in.v && after.c == in.c && after.lines == in.lines, "input-changed", in.str()); }
#elif PROP == 12
  int mode = r.below(3); std::set<IV> want;
  if (mode == 0)
  { // cells
    std::set<int> marked; double p = r.real(0, 1); for (auto const & c : in.c) if (r.chance(p)) marked.insert(c.first);
    for (auto const & c : in.c) if (marked.count(c.first)) for (std::size_t i = 0; i < c.second.size(); ++i) for (std::size_t j = 0; j < i; ++j) want.insert(sorted(IV{c.second[i], c.second[j]}));
    for (IV const & e : want) cuts[e] = 0.5; if (!distinct_points(in, split_points(in, cuts), 1e-4 * extent(in))) { mon().hit("skipped-coincident-points"); return; }
    std::vector<bool> fl(1 + in.c.rbegin()->first); for (int c : marked) fl[c] = true; std::map<vg::result_of::cell_id<Mesh>::type,bool> ml;
    vg::result_of::accessor<std::vector<bool>, Cell>::type fa(fl); vg::result_of::field<std::vector<bool>, Cell>::type ff(fl);
    if (seg) switch (r.below(3)) { case 0: vg::cell_refine(cin, csg, out, osg, fa); break; case 1: vg::element_refine<Cell>(cin, csg, out, osg, ff); break; default: vg::element_refine<CellTag>(cin, csg, out, osg, fa); }
    else switch (r.below(3)) { case 0: vg::cell_refine(cin, out, fa); break; case 1: vg::element_refine<Cell>(cin, out, ff); break; default: vg::element_refine<CellTag>(cin, out, fa); }
    mon().hit("by-cells");
  }
  else
  {
    double p = r.chance(0.3) ? 1.5 / (1 + edges.size()) : r.real(0, 1); for (IV const & e : edges) if (r.chance(p)) want.insert(e);
    if (chain && r.chance(0.8)) { mode = 2; want.clear(); IV best; double bl = 0; for (IV const & e : edges) { double l = dist(in.v.at(e[0]), in.v.at(e[1])); if (best.empty() || l < bl) { best = e; bl = l; } } want.insert(best); }
    if (mode == 2)
    { // longest edge closure
      std::map<int,bool> dummy; int n = 0; for (auto const & l : in.lines) n = std::max(n, l.second + 1); std::deque<bool> fl(n); vg::result_of::accessor<std::deque<bool>, Line>::type fa(fl);
      for (IV const & e : want) fl[in.lines[e]] = true;
      vg::ensure_longest_edge_refinement<CellTag>(cin, fa);
      std::set<IV> got; for (auto const & l : in.lines) if (fl[l.second]) got.insert(l.first);
      for (IV const & e : want) CHECK(got.count(e), "mark-lost", show(e) << " | " << in.str());
      // least fixed point, up to ties in length
      auto len = [&](IV const & e) { return dist(in.v.at(e[0]), in.v.at(e[1])); };
      std::set<IV> fix = want;
      for (auto const & c : in.c)
      {
        std::vector<IV> es; for (std::size_t i = 0; i < c.second.size(); ++i) for (std::size_t j = 0; j < i; ++j) es.push_back(sorted(IV{c.second[i], c.second[j]}));
        double mx = 0; bool any = false, longest = false; for (IV const & e : es) { mx = std::max(mx, len(e)); any |= got.count(e) > 0; }
        for (IV const & e : es) longest |= got.count(e) && len(e) >= mx * (1 - 1e-12);
        CHECK(!any || longest, "longest-edge-unmarked", "cell " << show(c.second) << " has a marked edge but its longest edge is not marked | " << in.str());
      }
      for (bool ch = true; ch; )
      { ch = false; for (auto const & c : in.c) { std::vector<IV> es; for (std::size_t i = 0; i < c.second.size(); ++i) for (std::size_t j = 0; j < i; ++j) es.push_back(sorted(IV{c.second[i], c.second[j]})); double mx = 0; bool any = false; for (IV const & e : es) { mx = std::max(mx, len(e)); any |= fix.count(e) > 0; } if (any) for (IV const & e : es) if (len(e) >= mx * (1 - 1e-12) && fix.insert(e).second) ch = true; } }
      for (IV const & e : got) CHECK(fix.count(e), "edge-marked-needlessly", show(e) << " | " << in.str());
      mon().hit("longest-edge-closure"); if (got.size() > want.size()) mon().hit("closure-added-edges"); want = got;
    }
    for (IV const & e : want) cuts[e] = 0.5; if (!distinct_points(in, split_points(in, cuts), 1e-4 * extent(in))) { mon().hit("skipped-coincident-points"); return; }
    int n = 0; for (auto const & l : in.lines) n = std::max(n, l.second + 1); std::vector<bool> fl(n); for (IV const & e : want) fl[in.lines[e]] = true;
    vg::result_of::accessor<std::vector<bool>, Line>::type fa(fl); vg::result_of::field<std::vector<bool>, Line>::type ff(fl);
    if (seg) switch (r.below(2)) { case 0: vg::refine<Cell>(cin, csg, out, osg, fa); break; default: vg::refine<CellTag>(cin, csg, out, osg, ff); }
    else switch (r.below(2)) { case 0: vg::refine<Cell>(cin, out, fa); break; default: vg::refine<CellTag>(cin, out, ff); }
    mon().hit("by-edges");
  }
  Out res = check_refined(in, out, cuts, exact_tol(in), false);
  if (seg) check_segments(in, out, osg, res);
  { In after = snapshot(mesh); CHECK(after.v == in.v && after.c == in.c && after.lines == in.lines, "input-changed", in.str()); }
#else // 13
  P3 pt = {{0,0,0}}, nrm = {{0,0,0}}; const int G = kind_gdim(KIND);
  double ext = 0; for (auto const & v : in.v) for (auto const & w : in.v) ext = std::max(ext, dist(v.second, w.second));
  bool ok = false; const double clear = far || r.chance(0.6) ? 1e-2 : std::pow(10.0, r.real(-5, -2)), tol = 1e-10 * ext + 3e-15 * magnitude(in) / clear;
  for (int t = 0; t < 30 && !ok; ++t)
  {
    IV ids; for (auto const & v : in.v) ids.push_back(v.first);
    for (int d = 0; d < G; ++d) nrm[d] = r.real(-1, 1);
    if (r.chance(0.3)) { nrm = P3{{0,0,0}}; nrm[r.below(G)] = r.chance(0.5) ? 1 : -1; }
    if (r.chance(0.3)) { double f = r.real(0.2, 5); for (double & x : nrm) x *= f; }
    P3 a = in.v.at(r.pick(ids)), q = in.v.at(r.pick(ids)); pt = r.chance(0.3) ? a : lerp(a, q, r.u());
    if (r.chance(0.25)) { P3 e; for (int d = 0; d < 3; ++d) e[d] = q[d] - a[d]; double ee = inner(e, e); if (ee > 0) { double f = inner(nrm, e) / ee; for (int d = 0; d < 3; ++d) nrm[d] -= f * e[d]; pt = r.chance(0.5) ? a : q; } }
    double nn = std::sqrt(inner(nrm, nrm)); if (nn < 0.2) continue;
    cuts.clear(); ok = true; std::map<int,double> s;
    for (auto const & v : in.v) { P3 df; for (int d = 0; d < 3; ++d) df[d] = v.second[d] - pt[d]; s[v.first] = inner(nrm, df); double a = std::fabs(s[v.first]); if (a > 1e-13 * nn * ext && a < clear * nn * ext) ok = false; if (a <= 1e-13 * nn * ext) s[v.first] = 0; }
    for (IV const & e : edges) if (s[e[0]] * s[e[1]] < 0) cuts[e] = s[e[0]] / (s[e[0]] - s[e[1]]);
    if (ok && !distinct_points(in, split_points(in, cuts), std::max(1e-7 * ext, 20 * tol))) ok = false;
  }
  if (!ok) { mon().hit("skipped-no-clear-plane"); return; }
  const double eps = 1e-11 * std::min(1.0, ext);   // the tolerance is the larger one of eps and eps * length
  if (seg) vg::hyperplane_refine(cin, csg, out, osg, mkpt(pt), mkpt(nrm), eps); else vg::hyperplane_refine(cin, out, mkpt(pt), mkpt(nrm), eps);
  Out res = check_refined(in, out, cuts, tol, false);
  if (seg) check_segments(in, out, osg, res);
  In rs = snapshot(out); double nn = std::sqrt(inner(nrm, nrm));
  for (auto const & c : rs.c) { double lo = 0, hi = 0; for (int v : c.second) { P3 df; for (int d = 0; d < 3; ++d) df[d] = rs.v.at(v)[d] - pt[d]; double x = inner(nrm, df) / nn; lo = std::min(lo, x); hi = std::max(hi, x); } CHECK(!(lo < -1e-9 * ext - tol && hi > 1e-9 * ext + tol), "cell-crosses-hyperplane", "refined cell " << show(c.second) << " reaches from " << lo << " to " << hi << " | " << in.str()); }
  mon().hit(cuts.empty() ? "plane-misses-mesh" : "plane-cuts-mesh"); mon().hit(seg ? "hyperplane-segmented" : "hyperplane-plain");
  { In after = snapshot(mesh); CHECK(after.v == in.v && after.c == in.c && after.lines == in.lines, "input-changed", in.str()); }
#endif
  mon().sample(in.str());
}

// C16: distances, closest points, boundary distances and point inclusion against a convex-hull oracle.
#include "kinds.hpp"
#include "vec.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/inclusion.hpp"

typedef std::vector<P3> PV;
#define POLY (KIND == 7 || KIND == 8)
struct PAcc { typedef Point value_type; typedef Point & reference; typedef Point const & const_reference; std::vector<Point> * v; template<class V> Point const & operator()(V const & x) const { return (*v)[x.id().get()]; } template<class V> Point const & at(V const & x) const { return (*v)[x.id().get()]; } };
static PV pts(IV const & v, PV const & p) { PV r; for (int i : v) r.push_back(p[i]); return r; }

// Closest point of the convex hull of s to x: over all affinely independent subsets of up to four points, project and keep
// projections inside the subset's simplex (Caratheodory: the closest point lies in one of them).
static double hull_dist(P3 const & x, PV const & s)
{
  double best = 1e300; int n = int(s.size());
  for (int m = 1; m < (1 << n); ++m)
  {
    IV q; for (int i = 0; i < n; ++i) if (m & (1 << i)) q.push_back(i); if (q.size() > 4) continue;
    P3 o = s[q[0]], d = x - o; std::vector<P3> e; double vol = 1, ext = 1; bool bad = false;      // orthonormalise the directions
    std::vector<std::array<double,3>> R(3, std::array<double,3>{{0,0,0}}); double rhs[3] = {0,0,0};
    for (std::size_t k = 1; k < q.size() && !bad; ++k)
    { P3 u = s[q[k]] - o; double l = len(u); for (std::size_t j = 0; j < e.size(); ++j) { double c = dot(u, e[j]); R[j][k-1] = c; u = u - c * e[j]; } for (std::size_t j = 0; j < e.size(); ++j) { double c = dot(u, e[j]); R[j][k-1] += c; u = u - c * e[j]; }
      if (len(u) < 1e-9 * l || l == 0) { bad = true; break; } R[k-1][k-1] = len(u); e.push_back((1 / len(u)) * u); }
    (void)vol; (void)ext; if (bad) continue;
    P3 rest = d; for (std::size_t k = 0; k < e.size(); ++k) { rhs[k] = dot(d, e[k]); rest = rest - rhs[k] * e[k]; }
    double la[3] = {0,0,0}, sum = 0; for (int k = int(e.size()) - 1; k >= 0; --k) { double v = rhs[k]; for (std::size_t j = k + 1; j < e.size(); ++j) v -= R[k][j] * la[j]; la[k] = v / R[k][k]; }
    bool in = true; for (std::size_t k = 0; k < e.size(); ++k) { sum += la[k]; if (la[k] < 0) in = false; } if (sum > 1) in = false;
    if (in) { // recompute the distance from the foot point
      P3 f = o; for (std::size_t k = 0; k < e.size(); ++k) f = f + la[k] * (s[q[k+1]] - o); best = std::min(best, len(x - f)); }
  }
  return best;
}
static double seg_seg(PV const & a, PV const & b, bool & unsure)
{
  double best = std::min(std::min(hull_dist(a[0], b), hull_dist(a[1], b)), std::min(hull_dist(b[0], a), hull_dist(b[1], a)));
  P3 u = a[1] - a[0], v = b[1] - b[0], n = cross(u, v); double s2 = dot(n, n) / (dot(u, u) * dot(v, v));
  if (s2 < 1e-22) return best;
  if (s2 < 3e-6) unsure = true;                  // documented round-off threshold of the library for parallel lines
  P3 w = b[0] - a[0]; double s = dot(cross(w, v), n) / dot(n, n), t = dot(cross(w, u), n) / dot(n, n);
  if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, len((a[0] + s * u) - (b[0] + t * v)));
  return best;
}

static double SC, OFF;   // extent of the coordinates in play
static double tol() { return 1e-10 * SC + 1e-12 * OFF; }

// hull of an element (point, line, convex 2d or 3d cell)
static double od(P3 const & x, PV const & s) { return hull_dist(x, s); }

template<class A, class X, class E> void point_elem(A const & acc, X const & x, P3 const & xp, E const & e, PV const & P, const char * what)
{
  PV s = pts(vids(e), P); double want = od(xp, s), a = vg::distance(acc, x, e), b = vg::distance(acc, e, x);
  CHECK(std::fabs(a - want) <= tol() && std::fabs(b - want) <= tol(), "distance", what << " dim " << E::tag::dim << " distance " << a << "/" << b << " expected " << want << " of " << show(xp) << " and " << show(s));
  auto pr = vg::closest_points(acc, x, e); P3 f = to_p3(pr.first), g = to_p3(pr.second);
  CHECK(len(f - xp) <= tol(), "closest-first", what << " first closest point " << show(f) << " is not the point " << show(xp));
  CHECK(od(g, s) <= tol() && std::fabs(len(f - g) - want) <= tol(), "closest-second", what << " closest point " << show(g) << " for " << show(xp) << " of " << show(s) << " expected distance " << want);
  mon().hit(std::string(what) + "-dim" + std::to_string(int(E::tag::dim)));
  if (want <= tol()) mon().hit("touching"); else mon().hit("apart");
}
template<class X, class E> void point_elem_default(X const & x, P3 const & xp, E const & e, PV const & P)
{
  double want = od(xp, pts(vids(e), P)); CHECK(std::fabs(vg::distance(x, e) - want) <= tol() && std::fabs(vg::distance(e, x) - want) <= tol(), "distance-default", "dim " << E::tag::dim << " " << vg::distance(x, e) << "/" << vg::distance(e, x) << " expected " << want);
}

// element named first: one of the two points is the query point, the other lies on the element, at the minimal distance (the order is left open)
template<class PR> void pair_ok(PR const & pr, P3 const & xp, PV const & s, const char * what)
{
  double want = od(xp, s); P3 f = to_p3(pr.first), g = to_p3(pr.second); if (len(g - xp) < len(f - xp)) std::swap(f, g);
  CHECK(len(f - xp) <= tol() && od(g, s) <= tol() && std::fabs(len(f - g) - want) <= tol(), "closest-element-first", what << " closest points " << show(f) << " and " << show(g) << " of " << show(s) << " and " << show(xp) << " expected distance " << want);
  mon().hit("element-first");
}
static bool rnd_skip(Rng & r) { return r.chance(0.5); }

template<class Tag, class A> void elems(Rng & r, Mesh const & m, A const & acc, PV const & P, std::vector<P3> const & X, bool deflt)
{
  typedef typename vg::result_of::const_element_range<Mesh, Tag>::type R; R rg(m); typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(m);
  for (typename vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it)
  {
    if (rnd_skip(r)) continue;
    P3 x = r.pick(X); point_elem(acc, mkpt(x), x, *it, P, "point"); if (deflt) point_elem_default(mkpt(x), x, *it, P);
    int k = r.below(int(vr.size())); typedef typename vg::result_of::iterator<VR>::type VI; VI vi = vr.begin(); std::advance(vi, k); Vertex const & v = *vi;
    point_elem(acc, v, P[int(v.id().get())], *it, P, "vertex"); if (deflt) { point_elem_default(v, P[int(v.id().get())], *it, P); auto a = vg::closest_points(v, *it); auto b = vg::closest_points(acc, v, *it); CHECK(a == b, "closest-default", "closest_points without accessor differs"); }
    { PV s = pts(vids(*it), P); P3 vp = P[int(v.id().get())]; pair_ok(vg::closest_points(acc, *it, mkpt(x)), x, s, "accessor, point"); pair_ok(vg::closest_points(acc, *it, v), vp, s, "accessor, vertex"); if (deflt) { pair_ok(vg::closest_points(*it, mkpt(x)), x, s, "point"); pair_ok(vg::closest_points(*it, v), vp, s, "vertex"); } }
  }
}
#if POLY
template<class A> void cells(Rng &, Mesh const &, A const &, PV const &, PV const &, bool) {}
#else
template<class A> void cells(Rng & r, Mesh const & m, A const & acc, PV const & P, PV const & X, bool d) { elems<CellTag>(r, m, acc, P, X, d); }
#endif

template<class A> void lines(Rng & r, Mesh const & m, A const & acc, PV const & P, bool deflt)
{
  typedef vg::result_of::const_element_range<Mesh, vg::line_tag>::type R; R rg(m); typedef vg::result_of::iterator<R>::type I; int n = int(rg.size());
  for (int t = 0; t < 2 * n && t < 40; ++t)
  {
    I a = rg.begin(), b = rg.begin(); std::advance(a, r.below(n)); std::advance(b, r.below(n)); PV x = pts(vids(*a), P), y = pts(vids(*b), P); bool unsure = false;
    double want = seg_seg(x, y, unsure); if (unsure) { mon().hit("skipped-nearly-parallel"); continue; }
    double d = vg::distance(acc, *a, *b); CHECK(std::fabs(d - want) <= 20 * tol(), "line-distance", "distance " << d << " expected " << want << " of " << show(x) << " and " << show(y));
    if (deflt) CHECK(vg::distance(*a, *b) == d, "line-distance-default", "");
    auto pr = vg::closest_points(acc, *a, *b); P3 f = to_p3(pr.first), g = to_p3(pr.second);
    CHECK(od(f, x) <= 20 * tol() && od(g, y) <= 20 * tol(), "closest-order", "closest points " << show(f) << " and " << show(g) << " do not lie on the first line " << show(x) << " and the second line " << show(y));
    CHECK(std::fabs(len(f - g) - want) <= 20 * tol(), "closest-lines", len(f - g) << " expected " << want);
    P3 cr = cross(x[1] - x[0], y[1] - y[0]); mon().hit(len(cr) <= 1e-11 * len(x[1] - x[0]) * len(y[1] - y[0]) ? "parallel-lines" : want <= tol() ? "meeting-lines" : "skew-lines");
  }
}

// boundary facets (vertex lists) of a set of cells
static std::vector<IV> hull_facets(Model const & m) { std::vector<IV> r; std::map<IV,int> c = m.facet_count(); for (std::size_t i = 0; i < m.c.size(); ++i) for (IV const & b : m.boundary(int(i), m.tdim - 1)) if (c[sorted(b)] == 1) r.push_back(b); return r; }
static double to_facets(P3 const & x, std::vector<IV> const & f, PV const & P) { double b = 1e300; for (IV const & q : f) b = std::min(b, od(x, pts(q, P))); return b; }
static double facets_facets(std::vector<IV> const & f, std::vector<IV> const & g, PV const & P, bool & unsure)
{ double b = 1e300; for (IV const & x : f) for (IV const & y : g) b = std::min(b, x.size() == 1 ? len(P[x[0]] - P[y[0]]) : seg_seg(pts(x, P), pts(y, P), unsure)); return b; }

template<class A, class S> void bdist(A const & acc, S const & s, P3 const & x, std::vector<IV> const & f, PV const & P, bool deflt, const char * what)
{
  double want = to_facets(x, f, P); Point p = mkpt(x); double a = vg::boundary_distance(acc, p, s);
  CHECK(std::fabs(a - want) <= tol(), "boundary-distance", what << " boundary distance " << a << " expected " << want << " of " << show(x));
  auto pr = vg::closest_points_on_boundary(acc, p, s); P3 g = to_p3(pr.second); CHECK(len(to_p3(pr.first) - x) <= tol() && to_facets(g, f, P) <= tol() && std::fabs(len(x - g) - want) <= tol(), "boundary-closest", what << " closest boundary point " << show(g) << " of " << show(x) << " expected distance " << want);
  { auto rv = vg::closest_points_on_boundary(acc, s, p); P3 u = to_p3(rv.first), w = to_p3(rv.second); if (len(w - x) < len(u - x)) std::swap(u, w); CHECK(len(u - x) <= tol() && to_facets(w, f, P) <= tol() && std::fabs(len(u - w) - want) <= tol(), "boundary-closest-swapped", what << " closest boundary points " << show(u) << " and " << show(w) << " of " << show(x) << " expected distance " << want); mon().hit("boundary-swapped");
    if (deflt) { auto dv = vg::closest_points_on_boundary(s, p); CHECK(dv == rv, "boundary-closest-default", what); } CHECK(vg::boundary_distance(acc, s, p) == a, "boundary-distance-swapped", what); }
  if (deflt) CHECK(vg::boundary_distance(p, s) == a && vg::boundary_distance(s, p) == a, "boundary-distance-default", what);
  mon().hit(std::string("boundary-") + what);
}

void run_case(Rng & r, long)
{
  GenOpt o; o.large = 1; o.maxn = KIND >= 9 ? 2 : 3; o.drop = r.real(0, 0.4); o.flat = true; bool lattice = r.chance(0.3); o.jitter = (KIND == 10 || lattice) ? 0.0 : r.real(0, 0.6);
  if (lattice) o.star = 0;
  if (KIND == 4 || KIND == 2) o.flat = lattice || r.chance(0.5);
  Model m; do m = gen_model(r, KIND, o); while (!m.manifold());
  if (lattice) { P3 lo = m.p[0]; for (P3 & p : m.p) for (int d = 0; d < 3; ++d) lo[d] = std::min(lo[d], p[d]); double st[3] = {1e300, 1e300, 1e300}; for (P3 & p : m.p) for (int d = 0; d < 3; ++d) if (p[d] - lo[d] > 1e-9) st[d] = std::min(st[d], p[d] - lo[d]); for (P3 & p : m.p) for (int d = 0; d < m.gdim; ++d) p[d] = st[d] < 1e299 ? std::floor((p[d] - lo[d]) / st[d] + 0.5) : 0; std::set<P3> ds(m.p.begin(), m.p.end()); if (ds.size() != m.p.size()) { mon().hit("skipped-degenerate"); return; } mon().hit("lattice-cases"); }
  else
  {
    double c[3]; for (double & x : c) x = r.real(-0.12, 0.12); double mx = 0; for (P3 const & p : m.p) mx = std::max(mx, std::fabs(c[0]*p[0] + c[1]*p[1] + c[2]*p[2]));
    if (r.chance(0.6) && mx < 0.6) for (P3 & p : m.p) { double w = 1 + c[0]*p[0] + c[1]*p[1] + c[2]*p[2]; for (double & x : p) x /= w; }
    if (m.gdim >= 2) { double al = r.real(0, 6.28); for (P3 & p : m.p) { P3 q = p; p[0] = std::cos(al)*q[0] - std::sin(al)*q[1]; p[1] = std::sin(al)*q[0] + std::cos(al)*q[1]; } }
    if (m.gdim == 3) { double be = r.real(0, 6.28); for (P3 & p : m.p) { P3 q = p; p[1] = std::cos(be)*q[1] - std::sin(be)*q[2]; p[2] = std::sin(be)*q[1] + std::cos(be)*q[2]; } }
    double s = std::pow(10.0, r.chance(0.3) ? r.real(-8, 8) : r.real(-2, 2)); double t = r.chance(0.5) ? 0 : r.real(-5, 5) * s; for (P3 & p : m.p) for (int d = 0; d < m.gdim; ++d) p[d] = s * p[d] + t;
  }
#if KIND == 5 || KIND == 6
  for (IV const & c : m.c) { PV p = pts(IV{c[0], c[1], c[3], c[2]}, m.p); P3 n = cross(p[1] - p[0], p[2] - p[0]); for (int i = 0; i < 4; ++i) { P3 q = cross(p[(i+1)%4] - p[i], p[(i+2)%4] - p[(i+1)%4]); if (dot(q, n) <= 0.02 * dot(n, n)) { mon().hit("skipped-non-convex"); return; } } }
#endif
#if KIND == 3 || KIND == 4
  for (IV const & c : m.c) { PV p = pts(c, m.p); double e = std::max(len(p[1] - p[0]), std::max(len(p[2] - p[0]), len(p[2] - p[1]))); if (len(cross(p[1] - p[0], p[2] - p[0])) < 0.03 * e * e) { mon().hit("skipped-sliver"); return; } }
#endif
#if KIND == 9
  for (IV const & c : m.c) { PV p = pts(c, m.p); double e = 0; for (P3 & a : p) for (P3 & b : p) e = std::max(e, len(a - b)); if (std::fabs(dot(p[1] - p[0], cross(p[2] - p[0], p[3] - p[0]))) < 0.03 * e * e * e) { mon().hit("skipped-sliver"); return; } }
#endif
  SC = 0; OFF = 0; for (P3 const & a : m.p) { SC = std::max(SC, len(a - m.p[0])); OFF = std::max(OFF, len(a)); } SC = 10 * SC + 1e-300;
  Mesh mesh; Built bt = build(mesh, m); Mesh const & cm = mesh; auto acc = vg::default_point_accessor(cm);
  // query points: random, far away, vertices, midpoints, combinations (in cells, on faces), lattice positions
  PV X; for (int t = 0; t < 24; ++t)
  {
    P3 x = {{0,0,0}}; int k = r.below(6); P3 a = m.p[r.below(int(m.p.size()))], b = m.p[r.below(int(m.p.size()))], c = m.p[r.below(int(m.p.size()))];
    if (k == 0) for (int d = 0; d < m.gdim; ++d) x[d] = a[d] + r.real(-0.15, 0.15) * SC; else if (k == 1) x = a; else if (k == 2) x = 0.5 * (a + b); else if (k == 3) { IV const & q = m.c[r.below(int(m.c.size()))]; double w = 0; for (int v : q) { double l = r.chance(0.3) ? 0 : r.u(); w += l; x = x + l * m.p[v]; } if (w == 0) x = m.p[q[0]]; else x = (1 / w) * x; }
    else if (k == 4) x = a + r.real(-1, 2) * (b - a); else x = a + r.real(-1, 1) * (b - c);
    X.push_back(x);
  }
  Point qa = mkpt(X[0]), qb = mkpt(X[1]); CHECK(near(vg::distance(qa, qb), len(X[0] - X[1]), 1e-12, SC), "point-distance", "");
  { auto pr = vg::closest_points(acc, qa, qb); CHECK(pr.first == qa && pr.second == qb, "closest-point-point", ""); }
  std::vector<P3> Q; { double a[3][3]; for (auto & q : a) for (double & x : q) x = r.real(-0.2, 0.2); for (P3 const & p : m.p) { P3 q = p; for (int i = 0; i < m.gdim; ++i) for (int j = 0; j < m.gdim; ++j) q[i] += a[i][j] * p[j]; Q.push_back(q); } }
  std::vector<Point> QP; for (P3 const & q : Q) QP.push_back(mkpt(q)); PAcc pa; pa.v = &QP;
  elems<vg::vertex_tag>(r, cm, acc, m.p, X, true); elems<vg::vertex_tag>(r, cm, pa, Q, X, false);
#if KIND >= 3
  elems<vg::line_tag>(r, cm, acc, m.p, X, true); elems<vg::line_tag>(r, cm, pa, Q, X, false);
#endif
#if KIND >= 9
  elems<FacetTag>(r, cm, acc, m.p, X, true); elems<FacetTag>(r, cm, pa, Q, X, false);
#endif
  cells(r, cm, acc, m.p, X, true); cells(r, cm, pa, Q, X, false);
  lines(r, cm, acc, m.p, true); lines(r, cm, pa, Q, false);
  // boundary distances of points
  std::vector<IV> hf = hull_facets(m);
  Segmentation sg(mesh); Segment & s1 = sg.make_segment(); Segment & s2 = sg.make_segment(); Model m1 = m, m2 = m; m1.c.clear(); m2.c.clear();
  for (std::size_t i = 0; i < bt.c.size(); ++i) { int w = r.below(3); if (w == 0) { vg::add(s1, bt.c[i]); m1.c.push_back(m.c[i]); } if (w == 1) { vg::add(s2, bt.c[i]); m2.c.push_back(m.c[i]); } }
  Segment const & c1 = s1; Segment const & c2 = s2;
  if (!hf.empty()) for (int t = 0; t < 4; ++t) { P3 x = r.pick(X); bdist(acc, cm, x, hf, m.p, true, "mesh"); bdist(pa, cm, x, hf, Q, false, "mesh"); }
  std::vector<IV> f1 = hull_facets(m1), f2 = hull_facets(m2);
  if (!f1.empty()) for (int t = 0; t < 4; ++t) bdist(acc, c1, r.pick(X), f1, m.p, true, "segment");
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(cm); typedef vg::result_of::iterator<CR>::type CI;
#if !POLY
  for (CI it = cr.begin(); it != cr.end(); ++it) { if (r.chance(0.6)) continue; Model one = m; one.c.clear(); one.c.push_back(vids(*it)); std::vector<IV> fo = hull_facets(one); bdist(acc, *it, r.pick(X), fo, m.p, true, "cell");
    Vertex const & v = vg::dereference_handle(cm, bt.v[r.below(int(bt.v.size()))]); P3 x = m.p[int(v.id().get())]; double w = to_facets(x, fo, m.p), a = vg::boundary_distance(*it, v); CHECK(std::fabs(a - w) <= tol(), "boundary-distance-vertex", a << " expected " << w << " of vertex " << show(x));
    auto p1 = vg::closest_points_on_boundary(v, *it); auto p2 = vg::closest_points_on_boundary(*it, v); CHECK(std::fabs(len(to_p3(p1.first) - to_p3(p1.second)) - w) <= tol() && std::fabs(len(to_p3(p2.first) - to_p3(p2.second)) - w) <= tol() && len(to_p3(p1.first) - x) <= tol() && to_facets(to_p3(p1.second), fo, m.p) <= tol(), "boundary-closest-vertex", "vertex " << show(x) << " expected " << w); mon().hit("boundary-cell-vertex"); }
#endif
#if KIND <= 8 && !POLY
  for (CI it = cr.begin(); it != cr.end(); ++it)
  { // element to element / mesh / segment
    if (r.chance(0.6)) continue; Model one = m; one.c.clear(); one.c.push_back(vids(*it)); std::vector<IV> fo = hull_facets(one); CI jt = cr.begin(); std::advance(jt, r.below(int(cr.size()))); Model two = m; two.c.clear(); two.c.push_back(vids(*jt)); bool un = false; double w = facets_facets(fo, hull_facets(two), m.p, un);
    if (!un) { double d = vg::boundary_distance(*it, *jt); CHECK(std::fabs(d - w) <= 20 * tol() && std::fabs(vg::boundary_distance(*jt, *it) - w) <= 20 * tol(), "boundary-distance-cells", d << " expected " << w << " | " << m.str()); mon().hit("boundary-cell-cell"); }
    un = false; w = facets_facets(fo, hf, m.p, un); if (!un && !hf.empty()) { double d = vg::boundary_distance(acc, *it, cm); CHECK(std::fabs(d - w) <= 20 * tol(), "boundary-distance-cell-mesh", d << " expected " << w << " | " << m.str()); mon().hit("boundary-cell-mesh"); }
    un = false; w = facets_facets(fo, f1, m.p, un); if (!un && !f1.empty()) { double d = vg::boundary_distance(acc, *it, c1); CHECK(std::fabs(d - w) <= 20 * tol(), "boundary-distance-cell-segment", d << " expected " << w << " | " << m.str()); mon().hit("boundary-cell-segment"); }
  }
  if (!f1.empty() && !f2.empty()) { bool un = false; double w = facets_facets(f1, f2, m.p, un); if (!un) { double d = vg::boundary_distance(c1, c2); CHECK(std::fabs(d - w) <= 20 * tol(), "boundary-distance-segments", d << " expected " << w << " | " << m.str()); mon().hit("boundary-segment-segment"); } }
#endif
  { // line to all lines of a segment
    std::set<IV> ls = m1.keys(1); if (KIND <= 2) { ls.clear(); for (IV const & c : m1.c) ls.insert(c); }
    typedef vg::result_of::const_element_range<Mesh, vg::line_tag>::type R; R rg(cm); vg::result_of::iterator<R>::type it = rg.begin(); std::advance(it, r.below(int(rg.size()))); PV x = pts(vids(*it), m.p);
    double d = vg::distance(*it, c1); if (ls.empty()) CHECK(d == -1, "line-empty-segment", d);
    else { bool un = false; double w = 1e300; for (IV const & l : ls) w = std::min(w, seg_seg(x, pts(l, m.p), un)); if (!un) { CHECK(std::fabs(d - w) <= 20 * tol() && vg::distance(c1, *it) == d, "line-segment-distance", d << " expected " << w << " | " << m1.str()); mon().hit("line-segment"); } }
  }
#if KIND == 3 || KIND == 4 || KIND == 9
  // inclusion
  for (CI it = cr.begin(); it != cr.end(); ++it)
  {
    if (r.chance(0.3)) continue; bool ex = r.chance(0.4); PV s = pts(vids(*it), ex ? Q : m.p); int n = int(s.size()); double la[4]; double sum = 0; int mode = r.below(5);
    for (int i = 0; i < n; ++i) { la[i] = mode == 0 ? r.u() : r.real(-0.6, 1); if (mode == 1 && r.chance(0.4)) la[i] = 0; sum += la[i]; } if (std::fabs(sum) < 0.05) continue; double eps = r.chance(0.5) ? std::pow(10.0, r.real(-6, -1)) : 1e-12; if (mode == 4) { for (int i = 0; i < n; ++i) la[i] = r.u(); la[r.below(n)] = -eps * r.real(0.1, 3); sum = 0; for (int i = 0; i < n; ++i) sum += la[i]; } double mn = 1e300; P3 x = {{0,0,0}}; for (int i = 0; i < n; ++i) { la[i] /= sum; mn = std::min(mn, la[i]); x = x + la[i] * s[i]; }
    double margin = 1e-9 * (1 + OFF / SC * 10); bool lib = ex ? vg::is_inside(pa, *it, mkpt(x), eps) : vg::is_inside(*it, mkpt(x), eps);
    if (mn > margin) CHECK(lib, "inside-rejected", show(x) << " barycentric minimum " << mn << " in " << show(s)); if (mn < -2 * eps - margin) CHECK(!lib, "outside-accepted", show(x) << " barycentric minimum " << mn << " tolerance " << eps << " of " << show(s)); if (mn > -0.9 * eps + margin && mn < -margin) { double neg = 0; for (int i = 0; i < n; ++i) if (la[i] < 0) neg -= la[i]; if (neg < 0.9 * eps) { CHECK(lib, "tolerance-ignored", show(x) << " barycentric minimum " << mn << " tolerance " << eps); mon().hit("within-tolerance"); } }
    mon().hit(mn > margin ? "inside" : mn < -2 * eps - margin ? "outside" : "on-rim");
    if (!ex) { bool df = vg::is_inside(*it, mkpt(x)); if (std::fabs(mn) > margin) CHECK(df == (mn > 0), "inside-default", show(x) << " barycentric minimum " << mn); }
  }
#endif
  mon().state(m.hash()); mon().sample(m.str());
}

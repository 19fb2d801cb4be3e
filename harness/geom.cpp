// C15: volumes, surfaces, centroids, circumcenters, normals, angles and spanned volumes against independent formulas.
#include "kinds.hpp"
#include "vec.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/angle.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"

static const double TOL = 1e-9;
// volume of a planar-faced cell / facet / line given its points in reference order
static double poly_area(std::vector<P3> const & p) { P3 s = {{0,0,0}}; for (std::size_t i = 1; i + 1 < p.size(); ++i) s = s + cross(p[i] - p[0], p[i+1] - p[0]); return 0.5 * len(s); }
static double quad_area(std::vector<P3> const & p) { return poly_area(std::vector<P3>{p[0], p[1], p[3], p[2]}); }
static double hex_volume(std::vector<P3> const & p)
{ // divergence theorem over the six planar faces
  static const int f[6][4] = {{0,2,3,1},{4,5,7,6},{0,1,5,4},{2,6,7,3},{0,4,6,2},{1,3,7,5}}; P3 c = {{0,0,0}}; for (P3 const & q : p) c = c + 0.125 * q; double v = 0;
  for (auto const & q : f) { P3 a = p[q[0]] - c, b = p[q[1]] - c, d = p[q[2]] - c, e = p[q[3]] - c; v += dot(a, cross(b, d)) + dot(a, cross(d, e)); }
  return std::fabs(v) / 6;
}
static double vol(int dim, int kind, std::vector<P3> const & p)
{
  if (dim == 0) return 1;
  if (dim == 1) return len(p[1] - p[0]);
  if (dim == 2) { if (kind == QUAD2 || kind == QUAD3 || kind == HEX3) return quad_area(p); return poly_area(p); }
  return kind == HEX3 ? hex_volume(p) : std::fabs(dot(p[1] - p[0], cross(p[2] - p[0], p[3] - p[0]))) / 6;
}

// a point accessor different from the stored points: an affine image
struct Aff { double a[3][3]; P3 t; P3 operator()(P3 const & p) const { P3 q = t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i] += a[i][j] * p[j]; return q; } };
struct PAcc { typedef Point value_type; typedef Point & reference; typedef Point const & const_reference; std::vector<Point> * v; template<class V> Point const & operator()(V const & x) const { return (*v)[x.id().get()]; } template<class V> Point const & at(V const & x) const { return (*v)[x.id().get()]; } };

static std::vector<P3> pts(IV const & v, std::vector<P3> const & p) { std::vector<P3> r; for (int i : v) r.push_back(p[i]); return r; }
static double maxext(std::vector<P3> const & p) { double e = 0; for (P3 const & a : p) for (P3 const & b : p) e = std::max(e, len(a - b)); return e; }
static P3 mean(std::vector<P3> const & p) { P3 s = {{0,0,0}}; for (P3 const & q : p) s = s + q; return (1.0 / p.size()) * s; }
static bool is_par(std::vector<P3> const & p, double sc)   // parallelogram / parallelepiped
{ for (std::size_t i = 0; i < p.size(); ++i) { P3 e = p[0]; if (i & 1) e = e + (p[1] - p[0]); if (i & 2) e = e + (p[2] - p[0]); if (i & 4) e = e + (p[4] - p[0]); if (len(e - p[i]) > 1e-12 * sc) return false; } return true; }
static bool is_rect(std::vector<P3> const & p, double sc)
{ if (!is_par(p, sc)) return false; P3 a = p[1] - p[0], b = p[2] - p[0]; if (std::fabs(dot(a, b)) > 1e-12 * sc * sc) return false; if (p.size() == 8) { P3 c = p[4] - p[0]; if (std::fabs(dot(a, c)) > 1e-12 * sc * sc || std::fabs(dot(b, c)) > 1e-12 * sc * sc) return false; } return true; }

#define POLY (KIND == 7 || KIND == 8)
template<int D> struct Circ { template<class A, class E> static void run(A const & acc, E const & e, std::vector<P3> const & p, int kind, double off, const char * what)
{
  double sc = maxext(p); bool cube = (kind == QUAD2 || kind == QUAD3 || kind == HEX3) && D >= 2;
  if (cube && !is_rect(p, sc)) return;
  P3 c = to_p3(vg::circumcenter(acc, e)); double r = len(c - p[0]); double q = D == 2 ? vol(2, kind, p) / (sc * sc) : D == 3 ? vol(3, kind, p) / (sc * sc * sc) : 1;
  if (q < 1e-3) { mon().hit("skipped-sliver"); return; }
  double tol = 1e-11 * (1 + off / sc) * (1 + off / sc) / (q * q);
  for (P3 const & x : p) CHECK(std::fabs(len(x - c) - r) <= tol * sc, "circumcenter-equidistance", what << " dim " << D << " center " << show(c) << " radii " << r << " and " << len(x - c) << " points " << show(p));
  if (D == 2) { P3 n = cross(p[1] - p[0], p[2] - p[0]); CHECK(std::fabs(dot(c - p[0], n)) <= tol * sc * len(n), "circumcenter-plane", what << " circumcenter off the plane, points " << show(p)); }
  if (D == 1) CHECK(len(c - 0.5 * (p[0] + p[1])) <= 1e-12 * (sc + off), "circumcenter-line", what << " not the midpoint");
  mon().hit("circumcenters");
} };

template<> struct Circ<0> { template<class A, class E> static void run(A const &, E const &, std::vector<P3> const &, int, double, const char *) {} };

// one element: volume, centroid, circumcenter with default and explicit accessor
template<int D> struct Elem { template<class A, class E> static void run(A const & acc, E const & e, std::vector<P3> const & P, bool deflt, const char * what)
{
  IV v = vids(e); std::vector<P3> p = pts(v, P); double sc = maxext(p), off = 0; for (P3 const & q : p) off = std::max(off, len(q)); double want = vol(D, KIND, p), unit = std::pow(sc + 1e-300, D), ofac = 1 + off / (sc + 1e-300);
  double got = vg::volume(acc, e);
  CHECK(std::fabs(got - want) <= 1e-12 * unit * ofac * 8, "element-volume", what << " dim " << D << " volume " << got << " expected " << want << " points " << show(p));
  if (deflt) CHECK(vg::volume(e) == got, "element-volume-default", what << " default accessor differs: " << vg::volume(e) << " vs " << got);
#if POLY
  if (D == 2) { mon().hit("polygons"); return; }
#endif
  bool cube = (KIND == 5 || KIND == 6 || KIND == 10) && D >= 2;
  if (!cube || is_par(p, sc))
  {
    P3 c = to_p3(vg::centroid(acc, e)); CHECK(len(c - mean(p)) <= 1e-12 * (sc + off), "element-centroid", what << " dim " << D << " centroid " << show(c) << " expected " << show(mean(p)));
    if (deflt) CHECK(len(to_p3(vg::centroid(e)) - c) == 0, "element-centroid-default", what);
    mon().hit("centroids");
  }
  Circ<D>::run(acc, e, p, KIND, off, what);
  mon().hit("elements-dim" + std::to_string(D));
} };
#if POLY
template<> struct Elem<2> { template<class A, class E> static void run(A const & acc, E const & e, std::vector<P3> const & P, bool deflt, const char * what)
{
  std::vector<P3> p = pts(vids(e), P); double sc = maxext(p), off = 0; for (P3 const & q : p) off = std::max(off, len(q)); double want = poly_area(p), got = vg::volume(acc, e);
  CHECK(std::fabs(got - want) <= 1e-11 * sc * sc * (1 + off / sc), "polygon-area", what << " area " << got << " expected " << want << " points " << show(p));
  if (deflt) CHECK(vg::volume(e) == got, "polygon-area-default", what);
  mon().hit("polygons"); mon().hit("elements-dim2");
} };
#endif

template<class Tag, class MS, class A> void elements(MS const & ms, A const & acc, std::vector<P3> const & P, bool deflt, const char * what)
{
  typedef typename vg::result_of::const_element_range<MS, Tag>::type R; R r(ms);
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) Elem<Tag::dim>::run(acc, *it, P, deflt, what);
}

template<class E, class A> void element_surface(E const & cell, A const & acc, Model const & m, std::vector<P3> const & P, bool deflt, const char * what)
{
  double want = 0, u = 0; IV v = vids(cell); for (IV const & l : ref_boundary(KIND, m.tdim - 1, int(v.size()))) want += vol(m.tdim - 1, KIND, pts(sub(v, l), P)); std::vector<P3> p = pts(v, P); double off = 0; for (P3 const & q : p) off = std::max(off, len(q));
  u = std::pow(maxext(p), m.tdim - 1); double got = vg::surface(acc, cell);
  CHECK(std::fabs(got - want) <= 1e-11 * (u * (1 + off / maxext(p)) + want), "element-surface", what << " surface " << got << " expected " << want << " | " << show(p)); if (deflt) CHECK(vg::surface(cell) == got, "element-surface-default", what);
}

template<class MS> void totals(MS const & ms, Model const & m, const char * what)
{
  double want = 0, sf = 0; P3 cg = {{0,0,0}}; bool par = true; double ext = maxext(m.p), off = 0; for (P3 const & q : m.p) off = std::max(off, len(q));
  for (IV const & c : m.c) { std::vector<P3> p = pts(c, m.p); double v = vol(m.tdim, KIND, p); want += v; cg = cg + v * mean(p); if ((KIND == 5 || KIND == 6 || KIND == 10) && !is_par(p, maxext(p))) par = false; }
  double got = vg::volume(ms); CHECK(near(got, want, 1e-10, 1e-12 * std::pow(ext + off, m.tdim)), "mesh-volume", what << " volume " << got << " expected " << want << " | " << m.str());
  for (auto const & f : m.facet_count()) if (f.second == 1)
  { // facet points in reference order
    for (std::size_t i = 0; i < m.c.size(); ++i) for (IV const & b : m.boundary(int(i), m.tdim - 1)) if (sorted(b) == f.first) { sf += vol(m.tdim - 1, KIND, pts(b, m.p)); goto next; }
    next:;
  }
  double gs = vg::surface(ms); CHECK(near(gs, sf, 1e-10, 1e-12 * std::pow(ext + off, m.tdim - 1)), "mesh-surface", what << " surface " << gs << " expected " << sf << " | " << m.str());
#if !POLY
  if (par && !m.c.empty()) { P3 c = to_p3(vg::centroid(ms)); CHECK(len(c - (1.0 / want) * cg) <= 1e-9 * (ext + off), "mesh-centroid", what << " centroid " << show(c) << " expected " << show((1.0 / want) * cg) << " | " << m.str()); mon().hit("mesh-centroids"); }
#endif
  (void)par; mon().hit(what);
}

static double ref_angle(P3 const & a, P3 const & b) { return std::atan2(len(cross(a, b)), dot(a, b)); }

void run_case(Rng & r, long)
{
  GenOpt o; o.maxn = KIND == 10 ? 2 : 3; o.drop = r.real(0, 0.4); o.flat = true; if (KIND == 5 || KIND == 6 || KIND == 10) o.star = 0; o.isolated = r.below(2);
  bool proj = r.chance(0.6); o.jitter = (KIND == 10) ? 0.0 : r.chance(0.7) ? r.real(0, 0.6) : 0.0;
  if (KIND == 4 || KIND == 2) o.flat = r.chance(0.5);
  Model m; do m = gen_model(r, KIND, o); while (!m.manifold());
  { // projective image (keeps faces planar), rotation, scaling, translation
    double c[3]; for (double & x : c) x = r.real(-0.12, 0.12); double mx = 0; for (P3 const & p : m.p) mx = std::max(mx, std::fabs(c[0]*p[0] + c[1]*p[1] + c[2]*p[2]));
    if (proj && mx < 0.6) { for (P3 & p : m.p) { double w = 1 + c[0]*p[0] + c[1]*p[1] + c[2]*p[2]; for (double & x : p) x /= w; } if (m.gdim > 1) mon().hit("projective-images"); }
    if (m.gdim >= 2) { double al = r.real(0, 6.28); for (P3 & p : m.p) { P3 q = p; p[0] = std::cos(al)*q[0] - std::sin(al)*q[1]; p[1] = std::sin(al)*q[0] + std::cos(al)*q[1]; } }
    if (m.gdim == 3) { double be = r.real(0, 6.28); for (P3 & p : m.p) { P3 q = p; p[1] = std::cos(be)*q[1] - std::sin(be)*q[2]; p[2] = std::sin(be)*q[1] + std::cos(be)*q[2]; } }
    double s = std::pow(10.0, r.chance(0.3) ? r.real(-9, 9) : r.real(-3, 3)); double t = r.chance(0.5) ? 0 : r.real(-10, 10) * s; for (P3 & p : m.p) for (int d = 0; d < m.gdim; ++d) p[d] = s * p[d] + t;
  }
#if KIND == 5 || KIND == 6
  // convex quadrilaterals only
  for (IV const & c : m.c) { std::vector<P3> p = pts(IV{c[0], c[1], c[3], c[2]}, m.p); P3 n = cross(p[1] - p[0], p[2] - p[0]); for (int i = 0; i < 4; ++i) { P3 q = cross(p[(i+1)%4] - p[i], p[(i+2)%4] - p[(i+1)%4]); if (dot(q, n) <= 0.01 * dot(n, n)) { mon().hit("skipped-non-convex"); return; } } }
#endif
#if KIND == 7 || KIND == 8
  // also cells that are not convex (all simple): star shaped polygons replace the mesh now and then
  if (r.chance(0.4)) { Model s; s.kind = KIND; s.gdim = m.gdim; s.tdim = 2; int n = r.range(4, 11); double ph = r.real(0, 6); P3 ex = {{1,0,0}}, ey = {{0,1,0}};
    if (m.gdim == 3) { double a = r.real(0, 6), b = r.real(0, 6); ex = P3{{std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a)}}; ey = P3{{-std::sin(b), std::cos(b), 0}}; }
    IV c; for (int i = 0; i < n; ++i) { double R = r.real(0.15, 2); double al = ph + 2 * M_PI * i / n; s.p.push_back((R * std::cos(al)) * ex + (R * std::sin(al)) * ey); c.push_back(i); } if (r.chance(0.5)) std::reverse(c.begin(), c.end()); std::rotate(c.begin(), c.begin() + r.below(n), c.end()); s.c.push_back(c); m = s; mon().hit("non-convex-polygons"); }
#endif
  Mesh mesh; Built bt = build(mesh, m); Mesh const & cm = mesh;
  auto dacc = vg::default_point_accessor(cm);
  FOR_ALL(elements, cm, dacc, m.p, true, "stored points");
  // explicit accessor: other points
  Aff f; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) f.a[i][j] = (i == j) + r.real(-0.3, 0.3); f.t[i] = r.real(-1, 1); } for (int i = m.gdim; i < 3; ++i) f.t[i] = 0;
  std::vector<P3> Q; for (P3 const & p : m.p) { P3 q = f(p); for (int i = m.gdim; i < 3; ++i) q[i] = 0; Q.push_back(q); } std::vector<Point> QP; for (P3 const & q : Q) QP.push_back(mkpt(q)); PAcc pa; pa.v = &QP;
  FOR_ALL(elements, cm, pa, Q, false, "explicit accessor");
  { typedef vg::result_of::const_cell_range<Mesh>::type R; R cells(cm); for (vg::result_of::iterator<R>::type it = cells.begin(); it != cells.end(); ++it) { element_surface(*it, dacc, m, m.p, true, "cell"); element_surface(*it, pa, m, Q, false, "cell, explicit accessor"); mon().hit("cell-surfaces"); } }
  totals(cm, m, "mesh");
  { // centroid with explicit accessor of the mesh
#if !POLY
    bool par = true; if (KIND == 5 || KIND == 6 || KIND == 10) for (IV const & c : m.c) { auto p = pts(c, m.p); if (!is_par(p, maxext(p))) par = false; }
    if (par) { P3 cg = {{0,0,0}}; double w = 0, off = 0; for (IV const & c : m.c) { auto p = pts(c, Q); double v = vol(m.tdim, KIND, p); w += v; cg = cg + v * mean(p); } for (P3 const & q : Q) off = std::max(off, len(q)); P3 g = to_p3(vg::centroid(cm, pa)); CHECK(len(g - (1 / w) * cg) <= 1e-9 * (maxext(Q) + off), "mesh-centroid-accessor", show(g) << " expected " << show((1 / w) * cg)); }
#endif
  }
  { // a segment
    Model s = m; Segmentation sg(mesh); Segment & seg = sg.make_segment(); Segment & other = sg.make_segment(); s.c.clear(); for (std::size_t i = 0; i < bt.c.size(); ++i) if (r.chance(0.6)) { vg::add(seg, bt.c[i]); s.c.push_back(m.c[i]); } else vg::add(other, bt.c[i]);
    Segment const & cs = seg; if (!s.c.empty()) totals(cs, s, "segment");
  }
#if KIND >= 3
  { // extremal boundary elements of cells
    typedef vg::result_of::cell_range<Mesh>::type R; R cells(mesh);
    for (vg::result_of::iterator<R>::type it = cells.begin(); it != cells.end(); ++it)
    {
      double lo = 1e300, hi = 0; IV v = vids(*it); for (IV const & l : ref_boundary(KIND, 1, int(v.size()))) { double L = vol(1, KIND, pts(sub(v, l), m.p)); lo = std::min(lo, L); hi = std::max(hi, L); }
      double a = vol(1, KIND, pts(vids(vg::dereference_handle(mesh, vg::smallest_boundary_volume<vg::line_tag>(mesh, *it))), m.p)), b = vol(1, KIND, pts(vids(vg::dereference_handle(mesh, vg::largest_boundary_volume<vg::line_tag>(mesh, *it))), m.p));
      CHECK(near(a, lo, 1e-12, 0) && near(b, hi, 1e-12, 0), "extremal-edges", a << " " << b << " expected " << lo << " " << hi); mon().hit("extremal-edges");
      CHECK(&vg::dereference_handle(cm, vg::smallest_boundary_volume<vg::line_tag>(cm, static_cast<Cell const &>(*it))) == &vg::dereference_handle(mesh, vg::smallest_boundary_volume<vg::line_tag>(mesh, *it)) && &vg::dereference_handle(cm, vg::largest_boundary_volume<vg::line_tag>(cm, static_cast<Cell const &>(*it))) == &vg::dereference_handle(mesh, vg::largest_boundary_volume<vg::line_tag>(mesh, *it)), "extremal-edges-const", "");
#if KIND == 9
      lo = 1e300; hi = 0; for (IV const & l : ref_boundary(KIND, 2, 4)) { double L = vol(2, KIND, pts(sub(v, l), m.p)); lo = std::min(lo, L); hi = std::max(hi, L); }
      a = vol(2, KIND, pts(vids(vg::dereference_handle(mesh, vg::smallest_boundary_volume<FacetTag>(mesh, *it))), m.p)), b = vol(2, KIND, pts(vids(vg::dereference_handle(mesh, vg::largest_boundary_volume<FacetTag>(mesh, *it))), m.p));
      CHECK(near(a, lo, 1e-9, 0) && near(b, hi, 1e-9, 0), "extremal-facets", a << " " << b << " expected " << lo << " " << hi); mon().hit("extremal-facets");
#endif
    }
  }
#endif
#if KIND == 3 || KIND == 5 || KIND == 9 || KIND == 10 || KIND == 4 || KIND == 6
  { // normal vectors of hypersurface elements
    typedef std::conditional<KIND == 3 || KIND == 5, vg::line_tag, std::conditional<KIND == 4 || KIND == 6, CellTag, FacetTag>::type>::type T;
    typedef vg::result_of::const_element_range<Mesh, T>::type R; R fs(cm);
    for (vg::result_of::iterator<R>::type it = fs.begin(); it != fs.end(); ++it)
    {
      std::vector<P3> p = pts(vids(*it), m.p); P3 n = to_p3(vg::normal_vector(*it)); double sc = maxext(p); P3 w = (T::dim == 1) ? P3{{-(p[1][1] - p[0][1]), p[1][0] - p[0][0], 0}} : cross(p[1] - p[0], p[2] - p[0]);
      CHECK(len(n - w) <= 1e-12 * (std::pow(sc, int(T::dim)) + len(w)), "normal", show(n) << " expected " << show(w)); CHECK(len(to_p3(vg::normal_vector(dacc, *it)) - n) == 0, "normal-accessor", "explicit accessor differs"); mon().hit("normals");
    }
  }
#endif
  // angles and spanned volumes of random points, including nearly and exactly degenerate ones
  {
    double s = std::pow(10.0, r.real(-3, 3)); P3 q[4]; for (P3 & x : q) { x = P3{{0,0,0}}; for (int d = 0; d < m.gdim; ++d) x[d] = s * r.real(-1, 1); }
    int deg = r.below(5); if (deg == 0) q[1] = 2.0 * q[0]; if (deg == 1) q[1] = -0.5 * q[0]; if (deg == 2) { for (P3 & x : q) for (double & y : x) y = std::floor(y / s * 3) * s; }
    Point a = mkpt(q[0]), b = mkpt(q[1]), c = mkpt(q[2]), d = mkpt(q[3]); double L = 3 * s; (void)c; (void)d;
    CHECK(near(vg::spanned_volume(a, b), len(q[0] - q[1]), 1e-12, L), "spanned-line", show(q[0]) << show(q[1]));
    if (m.gdim == 1) CHECK(near(vg::signed_spanned_volume(a, b), q[1][0] - q[0][0], 1e-12, L) && vg::determinant(a) == q[0][0], "signed-line", show(q[0]) << show(q[1]));
    auto tiny = [&](P3 const & x) { return len(x) < 1e-3 * s; };
#if KIND >= 1
    if (!tiny(q[0]) && !tiny(q[1])) { double g = vg::angle(a, b); CHECK(std::fabs(g - ref_angle(q[0], q[1])) <= 3e-7, "angle", g << " expected " << ref_angle(q[0], q[1]) << " of " << show(q[0]) << show(q[1])); mon().hit("angles"); }
    if (!tiny(q[0] - q[2]) && !tiny(q[1] - q[2])) { double g = vg::angle(a, b, c); CHECK(std::fabs(g - ref_angle(q[0] - q[2], q[1] - q[2])) <= 3e-7, "angle-origin", g << " expected " << ref_angle(q[0] - q[2], q[1] - q[2])); mon().hit("angles"); }
#endif
#if KIND == 1 || KIND == 3 || KIND == 5 || KIND == 7
    { double g = vg::signed_spanned_volume(a, b, c), w = 0.5 * cross(q[1] - q[0], q[2] - q[0])[2]; CHECK(near(g, w, 1e-12, L * L) && near(vg::spanned_volume(a, b, c), std::fabs(w), 1e-12, L * L), "spanned-triangle-2d", g << " expected " << w); CHECK(near(vg::determinant(a, b), q[0][0]*q[1][1] - q[0][1]*q[1][0], 1e-12, L * L), "determinant", ""); mon().hit("spanned-volumes"); }
#endif
#if KIND == 2 || KIND == 4 || KIND == 6 || KIND >= 8
    { double w = 0.5 * len(cross(q[1] - q[0], q[2] - q[0])); CHECK(near(vg::spanned_volume(a, b, c), w, 1e-12, L * L), "spanned-triangle-3d", "");
      double t = dot(q[1] - q[0], cross(q[2] - q[0], q[3] - q[0])) / 6; CHECK(near(vg::signed_spanned_volume(a, b, c, d), t, 1e-12, L * L * L) && near(vg::spanned_volume(a, b, c, d), std::fabs(t), 1e-12, L * L * L), "spanned-tetrahedron", vg::signed_spanned_volume(a, b, c, d) << " expected " << t);
      CHECK(near(vg::determinant(a, b, c), dot(q[0], cross(q[1], q[2])), 1e-12, L * L * L), "determinant", ""); mon().hit("spanned-volumes");
      P3 n1 = cross(q[1] - q[0], q[2] - q[0]), n2 = cross(q[1] - q[0], q[3] - q[0]);
      if (len(n1) > 1e-3 * s * s && len(n2) > 1e-3 * s * s) { double g = vg::dihedral_angle(a, b, c, a, b, d); CHECK(std::fabs(g - ref_angle(n1, n2)) <= 3e-7, "dihedral-angle", g << " expected " << ref_angle(n1, n2)); mon().hit("dihedral-angles"); }
      if (std::fabs(t) > 1e-3 * s * s * s)
      { // spherical excess
        P3 o0 = q[3]; P3 u = q[0] - o0, v = q[1] - o0, w2 = q[2] - o0; auto dh = [&](P3 const & e, P3 const & x, P3 const & y) { return ref_angle(cross(e, x), cross(e, y)); };
        double ex = dh(u, v, w2) + dh(v, u, w2) + dh(w2, u, v) - M_PI; double g = vg::solid_angle(a, b, c, d); CHECK(std::fabs(g - ex) <= 1e-8, "solid-angle", g << " expected " << ex << " of " << show(q[0]) << show(q[1]) << show(q[2]) << " from " << show(q[3]));
        CHECK(std::fabs(vg::solid_angle(mkpt(u), mkpt(v), mkpt(w2)) - ex) <= 1e-8, "solid-angle-origin", ""); mon().hit("solid-angles");
        if (ex > M_PI) mon().hit("wide-solid-angles");
      } }
#endif
  }
  mon().state(m.hash()); mon().sample(m.str());
}

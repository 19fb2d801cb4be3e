// C18: mesh transformations, bounding boxes, mesh size and orthogonalization against long-double arithmetic on the model.
#include "kinds.hpp"
#include "vec.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"

static const int G = vg::result_of::static_size<Point>::value;
static double mag(std::vector<P3> const & p) { double m = 0; for (P3 const & q : p) for (double x : q) m = std::max(m, std::fabs(x)); return m; }

static std::vector<P3> points_of(Mesh const & mesh)
{
  typedef vg::result_of::const_vertex_range<Mesh>::type R; R r(mesh); std::vector<P3> p(r.size());
  for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { p.at((*it).id().get()) = to_p3(vg::point(*it)); CHECK(to_p3(vg::point(mesh, *it)) == p[(*it).id().get()], "point-of-mesh", "point(mesh, vertex) differs from point(vertex)"); }
  return p;
}
static void compare(std::vector<P3> const & got, std::vector<P3> const & want, double tol, const char * what)
{
  CHECK(got.size() == want.size(), std::string(what) + "-count", got.size() << " points instead of " << want.size());
  for (std::size_t i = 0; i < got.size(); ++i) for (int d = 0; d < G; ++d)
    CHECK(std::fabs(got[i][d] - want[i][d]) <= tol, what, "vertex " << i << " is " << show(got[i]) << " expected " << show(want[i]));
}
static std::vector<IV> cells_of(Mesh const & mesh)
{
  typedef vg::result_of::const_cell_range<Mesh>::type R; R r(mesh); std::vector<IV> c;
  for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) c.push_back(vids(*it));
  return c;
}
template<class MS> static void boxes(MS const & ms, std::vector<P3> const & p, IV const & who, const char * what)
{
  std::pair<Point, Point> bb = vg::bounding_box(ms); double s = 0;
  for (int d = 0; d < G; ++d)
  {
    double lo = INFINITY, hi = -INFINITY; for (int i : who) { lo = std::min(lo, p[i][d]); hi = std::max(hi, p[i][d]); }
    CHECK(bb.first[d] == lo && bb.second[d] == hi, std::string("bounding-box-") + what, "axis " << d << " got [" << bb.first[d] << "," << bb.second[d] << "] expected [" << lo << "," << hi << "] of " << who.size() << " points");
    s += (hi - lo) * (hi - lo);
  }
  double ms_ = vg::mesh_size(ms); CHECK(near(ms_, std::sqrt(s), 1e-13, 0), std::string("mesh-size-") + what, ms_ << " expected " << std::sqrt(s));
  mon().hit(std::string("box-") + what); if (who.size() == 1) mon().hit("box-of-one-point");
}
struct Twist { P3 s; Point operator()(Point p) const { Point q = p; for (int d = 0; d < G; ++d) q[d] = p[(d + 1) % G] * s[d] + s[(d + 1) % 3]; return q; } };

static void ortho(Rng & r)
{
  int n = r.range(1, 5); std::vector<Point> v; std::vector<P3> w;
  for (int i = 0; i < n; ++i)
  {
    P3 q = {{0,0,0}}; int how = r.below(5);
    if (i && how == 0) { q = w[r.below(i)]; double f = r.chance(0.5) ? 2.0 : -0.5; for (double & x : q) x *= f; }
    else if (how == 1) { for (int d = 0; d < G; ++d) q[d] = 0; if (r.chance(0.7)) q[r.below(G)] = r.chance(0.5) ? 1 : -2; }
    else if (how == 2) { for (int d = 0; d < G; ++d) q[d] = r.range(-2, 2); }
    else for (int d = 0; d < G; ++d) q[d] = r.real(-3, 3);
    w.push_back(q);
  }
  // reference: the greedy process on the given order (dependent vectors are swapped to the end)
  std::vector<P3> a = w; int end = n, i = 0; bool clear = true;
  while (i < end)
  {
    P3 x = a[i]; for (int j = 0; j < i; ++j) x = x - (dot(x, a[j]) / dot(a[j], a[j])) * a[j];
    double l = len(x); if (l > 1e-12 && l < 1e-2) clear = false;
    a[i] = x; if (l < 1e-12) { --end; std::swap(a[i], a[end]); } else ++i;
  }
  if (!clear) { mon().hit("orthogonalize-skipped"); return; }
  for (P3 const & q : w) v.push_back(mkpt(q));
  std::size_t got = vg::orthogonalize(v.begin(), v.end(), 1e-6);
  CHECK(int(got) == i, "orthogonalize-rank", "returned " << got << " independent vectors instead of " << i);
  for (int j = 0; j < i; ++j)
  {
    P3 x = to_p3(v[j]); CHECK(len(x) > 1e-3, "orthogonalize-zero", "vector " << j << " vanished");
    for (int k = 0; k < j; ++k) CHECK(std::fabs(dot(x, to_p3(v[k]))) <= 1e-9 * len(x) * len(to_p3(v[k])) * 100, "orthogonalize-angle", "vectors " << j << " and " << k << " are not orthogonal");
  }
  for (int j = i; j < n; ++j) CHECK(len(to_p3(v[j])) < 1e-6, "orthogonalize-rest", "dependent vector " << j << " not at the end");
  // span: every input is a combination of the result
  for (P3 const & q : w) { P3 x = q; for (int j = 0; j < i; ++j) { P3 b = to_p3(v[j]); x = x - (dot(x, b) / dot(b, b)) * b; } CHECK(len(x) < 1e-6 * (1 + len(q)), "orthogonalize-span", "input " << show(q) << " not in the span"); }
  mon().hit(i < n ? "orthogonalize-dependent" : "orthogonalize-independent");
  if (got)
  { // a single step
    P3 q = {{0,0,0}}; for (int d = 0; d < G; ++d) q[d] = r.real(-3, 3);
    P3 x = to_p3(vg::orthogonalize_vector(v.begin(), v.begin() + got, mkpt(q))); P3 y = q; for (std::size_t j = 0; j < got; ++j) { P3 b = to_p3(v[j]); CHECK(std::fabs(dot(x, b)) <= 1e-9 * (1 + len(b)) * 10, "orthogonalize-step", "not orthogonal"); y = y - (dot(y, b) / dot(b, b)) * b; }
    CHECK(len(x - y) < 1e-9, "orthogonalize-step-value", show(x) << " expected " << show(y));
  }
}

void run_case(Rng & r, long)
{
  GenOpt o; o.isolated = r.below(3); Model m = gen_model(r, KIND, o);
  double sc = std::pow(10.0, r.range(-5, 5)); P3 sh = {{0,0,0}}; if (r.chance(0.5)) for (int d = 0; d < G; ++d) sh[d] = r.real(-50, 50) * sc; for (P3 & q : m.p) for (int d = 0; d < G; ++d) q[d] = q[d] * sc + sh[d];
  if (r.chance(0.3)) for (P3 & q : m.p) for (int d = 0; d < G; ++d) q[d] = -std::fabs(q[d]) - sc;       // everything negative
  Mesh mesh; Built b = build(mesh, m); Segmentation sg(mesh); std::vector<P3> p = m.p;
  int ns = many(r, r.range(1, 3)); std::vector<std::set<int> > sv(ns); std::vector<Segment> segs;
  for (int s = 0; s < ns; ++s) segs.push_back(sg.make_segment());
  for (std::size_t c = 0; c < m.c.size(); ++c) for (int s = 0; s < ns; ++s) if (r.chance(0.5)) { vg::add(segs[s], b.c[c]); for (int v : m.c[c]) sv[s].insert(v); }
  std::vector<IV> topo = cells_of(mesh); std::vector<P3> alt; for (std::size_t i = 0; i < p.size(); ++i) { P3 q = {{0,0,0}}; for (int d = 0; d < G; ++d) q[d] = r.real(-5, 5); alt.push_back(q); }
  IV all; for (std::size_t i = 0; i < p.size(); ++i) all.push_back(int(i));
  int steps = r.range(1, 6);
  for (int st = 0; st <= steps; ++st)
  {
    boxes(mesh, p, all, "mesh");
    for (int s = 0; s < ns; ++s) if (!sv[s].empty()) boxes(segs[s], p, IV(sv[s].begin(), sv[s].end()), "segment");
    { // iterator range
      std::vector<Point> q; int k = r.range(1, int(p.size())); IV who; for (int i = 0; i < k; ++i) { who.push_back(r.below(int(p.size()))); q.push_back(mkpt(p[who.back()])); }
      std::pair<Point, Point> bb = vg::bounding_box(q.begin(), q.end());
      for (int d = 0; d < G; ++d) { double lo = INFINITY, hi = -INFINITY; for (int i : who) { lo = std::min(lo, p[i][d]); hi = std::max(hi, p[i][d]); } CHECK(bb.first[d] == lo && bb.second[d] == hi, "bounding-box-range", "axis " << d); }
      mon().hit("box-range");
    }
    if (st == steps) break;
    double M = mag(p); int what = r.below(6);
    double f = r.chance(0.2) ? -1.0 : r.chance(0.2) ? 0.5 : r.real(-3, 3);
    P3 c = {{0,0,0}}; for (int d = 0; d < G; ++d) c[d] = r.real(-2, 2) * (1 + M);
    double A[9]; for (double & x : A) x = r.chance(0.3) ? 0 : r.real(-1.5, 1.5);
    bool segtr = r.chance(0.4); int s = r.below(ns); std::set<int> who = segtr ? sv[s] : std::set<int>(all.begin(), all.end());
    double tol = 1e-13 * (M + mag({c})) * 20; std::string op;
    auto apply = [&](int kind) {
      for (int i : who) { P3 q = p[i], n = {{0,0,0}};
        for (int d = 0; d < G; ++d)
          if (kind == 0) n[d] = f * q[d];
          else if (kind == 1) n[d] = c[d] + f * (q[d] - c[d]);
          else if (kind == 2) { n[d] = c[d]; for (int e = 0; e < G; ++e) n[d] += A[d * G + e] * q[e]; }
        p[i] = n; } };
    if (what == 0) { op = "scale-origin"; apply(0); if (segtr) vg::scale(segs[s], f); else vg::scale(mesh, f); }
    else if (what == 1) { op = "scale-center"; apply(1); if (segtr) vg::scale(segs[s], f, mkpt(c)); else vg::scale(mesh, f, mkpt(c)); }
    else if (what == 2) { op = "affine"; apply(2); if (segtr) vg::affine_transform(segs[s], A, mkpt(c)); else vg::affine_transform(mesh, A, mkpt(c)); }
    else if (what == 3)
    {
      op = "functor"; Twist t; t.s = P3{{1.5, -0.5, 2}}; for (int i : who) { P3 q = p[i]; for (int d = 0; d < G; ++d) p[i][d] = q[(d + 1) % G] * t.s[d] + t.s[(d + 1) % 3]; }
      if (segtr) vg::geometric_transform(segs[s], t); else vg::geometric_transform(mesh, t);
    }
    else if (what == 4)
    { // through an accessor: the stored points stay
      op = "accessor"; std::vector<Point> store; for (P3 const & q : alt) store.push_back(mkpt(q)); Twist t; t.s = P3{{-1.5, 2.5, 0.5}};
      vg::result_of::accessor<std::vector<Point>, Vertex>::type acc(store);
      for (int i : who) { P3 q = alt[i]; for (int d = 0; d < G; ++d) alt[i][d] = q[(d + 1) % G] * t.s[d] + t.s[(d + 1) % 3]; }
      if (segtr) vg::geometric_transform(segs[s], t, acc); else vg::geometric_transform(mesh, t, acc);
      std::vector<P3> got; for (Point const & q : store) got.push_back(to_p3(q)); compare(got, alt, 1e-12 * mag(alt), "transform-accessor"); alt = got;
    }
    else
    { // linear part only, through the functor
      op = "affine-no-translation"; for (double & x : c) x = 0; apply(2);
      vg::affine_transform_functor<Mesh> fn(A); if (segtr) vg::geometric_transform(segs[s], fn); else vg::geometric_transform(mesh, fn);
    }
    std::vector<P3> got = points_of(mesh); compare(got, p, tol, ("transform-" + op).c_str()); p = got;
    mon().hit(op); mon().hit(segtr ? "segment-transforms" : "mesh-transforms");
  }
  CHECK(cells_of(mesh) == topo, "transform-topology", "cells changed by a transformation");
  for (int i = 0; i < 4; ++i) ortho(r);
  if (m.c.size() >= 2) mon().state(m.hash());
}

// C14: Voronoi (box) quantities against independently derived closed formulas.
#include "kinds.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/voronoi.hpp"

typedef vg::result_of::line<Mesh>::type Line;
static P3 operator-(P3 a, P3 const & b) { for (int i = 0; i < 3; ++i) a[i] -= b[i]; return a; }
static P3 operator+(P3 a, P3 const & b) { for (int i = 0; i < 3; ++i) a[i] += b[i]; return a; }
static P3 operator*(double f, P3 a) { for (int i = 0; i < 3; ++i) a[i] *= f; return a; }
static double dot(P3 const & a, P3 const & b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static P3 cross(P3 const & a, P3 const & b) { return P3{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
static double len(P3 const & a) { return std::sqrt(dot(a, a)); }
static P3 mid(P3 const & a, P3 const & b) { return 0.5 * (a + b); }
// circumcenter of a triangle / tetrahedron, from the perpendicular bisector planes
static P3 cc3(P3 const & a, P3 const & b, P3 const & c)
{ P3 u = b - a, v = c - a, n = cross(u, v); P3 t = dot(u, u) * cross(v, n) + dot(v, v) * cross(n, u); return a + (1.0 / (2 * dot(n, n))) * t; }
static P3 cc4(P3 const & a, P3 const & b, P3 const & c, P3 const & d)
{ P3 u = b - a, v = c - a, w = d - a; double det = dot(u, cross(v, w)); return a + (1.0 / (2 * det)) * (dot(u, u) * cross(v, w) + dot(v, v) * cross(w, u) + dot(w, w) * cross(u, v)); }

struct Want { std::map<IV,double> area, ebox; std::map<int,double> vbox; double total; bool ok; };

static Want expect(Model const & m)
{
  Want w; w.total = 0; w.ok = true;
#if KIND <= 2
  for (IV const & c : m.c) { double l = len(m.p[c[0]] - m.p[c[1]]); IV k = sorted(c); w.area[k] = 1; w.ebox[k] = l; w.vbox[c[0]] += l / 2; w.vbox[c[1]] += l / 2; w.total += l; }
#elif KIND == 3
  std::map<IV,int> fc = m.facet_count();
  for (IV const & c : m.c)
  {
    P3 p[3] = {m.p[c[0]], m.p[c[1]], m.p[c[2]]}; double area = 0.5 * len(cross(p[1] - p[0], p[2] - p[0])); w.total += area;
    int obt = -1; double cosv[3], cotv[3];
    for (int i = 0; i < 3; ++i) { P3 u = p[(i+1)%3] - p[i], v = p[(i+2)%3] - p[i]; cotv[i] = dot(u, v) / (2 * area); cosv[i] = dot(u, v) / (len(u) * len(v)); if (cotv[i] < 0) obt = i; }
    bool clip = obt >= 0 && fc[sorted(IV{c[(obt+1)%3], c[(obt+2)%3]})] == 1;
    for (int i = 0; i < 3; ++i) if (std::fabs(cosv[i]) < 1e-6 && fc[sorted(IV{c[(i+1)%3], c[(i+2)%3]})] == 1) clip = clip && cosv[i] < 0;
    for (int i = 0; i < 3; ++i)
    { // edge opposite to corner i
      int a = (i + 1) % 3, b = (i + 2) % 3; IV k = sorted(IV{c[a], c[b]}); double l = len(p[a] - p[b]);
      if (!clip) { double A = 0.5 * cotv[i] * l; w.area[k] += A; w.ebox[k] += A * l / 2; w.vbox[c[a]] += A * l / 4; w.vbox[c[b]] += A * l / 4; }
      else if (i == obt) { w.area[k]; w.ebox[k]; }
      else
      { // bisector of the edge ends at the boundary edge; acute corner = the end point different from the obtuse corner
        int ac = (a == obt) ? b : a; double t = std::tan(std::acos(cosv[ac])); double A = l / 2 * t; w.area[k] += A;
        double acute_part = A * l / 4, rest = 0; w.vbox[c[ac]] += acute_part;
        // the remaining middle part of the triangle belongs to the obtuse corner, split between its two edges by the line through the circumcenter
        P3 X = mid(p[a], p[b]) + 0.0 * p[a]; P3 dirv = p[3 - obt - ac] - p[ac]; double s = (l / 2) / (cosv[ac] * len(dirv)); X = p[ac] + s * dirv;   // intersection with the boundary edge
        P3 cc = cc3(p[0], p[1], p[2]); // intersection of obtuse corner-circumcenter line with the boundary edge
        P3 q = cc - p[obt]; P3 n = cross(dirv, cross(p[1] - p[0], p[2] - p[0])); double tt = dot(n, p[ac] - p[obt]) / dot(n, q); P3 O = p[obt] + tt * q;
        rest = acute_part + 0.5 * len(cross(X - p[obt], O - p[obt])); w.vbox[c[obt]] += rest; w.ebox[k] += acute_part + rest;
      }
    }
    mon().hit(clip ? "circumcenter-beyond-boundary" : obt >= 0 ? "circumcenter-in-other-cell" : "circumcenter-inside");
  }
#elif KIND == 5 || KIND == 6
  for (IV const & c : m.c)
  {
    double a = len(m.p[c[1]] - m.p[c[0]]), b = len(m.p[c[2]] - m.p[c[0]]); w.total += a * b;
    auto e = [&](int i, int j, double l, double o) { IV k = sorted(IV{c[i], c[j]}); w.area[k] += o / 2; w.ebox[k] += l * o / 4; w.vbox[c[i]] += l * o / 8; w.vbox[c[j]] += l * o / 8; };
    e(0, 1, a, b); e(2, 3, a, b); e(0, 2, b, a); e(1, 3, b, a);
  }
#elif KIND == 10
  for (IV const & c : m.c)
  {
    double l[3] = {len(m.p[c[1]] - m.p[c[0]]), len(m.p[c[2]] - m.p[c[0]]), len(m.p[c[4]] - m.p[c[0]])}; double vol = l[0] * l[1] * l[2]; w.total += vol;
    for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) if (!(i & (1 << d))) { IV k = sorted(IV{c[i], c[i | (1 << d)]}); double A = vol / l[d] / 4; w.area[k] += A; w.ebox[k] += A * l[d] / 3; w.vbox[c[i]] += A * l[d] / 6; w.vbox[c[i | (1 << d)]] += A * l[d] / 6; }
  }
#elif KIND == 9
  // the documented algorithm needs a convex polygon dual to each edge: a closed ring of cells, or one fan of at most 180 degrees
  std::map<IV,int> fcnt = m.facet_count(), open; std::map<IV,double> ang; for (auto const & f : fcnt) if (f.second == 1) for (int i = 0; i < 3; ++i) { IV e = f.first; e.erase(e.begin() + i); ++open[e]; }
  for (IV const & c : m.c) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j)
  {
    int o[2], n = 0; for (int q = 0; q < 4; ++q) if (q != i && q != j) o[n++] = q; P3 e = m.p[c[j]] - m.p[c[i]], a = cross(e, m.p[c[o[0]]] - m.p[c[i]]), b = cross(e, m.p[c[o[1]]] - m.p[c[i]]);
    ang[sorted(IV{c[i], c[j]})] += std::acos(std::max(-1.0, std::min(1.0, dot(a, b) / (len(a) * len(b)))));
  }
  for (auto const & x : ang) { int o = open[x.first]; if (o > 2 || (o == 2 && x.second > M_PI - 1e-3)) w.ok = false; }
  for (IV const & c : m.c)
  {
    P3 p[4]; for (int i = 0; i < 4; ++i) p[i] = m.p[c[i]];
    w.total += std::fabs(dot(p[1] - p[0], cross(p[2] - p[0], p[3] - p[0]))) / 6; P3 cc = cc4(p[0], p[1], p[2], p[3]);
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int f = 0; f < 4; ++f) if (f != i && f != j)
    {
      int g = 6 - i - j - f;   // facet (i,j,f), opposite corner g
      P3 fc = cc3(p[i], p[j], p[f]), M = mid(p[i], p[j]); P3 n = cross(p[j] - p[i], p[f] - p[i]); double sg = dot(n, p[g] - p[i]);
      double h1 = dot(cc - fc, n) * (sg > 0 ? 1 : -1) / len(n); P3 t = cross(n, p[j] - p[i]); double h2 = dot(fc - M, t) * (dot(t, p[f] - p[i]) > 0 ? 1 : -1) / len(t);
      if (h1 < 1e-3 || h2 < 1e-3) w.ok = false;   // only well-centered tetrahedra
      double A = 0.5 * h1 * h2, l = len(p[i] - p[j]); IV k = sorted(IV{c[i], c[j]}); w.area[k] += A; w.ebox[k] += A * l / 3; w.vbox[c[i]] += A * l / 6; w.vbox[c[j]] += A * l / 6;
    }
  }
#endif
  return w;
}

#if KIND == 9
// well-centered tetrahedra: a closed ring around an edge or a single cell, with further cells attached to free facets
static Model tets(Rng & r)
{
  Model m; m.kind = TET3; m.gdim = m.tdim = 3; double j = r.real(0, 0.08); auto J = [&](P3 q) { for (double & x : q) x += r.real(-j, j); return q; };
  int n = r.below(4);
  if (n == 0) { m.p = {J(P3{{1,1,1}}), J(P3{{1,-1,-1}}), J(P3{{-1,1,-1}}), J(P3{{-1,-1,1}})}; m.c = {IV{0,1,2,3}}; }
  else
  {
    n += 4; double h = n == 5 ? r.real(0.95, 1.15) : n == 6 ? r.real(0.85, 1.1) : r.real(0.75, 0.9); m.p = {J(P3{{0,0,-h/2}}), J(P3{{0,0,h/2}})};
    for (int i = 0; i < n; ++i) m.p.push_back(J(P3{{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0}}));
    for (int i = 0; i < n; ++i) m.c.push_back(IV{0, 1, 2 + i, 2 + (i + 1) % n});
    if (r.chance(0.4)) { int k = r.range(1, n - 1); r.shuffle(m.c); m.c.resize(k); }
  }
  int grow = r.below(4);
  for (int g = 0; g < grow; ++g)
  {
    auto fc = m.facet_count(); std::vector<std::pair<IV,int> > fr; for (std::size_t i = 0; i < m.c.size(); ++i) for (int q = 0; q < 4; ++q) { IV f = m.c[i]; f.erase(f.begin() + q); if (fc[sorted(f)] == 1) fr.push_back(std::make_pair(f, m.c[i][q])); }
    auto f = r.pick(fr); P3 a = m.p[f.first[0]], b = m.p[f.first[1]], c = m.p[f.first[2]], d = m.p[f.second]; P3 nn = cross(b - a, c - a); double t = dot(d - a, nn) / dot(nn, nn); P3 q = J(d - (2 * t) * nn);
    bool far = true; for (P3 const & x : m.p) if (len(x - q) < 0.45) far = false; if (!far) continue;
    m.p.push_back(q); m.c.push_back(IV{f.first[0], f.first[1], f.first[2], int(m.p.size()) - 1});
  }
  { std::vector<char> used(m.p.size(), 0); for (IV const & c : m.c) for (int v : c) used[v] = 1; IV inv(m.p.size(), -1); std::vector<P3> np; for (std::size_t i = 0; i < m.p.size(); ++i) if (used[i]) { inv[i] = int(np.size()); np.push_back(m.p[i]); } m.p = np; for (IV & c : m.c) for (int & v : c) v = inv[v]; }
  for (IV & c : m.c) r.shuffle(c); r.shuffle(m.c);
  double s = r.real(0.3, 3); for (P3 & p : m.p) { p = s * p; p[0] += 1.5; p[1] -= 0.7; }
  return m;
}
#endif

template<class MS> void run(MS const & ms, Mesh const & mesh, Model const & m, const char * what)
{
  typedef vg::result_of::const_cell_handle<Mesh>::type CCH; typedef vg::result_of::voronoi_cell_contribution<CCH>::type C;
  std::deque<double> ia, vb, eb; std::deque<C> iac, vbc, ebc;
  vg::result_of::accessor<std::deque<double>, Line>::type A(ia), E(eb); vg::result_of::accessor<std::deque<double>, Vertex>::type V(vb);
  vg::result_of::accessor<std::deque<C>, Line>::type AC(iac), EC(ebc); vg::result_of::accessor<std::deque<C>, Vertex>::type VC(vbc);
  vg::apply_voronoi<Cell>(ms, A, AC, V, VC, E, EC);
  Want w = expect(m); double scale = 0; for (auto const & x : w.area) scale = std::max(scale, std::fabs(x.second)); double vs = w.total / m.c.size(); const double tol = 1e-9;
  typedef typename vg::result_of::const_line_range<MS>::type LR; LR lr(ms); double total = 0;
  for (typename vg::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it)
  {
    IV k = sorted(vids(*it)); double sa = 0, se = 0;
    typename C::const_iterator q; C const & ca = AC(*it); for (q = ca.begin(); q != ca.end(); ++q) sa += q->second; C const & ce = EC(*it); for (q = ce.begin(); q != ce.end(); ++q) se += q->second;
    CHECK(near(A(*it), w.area[k], tol, scale), "interface-area", what << ": edge " << show(k) << " interface area " << A(*it) << " expected " << w.area[k] << " | " << m.str());
    CHECK(near(sa, w.area[k], tol, scale), "interface-contributions", what << ": edge " << show(k) << " contributions sum to " << sa << " expected " << w.area[k] << " | " << m.str());
    CHECK(near(E(*it), w.ebox[k], tol, vs), "edge-volume", what << ": edge " << show(k) << " box volume " << E(*it) << " expected " << w.ebox[k] << " | " << m.str());
    CHECK(near(se, w.ebox[k], tol, vs), "edge-volume-contributions", what << ": edge " << show(k) << " contributions sum to " << se << " expected " << w.ebox[k] << " | " << m.str());
    std::set<const void *> own; (void)own; mon().hit("edges-checked");
  }
  typedef typename vg::result_of::const_vertex_range<MS>::type VR; VR vr(ms);
  for (typename vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it)
  {
    int k = int((*it).id().get()); double s = 0; C const & c = VC(*it); for (typename C::const_iterator q = c.begin(); q != c.end(); ++q) s += q->second;
    CHECK(near(V(*it), w.vbox[k], tol, vs), "vertex-volume", what << ": vertex " << k << " box volume " << V(*it) << " expected " << w.vbox[k] << " | " << m.str());
    CHECK(near(s, w.vbox[k], tol, vs), "vertex-volume-contributions", what << ": vertex " << k << " contributions sum to " << s << " expected " << w.vbox[k] << " | " << m.str());
    total += V(*it); mon().hit("vertices-checked");
  }
  CHECK(near(total, w.total, tol, vs), "total-volume", what << ": boxes sum to " << total << ", mesh volume " << w.total << " | " << m.str());
  mon().hit(what);
}

void run_case(Rng & r, long)
{
  Model m;
#if KIND == 9
  do m = tets(r); while (!m.manifold() || !expect(m).ok);
#else
  GenOpt o; o.maxn = KIND == 10 ? 2 : 4; o.drop = r.real(0, 0.4); o.isolated = 0; o.star = KIND <= 3 ? o.star : 0; o.jitter = (KIND <= 3) ? (r.chance(0.8) ? r.real(0, 0.7) : 0.0) : 0.0; o.flat = true;
  do m = gen_model(r, KIND, o); while (!m.manifold());
#if KIND >= 5
  { // rotated grids of rectangles / cuboids with varying spacing
    double f[3]; for (double & x : f) x = r.real(0, 0.3); for (P3 & p : m.p) for (int d = 0; d < 3; ++d) p[d] += f[d] * std::sin(2 * p[d]);
    double al = r.real(0, 6.28), be = r.real(0, 6.28); for (P3 & p : m.p) { P3 q = p; p[0] = std::cos(al) * q[0] - std::sin(al) * q[1]; p[1] = std::sin(al) * q[0] + std::cos(al) * q[1]; if (kind_gdim(KIND) == 3) { q = p; p[1] = std::cos(be) * q[1] - std::sin(be) * q[2]; p[2] = std::sin(be) * q[1] + std::cos(be) * q[2]; } }
  }
#endif
#endif
#if KIND == 3
  // skip nearly degenerate triangles
  for (IV const & c : m.c) { double l = 0; for (int i = 0; i < 3; ++i) l = std::max(l, len(m.p[c[i]] - m.p[c[(i+1)%3]])); if (len(cross(m.p[c[1]] - m.p[c[0]], m.p[c[2]] - m.p[c[0]])) < 0.02 * l * l) { mon().hit("skipped-degenerate"); return; } }
#endif
  if (r.chance(0.4)) { double f = std::pow(10.0, r.range(-8, 8)); for (P3 & p : m.p) for (double & x : p) x *= f; mon().hit("scaled-mesh"); }
  Mesh mesh; build(mesh, m); Mesh const & cm = mesh;
  
#if KIND == 9
  { std::map<IV,int> open; for (auto const & f : m.facet_count()) if (f.second == 1) for (int i = 0; i < 3; ++i) { IV e = f.first; e.erase(e.begin() + i); ++open[e]; }
    for (IV const & c : m.c) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (!open.count(sorted(IV{c[i], c[j]}))) { mon().hit("closed-ring-meshes"); goto done; } done:; }
#endif
  run(cm, cm, m, "meshes");
  mon().state(m.hash()); mon().sample(m.str());
  { // a segment holding some of the cells
    Model s = m; Segmentation sg(mesh); Segment & seg = sg.make_segment(); s.c.clear(); typedef vg::result_of::cell_range<Mesh>::type CR; CR cr(mesh); std::size_t i = 0;
    for (vg::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it, ++i) if (r.chance(0.6)) { vg::add(seg, *it); s.c.push_back(m.c[i]); }
    bool ok = !s.c.empty();
#if KIND == 9
    ok = ok && expect(s).ok;
#endif
    if (ok) { Segment const & cs = seg; run(cs, cm, s, "segments"); }
  }
}

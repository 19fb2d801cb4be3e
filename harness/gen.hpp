// Library-independent mesh model, hostile mesh generators and documented reference tables.
#ifndef VH_GEN_HPP
#define VH_GEN_HPP
#include "h.hpp"

typedef std::vector<int> IV;
typedef std::array<double,3> P3;

enum Kind { LINE1, LINE2, LINE3, TRI2, TRI3, QUAD2, QUAD3, POLY2, POLY3, TET3, HEX3 };
inline const char * kind_name(int k)
{ static const char * n[] = {"line1d","line2d","line3d","tri2d","tri3d","quad2d","quad3d","poly2d","poly3d","tet3d","hex3d"}; return n[k]; }
inline int kind_gdim(int k) { static int g[] = {1,2,3,2,3,2,3,2,3,3,3}; return g[k]; }
inline int kind_tdim(int k) { static int t[] = {1,1,1,2,2,2,2,2,2,3,3}; return t[k]; }

// Documented reference topology: local vertex lists of the d-dimensional boundary elements, in reference order.
inline std::vector<IV> ref_boundary(int kind, int d, int nv)
{
  std::vector<IV> r;
  if (d == 0) { for (int i = 0; i < nv; ++i) r.push_back(IV{i}); return r; }
  switch (kind)
  {
    case TRI2: case TRI3: if (d == 1) r = {{0,1},{0,2},{1,2}}; break;
    case QUAD2: case QUAD3: if (d == 1) r = {{0,1},{0,2},{1,3},{2,3}}; break;
    case POLY2: case POLY3: if (d == 1) { for (int i = 0; i < nv; ++i) r.push_back(IV{i, (i + 1) % nv}); } break;
    case TET3:
      if (d == 1) r = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
      if (d == 2) r = {{0,1,2},{0,1,3},{0,2,3},{1,2,3}};
      break;
    case HEX3:
      if (d == 1) r = {{0,1},{0,2},{0,4},{1,3},{1,5},{2,3},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
      if (d == 2) r = {{0,1,2,3},{0,1,4,5},{0,2,4,6},{1,3,5,7},{2,3,6,7},{4,5,6,7}};
      break;
  }
  return r;
}
// boundary elements of a 2d boundary face (tri/quad) in its own local numbering
inline IV sorted(IV v) { std::sort(v.begin(), v.end()); return v; }
inline IV sub(IV const & cell, IV const & loc) { IV r; for (int i : loc) r.push_back(cell[i]); return r; }

struct Model
{
  int kind = 0, gdim = 0, tdim = 0;
  std::vector<P3> p;
  std::vector<IV> c;

  std::vector<IV> boundary(int cell, int d) const    // global vertex index lists in reference order
  { std::vector<IV> r; for (IV const & l : ref_boundary(kind, d, int(c[cell].size()))) r.push_back(sub(c[cell], l)); return r; }
  std::set<IV> keys(int d) const                     // set of sorted vertex tuples of dimension d generated by all cells
  { std::set<IV> s; for (int i = 0; i < int(c.size()); ++i) for (IV const & b : boundary(i, d)) s.insert(sorted(b)); return s; }
  std::map<IV,int> facet_count() const
  { std::map<IV,int> m; for (int i = 0; i < int(c.size()); ++i) for (IV const & b : boundary(i, tdim - 1)) ++m[sorted(b)]; return m; }
  bool manifold() const { for (auto const & f : facet_count()) if (f.second > 2) return false; return true; }
  uint64_t hash() const
  {
    uint64_t h = mix(kind, p.size());
    for (P3 const & q : p) for (double x : q) { uint64_t b; memcpy(&b, &x, 8); h = mix(h, b); }
    for (IV const & v : c) { h = mix(h, 77); for (int x : v) h = mix(h, x); }
    return h;
  }
  uint64_t topo_hash() const { uint64_t h = mix(kind, p.size()); for (IV const & v : c) { h = mix(h, 77); for (int x : v) h = mix(h, x); } return h; }
  std::string str() const
  {
    std::ostringstream o; o << kind_name(kind) << " nv=" << p.size() << " cells=" << c.size() << " :";
    for (std::size_t i = 0; i < c.size() && i < 40; ++i) o << " " << show(c[i]);
    if (p.size() <= 20) { o << " pts:"; for (P3 const & q : p) { o << " ("; for (int d = 0; d < gdim; ++d) o << (d ? "," : "") << q[d]; o << ")"; } }
    return o.str();
  }
};

#ifndef STAR_P
#define STAR_P 0.05
#endif
struct GenOpt
{
  int maxn = 4;             // grid extent per axis
  double drop = 0.25;       // probability of leaving cells out
  double jitter = 0.3;      // relative vertex displacement
  bool permute = true;      // random (valid) local vertex order
  bool shuffle = true;      // random vertex numbering and cell order
  int isolated = 0;         // number of isolated vertices
  bool wild = false;        // arbitrary (possibly non-manifold) complexes
  int min_cells = 1;
  int large = 2;            // 1, 2: may be replaced by a mesh with hundreds of cells, see large_case()
  bool flat = false;        // 3d surfaces stay planar
  double star = STAR_P;      // probability of a mesh with many cells around one vertex or edge (or a polygon with many vertices)
  double seam = 0;          // probability of opened seams: single cells use a copy of a vertex, so faces agree in all vertices but one
};

inline IV cube_symmetry(Rng & r, int dim)
{
  IV ax; for (int d = 0; d < dim; ++d) ax.push_back(d);
  r.shuffle(ax); int flip = r.below(1 << dim);
  IV perm;
  for (int i = 0; i < (1 << dim); ++i) { int j = 0; for (int d = 0; d < dim; ++d) if (i & (1 << d)) j |= 1 << ax[d]; perm.push_back(j ^ flip); }
  return perm;
}

// now and then a number far above the usual one
inline int many(Rng & r, int n) { if (n > 0 && r.chance(0.07)) { mon().hit("many-segments"); return r.range(8, 20); } return n; }
inline int id_gap(Rng & r) { return r.chance(0.06) ? r.range(50, 5000) : r.range(1, 5); }   // distance to the next explicit id
inline int wide_id(Rng & r, int id) { static const int big[] = {9, 99, 128, 255, 256, 1000, 32767, 65536}; return r.chance(0.08) ? id + big[r.below(8)] : id; }
// many cells around one vertex (surfaces, lines) or around one edge (solids); closed or open
inline void star_cells(Rng & r, Model & m, std::vector<IV> & cells)
{
  int kind = m.kind, n = r.chance(0.25) ? r.range(15, 40) : r.range(4, 14); bool closed = r.chance(0.6), two = kind == QUAD2 || kind == QUAD3 || kind == HEX3; double R = r.real(0.5, 2), tilt = r.real(-0.5, 0.5), ox = r.real(-2, 2), oy = r.real(-2, 2), oz = r.real(-2, 2), cone = kind == TRI3 && r.chance(0.5) ? r.real(-1, 1) : 0;
  int ring = two ? 2 * n : n, cnt = closed ? n : n - 1; int layers = kind == HEX3 ? r.range(1, 2) : 0; auto put = [&](double x, double y, double z) { m.p.push_back(P3{{ox + x, m.gdim >= 2 ? oy + y : 0.0, m.gdim >= 3 ? oz + z + (m.tdim <= 2 ? tilt * x : 0.0) : 0.0}}); };
  for (int l = 0; l <= layers; ++l)
  {
    put(0, 0, l + cone);
    for (int i = 0; i < ring; ++i) { double w = 2 * M_PI * i / ring, q = R * (two && (i & 1) ? 1.1 : 1.0); if (m.gdim == 1) put(1.0 + 0.37 * i, 0, 0); else put(q * std::cos(w), q * std::sin(w), l); }
  }
  int st = ring + 1; auto rv = [&](int i, int l) { return l * st + 1 + i % ring; };
  if (kind <= LINE3) for (int i = 0; i < n; ++i) cells.push_back(IV{0, rv(i, 0)});
  else if (kind == TRI2 || kind == TRI3) for (int i = 0; i < cnt; ++i) cells.push_back(IV{0, rv(i, 0), rv(i + 1, 0)});
  else if (kind == QUAD2 || kind == QUAD3) for (int i = 0; i < cnt; ++i) cells.push_back(IV{0, rv(2 * i, 0), rv(2 * i + 2, 0), rv(2 * i + 1, 0)});
  else if (kind == POLY2 || kind == POLY3)
  {
    if (r.chance(0.3)) { IV v; for (int i = 0; i < n; ++i) v.push_back(rv(i, 0)); cells.push_back(v); mon().hit("polygon-with-many-vertices"); }
    else for (int i = 0; i < cnt; ) { int k = std::min(cnt - i, r.range(1, std::max(1, n / 4))); IV v{0}; for (int t = 0; t <= k; ++t) v.push_back(rv(i + t, 0)); cells.push_back(v); i += k; }
  }
  else if (kind == TET3) { int top = int(m.p.size()); put(0.1, 0.05, r.real(0.5, 2)); for (int i = 0; i < cnt; ++i) cells.push_back(IV{0, rv(i, 0), rv(i + 1, 0), top}); }
  else for (int l = 0; l < layers; ++l) for (int i = 0; i < cnt; ++i) { IV v; for (int h = 0; h < 2; ++h) for (int x : {0, rv(2 * i, 0), rv(2 * i + 2, 0), rv(2 * i + 1, 0)}) v.push_back(x + (l + h) * st); cells.push_back(v); }
  mon().hit("star-meshes");
}
inline Model gen_model(Rng & r, int kind, GenOpt o = GenOpt())
{
  Model m; m.kind = kind; m.gdim = kind_gdim(kind); m.tdim = kind_tdim(kind);
  int big = (m.tdim == 3) ? std::min(o.maxn, 3) : o.maxn;
  if (kind <= LINE3) big = o.maxn * 3;
  int n[3] = {1,1,1}, low = 1; const bool large = o.large && large_case();
  if (large) { const bool full = o.large > 1; big = kind <= LINE3 ? (full ? 600 : 150) : m.tdim == 2 ? (full ? 18 : 9) : kind == TET3 ? (full ? 4 : 3) : (full ? 7 : 4); low = kind <= LINE3 ? big / 2 : big - 1; o.drop = std::min(o.drop, 0.1); mon().hit("large-meshes"); }
  for (int tries = 0; ; ++tries)
  {
    m.p.clear(); m.c.clear(); const bool star = !large && o.star > 0 && r.chance(o.star);
    for (int d = 0; d < 3; ++d) n[d] = d < m.tdim ? r.range(low, big) : 0;
    if (kind <= LINE3) { n[1] = n[2] = 0; }
    int nx = n[0] + 1, ny = n[1] + 1, nz = n[2] + 1;
    auto id = [&](int i, int j, int k) { return i + nx * (j + ny * k); };
    double sx = r.real(0.5, 2), sy = r.real(0.5, 2), sz = r.real(0.5, 2);
    double ox = r.real(-2, 2), oy = r.real(-2, 2), oz = r.real(-2, 2);
    double a = r.real(0, 0.4), b = r.real(-0.3, 0.3);
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
    {
      double x = i, y = j, z = k;
      if (o.jitter > 0)
      {
        x += o.jitter * r.real(-0.5, 0.5);
        if (m.tdim >= 2 || m.gdim >= 2) y += o.jitter * r.real(-0.5, 0.5);
        if (m.tdim >= 3 || (m.gdim >= 3 && !o.flat)) z += o.jitter * r.real(-0.5, 0.5);
      }
      if (m.gdim == 3 && m.tdim == 2 && !o.flat) z += a * x + b * y * x;
      m.p.push_back(P3{{ox + sx * x, m.gdim >= 2 ? oy + sy * y : 0.0, m.gdim >= 3 ? oz + sz * z : 0.0}});
    }
    std::vector<IV> cells;
    if (star) { m.p.clear(); star_cells(r, m, cells); }
    else if (kind <= LINE3)
    {
      for (int i = 0; i + 1 < nx; ++i) cells.push_back(IV{i, i + 1});
      if (kind != LINE1 && nx > 2 && r.chance(0.3)) cells.push_back(IV{nx - 1, 0});
    }
    else if (kind == TRI2 || kind == TRI3)
    {
      for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
      {
        int v0 = id(i,j,0), v1 = id(i+1,j,0), v2 = id(i,j+1,0), v3 = id(i+1,j+1,0);
        if (r.chance(0.5)) { cells.push_back(IV{v0,v1,v3}); cells.push_back(IV{v0,v3,v2}); }
        else { cells.push_back(IV{v0,v1,v2}); cells.push_back(IV{v1,v3,v2}); }
      }
    }
    else if (kind == QUAD2 || kind == QUAD3)
    {
      for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) cells.push_back(IV{id(i,j,0), id(i+1,j,0), id(i,j+1,0), id(i+1,j+1,0)});
    }
    else if (kind == POLY2 || kind == POLY3)
    {
      for (int j = 0; j < n[1]; ++j)
        for (int i = 0; i < n[0]; )
        {
          int len = std::min(n[0] - i, r.range(1, 3));
          if (len == 1 && r.chance(0.3)) { cells.push_back(IV{id(i,j,0), id(i+1,j,0), id(i+1,j+1,0)}); cells.push_back(IV{id(i,j,0), id(i+1,j+1,0), id(i,j+1,0)}); ++i; continue; }
          IV v; for (int t = 0; t <= len; ++t) v.push_back(id(i+t,j,0)); for (int t = len; t >= 0; --t) v.push_back(id(i+t,j+1,0));
          cells.push_back(v); i += len;
        }
    }
    else if (kind == HEX3)
    {
      for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
      { IV v; for (int q = 0; q < 8; ++q) v.push_back(id(i + (q & 1), j + ((q >> 1) & 1), k + ((q >> 2) & 1))); cells.push_back(v); }
    }
    else // TET3
    {
      bool five = r.chance(0.5);
      for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
      {
        int v[8]; for (int q = 0; q < 8; ++q) v[q] = id(i + (q & 1), j + ((q >> 1) & 1), k + ((q >> 2) & 1));
        if (five)
        {
          static const int e[5][4] = {{0,1,2,4},{1,3,2,7},{1,5,4,7},{2,4,6,7},{1,2,4,7}};
          static const int od[5][4] = {{1,0,3,5},{0,2,3,6},{0,4,5,6},{3,5,7,6},{0,3,5,6}};
          for (int t = 0; t < 5; ++t) { IV w; for (int q = 0; q < 4; ++q) w.push_back(v[((i + j + k) & 1) ? od[t][q] : e[t][q]]); cells.push_back(w); }
        }
        else
        {
          static const int ax[6][3] = {{1,2,4},{1,4,2},{2,1,4},{2,4,1},{4,1,2},{4,2,1}};
          for (int t = 0; t < 6; ++t) { int x = ax[t][0], y = x + ax[t][1]; cells.push_back(IV{v[0], v[x], v[y], v[7]}); }
        }
      }
    }
    if (o.wild && kind != QUAD2 && kind != QUAD3 && kind != HEX3)
    {
      // arbitrary complexes on the same points
      int nv = int(m.p.size()), extra = r.range(1, 8);
      for (int t = 0; t < extra; ++t)
      {
        int k = (kind <= LINE3) ? 2 : (kind <= TRI3) ? 3 : (kind == TET3) ? 4 : r.range(3, 6);
        if (nv < k) break;
        IV all; for (int i = 0; i < nv; ++i) all.push_back(i);
        r.shuffle(all); all.resize(k); cells.push_back(all);
      }
    }
    if (o.seam > 0 && r.chance(o.seam))
    {
      int k = r.range(1, 3); for (int t = 0; t < k; ++t) { IV & c = cells[r.below(int(cells.size()))]; int & x = c[r.below(int(c.size()))]; P3 q = m.p[x]; for (int d = 0; d < m.gdim; ++d) q[d] += 0.01 * r.real(0.1, 1); x = int(m.p.size()); m.p.push_back(q); }
    }
    for (IV const & v : cells) if (!r.chance(o.drop)) m.c.push_back(v);
    if (int(m.c.size()) >= o.min_cells || tries > 50) { if (int(m.c.size()) < o.min_cells) m.c = cells; break; }
  }
  // keep only used vertices plus the requested isolated ones
  {
    std::vector<char> used(m.p.size(), 0); for (IV const & v : m.c) for (int x : v) used[x] = 1;
    int iso = o.isolated; IV idx; for (std::size_t i = 0; i < m.p.size(); ++i) { if (!used[i] && iso > 0) { used[i] = 1; --iso; } }
    IV order; for (std::size_t i = 0; i < m.p.size(); ++i) if (used[i]) order.push_back(int(i));
    if (o.shuffle) r.shuffle(order);
    IV inv(m.p.size(), -1); std::vector<P3> np; for (std::size_t i = 0; i < order.size(); ++i) { inv[order[i]] = int(i); np.push_back(m.p[order[i]]); }
    m.p = np; for (IV & v : m.c) for (int & x : v) x = inv[x];
    for (; iso > 0; --iso) { P3 q = {{0,0,0}}; for (int d = 0; d < m.gdim; ++d) q[d] = r.real(10, 20); m.p.push_back(q); }
  }
  if (o.permute)
    for (IV & v : m.c)
    {
      if (kind == QUAD2 || kind == QUAD3 || kind == HEX3) { IV s = cube_symmetry(r, kind == HEX3 ? 3 : 2); IV w; for (int i : s) w.push_back(v[i]); v = w; }
      else if (kind == POLY2 || kind == POLY3) { std::rotate(v.begin(), v.begin() + r.below(int(v.size())), v.end()); if (r.chance(0.5)) std::reverse(v.begin(), v.end()); }
      else r.shuffle(v);
    }
  if (o.shuffle) r.shuffle(m.c);
  return m;
}
// more vertices than 16 bits can count: unused ones are put before those of the cells
inline void make_huge(Model & m, Rng & r)
{
  std::vector<P3> q; int n = 65400 + r.below(400); double lo = 0; for (P3 const & p : m.p) for (double x : p) lo = std::max(lo, std::fabs(x)); lo = 2 * lo + 1;
  for (int i = 0; i < n; ++i) { P3 p = {{lo + 0.5 * i, 0, 0}}; if (m.gdim > 1) p[1] = r.range(-9, 9); if (m.gdim > 2) p[2] = r.range(-9, 9); q.push_back(p); }
  q.insert(q.end(), m.p.begin(), m.p.end()); m.p = q; for (IV & c : m.c) for (int & v : c) v += n; mon().hit("huge-mesh");
}
#endif

// C22 / C24: Netgen, Tetgen .poly, Neper .tess and Synopsys .bnd files.
// FMT 0: Netgen into meshes of KIND; FMT 1: PLC meshes from .poly and .tess; FMT 2: .bnd into KIND (tri3d).
// C22 writes valid files in varied layouts and compares what was read with what the file says.
// C24 damages them: edits with a known verdict must be reported by an exception, any other edit must leave the process and the mesh intact.
#include "kinds.hpp"
#include "iotools.hpp"
#include <list>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#if FMT == 0
#include "viennagrid/io/netgen_reader.hpp"
#elif FMT == 1
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
#include "viennagrid/topology/plc.hpp"
#else
#include "viennagrid/io/bnd_reader.hpp"
#endif

// Roles of tokens: n number, i reference to something defined before, h size in parentheses, o optional or ignored, k keyword
struct Tok { std::string s; char role; };
struct Line { std::vector<Tok> t; bool req; int sec; };   // req: cutting the file within section sec before this line must be reported
struct File
{
  std::vector<Line> l; bool free_layout; char comment; int cur_sec;
  File() : free_layout(false), comment(0), cur_sec(0) {}
  void line(bool req = true) { Line x; x.req = req; x.sec = cur_sec; l.push_back(x); }
  File & operator()(std::string const & s, char role) { l.back().t.push_back(Tok{s, role}); return *this; }
  File & operator()(long v, char role) { return (*this)(std::to_string(v), role); }
  Rng fmt = Rng(7);
  File & operator()(double v, char role)
  { // other spellings of the same number
    std::string s = num(v); bool plain = s.find_first_of("eEn") == std::string::npos, dot = s.find('.') != std::string::npos;
    switch (fmt.below(12)) { case 0: if (v >= 0 && s[0] != '-') s = "+" + s; break; case 1: if (plain && !dot) s += "."; break; case 2: if (plain) s += dot ? "00" : ".0"; break; case 3: if (plain) s += "E+00"; break; case 4: if (plain && s.compare(0, 2, "0.") == 0) s = s.substr(1); break; case 5: { char b[48]; snprintf(b, sizeof b, "%.17e", v); s = b; break; } default: ; }
    return (*this)(s, role);
  }
  std::string text(Rng & r, std::size_t upto = std::size_t(-1)) const
  {
    std::ostringstream o; bool dense = r.chance(0.3);
    for (std::size_t i = 0; i < l.size() && i < upto; ++i)
    {
      if (comment && r.chance(0.15)) { static const char * c[] = {"\n", "   \n", "# comment 1 2 3\n", "  # 5\n", "\t\n", " \t \n"}; o << c[r.below(6)]; mon().hit("comments"); }
      if (r.chance(0.3)) o << " ";
      for (std::size_t k = 0; k < l[i].t.size(); ++k)
      {
        if (k) { static const char * w[] = {" ", "  ", "\t", "    "}; o << (dense ? " " : w[r.below(4)]); if (free_layout && r.chance(0.05)) o << "\n"; }
        o << l[i].t[k].s;
      }
      if (comment && r.chance(0.1)) o << " # tail 9 9";
      if (free_layout && r.chance(0.1)) o << " "; else if (i + 1 < l.size() && i + 1 < upto) o << "\n"; else if (r.chance(0.7)) o << "\n";
    }
    if (!r.chance(0.12)) return o.str();
    std::string s = o.str(), t; for (char c : s) { if (c == '\n') t += '\r'; t += c; } mon().hit("carriage-returns"); return t;   // lines ended as on other systems
  }
  // cutting before line p must be reported
  bool cut_is_error(std::size_t p, bool empty_is_error) const
  { if (p == 0) return empty_is_error; for (std::size_t q = p; q < l.size(); ++q) if (l[q].sec == l[p - 1].sec && l[q].req) return true; return false; }
};
inline double coordinate(Rng & r) { switch (r.below(8)) { case 0: return double(r.range(-9, 9)); case 1: return r.real(-1, 1) * std::pow(10.0, r.range(-20, 20)); case 2: return 0; default: return r.real(-50, 50); } }

#if FMT == 0
// ------------------------------------------------------------------ Netgen
struct Content { Model m; IV seg; };
inline Content make_content(Rng & r)
{
  Content c; GenOpt o; o.maxn = 3; o.isolated = r.below(3); o.wild = r.chance(0.4); o.drop = r.chance(0.2) ? 0.9 : 0.25; c.m = gen_model(r, KIND, o);
  if (r.chance(0.4)) for (P3 & p : c.m.p) for (int d = 0; d < c.m.gdim; ++d) p[d] = coordinate(r);
  if (r.chance(0.05)) { c.m.c.clear(); mon().hit("no-cells"); }
  if (PROP == 22 && mon().cur % 199 == 78) make_huge(c.m, r);
  int n = r.chance(0.1) ? r.range(6, 40) : r.range(1, 5); bool gaps = r.chance(0.4); int step = r.chance(0.2) ? r.pick(IV{10, 100, 1000, 40000}) : 3;
  for (std::size_t i = 0; i < c.m.c.size(); ++i) { int s = r.range(1, n); if (gaps) s *= step; if (r.chance(0.03)) s = 0; c.seg.push_back(s); }
  if (gaps) mon().hit("segment-index-gaps");
  return c;
}
inline File make_file(Rng & r, Content const & c)
{
  File f; f.free_layout = r.chance(0.4); f.line(); f(long(c.m.p.size()), 'n');
  for (P3 const & p : c.m.p) { f.line(); for (int d = 0; d < c.m.gdim; ++d) f(p[d], 'n'); }
  f.line(); f(long(c.m.c.size()), 'N');
  for (std::size_t i = 0; i < c.m.c.size(); ++i) { f.line(); f(long(c.seg[i]), 'n'); for (int x : c.m.c[i]) f(long(x + 1), 'i'); }
  return f;
}
inline void walk(Mesh & mesh, Segmentation & sg)
{
  std::set<int> ids; std::size_t sum = 0;
  { typedef vg::result_of::vertex_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { ids.insert((*it).id().get()); sum += vg::point(mesh, *it).size(); } }
  { typedef vg::result_of::cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "cell refers to vertex " << v); }
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s) { typedef vg::result_of::cell_range<Segment>::type R; R rg(*s); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "segment cell refers to vertex " << v); }
}
inline void read(Rng & r, vg::io::netgen_reader & rd, std::string const & file, Content const * c)
{
  Mesh mesh; Segmentation sg(mesh); bool plain = r.chance(0.25);
  try { if (plain) rd(mesh, file); else rd(mesh, sg, file); } catch (std::exception const &) { walk(mesh, sg); throw; }
  walk(mesh, sg); if (!c) return;
  typedef vg::result_of::const_vertex_range<Mesh>::type R; R rg(mesh); CHECK(rg.size() == c->m.p.size(), "vertex-count", rg.size() << " vertices instead of " << c->m.p.size());
  int i = 0; for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it, ++i) { CHECK((*it).id().get() == i, "vertex-id", "vertex " << i << " has id " << (*it).id().get()); P3 q = to_p3(vg::point(mesh, *it)); for (int d = 0; d < c->m.gdim; ++d) CHECK(q[d] == c->m.p[i][d], "coordinate", "vertex " << i << " axis " << d << ": " << q[d] << " instead of " << c->m.p[i][d]); }
  typedef vg::result_of::const_cell_range<Mesh>::type RC; RC rc(mesh); CHECK(rc.size() == c->m.c.size(), "cell-count", rc.size() << " cells instead of " << c->m.c.size());
  i = 0; for (vg::result_of::iterator<RC>::type it = rc.begin(); it != rc.end(); ++it, ++i) { CHECK((*it).id().get() == i, "cell-id", "cell " << i << " has id " << (*it).id().get()); CHECK(vids(*it) == c->m.c[i], "cell-vertices", "cell " << i << " is " << show(vids(*it)) << " instead of " << show(c->m.c[i])); }
  for (int d = 1; d < c->m.tdim; ++d) { std::size_t have = d == 1 ? vg::elements<vg::line_tag>(mesh).size() : vg::elements<FacetTag>(mesh).size(), want = c->m.keys(d).size(); CHECK(have == want, "boundary-elements", have << " elements of dimension " << d << " instead of " << want); }
  if (plain) { mon().hit("netgen-without-segmentation"); return; }
  std::set<int> ids(c->seg.begin(), c->seg.end()), have; for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s) have.insert((*s).id());
  CHECK(ids == have, "segments", "segments " << show(have) << " instead of " << show(ids));
  for (int s : ids)
  {
    std::set<int> want, got; for (std::size_t k = 0; k < c->seg.size(); ++k) if (c->seg[k] == s) want.insert(int(k));
    typedef vg::result_of::cell_range<Segment>::type RS; RS rs(sg[s]); for (vg::result_of::iterator<RS>::type it = rs.begin(); it != rs.end(); ++it) got.insert((*it).id().get()); CHECK(got == want, "segment-cells", "segment " << s << " has cells " << show(got) << " instead of " << show(want)); CHECK(rs.size() == want.size(), "segment-cell-count", "segment " << s);
    std::set<int> wv, gv; for (int k : want) wv.insert(c->m.c[k].begin(), c->m.c[k].end()); typedef vg::result_of::vertex_range<Segment>::type RV; RV rv(sg[s]); for (vg::result_of::iterator<RV>::type it = rv.begin(); it != rv.end(); ++it) gv.insert((*it).id().get()); CHECK(gv == wv, "segment-vertices", "segment " << s << " has vertices " << show(gv) << " instead of " << show(wv));
  }
  mon().hit("netgen-with-segmentation"); mon().hit("netgen-cells", long(c->m.c.size()));
}
inline std::string bad_reference(Rng & r, Content const & c) { static const char * b[] = {"0", "-1", "4294967296", "99999999999999999999", "-2147483648"}; return r.chance(0.4) ? std::to_string(c.m.p.size() + 1 + r.below(3)) : b[r.below(5)]; }
static const bool EMPTY_IS_ERROR = true; static const bool LINE_BASED = false;
typedef vg::io::netgen_reader AnyReader;
inline std::string ext(Rng &) { return ".mesh"; }
inline uint64_t hash_of(Content const & c) { return c.m.hash(); }
inline std::string str_of(Content const & c) { return c.m.str(); }

#elif FMT == 1
// ------------------------------------------------------------------ PLCs: Tetgen .poly and Neper .tess
typedef vg::plc_3d_mesh PMesh;
typedef vg::result_of::point<PMesh>::type PPoint;
typedef vg::result_of::element<PMesh, vg::plc_tag>::type PLC;
typedef std::pair<PPoint, int> Seed;
struct Facet { std::vector<IV> poly; std::vector<P3> holes; };
struct Content { bool poly; std::vector<P3> p; IV id; std::vector<Facet> f; std::vector<P3> holes; std::vector<std::pair<P3,int> > seeds; int sections; };
inline P3 rp(Rng & r) { P3 q; for (double & x : q) x = coordinate(r); return q; }
inline Content make_content(Rng & r)
{
  Content c; c.poly = r.chance(0.6); const bool huge = PROP == 22 && mon().cur % 399 == 78; int first_used = huge ? 65400 : 0; if (huge) mon().hit("huge-mesh"); int n = first_used + (r.chance(0.1) ? r.range(15, 60) : r.range(3, 14)), base = r.below(3), next = base; bool gaps = r.chance(0.3), anyorder = r.chance(0.3);
  for (int i = 0; i < n; ++i) { c.p.push_back(rp(r)); if (gaps && r.chance(0.3)) { next += r.range(1, 30); mon().hit("vertex-id-gaps"); } c.id.push_back(next++); }
  if (anyorder) { r.shuffle(c.id); mon().hit("vertex-ids-in-any-order"); }
  int nf = r.chance(0.1) ? r.range(6, 25) : r.below(6); std::set<std::set<std::set<int> > > seen;
  for (int k = 0; k < nf; ++k)
  {
    Facet f; int np = c.poly ? r.range(1, 4) : 1; std::set<std::set<int> > key;
    for (int j = 0; j < np; ++j)
    {
      IV all; for (int i = first_used; i < n; ++i) all.push_back(i); r.shuffle(all); int m = r.chance(0.1) ? r.range(6, 30) : c.poly ? r.pick(IV{1, 2, 3, 3, 4, 5}) : r.range(3, 6); all.resize(std::min(m, int(all.size()))); f.poly.push_back(all);
      if (all.size() == 1) { key.insert({all[0]}); mon().hit("loose-vertices"); } else if (all.size() == 2) mon().hit("loose-lines");
      if (all.size() > 1) for (std::size_t i = 0; i < all.size(); ++i) key.insert({all[i], all[(i + 1) % all.size()]});
    }
    if (c.poly && r.chance(0.4)) { int nh = r.range(1, 3); for (int j = 0; j < nh; ++j) f.holes.push_back(rp(r)); mon().hit("facet-holes"); }
    if (seen.insert(key).second) c.f.push_back(f);
  }
  if (c.poly) { int nh = r.below(3); for (int i = 0; i < nh; ++i) c.holes.push_back(rp(r)); }
  int ns = r.below(4); for (int i = 0; i < ns; ++i) c.seeds.push_back(std::make_pair(rp(r), r.range(-3, 9)));
  c.sections = 2; if (c.poly && r.chance(0.3)) { c.sections = r.below(2); c.seeds.clear(); if (c.sections == 0) c.holes.clear(); mon().hit("poly-short"); }
  return c;
}
inline File make_file(Rng & r, Content const & c)
{
  File f;
  if (c.poly)
  {
    f.comment = '#'; bool attr = r.chance(0.3), bm = r.chance(0.3);
    f.line(); f(long(c.p.size()), 'n')("3", 'n')(attr ? "2" : "0", 'o')(bm ? "1" : "0", 'o');
    for (std::size_t i = 0; i < c.p.size(); ++i) { f.line(); f(long(c.id[i]), 'n'); for (double x : c.p[i]) f(x, 'n'); if (attr) f("0.5", 'o')("7", 'o'); if (bm) f("1", 'o'); }
    bool fm = r.chance(0.5); f.line(); f(long(c.f.size()), 'n'); if (fm || r.chance(0.5)) f(fm ? "1" : "0", 'o');
    for (Facet const & x : c.f)
    {
      f.line(); f(long(x.poly.size()), 'n'); if (fm || !x.holes.empty() || r.chance(0.5)) { f(long(x.holes.size()), 'o'); if (fm) f("3", 'o'); } else mon().hit("hole-count-omitted");
      for (IV const & p : x.poly) { f.line(); f(long(p.size()), 'n'); for (int v : p) f(long(c.id[v]), 'i'); }
      for (std::size_t k = 0; k < x.holes.size(); ++k) { f.line(); f(long(k + 1), 'n'); for (double y : x.holes[k]) f(y, 'n'); }
    }
    if (c.sections >= 1) { f.cur_sec = 1; f.line(); f(long(c.holes.size()), 'n'); for (std::size_t k = 0; k < c.holes.size(); ++k) { f.line(); f(long(k + 1), 'n'); for (double y : c.holes[k]) f(y, 'n'); } }
    if (c.sections >= 2) { f.cur_sec = 2; f.line(); f(long(c.seeds.size()), 'n'); bool at = r.chance(0.5); for (std::size_t k = 0; k < c.seeds.size(); ++k) { f.line(); f(long(k + 1), 'n'); for (double y : c.seeds[k].first) f(y, 'n'); f(long(c.seeds[k].second), 'n'); if (at) f("0.1", 'o'); } }
    return f;
  }
  f.line(false); f("***tess", 'k'); f.line(false); f(" **format", 'k'); f.line(false); f("   1.9", 'o'); 
  f.cur_sec = 1; f.line(); f(" **vertex", 'k'); f.line(); f(long(c.p.size()), 'n');
  for (std::size_t i = 0; i < c.p.size(); ++i) { f.line(); f(long(c.id[i]), 'n'); if (r.chance(0.5)) f("3", 'o')("1", 'o')("2", 'o'); f.line(); f("2", 'o')("5", 'o'); f.line(); for (double x : c.p[i]) f(x, 'n'); if (r.chance(0.5)) f("0", 'o'); }
  f.cur_sec = 2; f.line(); f(" **edge", 'k'); f.line(false); f("1", 'o'); f.line(false); f("1", 'o')("1", 'o')("2", 'o');
  f.cur_sec = 3; f.line(); f(" **face", 'k'); f.line(); f(long(c.f.size()), 'n');
  for (std::size_t k = 0; k < c.f.size(); ++k)
  {
    for (int q = 0; q < 3; ++q) { f.line(); f(long(k + 1), 'o')("1", 'o'); }
    f.line(); f(long(c.f[k].poly[0].size()), 'n'); for (int v : c.f[k].poly[0]) f(long(c.id[v]), 'i');
    bool last = k + 1 == c.f.size(); for (int q = 0; q < 3; ++q) { f.line(!last); f("3", 'o')("1", 'o')("-2", 'o'); }
  }
  f.cur_sec = 4; f.line(); f(" **polyhedron", 'k'); f.line(); f(long(c.seeds.size()), 'n');
  for (std::size_t k = 0; k < c.seeds.size(); ++k) { f.line(); f(long(c.seeds[k].second), 'n'); for (double y : c.seeds[k].first) f(y, 'n'); if (r.chance(0.5)) f("1", 'o'); bool last = k + 1 == c.seeds.size(); f.line(!last); f("4", 'o')("1", 'o'); f.line(!last); f("2", 'o'); }
  f.cur_sec = 5; if (r.chance(0.7)) { f.line(false); f("***end", 'k'); }
  return f;
}
inline void walk(PMesh & mesh)
{
  std::set<int> ids, lines; { typedef vg::result_of::vertex_range<PMesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) ids.insert((*it).id().get()); }
  { typedef vg::result_of::line_range<PMesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { lines.insert((*it).id().get()); for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "line refers to vertex " << v); } }
  { typedef vg::result_of::plc_range<PMesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { typedef vg::result_of::line_range<PLC>::type L; L l(*it); for (vg::result_of::iterator<L>::type k = l.begin(); k != l.end(); ++k) CHECK(lines.count((*k).id().get()), "dangling-line", "plc refers to line " << (*k).id().get()); for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "plc refers to vertex " << v); } }
}
struct AnyReader { vg::io::tetgen_poly_reader t; vg::io::neper_tess_reader n; };
inline bool same(PPoint const & a, P3 const & b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static bool cur_poly = true;   // which of the two formats the current file has
inline void read(Rng & r, AnyReader & rd, std::string const & file, Content const * c)
{
  PMesh mesh; std::vector<PPoint> holes; std::vector<Seed> seeds; bool bh = false, bs = false;
  if (r.chance(0.3)) { holes.push_back(PPoint(1, 2, 3)); seeds.push_back(Seed(PPoint(1, 2, 3), 4)); }   // stale content of output parameters
  try
  {
    if (cur_poly) switch (r.below(4)) { case 0: rd.t(mesh, file); break; case 1: rd.t(mesh, file, holes); bh = true; break; case 2: rd.t(mesh, file, seeds); bs = true; break; default: rd.t(mesh, file, holes, seeds); bh = bs = true; }
    else if (r.chance(0.3)) rd.n(mesh, file); else { rd.n(mesh, file, seeds); bs = true; }
  }
  catch (std::exception const &) { walk(mesh); throw; }
  walk(mesh); if (!c) return;
  typedef vg::result_of::vertex_range<PMesh>::type R; R rg(mesh); CHECK(rg.size() == c->p.size(), "vertex-count", rg.size() << " vertices instead of " << c->p.size());
  std::size_t i = 0; std::map<int,int> idx;
  for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it, ++i) { int id = (*it).id().get(); idx[id] = int(i); if (c->poly) CHECK(id == c->id[i], "vertex-id", "vertex " << i << " has id " << id << " instead of " << c->id[i]); CHECK(same(vg::point(mesh, *it), c->p[i]), "coordinate", "vertex " << i << " is at " << vg::point(mesh, *it)); }
  typedef vg::result_of::plc_range<PMesh>::type RP; RP rp(mesh); CHECK(rp.size() == c->f.size(), "facet-count", rp.size() << " facets instead of " << c->f.size());
  i = 0; std::set<IV> all;
  for (vg::result_of::iterator<RP>::type it = rp.begin(); it != rp.end(); ++it, ++i)
  {
    Facet const & f = c->f[i]; std::set<IV> want, got; std::set<int> wv, gv; std::size_t n = 0;
    for (IV const & p : f.poly) { wv.insert(p.begin(), p.end()); if (p.size() == 2) want.insert(sorted(p)); if (p.size() > 2) for (std::size_t k = 0; k < p.size(); ++k) want.insert(sorted(IV{p[k], p[(k + 1) % p.size()]})); }
    typedef vg::result_of::line_range<PLC>::type L; L l(*it); for (vg::result_of::iterator<L>::type k = l.begin(); k != l.end(); ++k) { IV v = vids(*k); for (int & x : v) x = idx.at(x); got.insert(sorted(v)); ++n; }
    CHECK(got == want && n == want.size(), "facet-lines", "facet " << i << " has " << n << " lines (" << got.size() << " different) instead of " << want.size()); all.insert(want.begin(), want.end());
    IV pv = vids(*it); for (int x : pv) gv.insert(idx.at(x)); CHECK(gv == wv && pv.size() == wv.size(), "facet-vertices", "facet " << i << " has vertices " << show(gv) << " instead of " << show(wv));
    std::vector<P3> h; for (auto const & x : vg::hole_points(*it)) h.push_back(to_p3(x)); CHECK(h == f.holes, "facet-holes", "facet " << i << " has " << h.size() << " hole points instead of " << f.holes.size());
  }
  CHECK(vg::lines(mesh).size() == all.size(), "line-count", vg::lines(mesh).size() << " lines instead of " << all.size());
  if (bh) { CHECK(holes.size() == c->holes.size(), "holes", holes.size() << " hole points instead of " << c->holes.size()); for (std::size_t k = 0; k < holes.size(); ++k) CHECK(same(holes[k], c->holes[k]), "hole-point", "hole " << k); mon().hit("poly-holes-read", long(holes.size())); }
  if (bs) { CHECK(seeds.size() == c->seeds.size(), "seeds", seeds.size() << " seed points instead of " << c->seeds.size()); for (std::size_t k = 0; k < seeds.size(); ++k) CHECK(same(seeds[k].first, c->seeds[k].first) && seeds[k].second == c->seeds[k].second, "seed-point", "seed " << k << ": " << seeds[k].first << " / " << seeds[k].second); mon().hit(c->poly ? "poly-seeds-read" : "tess-seeds-read", long(seeds.size())); }
  mon().hit(c->poly ? "poly-facets" : "tess-facets", long(c->f.size()));
}
inline std::string bad_reference(Rng & r, Content const & c) { for (;;) { int x = r.chance(0.5) ? r.range(-5, 100) : r.range(-100000, 100000); if (std::find(c.id.begin(), c.id.end(), x) == c.id.end()) return std::to_string(x); } }
#define EMPTY_IS_ERROR cur_poly
static const bool LINE_BASED = true;
inline std::string ext(Rng &) { return cur_poly ? ".poly" : ".tess"; }
inline uint64_t hash_of(Content const & c) { uint64_t h = c.poly; for (P3 const & q : c.p) for (double x : q) { uint64_t b; memcpy(&b, &x, 8); h = mix(h, b); } for (Facet const & f : c.f) for (IV const & p : f.poly) for (int x : p) h = mix(h, x); return h; }
inline std::string str_of(Content const & c) { std::ostringstream o; o << (c.poly ? ".poly " : ".tess ") << c.p.size() << " vertices, " << c.f.size() << " facets:"; for (Facet const & f : c.f) { for (IV const & p : f.poly) o << " " << show(p); o << ";"; } return o.str(); }

#else
// ------------------------------------------------------------------ Synopsys .bnd
struct Region { std::string name, material; IV el; };
struct Content { int dim; std::vector<P3> p; std::vector<IV> edges, faces; std::vector<std::vector<int> > seg; std::vector<IV> contact; std::vector<Region> reg; std::vector<IV> loop, closs; };
// edges are vertex pairs; faces and contacts are signed edge indices (-i-1: reversed); seg: signed face (3d) or edge (2d) indices; loop: vertices of each face in loop order
inline int edge_of(Content & c, Rng & r, std::map<IV,int> & em, int a, int b)
{ IV k = sorted(IV{a, b}); if (!em.count(k)) { em[k] = int(c.edges.size()); c.edges.push_back(r.chance(0.5) ? IV{a, b} : IV{b, a}); } int e = em[k]; return c.edges[e][0] == a ? e : -e - 1; }
inline Content make_content(Rng & r)
{
  Content c; c.dim = r.chance(0.8) ? 3 : 2; std::map<IV,int> em;
  Model m; GenOpt o; o.maxn = 3; o.isolated = r.below(2); o.wild = r.chance(0.3); m = gen_model(r, TRI3, o); if (PROP == 22 && mon().cur % 199 == 78) make_huge(m, r); c.p = m.p; if (c.dim == 2) for (P3 & q : c.p) q[2] = 0;
  std::set<IV> seen; for (IV t : m.c) if (seen.insert(sorted(t)).second) { IV f; for (int k = 0; k < 3; ++k) f.push_back(edge_of(c, r, em, t[k], t[(k + 1) % 3])); c.faces.push_back(f); c.loop.push_back(t); }
  int ns = r.range(1, 4), n = c.dim == 3 ? int(c.faces.size()) : int(c.edges.size());
  c.seg.resize(ns);
  for (int i = 0; i < n; ++i) { if (r.chance(0.1)) continue; int s = r.below(ns); c.seg[s].push_back(r.chance(0.5) ? i : -i - 1); if (ns > 1 && r.chance(0.3)) { int t = (s + 1 + r.below(ns - 1)) % ns; c.seg[t].push_back(r.chance(0.5) ? i : -i - 1); mon().hit("shared-faces"); } }
  for (IV & s : c.seg) r.shuffle(s);
  int nr = r.chance(0.7) ? ns : r.range(1, ns); for (int i = 0; i < nr; ++i) { Region x; static const char * nm[] = {"Bond_oxide", "Bottom silicon", "a.b-1", "R"}; x.name = nm[r.below(4)] + std::to_string(i); x.material = r.chance(0.5) ? "Silicon" : "Oxide"; c.reg.push_back(x); }
  for (int s = 0; s < ns; ++s) c.reg[s < nr ? s : r.below(nr)].el.push_back(s);
  if (nr < ns) mon().hit("region-with-several-elements");
  if (r.chance(0.5))
  {
    int nc = r.range(1, 4), k = 0; for (int i = 0; i < nc; ++i) { if (c.dim == 3) { int f = r.below(int(c.faces.size())); c.contact.push_back(c.faces[f]); c.closs.push_back(c.loop[f]); } else { IV e = c.edges[r.below(int(c.edges.size()))]; c.contact.push_back(e); c.closs.push_back(e); } }
    int g = r.range(1, nc); for (int i = 0; i < g; ++i) { Region x; x.name = "contact" + std::to_string(i); x.material = "Contact"; c.reg.push_back(x); }
    for (; k < nc; ++k) c.reg[c.reg.size() - g + (k < g ? k : r.below(g))].el.push_back(ns + k); r.shuffle(c.reg); mon().hit("contacts", nc);
  }
  return c;
}
inline File make_file(Rng & r, Content const & c)
{
  File f; auto kv = [&](std::string a, std::string b, char role) { f.line(); f(a, 'k')("=", 'k')(b, role); };
  f.line(); f("DF-ISE", 'k')("text", 'k'); f.line(); f("", 'k'); f.line(); f("Info", 'k')("{", 'k'); kv("version", "1.1", 'o'); kv("type", "boundary", 'o'); kv("dimension", std::to_string(c.dim), 'n'); kv("nb_vertices", std::to_string(c.p.size()), 'o'); kv("nb_edges", std::to_string(c.edges.size()), 'o'); kv("nb_regions", std::to_string(c.reg.size()), 'n'); f.line(); f("}", 'k'); f.line(); f("Data", 'k')("{", 'k');
  if (r.chance(0.5)) { f.line(); f("CoordSystem", 'k')("{", 'k'); f.line(); f("translate", 'k')("=", 'k')("[", 'k')("0", 'o')("0", 'o')("]", 'k'); f.line(); f("}", 'k'); }
  auto head = [&](std::string n, std::size_t k) { f.line(); f(n, 'k')("(" + std::to_string(k) + ")", 'h')("{", 'k'); };
  auto close = [&](bool q = true) { f.line(q); f("}", 'k'); };
  head("Vertices", c.p.size()); for (P3 const & q : c.p) { f.line(); for (int d = 0; d < c.dim; ++d) f(q[d], 'n'); } close();
  head("Edges", c.edges.size()); for (IV const & e : c.edges) { f.line(); for (int x : e) f(long(x), 'i'); } close();
  if (c.dim == 3) { head("Faces", c.faces.size()); for (IV const & e : c.faces) { f.line(); f(long(e.size()), 'n'); for (int x : e) f(long(x), 'n'); } close(); }
  head("Elements", c.seg.size() + c.contact.size());
  for (IV const & s : c.seg) { f.line(); f(c.dim == 3 ? "10" : "4", 'n')(long(s.size()), 'n'); int k = 0; for (int x : s) { if (++k % 10 == 0 && r.chance(0.5)) f.line(); f(long(x), 'r'); } }
  for (IV const & s : c.contact) { f.line(); f(c.dim == 3 ? "2" : "1", 'n'); for (int x : s) f(long(x), 'n'); }
  close();
  for (std::size_t i = 0; i < c.reg.size(); ++i)
  {
    bool last = i + 1 == c.reg.size(); f.line(); f("Region", 'k')("(\"" + c.reg[i].name + "\")", 'k')("{", 'k'); f.line(); f("material", 'k')("=", 'k')(c.reg[i].material, 'o'); head("Elements", c.reg[i].el.size());
    f.line(); for (int x : c.reg[i].el) f(long(x), 'i'); close(!last); close(!last);
  }
  close(false); return f;
}
typedef vg::io::bnd_reader AnyReader;
inline void walk(Mesh & mesh, Segmentation & sg)
{
  std::set<int> ids; { typedef vg::result_of::vertex_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) ids.insert((*it).id().get()); }
  { typedef vg::result_of::cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "cell refers to vertex " << v); }
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s) { typedef vg::result_of::cell_range<Segment>::type R; R rg(*s); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "segment cell refers to vertex " << v); }
}
inline void same_loop(IV got, IV want, std::string const & what) { CHECK(sorted(got) == sorted(want), what, show(got) << " instead of " << show(want)); }
inline void read_helper(Rng & r, std::string const & file, Content const & c)
{
  vg::io::bnd_helper h; CHECK(h(file) == EXIT_SUCCESS, "helper-result", "bnd_helper reports failure"); if (r.chance(0.3)) { CHECK(h(file) == EXIT_SUCCESS, "helper-result", "bnd_helper reports failure"); mon().hit("helper-reused"); }
  CHECK(int(h.dim_geom()) == c.dim, "dimension", h.dim_geom()); CHECK(h.geometry_size() == c.p.size(), "points", h.geometry_size() << " instead of " << c.p.size());
  for (std::size_t i = 0; i < c.p.size(); ++i) for (int d = 0; d < c.dim; ++d) CHECK(h.point(i)[d] == c.p[i][d], "coordinate", "point " << i);
  CHECK(h.segment_size() == c.seg.size(), "helper-segments", h.segment_size() << " instead of " << c.seg.size());
  for (std::size_t s = 0; s < c.seg.size(); ++s)
  {
    CHECK(h.segment(s).size() == c.seg[s].size(), "helper-segment-size", h.segment(s).size() << " instead of " << c.seg[s].size());
    for (std::size_t k = 0; k < c.seg[s].size(); ++k) { int x = c.seg[s][k]; x = x < 0 ? -x - 1 : x; IV g(h.segment(s)[k].begin(), h.segment(s)[k].end()); same_loop(g, c.dim == 3 ? c.loop[x] : c.edges[x], "helper-polygon"); }
    std::string nm, mt; for (Region const & x : c.reg) if (x.material != "Contact" && std::count(x.el.begin(), x.el.end(), int(s))) { nm = x.name; mt = x.material; }
    CHECK(h.segment_name(s) == nm && h.segment_material(s) == mt, "segment-name", "segment " << s << ": " << h.segment_name(s) << " / " << h.segment_material(s) << " instead of " << nm << " / " << mt);
  }
  std::vector<Region> cr; for (Region const & x : c.reg) if (x.material == "Contact") cr.push_back(x);
  CHECK(h.contact_size() == cr.size(), "contact-count", h.contact_size() << " instead of " << cr.size());
  for (std::size_t i = 0; i < cr.size(); ++i)
  {
    CHECK(h.contact_name(i) == cr[i].name, "contact-name", h.contact_name(i)); auto fc = h.contact_faces(i); CHECK(fc.size() == cr[i].el.size(), "contact-size", fc.size() << " instead of " << cr[i].el.size());
    for (std::size_t k = 0; k < fc.size(); ++k) same_loop(IV(fc[k].begin(), fc[k].end()), c.closs[cr[i].el[k] - c.seg.size()], "contact-face");
  }
  mon().hit(c.dim == 3 ? "helper-3d" : "helper-2d");
}
inline void read(Rng & r, AnyReader & rd, std::string const & file, Content const * c)
{
  if (c) { read_helper(r, file, *c); if (c->dim == 2) { bool thrown = false; try { Mesh m; Segmentation s(m); rd(m, s, file); } catch (std::exception const &) { thrown = true; } CHECK(thrown, "dimension-mismatch-accepted", "2d file read into a 3d mesh"); mon().hit("dimension-mismatch"); return; } }
  Mesh mesh; Segmentation sg(mesh);
  try { rd(mesh, sg, file); } catch (std::exception const &) { walk(mesh, sg); throw; }
  walk(mesh, sg); if (!c) return;
  std::set<int> faces, used; for (IV const & s : c->seg) for (int x : s) faces.insert(x < 0 ? -x - 1 : x); for (int f : faces) used.insert(c->loop[f].begin(), c->loop[f].end());
  std::map<int,int> vm; std::set<int> gv;
  { typedef vg::result_of::vertex_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { int i = match(c->p, to_p3(vg::point(mesh, *it)), 3); CHECK(i >= 0 && used.count(i) && gv.insert(i).second, "vertex", "unknown or repeated vertex"); P3 q = to_p3(vg::point(mesh, *it)); CHECK(q == c->p[i], "coordinate", "vertex " << i); vm[(*it).id().get()] = i; } }
  CHECK(gv == used, "vertices", gv.size() << " vertices instead of " << used.size());
  std::map<IV,int> fk; for (int f : faces) fk[sorted(c->loop[f])] = f; std::map<int,int> cm; std::set<int> gc;
  { typedef vg::result_of::cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { IV t = vids(*it); for (int & x : t) x = vm.at(x); t = sorted(t); CHECK(fk.count(t) && gc.insert(fk[t]).second, "cell", "triangle " << show(t) << " unknown or repeated"); cm[(*it).id().get()] = fk[t]; } }
  CHECK(gc == faces, "cells", gc.size() << " cells instead of " << faces.size()); CHECK(sg.size() == c->seg.size(), "segments", sg.size() << " segments instead of " << c->seg.size());
  for (std::size_t s = 0; s < c->seg.size(); ++s)
  {
    std::set<int> want, got; for (int x : c->seg[s]) want.insert(x < 0 ? -x - 1 : x); CHECK(sg.find(int(s)) != sg.end(), "segment-id", s);
    typedef vg::result_of::cell_range<Segment>::type R; R rg(sg[int(s)]); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) got.insert(cm.at((*it).id().get())); CHECK(got == want && rg.size() == want.size(), "segment-cells", "segment " << s << " has cells " << show(got) << " instead of " << show(want));
  }
  mon().hit("bnd-cells", long(faces.size()));
}
inline std::string bad_reference(Rng & r, Content const &) { static const char * b[] = {"4294967296", "99999999999999999999", "100000", "5000"}; return b[r.below(4)]; }
static const bool EMPTY_IS_ERROR = true; static const bool LINE_BASED = false;
inline std::string ext(Rng &) { return ".bnd"; }
inline uint64_t hash_of(Content const & c) { uint64_t h = c.dim; for (P3 const & q : c.p) for (double x : q) { uint64_t b; memcpy(&b, &x, 8); h = mix(h, b); } for (IV const & e : c.seg) for (int x : e) h = mix(h, x); return h; }
inline std::string str_of(Content const & c) { std::ostringstream o; o << ".bnd " << c.dim << "d: " << c.p.size() << " vertices, " << c.edges.size() << " edges, " << c.faces.size() << " faces, " << c.seg.size() << " segments, " << c.contact.size() << " contact faces, " << c.reg.size() << " regions"; return o.str(); }
#endif

struct Quiet { std::streambuf * o; std::ostringstream s; Quiet() : o(std::cerr.rdbuf()) { std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(o); } };

void run_case(Rng & r, long)
{
  Quiet quiet; Scratch sd; AnyReader reader; int rounds = r.range(1, 3);
  for (int k = 0; k < rounds; ++k)
  {
    Content c = make_content(r);
#if FMT == 1
    cur_poly = c.poly;
#endif
    File f = make_file(r, c); std::string path = sd.path("in" + ext(r)); mon().state(hash_of(c)); mon().sample(str_of(c));
    if (mon().prop != "C24")
    {
      std::string t = f.text(r); if (FMT == 0 && r.chance(0.3)) { t += "\n 3\n surface elements follow\n"; mon().hit("trailing-content"); }
      spit(path, t); read(r, reader, path, &c); mon().hit("files"); if (k) mon().hit("reader-reused"); continue;
    }
    std::string what; bool must = false; std::string t;
    switch (r.below(6))
    {
      case 0: // missing, unreadable
        what = "missing file"; must = true; path = r.chance(0.5) ? sd.path("no" + ext(r)) : sd.path("nowhere/in" + ext(r)); mon().hit("missing-file"); break;
      case 1: { std::size_t p = r.below(int(f.l.size())); must = f.cut_is_error(p, EMPTY_IS_ERROR); t = f.text(r, p); what = "cut before line " + std::to_string(p); mon().hit(must ? "cut-reported" : "cut-at-section"); break; }
      case 2: case 3: // one token damaged
      {
        std::vector<Tok *> ts; for (Line & l : f.l) for (Tok & x : l.t) if (x.role == 'n' || x.role == 'i' || x.role == 'N' || x.role == 'r' || x.role == 'h') ts.push_back(&x);
        Tok * x = r.pick(ts); must = true; static const char * junk[] = {"x", "abc", "-", "e5", "?"};
        if ((x->role == 'i' || x->role == 'r') && r.chance(0.6)) { x->s = bad_reference(r, c); what = "dangling reference " + x->s; mon().hit("dangling-reference"); }
        else if (x->role == 'h') { x->s = r.chance(0.5) ? "(x)" : "()"; what = "no size"; mon().hit("garbage-size"); }
        else if (x->role == 'N' && r.chance(0.5)) { x->s = std::to_string(atol(x->s.c_str()) + r.range(1, 1000000000)); what = "too many announced"; mon().hit("count-too-large"); }
        else { x->s = junk[r.below(5)]; what = "no number"; mon().hit("garbage-number"); }
        t = f.text(r); break;
      }
      case 4: if (LINE_BASED) // last required token of a line missing
      {
        std::vector<Line *> ls; for (Line & l : f.l) if (!l.t.empty() && (l.t[0].role == 'n')) ls.push_back(&l); Line * l = r.pick(ls); std::size_t q = l->t.size(); while (q > 0 && (l->t[q - 1].role == 'o')) --q; l->t.resize(q - 1);
        if (l->t.empty() && LINE_BASED && EMPTY_IS_ERROR) l->t.push_back(Tok{"x", 'n'}); must = true; t = f.text(r); what = "line too short"; mon().hit("short-line"); break;
      } // fall through
      default: { t = f.text(r); t = mutate(r, t, what); mon().hit("random-edit"); }
    }
    if (what != "missing file") spit(path, t);
    bool thrown = false; std::string msg;
    try { read(r, reader, path, 0); } catch (Violation const &) { throw; } catch (std::exception const & e) { thrown = true; msg = e.what(); }
    CHECK(thrown || !must, "damage-accepted", what << " was not reported; file: " << t.substr(0, 1500));
    CHECK(!thrown || !msg.empty(), "empty-message", what);
    mon().hit(thrown ? "reported" : "accepted"); mon().hit("files");
    // the reader is still usable
    if (r.chance(0.3)) { Content c2 = make_content(r);
#if FMT == 1
      cur_poly = c2.poly;
#endif
      std::string q = sd.path("again" + ext(r)); spit(q, make_file(r, c2).text(r)); read(r, reader, q, &c2); mon().hit("valid-file-after-damage"); }
  }
}

// C21: VTK files. The writer's files are parsed by an independent parser; files of the writer and third-party style files are read back.
#include "kinds.hpp"
#include "iotools.hpp"
#include <list>
#include <deque>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"

typedef std::vector<double> VD;
typedef vg::io::vtk_writer<Mesh> Writer;
typedef vg::io::vtk_reader<Mesh> Reader;
static const int VTK_TYPE = KIND <= LINE3 ? 3 : KIND <= TRI3 ? 5 : KIND <= QUAD3 ? 9 : KIND == TET3 ? 10 : 12;
// documented local order of VTK cells against the reference order of the library; an involution
inline IV vtk_order() { if (KIND == QUAD2 || KIND == QUAD3) return IV{0,1,3,2}; if (KIND == HEX3) return IV{0,1,3,2,4,5,7,6}; IV v; for (int i = 0; i <= kind_tdim(KIND); ++i) v.push_back(i); return v; }

struct Q { bool cell, vec; int seg; std::string name; std::map<int, VD> val; };   // values by model index of the point or cell; seg < 0: all segments
struct Part { int id; IV cells; };                                                // model cell indices

// Everything a test file says: the model, its parts and the quantities.
struct Content
{
  Model m; std::vector<Part> parts; std::vector<Q> q; bool segmented;
  std::set<int> points_of(Part const & p) const { std::set<int> s; for (int c : p.cells) for (int v : m.c[c]) s.insert(v); return s; }
};

inline std::string a_name(Rng & r, std::set<std::string> & used)
{ for (;;) { static const char * b[] = {"u", "Potential", "e_field", "data-1", "x.y", "T[K]", "name", "type", "a b", "some (long) name", "Q"}; std::string s = b[r.below(11)]; if (r.chance(0.4)) s += std::to_string(r.below(100)); if (used.insert(s).second) return s; } }
inline double a_value(Rng & r) { switch (r.below(6)) { case 0: return double(r.range(-5, 5)); case 1: return r.real(-1, 1) * std::pow(10.0, r.range(-30, 30)); default: return r.real(-100, 100); } }

template<class E> struct IdOf { typedef typename vg::result_of::id<E>::type type; };

// Owns the containers behind the accessors given to the writer.
struct Store
{
  std::list<std::vector<double> > v1; std::list<std::deque<double> > d1; std::list<std::vector<VD> > v3; std::list<std::deque<VD> > d3;
  std::list<std::map<IdOf<Vertex>::type, double> > mv1; std::list<std::map<IdOf<Cell>::type, double> > mc1; std::list<std::map<IdOf<Vertex>::type, VD> > mv3; std::list<std::map<IdOf<Cell>::type, VD> > mc3;
  std::list<std::map<IdOf<Vertex>::type, double> > & ms(Vertex *, double) { return mv1; } std::list<std::map<IdOf<Cell>::type, double> > & ms(Cell *, double) { return mc1; }
  std::list<std::map<IdOf<Vertex>::type, VD> > & ms(Vertex *, VD) { return mv3; } std::list<std::map<IdOf<Cell>::type, VD> > & ms(Cell *, VD) { return mc3; }
  std::list<std::vector<double> > & vs(double) { return v1; } std::list<std::vector<VD> > & vs(VD) { return v3; }
  std::list<std::deque<double> > & ds(double) { return d1; } std::list<std::deque<VD> > & ds(VD) { return d3; }
};
inline double as(VD const & v, double) { return v[0]; } inline VD as(VD const & v, VD) { return v; }

template<class A> void put(Writer & w, Segmentation & sg, Q const & q, A a, Rng & r, Vertex *, double)
{ if (q.seg < 0) { if (r.chance(0.5)) vg::io::add_scalar_data_on_vertices(w, a, q.name); else w.add_scalar_data_on_vertices(a, q.name); } else if (r.chance(0.5)) vg::io::add_scalar_data_on_vertices(w, sg[q.seg], a, q.name); else w.add_scalar_data_on_vertices(q.seg, a, q.name); }
template<class A> void put(Writer & w, Segmentation & sg, Q const & q, A a, Rng & r, Vertex *, VD)
{ if (q.seg < 0) { if (r.chance(0.5)) vg::io::add_vector_data_on_vertices(w, a, q.name); else w.add_vector_data_on_vertices(a, q.name); } else if (r.chance(0.5)) vg::io::add_vector_data_on_vertices(w, sg[q.seg], a, q.name); else w.add_vector_data_on_vertices(q.seg, a, q.name); }
template<class A> void put(Writer & w, Segmentation & sg, Q const & q, A a, Rng & r, Cell *, double)
{ if (q.seg < 0) { if (r.chance(0.5)) vg::io::add_scalar_data_on_cells(w, a, q.name); else w.add_scalar_data_on_cells(a, q.name); } else if (r.chance(0.5)) vg::io::add_scalar_data_on_cells(w, sg[q.seg], a, q.name); else w.add_scalar_data_on_cells(q.seg, a, q.name); }
template<class A> void put(Writer & w, Segmentation & sg, Q const & q, A a, Rng & r, Cell *, VD)
{ if (q.seg < 0) { if (r.chance(0.5)) vg::io::add_vector_data_on_cells(w, a, q.name); else w.add_vector_data_on_cells(a, q.name); } else if (r.chance(0.5)) vg::io::add_vector_data_on_cells(w, sg[q.seg], a, q.name); else w.add_vector_data_on_cells(q.seg, a, q.name); }

template<class E, class V> void offer(Writer & w, Segmentation & sg, Q & q, Store & st, std::vector<int> const & ids, Rng & r)
{
  int n = int(ids.size()); E * tag = 0; V x = V();
  VD def; for (int i = 0; i < (q.vec ? 3 : 1); ++i) def.push_back(a_value(r));
  for (int i = 0; i < n; ++i) { VD v; for (int k = 0; k < (q.vec ? 3 : 1); ++k) v.push_back(a_value(r)); q.val[i] = v; }
  switch (r.below(4))
  {
    case 0: { st.vs(x).push_back(std::vector<V>()); auto & c = st.vs(x).back(); typename vg::result_of::accessor<std::vector<V>, E>::type a(c); for (int i = 0; i < n; ++i) { if (int(c.size()) <= ids[i]) c.resize(ids[i] + 1, as(def, x)); c[ids[i]] = as(q.val[i], x); } put(w, sg, q, a, r, tag, x); break; }
    case 1: { st.ds(x).push_back(std::deque<V>()); auto & c = st.ds(x).back(); for (int i = 0; i < n; ++i) { if (int(c.size()) <= ids[i]) c.resize(ids[i] + 1, as(def, x)); c[ids[i]] = as(q.val[i], x); } put(w, sg, q, typename vg::result_of::field<std::deque<V>, E>::type(c, as(def, x)), r, tag, x); break; }
    case 2:
    {
      st.ms(tag, x).push_back(std::map<typename IdOf<E>::type, V>()); auto & c = st.ms(tag, x).back();
      for (int i = 0; i < n; ++i) if (r.chance(0.8)) c[typename IdOf<E>::type(ids[i])] = as(q.val[i], x); else { q.val[i] = def; mon().hit("missing-data-default"); }
      put(w, sg, q, typename vg::result_of::field<std::map<typename IdOf<E>::type, V>, E>::type(c, as(def, x)), r, tag, x); break;
    }
    default: { st.ms(tag, x).push_back(std::map<typename IdOf<E>::type, V>()); auto & c = st.ms(tag, x).back(); for (int i = 0; i < n; ++i) c[typename IdOf<E>::type(ids[i])] = as(q.val[i], x); typename vg::result_of::accessor<std::map<typename IdOf<E>::type, V>, E>::type a(c); put(w, sg, q, a, r, tag, x); }
  }
}

inline void new_quantities(Rng & r, Content & c)
{
  std::set<std::string> un[2];
  int n = r.below(5);
  for (int i = 0; i < n; ++i) { Q q; q.cell = r.chance(0.5); q.vec = r.chance(0.5); q.seg = -1; q.name = a_name(r, un[q.cell]); c.q.push_back(q); }
  if (!c.segmented) return;
  std::vector<std::set<std::string> > us[2]; us[0].assign(c.parts.size(), un[0]); us[1].assign(c.parts.size(), un[1]);
  n = r.below(6);
  for (int i = 0; i < n; ++i) { Q q; q.cell = r.chance(0.5); q.vec = r.chance(0.5); int p = r.below(int(c.parts.size())); q.seg = c.parts[p].id; q.name = a_name(r, us[q.cell][p]); c.q.push_back(q); }
}

// A .vtu file against what it must contain.
inline void check_file(Content const & c, Part const & p, std::string const & text, std::string const & what)
{
  Vtu u = parse_vtu(text); IV perm = vtk_order(); std::set<int> used = c.points_of(p);
  CHECK(u.p.size() == used.size(), "file-points", what << ": " << u.p.size() << " points for " << used.size() << " vertices of its cells; " << c.m.str());
  IV pt; std::set<int> seen;
  for (P3 const & x : u.p) { int i = match(c.m.p, x, c.m.gdim); CHECK(i >= 0 && used.count(i) && seen.insert(i).second, "file-point", what << ": point is no vertex of its cells or repeated"); for (int d = c.m.gdim; d < 3; ++d) CHECK(x[d] == 0, "file-point-padding", what); pt.push_back(i); }
  std::map<IV,int> want; for (int k : p.cells) want[c.m.c[k]] = k;
  CHECK(u.c.size() == want.size(), "file-cells", what << ": " << u.c.size() << " cells instead of " << want.size());
  IV cl; std::set<int> sc;
  for (std::size_t i = 0; i < u.c.size(); ++i)
  {
    CHECK(u.types[i] == VTK_TYPE, "file-type", what << ": cell type " << u.types[i]); CHECK(u.c[i].size() == perm.size(), "file-cell-size", what);
    IV lib; for (int k : perm) lib.push_back(pt[u.c[i][k]]);
    CHECK(want.count(lib) && sc.insert(want[lib]).second, "file-cell", what << ": cell " << show(lib) << " (reference order) unexpected; " << c.m.str()); cl.push_back(want[lib]);
  }
  for (int cell = 0; cell < 2; ++cell)
  {
    std::vector<Arr> const & arr = cell ? u.cd : u.pd; IV const & idx = cell ? cl : pt; std::map<std::string, Q const *> w;
    for (Q const & q : c.q) if (q.cell == (cell == 1) && (q.seg < 0 || (c.segmented && q.seg == p.id))) w[q.name] = &q;
    CHECK(arr.size() == w.size(), "file-arrays", what << ": " << arr.size() << " data arrays instead of " << w.size());
    for (Arr const & a : arr)
    {
      CHECK(w.count(a.name) && a.comp == (w[a.name]->vec ? 3 : 1), "file-array", what << ": data array " << a.name << " with " << a.comp << " components");
      for (std::size_t i = 0; i < idx.size(); ++i) for (int k = 0; k < a.comp; ++k) { double x = w[a.name]->val.at(idx[i])[k]; CHECK(same15(a.v[i * a.comp + k], x), "file-value", what << ": " << a.name << " of " << (cell ? "cell " : "vertex ") << idx[i] << " is " << a.v[i * a.comp + k] << " instead of " << x); }
      mon().hit(std::string("file-") + (cell ? "cell-" : "vertex-") + (a.comp == 3 ? "vectors" : "scalars"));
    }
  }
}

// Containers filled by the reader.
struct Got { Q const * q; std::list<std::deque<double> >::iterator d1; std::list<std::deque<VD> >::iterator d3; };
inline VD vec(double x) { return VD(1, x); } inline VD vec(VD const & x) { return x; }

template<class E, class C> void check_values(Q const & q, C const & cont, std::vector<E const *> const & es, std::vector<int> const & idx, std::string const & how)
{
  for (std::size_t i = 0; i < es.size(); ++i)
  {
    std::size_t id = es[i]->id().get(); CHECK(cont.size() > id, "read-data-missing", how << " " << q.name << " no value for " << (q.cell ? "cell " : "vertex ") << id);
    VD v = vec(cont[id]); CHECK(v.size() == (q.vec ? 3u : 1u), "read-components", how << " " << q.name << " has " << v.size() << " components");
    for (std::size_t k = 0; k < v.size(); ++k) CHECK(same15(v[k], q.val.at(idx[i])[k]), "read-value", how << " " << q.name << " of " << (q.cell ? "cell " : "vertex ") << idx[i] << " is " << v[k] << " instead of " << q.val.at(idx[i])[k]);
  }
}
template<class E, class F> void check_field(Q const & q, F const & f, std::vector<E const *> const & es, std::vector<int> const & idx)
{
  CHECK(f.is_valid() || es.empty(), "field-invalid", "queried field " << q.name << " of segment is invalid");
  for (std::size_t i = 0; i < es.size(); ++i) { VD v = vec(f(*es[i])); CHECK(v.size() == (q.vec ? 3u : 1u), "field-components", q.name); for (std::size_t k = 0; k < v.size(); ++k) CHECK(same15(v[k], q.val.at(idx[i])[k]), "field-value", "queried " << q.name << " of " << (q.cell ? "cell " : "vertex ") << idx[i] << " is " << v[k] << " instead of " << q.val.at(idx[i])[k]); }
}
inline void check_names(std::vector<std::string> got, std::vector<std::string> want, std::string const & what) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "data-names", what << ": " << got.size() << " names reported instead of " << want.size()); }

// Reads a file and compares everything read with the content.  extra: points in the file that no cell uses.
inline void read_back(Rng & r, Content const & c, Reader & reader, std::string const & file, std::set<int> const & extra, std::string const & what)
{
  Mesh mesh; Segmentation sg(mesh); std::list<std::deque<double> > d1; std::list<std::deque<VD> > d3; std::vector<Got> got; std::vector<Q const *> unreg; Mesh idm; Segmentation ids(idm);
  int mode = r.below(4);   // with segmentation / without / import_vtk
  bool plain = mode == 3 && !c.segmented, import = r.chance(0.15);
  if (!import)
    for (Q const & q : c.q)
    {
      if (r.chance(0.4)) { unreg.push_back(&q); continue; }
      d1.push_back(std::deque<double>()); d3.push_back(std::deque<VD>()); Got g; g.q = &q; g.d1 = --d1.end(); g.d3 = --d3.end(); got.push_back(g); int s = q.seg;
      bool everywhere = s < 0; if (everywhere && c.parts.size() == 1 && r.chance(0.4)) { everywhere = false; s = c.segmented ? c.parts[0].id : 0; }
      if (q.cell && q.vec) { auto a = vg::make_accessor<Cell>(*g.d3); if (everywhere) { if (r.chance(0.5)) vg::io::add_vector_data_on_cells(reader, a, q.name); else reader.register_cell_vector(a, q.name); } else if (r.chance(0.5)) { reader.register_cell_vector(ids.get_make_segment(s), a, q.name); mon().hit("registered-by-segment"); } else reader.register_cell_vector(s, a, q.name); }
      if (q.cell && !q.vec) { auto a = vg::make_field<Cell>(*g.d1); if (everywhere) { if (r.chance(0.5)) vg::io::add_scalar_data_on_cells(reader, a, q.name); else reader.register_cell_scalar(a, q.name); } else if (r.chance(0.5)) { reader.register_cell_scalar(ids.get_make_segment(s), a, q.name); mon().hit("registered-by-segment"); } else reader.register_cell_scalar(s, a, q.name); }
      if (!q.cell && q.vec) { auto a = vg::make_field<Vertex>(*g.d3); if (everywhere) { if (r.chance(0.5)) vg::io::add_vector_data_on_vertices(reader, a, q.name); else reader.register_vertex_vector(a, q.name); } else if (r.chance(0.5)) { reader.register_vertex_vector(ids.get_make_segment(s), a, q.name); mon().hit("registered-by-segment"); } else reader.register_vertex_vector(s, a, q.name); }
      if (!q.cell && !q.vec) { auto a = vg::make_accessor<Vertex>(*g.d1); if (everywhere) { if (r.chance(0.5)) vg::io::add_scalar_data_on_vertices(reader, a, q.name); else reader.register_vertex_scalar(a, q.name); } else if (r.chance(0.5)) { reader.register_vertex_scalar(ids.get_make_segment(s), a, q.name); mon().hit("registered-by-segment"); } else reader.register_vertex_scalar(s, a, q.name); }
    }
  if (import) { int rc = plain ? vg::io::import_vtk(mesh, file) : vg::io::import_vtk(mesh, sg, file); CHECK(rc == EXIT_SUCCESS, "import-result", "import_vtk returned " << rc); mon().hit("import_vtk"); }
  else if (plain) { reader(mesh, file); mon().hit("read-without-segmentation"); }
  else { reader(mesh, sg, file); mon().hit("read-with-segmentation"); }

  // vertices and cells of the mesh
  std::map<int,int> vm; std::set<int> seen, used(extra); for (Part const & p : c.parts) { std::set<int> s = c.points_of(p); used.insert(s.begin(), s.end()); }
  { typedef vg::result_of::const_vertex_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { int i = match(c.m.p, to_p3(vg::point(mesh, *it)), c.m.gdim); CHECK(i >= 0 && used.count(i) && seen.insert(i).second, "read-vertex", what << ": vertex is unknown or repeated; " << c.m.str()); vm[(*it).id().get()] = i; } }
  CHECK(seen == used, "read-vertices", what << ": " << seen.size() << " vertices instead of " << used.size());
  std::map<IV,int> all; std::set<int> want; for (Part const & p : c.parts) for (int k : p.cells) { all[c.m.c[k]] = k; want.insert(k); }
  std::map<int,int> cm; std::set<int> sc;
  auto tuple = [&](Cell const & x) { IV t = vids(x); for (int & i : t) i = vm.at(i); return t; };
  { typedef vg::result_of::const_cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { IV t = tuple(*it); CHECK(all.count(t) && sc.insert(all[t]).second, "read-cell", what << ": cell " << show(t) << " is unknown or repeated; " << c.m.str()); cm[(*it).id().get()] = all[t]; } }
  CHECK(sc == want, "read-cells", what << ": " << sc.size() << " cells instead of " << want.size());
  mon().hit("cells-read", long(sc.size()));
  if (!plain) CHECK(sg.size() == c.parts.size(), "read-segments", what << ": " << sg.size() << " segments instead of " << c.parts.size());

  for (Part const & p : c.parts)
  {
    int sid = c.segmented ? p.id : 0; std::vector<Vertex const *> ve; std::vector<Cell const *> ce; IV vi, ci; std::set<int> pv = c.points_of(p), gv, gc;
    if (plain) { typedef vg::result_of::const_cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { ce.push_back(&*it); ci.push_back(cm[(*it).id().get()]); }
      typedef vg::result_of::const_vertex_range<Mesh>::type RV; RV rv(mesh); for (vg::result_of::iterator<RV>::type it = rv.begin(); it != rv.end(); ++it) { ve.push_back(&*it); vi.push_back(vm[(*it).id().get()]); } }
    else
    {
      CHECK(sg.find(sid) != sg.end(), "read-segment-id", what << ": no segment " << sid);
      Segment & s = sg[sid]; Segment const & cs = s;
      typedef vg::result_of::const_cell_range<Segment>::type R; R rg(cs); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { ce.push_back(&*it); int k = cm[(*it).id().get()]; ci.push_back(k); CHECK(gc.insert(k).second, "segment-cell-repeated", what); }
      typedef vg::result_of::const_vertex_range<Segment>::type RV; RV rv(cs); for (vg::result_of::iterator<RV>::type it = rv.begin(); it != rv.end(); ++it) { ve.push_back(&*it); int k = vm[(*it).id().get()]; vi.push_back(k); CHECK(gv.insert(k).second, "segment-vertex-repeated", what); }
      CHECK(gc == std::set<int>(p.cells.begin(), p.cells.end()), "segment-cells", what << ": segment " << sid << " has cells " << show(gc) << " instead of " << show(p.cells) << "; " << c.m.str());
      CHECK(gv == pv, "segment-vertices", what << ": segment " << sid << " has vertices " << show(gv) << " instead of " << show(pv));
    }
    if (import) continue;
    std::vector<std::string> nm[2][2];
    for (Q const & q : c.q) if (q.seg < 0 || (c.segmented && q.seg == sid)) nm[q.cell][q.vec].push_back(q.name);
    check_names(reader.scalar_vertex_data_names(sid), nm[0][0], what); check_names(reader.vector_vertex_data_names(sid), nm[0][1], what);
    check_names(reader.scalar_cell_data_names(sid), nm[1][0], what); check_names(reader.vector_cell_data_names(sid), nm[1][1], what);
    { std::vector<std::pair<std::size_t, std::string> > const * l[2][2] = {{&vg::io::get_scalar_data_on_vertices(reader), &vg::io::get_vector_data_on_vertices(reader)}, {&vg::io::get_scalar_data_on_cells(reader), &vg::io::get_vector_data_on_cells(reader)}};
      for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { std::vector<std::string> n; for (auto const & x : *l[a][b]) if (int(x.first) == sid) n.push_back(x.second); check_names(n, nm[a][b], what + " (list)"); } }
    for (Got const & g : got) if (g.q->seg < 0 || (c.segmented && g.q->seg == sid))
    {
      if (g.q->cell && g.q->vec) check_values(*g.q, *g.d3, ce, ci, what); if (g.q->cell && !g.q->vec) check_values(*g.q, *g.d1, ce, ci, what);
      if (!g.q->cell && g.q->vec) check_values(*g.q, *g.d3, ve, vi, what); if (!g.q->cell && !g.q->vec) check_values(*g.q, *g.d1, ve, vi, what);
      mon().hit(g.q->seg < 0 ? "read-registered-global" : "read-registered-segment");
    }
    for (Q const * q : unreg) if (q->seg < 0 || (c.segmented && q->seg == sid))
    {
      if (q->cell && q->vec) check_field(*q, reader.cell_vector_field(q->name, sid), ce, ci); if (q->cell && !q->vec) check_field(*q, reader.cell_scalar_field(q->name, sid), ce, ci);
      if (!q->cell && q->vec) check_field(*q, reader.vertex_vector_field(q->name, sid), ve, vi); if (!q->cell && !q->vec) check_field(*q, reader.vertex_scalar_field(q->name, sid), ve, vi);
      if (!plain) { Segment const & s = sg[sid]; if (q->cell && q->vec) check_field(*q, reader.cell_vector_field(q->name, s), ce, ci); if (q->cell && !q->vec) check_field(*q, reader.cell_scalar_field(q->name, s), ce, ci);
        if (!q->cell && q->vec) check_field(*q, reader.vertex_vector_field(q->name, s), ve, vi); if (!q->cell && !q->vec) check_field(*q, reader.vertex_scalar_field(q->name, s), ve, vi); mon().hit("queried-by-segment"); }
      mon().hit("read-queried");
    }
    for (Got const & g : got) if ((g.q->seg < 0 || (c.segmented && g.q->seg == sid)) && !(g.q->cell ? ce.empty() : ve.empty()))
    { bool val = g.q->cell ? (g.q->vec ? reader.cell_vector_field(g.q->name, sid).is_valid() : reader.cell_scalar_field(g.q->name, sid).is_valid()) : (g.q->vec ? reader.vertex_vector_field(g.q->name, sid).is_valid() : reader.vertex_scalar_field(g.q->name, sid).is_valid()); CHECK(!val, "registered-field-valid", what << ": quantity " << g.q->name << " was registered, its queried field is documented to be invalid"); }
  }
}

// Third-party style file: own formatting, array order, unused and repeated points.
inline std::string ws(Rng & r) { static const char * w[] = {" ", "\n", "  ", "\n   ", " \n", "\t", "\r\n"}; return w[r.below(7)]; }
inline std::string sep(Rng & r) { static const char * w[] = {" ", " ", " ", "  ", "\n", "\t", "\r\n  "}; return w[r.below(7)]; }   // between attributes
inline std::string foreign_vtu(Rng & r, Content const & c, Part const & p, std::set<int> const & extra)
{
  std::vector<int> pts; for (int i : c.points_of(p)) pts.push_back(i); pts.insert(pts.end(), extra.begin(), extra.end()); if (!pts.empty() && r.chance(0.2)) { pts.push_back(r.pick(pts)); mon().hit("foreign-repeated-point"); } r.shuffle(pts);
  IV cells = p.cells; r.shuffle(cells); std::ostringstream o; IV perm = vtk_order();
  std::map<int,IV> pos; for (std::size_t i = 0; i < pts.size(); ++i) pos[pts[i]].push_back(int(i));
  int comps = 3;
  o << "<?xml version=\"1.0\"?>" << ws(r) << "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << ws(r) << "<UnstructuredGrid>" << ws(r);
  if (r.chance(0.5)) o << "<Piece" << sep(r) << "NumberOfPoints=\"" << pts.size() << "\"" << sep(r) << "NumberOfCells=\"" << cells.size() << "\">"; else o << "<Piece NumberOfCells=\"" << cells.size() << "\" NumberOfPoints=\"" << pts.size() << "\" >";
  o << ws(r) << "<Points>" << ws(r) << "<DataArray" << sep(r) << "type=\"Float64\"" << sep(r) << (r.chance(0.5) ? "Name=\"Points\" " : "") << "NumberOfComponents=\"" << comps << "\" format=\"ascii\">" << ws(r);
  for (int i : pts) { for (int d = 0; d < 3; ++d) o << (d < c.m.gdim ? num(c.m.p[i][d]) : "0") << (r.chance(0.2) ? ws(r) : " "); o << (r.chance(0.5) ? "\n" : " "); }
  o << ws(r) << "</DataArray>" << ws(r) << "</Points>" << ws(r);
  auto data = [&](bool cell)
  {
    std::vector<Q const *> qs; for (Q const & q : c.q) if (q.cell == cell && (q.seg < 0 || (c.segmented && q.seg == p.id))) qs.push_back(&q); if (qs.empty()) return; r.shuffle(qs);
    o << (cell ? "<CellData" : "<PointData") << (r.chance(0.4) ? " Scalars=\"s\"" : "") << ">" << ws(r);
    for (Q const * q : qs)
    {
      std::string nc = q->vec ? " NumberOfComponents=\"3\"" : r.chance(0.5) ? "" : " NumberOfComponents=\"1\""; if (nc.empty()) mon().hit("foreign-no-components");
      if (r.chance(0.5)) o << "<DataArray" << sep(r) << "type=\"Float64\"" << sep(r) << "Name=\"" << q->name << "\"" << nc << " format=\"ascii\">"; else o << "<DataArray" << nc << " format=\"ascii\" Name=\"" << q->name << "\" RangeMin=\"0\" type=\"Float64\">";
      o << ws(r); for (int i : (cell ? cells : pts)) for (double x : q->val.at(i)) o << num(x) << ws(r); o << "</DataArray>" << ws(r);
    }
    o << (cell ? "</CellData>" : "</PointData>") << ws(r);
  };
  data(false); o << "<Cells>" << ws(r); IV order = {0, 1, 2}; if (r.chance(0.6)) { r.shuffle(order); mon().hit("foreign-array-order"); }
  for (int a : order)
  {
    o << "<DataArray type=\"Int32\" Name=\"" << (a == 0 ? "connectivity" : a == 1 ? "offsets" : "types") << "\" format=\"ascii\">" << ws(r);
    for (std::size_t i = 0; i < cells.size(); ++i) { if (a == 0) for (int k : perm) o << r.pick(pos[c.m.c[cells[i]][k]]) << ws(r); else if (a == 1) o << (i + 1) * perm.size() << ws(r); else o << VTK_TYPE << ws(r); }
    o << "</DataArray>" << ws(r);
  }
  o << "</Cells>" << ws(r); data(true); o << "</Piece>" << ws(r) << "</UnstructuredGrid>" << ws(r) << "</VTKFile>" << ws(r);
  return o.str();
}

inline Model distinct_model(Rng & r)
{
  GenOpt o; o.maxn = 3; o.isolated = r.chance(0.3) ? r.range(1, 3) : 0; o.wild = r.chance(0.3); o.seam = 0.2; Model m = gen_model(r, KIND, o);
  std::set<IV> k; std::vector<IV> c; for (IV const & x : m.c) if (k.insert(sorted(x)).second) c.push_back(x); m.c = c;
  double f = r.chance(0.5) ? 1.0 : std::pow(10.0, r.range(-12, 12)); for (P3 & p : m.p) for (double & x : p) x *= f;
  if (r.chance(0.3)) for (P3 & p : m.p) for (int d = 0; d < m.gdim; ++d) if (r.chance(0.3)) { double y = std::floor(p[d] / f * 4) / 4 * f; double old = p[d]; p[d] = y; bool clash = false; for (P3 & z : m.p) if (&z != &p && z == p) clash = true; if (clash) p[d] = old; }   // plain values, negative zero, exact zero
  if (PROP == 21 && mon().cur % 199 == 78) make_huge(m, r);
  return m;
}
inline void parts_of(Rng & r, Content & c, int fixed)
{
  c.parts.clear(); int n = c.segmented ? (fixed > 0 ? fixed : many(r, r.range(2, 4))) : 1; int id = wide_id(r, r.below(3)); bool overlap = r.chance(0.4);
  for (int i = 0; i < n; ++i) { Part p; p.id = c.segmented ? id : 0; id += r.chance(0.6) ? 1 : r.range(1, 7); c.parts.push_back(p); }
  for (int k = 0; k < int(c.m.c.size()); ++k)
  {
    if (!c.segmented) { c.parts[0].cells.push_back(k); continue; }
    if (r.chance(0.1)) { mon().hit("cell-without-segment"); continue; }
    int p = r.below(n); c.parts[p].cells.push_back(k); if (overlap && r.chance(0.3)) { int q = r.below(n); if (q != p) { c.parts[q].cells.push_back(k); mon().hit("cell-in-two-segments"); } }
  }
  for (Part const & p : c.parts) if (p.cells.empty()) mon().hit("empty-part");
}

// Every vertex of a cell exists, whatever was read.
inline void walk(Mesh & mesh, Segmentation & sg)
{
  std::set<int> ids; { typedef vg::result_of::vertex_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) { ids.insert((*it).id().get()); to_p3(vg::point(mesh, *it)); } }
  { typedef vg::result_of::cell_range<Mesh>::type R; R rg(mesh); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "cell refers to vertex " << v); }
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s) { typedef vg::result_of::cell_range<Segment>::type R; R rg(*s); for (vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) for (int v : vids(*it)) CHECK(ids.count(v), "dangling-vertex", "segment cell refers to vertex " << v); }
}
// Position and length of the k-th number of a data array; tag: text that opens it
inline bool number_at(std::string const & t, std::size_t from, int k, std::size_t & b, std::size_t & e)
{
  b = t.find('>', from) + 1; for (;; --k) { while (b < t.size() && isspace((unsigned char)t[b])) ++b; if (b >= t.size() || t[b] == '<') return false; e = b; while (e < t.size() && !isspace((unsigned char)t[e]) && t[e] != '<') ++e; if (k == 0) return true; b = e; }
}
inline void foreign_content(Rng & r, Content & c)
{
  c.q.clear(); c.m = distinct_model(r); c.segmented = r.chance(0.5); parts_of(r, c, 0); new_quantities(r, c);
  for (Q & q : c.q) for (std::size_t i = 0; i < (q.cell ? c.m.c.size() : c.m.p.size()); ++i) { VD v; for (int k = 0; k < (q.vec ? 3 : 1); ++k) v.push_back(a_value(r)); q.val[int(i)] = v; }
}
inline std::string pvd(Rng & r, Content const & c) { std::ostringstream o; o << "<?xml version=\"1.0\"?>\n<VTKFile type=\"Collection\" version=\"0.1\">" << ws(r) << "<Collection>" << ws(r); for (Part const & p : c.parts) o << "<DataSet" << sep(r) << "part=\"" << p.id << "\"" << sep(r) << "file=\"piece" << p.id << ".vtu\"/>" << ws(r); o << "</Collection>" << ws(r) << "</VTKFile>\n"; return o.str(); }
inline void damage_case(Rng & r)
{
  Scratch sd; Reader reader; int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round)
  {
    sd.wipe(); mkdir(sd.dir.c_str(), 0755); mkdir((sd.dir + "/sub").c_str(), 0755);
    Content c; foreign_content(r, c); std::string main = sd.path(c.segmented ? "in.pvd" : "in.vtu"), what; bool must = false;
    int hurt = c.segmented ? r.below(int(c.parts.size()) + 1) : 0;   // the file that gets damaged; the last index is the main file
    if (c.segmented && hurt == int(c.parts.size()) && r.chance(0.5)) hurt = 0;
    std::vector<std::string> names, texts;
    for (Part const & p : c.parts) { names.push_back(c.segmented ? sd.path("piece" + std::to_string(p.id) + ".vtu") : main); texts.push_back(foreign_vtu(r, c, p, std::set<int>())); }
    if (c.segmented) { names.push_back(main); texts.push_back(pvd(r, c)); }
    std::string & t = texts[hurt]; bool is_main = c.segmented && hurt == int(c.parts.size()); std::size_t b, e; Part const & part = c.parts[is_main ? 0 : hurt]; int np = int(c.points_of(part).size()), nc = int(part.cells.size()), nv = int(vtk_order().size());
    auto array = [&](char const * n) { std::size_t i = t.find(std::string("Name=\"") + n + "\""); return i; };
    switch (r.below(9))
    {
      case 0: what = "missing file"; must = true; if (c.segmented && !is_main) { if (r.chance(0.5)) { main = sd.path("absent.pvd"); } else { names[hurt] = sd.path("elsewhere.vtu"); what = "missing piece"; mon().hit("missing-piece"); } } else main = sd.path(r.chance(0.5) ? "absent.vtu" : "nowhere/absent.pvd"); mon().hit("missing-file"); break;
      case 1: { static const char * x[] = {"in.txt", "in", "invtu", "in.vt", "vtu", "a", ""}; std::string f = x[r.below(7)]; for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == main) names[i] = f.empty() ? main : sd.path(f); main = f.empty() ? (r.chance(0.5) ? std::string() : std::string("x")) : sd.path(f); what = "file name " + f; must = true; mon().hit("bad-extension"); break; }
      case 2: { std::size_t end = is_main ? t.find("</Collection>") : t.find("</Piece>"); t = t.substr(0, r.below(int(end))); must = true; what = "truncated"; mon().hit("truncated"); break; }
      case 3: if (!is_main && nc > 0) { if (number_at(t, array("connectivity"), r.below(nc * nv), b, e)) { std::string x = r.chance(0.5) ? std::to_string(np + 1 + r.below(1000)) : r.chance(0.5) ? "-1" : "4294967296"; t.replace(b, e - b, x); what = "connectivity " + x; must = true; mon().hit("dangling-reference"); } break; } // fall through
      case 4: if (!is_main && nc > 0) { static const char * a[] = {"connectivity", "offsets"}; if (number_at(t, array(a[r.below(2)]), r.below(nc), b, e)) { t.replace(b, e - b, r.chance(0.5) ? "abc" : "?"); what = "no number"; must = true; mon().hit("garbage-number"); } break; } // fall through
      case 5: if (!is_main && np > 0) { if (number_at(t, t.find("<DataArray", t.find("<Points>")), r.below(np * 3), b, e)) { t.replace(b, e - b, "abc"); what = "no coordinate"; must = true; mon().hit("garbage-number"); } break; } // fall through
      case 6: if (!is_main && nc > 0) { std::size_t i = t.find("NumberOfCells=\"") + 15, j = t.find('"', i); t.replace(i, j - i, std::to_string(nc + r.range(1, 2000000000))); what = "too many cells announced"; must = true; mon().hit("count-too-large"); break; } // fall through
      default: t = mutate(r, t, what); mon().hit("random-edit");
    }
    for (std::size_t i = 0; i < names.size(); ++i) spit(names[i], texts[i]);
    bool thrown = false; std::string msg;
    { Mesh mesh; Segmentation sg(mesh); try { if (r.chance(0.2)) { int rc = vg::io::import_vtk(mesh, sg, main); CHECK(rc == EXIT_SUCCESS, "import-result", rc); } else reader(mesh, sg, main); } catch (Violation const &) { throw; } catch (std::exception const & x) { thrown = true; msg = x.what(); } walk(mesh, sg); }
    CHECK(thrown || !must, "damage-accepted", what << " was not reported; file: " << t.substr(0, 3000)); CHECK(!thrown || !msg.empty(), "empty-message", what);
    mon().hit(thrown ? "reported" : "accepted"); mon().hit("files"); mon().state(c.m.hash()); mon().sample(what + ": " + c.m.str());
    if (r.chance(0.3)) { Content d; foreign_content(r, d); Reader fresh; bool reuse = r.chance(0.5); std::string f = sd.path(d.segmented ? "valid.pvd" : "valid.vtu"); for (Part const & p : d.parts) spit(d.segmented ? sd.path("piece" + std::to_string(p.id) + ".vtu") : f, foreign_vtu(r, d, p, std::set<int>())); if (d.segmented) spit(f, pvd(r, d)); read_back(r, d, reuse ? reader : fresh, f, std::set<int>(), "valid file after a damaged one"); mon().hit("valid-file-after-damage"); }
  }
}

void run_case(Rng & r, long)
{
  if (mon().prop == "C24") { damage_case(r); return; }
  Scratch sd; Writer writer; Reader reader; int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round)
  {
    Content c; c.m = distinct_model(r); c.segmented = r.chance(0.6); parts_of(r, c, 0); new_quantities(r, c); std::string base = r.chance(0.2) ? "a.b" : "out"; std::set<int> extra;
    if (r.chance(0.6))
    {
      Mesh mesh; Segmentation sg(mesh); std::vector<VH> vh; std::vector<CH> ch; std::vector<int> vid, cid; int next = 0;
      for (P3 const & q : c.m.p) { if (r.chance(0.2)) { next += id_gap(r); mon().hit("id-gaps"); vh.push_back(vg::make_vertex_with_id(mesh, Vertex::id_type(next), mkpt(q))); } else vh.push_back(vg::make_vertex(mesh, mkpt(q))); next = int(vg::dereference_handle(mesh, vh.back()).id().get()) + 1; vid.push_back(next - 1); }
      next = 0;
      for (IV const & x : c.m.c) { if (r.chance(0.15)) { std::vector<VH> h; for (int i : x) h.push_back(vh[i]); next += id_gap(r); ch.push_back(vg::make_cell_with_id(mesh, h.begin(), h.end(), Cell::id_type(next))); } else ch.push_back(add_cell(mesh, vh, x)); next = int(vg::dereference_handle(mesh, ch.back()).id().get()) + 1; cid.push_back(next - 1); }
      if (c.segmented) for (Part const & p : c.parts) { Segment & s = sg.get_make_segment(p.id); IV k = p.cells; r.shuffle(k); for (int i : k) vg::add(s, vg::dereference_handle(mesh, ch[i])); }
      if (r.chance(0.15))
      {
        std::string nf = sd.path("nowhere/" + base); bool both = r.chance(0.5); auto fails = [&](std::string const & f) { try { if (c.segmented || both) writer(mesh, sg, f); else writer(mesh, f); return false; } catch (std::exception const &) { return true; } };
        CHECK(fails(nf), "unwritable-accepted", "writing into a missing directory was not reported"); mon().hit("unwritable-file");
        if (c.segmented && c.parts.size() > 1) { std::string b = sd.path(base) + "_" + std::to_string(c.parts[r.below(int(c.parts.size()))].id) + ".vtu"; remove(b.c_str()); mkdir(b.c_str(), 0755); bool x = fails(sd.path(base)); rmdir(b.c_str()); CHECK(x, "unwritable-accepted", "a segment file that cannot be created was not reported"); mon().hit("unwritable-segment-file"); }
      }
      Store st; bool exportf = c.q.empty() && r.chance(0.5);
      for (Q & q : c.q)
        for (int again = r.chance(0.1) ? 2 : 1; again > 0; --again)   // registering a name again replaces the data
        { if (q.cell) { if (q.vec) offer<Cell, VD>(writer, sg, q, st, cid, r); else offer<Cell, double>(writer, sg, q, st, cid, r); } else { if (q.vec) offer<Vertex, VD>(writer, sg, q, st, vid, r); else offer<Vertex, double>(writer, sg, q, st, vid, r); } if (again > 1) mon().hit("re-registered"); }
      std::string f = sd.path(base);
      if (c.segmented) { if (exportf) vg::io::export_vtk(mesh, sg, f); else writer(mesh, sg, f); }
      else if (r.chance(0.3)) { if (exportf) vg::io::export_vtk(mesh, sg, f); else writer(mesh, sg, f); }   // a segmentation without segments
      else { if (exportf) vg::io::export_vtk(mesh, f); else writer(mesh, f); }
      if (exportf) mon().hit("export_vtk");
      if (c.segmented)
      {
        std::vector<Tag> t = parse_xml(slurp(f + "_main.pvd")); std::set<int> ids;
        for (Tag const & g : t) if (g.name == "DataSet") { int id = atoi(g.attr.at("part").c_str()); ids.insert(id); CHECK(g.attr.at("file") == base + "_" + std::to_string(id) + ".vtu", "pvd-file", "part " << id << " names " << g.attr.at("file")); }
        std::set<int> w; for (Part const & p : c.parts) { w.insert(p.id); check_file(c, p, slurp(f + "_" + std::to_string(p.id) + ".vtu"), "written segment file"); }
        CHECK(ids == w, "pvd-parts", "main file lists " << show(ids) << " instead of " << show(w)); mon().hit("wrote-segmented");
      }
      else { check_file(c, c.parts[0], slurp(f + ".vtu"), "written file"); mon().hit("wrote-plain"); }
      read_back(r, c, reader, f + (c.segmented ? "_main.pvd" : ".vtu"), extra, "written and read");
    }
    else
    {
      if (c.segmented && r.chance(0.2)) parts_of(r, c, 1);
      for (Q & q : c.q) { if (q.seg >= 0) { bool ok = false; for (Part const & p : c.parts) ok = ok || p.id == q.seg; if (!ok) q.seg = c.parts[0].id; } }
      { std::set<std::string> seen; std::vector<Q> keep; for (Q const & q : c.q) { bool clash = false; for (Q const & k : keep) if (k.cell == q.cell && k.name == q.name && (k.seg == q.seg || k.seg < 0 || q.seg < 0)) clash = true; if (!clash) keep.push_back(q); } c.q = keep; }
      for (Q & q : c.q) for (std::size_t i = 0; i < (q.cell ? c.m.c.size() : c.m.p.size()); ++i) { VD v; for (int k = 0; k < (q.vec ? 3 : 1); ++k) v.push_back(a_value(r)); q.val[int(i)] = v; }
      std::set<int> used; for (Part const & p : c.parts) { std::set<int> s = c.points_of(p); used.insert(s.begin(), s.end()); }
      std::string f = sd.path("foreign"); bool sub = r.chance(0.3);
      if (!c.segmented) { for (int i = 0; i < int(c.m.p.size()); ++i) if (!used.count(i) && r.chance(0.7)) extra.insert(i); spit(f + ".vtu", foreign_vtu(r, c, c.parts[0], extra)); if (!extra.empty()) mon().hit("foreign-unused-points"); }
      else
      {
        std::ostringstream o; o << "<?xml version=\"1.0\"?>\n<VTKFile type=\"Collection\" version=\"0.1\">" << ws(r) << "<Collection>" << ws(r); std::vector<Part> ps = c.parts; r.shuffle(ps);
        for (Part const & p : ps)
        {
          std::string n = std::string(sub ? "sub/" : "") + "piece" + std::to_string(p.id) + ".vtu"; std::set<int> ex; for (int i = 0; i < int(c.m.p.size()); ++i) if (!used.count(i) && r.chance(0.3)) ex.insert(i);
          spit(sd.path(n), foreign_vtu(r, c, p, ex)); extra.insert(ex.begin(), ex.end());
          if (r.chance(0.5)) o << "<DataSet" << sep(r) << "part=\"" << p.id << "\"" << sep(r) << "file=\"" << n << "\"/>"; else o << "<DataSet timestep=\"0\" group=\"\" file=\"" << n << "\" part=\"" << p.id << "\" name=\"S\" />"; o << ws(r);
        }
        o << "</Collection>" << ws(r) << "</VTKFile>\n"; spit(f + ".pvd", o.str()); if (sub) mon().hit("foreign-subdirectory");
      }
      mon().hit(c.segmented ? "foreign-pvd" : "foreign-vtu");
      read_back(r, c, reader, f + (c.segmented ? ".pvd" : ".vtu"), extra, "third-party file");
    }
    mon().state(mix(c.m.hash(), c.q.size())); mon().sample(c.m.str());
    if (round) mon().hit("writer-and-reader-reused");
  }
}

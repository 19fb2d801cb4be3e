// C01 canonical topology / C02 identity and lookup / C03 reference orientation.
#include "kinds.hpp"
#ifndef PROP
#error PROP
#endif

struct World
{
  Mesh mesh;
  Model m;                         // vertices p and *added* cells c, in creation order
  Built b;
  std::map<int, std::set<IV> > extra;   // explicitly created lower-dimensional elements, by dimension, sorted vertex tuples
  std::map<int, int> id2idx;            // library vertex id -> model vertex index
  std::vector<int> cell_ids;
};

inline IV to_idx(World const & w, IV const & ids)
{
  IV r;
  for (int i : ids) { std::map<int,int>::const_iterator it = w.id2idx.find(i); CHECK(it != w.id2idx.end(), "dangling-vertex-id", "vertex id " << i << " is not one the mesh handed out"); r.push_back(it->second); }
  return r;
}

template<class Tag> std::set<IV> expected_keys(World const & w)
{
  const int d = Tag::dim;
  std::set<IV> s = w.m.keys(d);
  std::map<int, std::set<IV> >::const_iterator it = w.extra.find(d);
  if (it != w.extra.end()) s.insert(it->second.begin(), it->second.end());
  return s;
}

// ---------------------------------------------------------------- C01
template<class Tag> void check_level(World & w)
{
  typedef typename vg::result_of::element<Mesh, Tag>::type E;
  typedef typename vg::result_of::const_element_range<Mesh, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type It;
  typedef typename vg::result_of::element_range<Mesh, Tag>::type NR;
  typedef typename vg::result_of::iterator<NR>::type NIt;
  const int d = Tag::dim;
  std::set<IV> exp = expected_keys<Tag>(w);
  if (d == 0) { exp.clear(); for (int i = 0; i < int(w.m.p.size()); ++i) exp.insert(IV{i}); }
  Mesh const & cm = w.mesh;
  R r(cm);
  std::map<IV, E const *> at;
  for (It it = r.begin(); it != r.end(); ++it)
  {
    IV k = sorted(to_idx(w, vids(*it)));
    CHECK(at.insert(std::make_pair(k, &*it)).second, "duplicate-element", "dim " << d << " element stored twice for vertices " << show(k) << " | " << w.m.str());
  }
  CHECK(at.size() == r.size(), "range-size", "dim " << d << " size() " << r.size() << " but iterated " << at.size());
  for (typename std::map<IV, E const *>::iterator it = at.begin(); it != at.end(); ++it)
    CHECK(exp.count(it->first), "spurious-element", "dim " << d << " element " << show(it->first) << " is implied by no cell | " << w.m.str());
  CHECK(at.size() == exp.size(), "missing-element", "dim " << d << " mesh has " << at.size() << " expected " << exp.size() << " | " << w.m.str());
  NR nr(w.mesh); std::size_t cnt = 0;
  for (NIt it = nr.begin(); it != nr.end(); ++it, ++cnt)
  { IV k = sorted(to_idx(w, vids(*it))); CHECK(at.count(k) && at[k] == &*it, "const-nonconst-disagree", "dim " << d); }
  CHECK(cnt == at.size(), "const-nonconst-disagree", "dim " << d << " count");
  // every cell refers to exactly the stored boundary elements, in reference order
  for (std::size_t i = 0; i < w.b.c.size(); ++i)
  {
    Cell const & c = vg::dereference_handle(cm, w.b.c[i]);
    typedef typename vg::result_of::const_element_range<Cell, Tag>::type BR;
    typedef typename vg::result_of::iterator<BR>::type BIt;
    std::vector<IV> ref = w.m.boundary(int(i), d);
    BR br(c);
    CHECK(br.size() == ref.size(), "boundary-count", "cell " << i << " dim " << d << " has " << br.size() << " boundary elements, expected " << ref.size());
    std::size_t k = 0;
    for (BIt bit = br.begin(); bit != br.end(); ++bit, ++k)
    {
      CHECK(k < ref.size(), "boundary-count", "cell " << i << " iterates too many dim " << d << " elements");
      IV key = sorted(to_idx(w, vids(*bit)));
      CHECK(key == sorted(ref[k]), "boundary-order", "cell " << show(w.m.c[i]) << " dim " << d << " element " << k << " is " << show(key) << " expected " << show(sorted(ref[k])));
      CHECK(at.find(key) != at.end() && at[key] == &*bit, "boundary-not-shared", "cell " << i << " dim " << d << " element " << k << " is not the mesh's own element for " << show(key));
    }
    CHECK(k == ref.size(), "boundary-count", "cell " << i << " dim " << d);
  }
  mon().hit(std::string("elements-checked-dim") + char('0' + d), long(at.size()));
}

#if KIND >= 9
// faces of 3d cells: their own edges are the mesh's edges, and exactly the right ones
inline void check_nested(World & w)
{
  typedef vg::result_of::const_element_range<Mesh, FacetTag>::type FR;
  typedef vg::result_of::element<Mesh, FacetTag>::type F;
  typedef vg::result_of::element<Mesh, vg::line_tag>::type L;
  Mesh const & cm = w.mesh;
  std::map<IV, L const *> lines;
  typedef vg::result_of::const_line_range<Mesh>::type LR;
  LR lr(cm);
  for (vg::result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) lines[sorted(vids(*it))] = &*it;
  FR fr(cm);
  for (vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    IV v = vids(*it);
    std::vector<IV> ref = ref_boundary(KIND == TET3 ? TRI3 : QUAD3, 1, int(v.size()));
    typedef vg::result_of::const_line_range<F>::type BR; BR br(*it);
    CHECK(br.size() == ref.size(), "face-edge-count", "face " << show(v) << " has " << br.size() << " edges");
    std::size_t k = 0;
    for (vg::result_of::iterator<BR>::type b = br.begin(); b != br.end(); ++b, ++k)
    {
      IV key = sorted(vids(*b));
      CHECK(key == sorted(sub(v, ref[k])), "face-edge-order", "face " << show(v) << " edge " << k << " is " << show(key));
      CHECK(lines.count(key) && lines[key] == &*b, "face-edge-not-shared", "face " << show(v) << " edge " << show(key));
    }
  }
}
#else
inline void check_nested(World &) {}
#endif

inline void check_cells(World & w)
{
  Mesh const & cm = w.mesh;
  typedef vg::result_of::const_cell_range<Mesh>::type R; R r(cm);
  CHECK(r.size() == w.m.c.size(), "cell-count", "mesh has " << r.size() << " cells, " << w.m.c.size() << " were added");
  std::multiset<IV> got, want;
  for (vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) got.insert(to_idx(w, vids(*it)));
  for (IV const & c : w.m.c) want.insert(c);
  CHECK(got == want, "cells-differ", "cells in the mesh differ from the cells added | " << w.m.str());
  for (std::size_t i = 0; i < w.b.c.size(); ++i)
    CHECK(to_idx(w, vids(vg::dereference_handle(cm, w.b.c[i]))) == w.m.c[i], "cell-vertices", "handle of cell " << i << " yields " << show(to_idx(w, vids(vg::dereference_handle(cm, w.b.c[i])))) << " expected " << show(w.m.c[i]));
  for (std::size_t i = 0; i < w.b.v.size(); ++i)
  {
    Vertex const & v = vg::dereference_handle(cm, w.b.v[i]);
    CHECK(to_idx(w, IV{int(v.id().get())})[0] == int(i), "vertex-handle", "vertex handle " << i);
    P3 q = to_p3(vg::point(cm, v));
    for (int d = 0; d < w.m.gdim; ++d) CHECK(q[d] == w.m.p[i][d], "vertex-point", "vertex " << i << " coordinate " << d << " is " << q[d] << " expected " << w.m.p[i][d]);
  }
}

// add a vertex
inline void op_vertex(World & w, P3 const & q)
{
  int i = int(w.m.p.size());
  w.b.v.push_back(vg::make_vertex(w.mesh, mkpt(q)));
  w.m.p.push_back(q);
  int id = int(vg::dereference_handle(w.mesh, w.b.v.back()).id().get());
  CHECK(!w.id2idx.count(id), "vertex-id-reused", "new vertex got id " << id << " which vertex " << w.id2idx[id] << " already has");
  w.id2idx[id] = i;
}
template<class MS> void op_cell(World & w, MS & ms, IV const & c)
{
  CH h = add_cell(ms, w.b.v, c);
  w.b.c.push_back(h); w.m.c.push_back(c);
}

#if KIND > 2
template<class Tag> typename vg::result_of::handle<Mesh, Tag>::type mk_elem(Mesh & mesh, std::vector<VH> const & v, IV const & c)
{ std::vector<VH> h; for (int x : c) h.push_back(v[x]); return vg::make_element<Tag>(mesh, h.begin(), h.end()); }
#endif

inline void op_extra(World & w, Rng & r)
{
#if KIND > 2
  int nv = int(w.m.p.size());
  if (nv < 4) return;
  if (w.m.c.empty() || r.chance(0.5))
  { // arbitrary line
    int a = r.below(nv), c = r.below(nv); if (a == c) return;
    std::size_t before = vg::lines(w.mesh).size(); bool known = expected_keys<vg::line_tag>(w).count(sorted(IV{a, c})) > 0;
    vg::result_of::line_handle<Mesh>::type h = r.chance(0.5) ? vg::make_line(w.mesh, w.b.v[a], w.b.v[c]) : mk_elem<vg::line_tag>(w.mesh, w.b.v, IV{a, c});
    CHECK(sorted(to_idx(w, vids(vg::dereference_handle(w.mesh, h)))) == sorted(IV{a, c}), "handle-of-created", "line handle returned for " << a << "," << c << " refers to another element");
    CHECK(vg::lines(w.mesh).size() == before + (known ? 0 : 1), "create-existing", "creating line " << a << "," << c << (known ? " again added an element" : " did not add one"));
    w.extra[1].insert(sorted(IV{a, c}));
    mon().hit(known ? "explicit-line-existing" : "explicit-line-new");
  }
#if KIND >= 9
  else
  { // facet of an existing cell with permuted vertices, or (tet) an arbitrary triangle
    IV f;
    if (KIND == TET3 && r.chance(0.4)) { IV all; for (int i = 0; i < nv; ++i) all.push_back(i); r.shuffle(all); all.resize(3); f = all; }
    else { std::vector<IV> fs = w.m.boundary(r.below(int(w.m.c.size())), 2); f = fs[r.below(int(fs.size()))];
           if (KIND == TET3) r.shuffle(f); else { IV s = cube_symmetry(r, 2), g; for (int i : s) g.push_back(f[i]); f = g; } }
    bool known = expected_keys<FacetTag>(w).count(sorted(f)) > 0; std::size_t before = vg::elements<FacetTag>(w.mesh).size();
    vg::result_of::handle<Mesh, FacetTag>::type h = mk_elem<FacetTag>(w.mesh, w.b.v, f);
    CHECK(sorted(to_idx(w, vids(vg::dereference_handle(w.mesh, h)))) == sorted(f), "handle-of-created", "facet handle returned for " << show(f) << " refers to another element");
    CHECK(vg::elements<FacetTag>(w.mesh).size() == before + (known ? 0 : 1), "create-existing", "creating facet " << show(f));
    w.extra[2].insert(sorted(f));
    for (IV const & e : ref_boundary(KIND == TET3 ? TRI3 : QUAD3, 1, int(f.size()))) w.extra[1].insert(sorted(sub(f, e)));
    mon().hit(known ? "explicit-facet-existing" : "explicit-facet-new");
  }
#endif
#else
  (void)w; (void)r;
#endif
}

inline void full_check(World & w) { check_cells(w); FOR_ALL_BELOW_CELL(check_level, w); check_nested(w); }

inline Model pick_model(Rng & r)
{
  GenOpt o; o.seam = 0.4; o.wild = r.chance(0.4); o.drop = r.chance(0.5) ? 0 : r.real(0, 0.6); o.isolated = r.below(3); o.maxn = r.chance(0.1) ? 6 : 3;
  return gen_model(r, KIND, o);
}

#if PROP == 1
void run_case(Rng & r, long)
{
  Model t = pick_model(r);
  World w; w.m.kind = t.kind; w.m.gdim = t.gdim; w.m.tdim = t.tdim;
  Segmentation seg(w.mesh);
  std::vector<Segment> segs; int ns = many(r, r.below(3)); for (int i = 0; i < ns; ++i) segs.push_back(seg.make_segment());
  bool interleave = r.chance(0.5);
  if (!interleave) for (P3 const & q : t.p) op_vertex(w, q);
  std::size_t nextv = interleave ? 0 : t.p.size(), nextc = 0;
  int every = r.chance(0.2) ? 1 : 7;
  int step = 0;
  while (nextc < t.c.size() || nextv < t.p.size())
  {
    int need = -1; if (nextc < t.c.size()) need = *std::max_element(t.c[nextc].begin(), t.c[nextc].end());
    if (nextv < t.p.size() && (nextc >= t.c.size() || need >= int(nextv) || r.chance(0.1))) { op_vertex(w, t.p[nextv++]); continue; }
    double x = r.u();
    if (x < 0.1) { op_extra(w, r); }
    else if (x < 0.15 && !w.m.c.empty())
    { // the same cell again
      IV c = w.m.c[r.below(int(w.m.c.size()))];
      if (segs.empty()) op_cell(w, w.mesh, c); else op_cell(w, segs[r.below(int(segs.size()))], c);
      mon().hit("cell-added-twice");
    }
    else
    {
      if (!segs.empty() && r.chance(0.5)) { op_cell(w, segs[r.below(int(segs.size()))], t.c[nextc++]); mon().hit("cell-via-segment"); }
      else { op_cell(w, w.mesh, t.c[nextc++]); mon().hit("cell-via-mesh"); }
    }
    if (++step % every == 0) full_check(w);
  }
  full_check(w);
  if (w.m.c.size() >= 2) mon().state(w.m.topo_hash());
  if (!w.m.manifold()) mon().hit("non-manifold-complex");
  mon().sample(w.m.str());
}
#endif

#if PROP == 3
template<class Tag> void check_orient(World & w)
{
  const int d = Tag::dim; if (d == 0) return;
  Mesh const & cm = w.mesh;
  for (std::size_t i = 0; i < w.b.c.size(); ++i)
  {
    Cell & c = vg::dereference_handle(w.mesh, w.b.c[i]);
    Cell const & cc = vg::dereference_handle(cm, w.b.c[i]);
    std::vector<IV> ref = w.m.boundary(int(i), d);
    typedef typename vg::result_of::element_range<Cell, Tag>::type BR;
    typedef typename vg::result_of::const_element_range<Cell, Tag>::type CBR;
    BR br(c); CBR cbr(cc);
    std::size_t k = 0;
    CHECK(br.size() == ref.size() && cbr.size() == ref.size(), "boundary-count", "cell " << i << " dim " << d << " has " << br.size());
    for (typename vg::result_of::iterator<BR>::type it = br.begin(); it != br.end(); ++it, ++k)
    {
      IV got; for (std::size_t j = 0; j < ref[k].size(); ++j) got.push_back(int(vg::dereference_handle(w.mesh, vg::local_vertex(c, it.handle(), j)).id().get()));
      CHECK(to_idx(w, got) == ref[k], "local-orientation", "cell " << show(w.m.c[i]) << " boundary " << k << " dim " << d << " local vertices " << show(to_idx(w, got)) << " expected " << show(ref[k]));
      if (to_idx(w, vids(*it)) != ref[k]) mon().hit("stored-order-differs-from-local");
      mon().hit("oriented-boundary-elements");
    }
    k = 0;
    for (typename vg::result_of::iterator<BR>::type it = br.begin(); it != br.end(); ++it, ++k)
    {
      IV got; for (std::size_t j = 0; j < ref[k].size(); ++j) got.push_back(int(vg::dereference_handle(cm, vg::local_vertex(cc, it.handle(), j)).id().get()));
      CHECK(to_idx(w, got) == ref[k], "local-orientation-const", "cell " << show(w.m.c[i]) << " boundary " << k << " dim " << d << " local vertices " << show(to_idx(w, got)) << " expected " << show(ref[k]));
    }
  }
}
#if KIND >= 9
inline void check_orient_faces(World & w)
{
  typedef vg::result_of::element<Mesh, FacetTag>::type F;
  typedef vg::result_of::element_range<Mesh, FacetTag>::type FR; FR fr(w.mesh);
  for (vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    IV v = vids(*it); std::vector<IV> ref = ref_boundary(KIND == TET3 ? TRI3 : QUAD3, 1, int(v.size()));
    typedef vg::result_of::line_range<F>::type BR; BR br(*it); std::size_t k = 0;
    for (vg::result_of::iterator<BR>::type b = br.begin(); b != br.end(); ++b, ++k)
    {
      IV got; for (std::size_t j = 0; j < 2; ++j) got.push_back(int(vg::dereference_handle(w.mesh, vg::local_vertex(*it, b.handle(), j)).id().get()));
      CHECK(got == sub(v, ref[k]), "face-local-orientation", "face " << show(v) << " edge " << k << " local " << show(got));
    }
  }
}
#endif
void run_case(Rng & r, long)
{
  GenOpt o; o.seam = 0.4; o.wild = r.chance(0.3); o.drop = r.chance(0.5) ? 0 : r.real(0, 0.6); o.maxn = r.chance(0.1) ? 6 : 3;
  Model t = gen_model(r, KIND, o);
  World w; w.m.kind = t.kind; w.m.gdim = t.gdim; w.m.tdim = t.tdim;
  for (P3 const & q : t.p) op_vertex(w, q);
  Segmentation seg(w.mesh); Segment s = seg.make_segment();
  for (IV const & c : t.c)
  {
    if (r.chance(0.1)) op_extra(w, r);
    if (r.chance(0.3)) op_cell(w, s, c); else op_cell(w, w.mesh, c);
  }
  check_cells(w);
  FOR_ALL_BELOW_CELL(check_level, w);
  check_nested(w);
  FOR_LOWER(check_orient, w);
#if KIND >= 9
  check_orient_faces(w);
#endif
  if (w.m.c.size() >= 1) mon().state(w.m.topo_hash());
  mon().sample(w.m.str());
}
#endif

#if PROP == 2
// identity bookkeeping kept outside the library
struct Ident
{
  std::map<int, std::map<IV, int> > id_of;      // dim -> key -> id
};
template<bool B> struct FB { template<class R, class E> static void run(R &, std::vector<E *> &) {} };
template<> struct FB<true> { template<class R, class E> static void run(R & rr, std::vector<E *> & o) { if (!o.empty()) CHECK(&rr.front() == o.front() && &rr.back() == o.back(), "front-back", ""); } };
template<class Tag, class R, class E> void front_back(R & rr, std::vector<E *> & o) { FB<(Tag::dim == 0 || Tag::dim == CellTag::dim)>::run(rr, o); }
template<class Tag> void check_ident(World & w, Ident & id, Rng & r)
{
  typedef typename vg::result_of::element<Mesh, Tag>::type E;
  typedef typename vg::result_of::element_range<Mesh, Tag>::type R;
  typedef typename vg::result_of::const_element_range<Mesh, Tag>::type CR;
  typedef typename vg::result_of::iterator<R>::type It;
  typedef typename vg::result_of::iterator<CR>::type CIt;
  typedef typename vg::result_of::id<E>::type ID;
  const int d = Tag::dim; const bool is_cell = d == kind_tdim(KIND);
  Mesh const & cm = w.mesh;
  R rr(w.mesh); CR cr(cm);
  CHECK(rr.size() == cr.size(), "size-const", "dim " << d);
  CHECK(rr.empty() == (rr.size() == 0), "empty", "dim " << d);
  std::set<int> seen; std::vector<E *> order;
  int mx = -1;
  for (It it = rr.begin(); it != rr.end(); ++it)
  {
    int i = int((*it).id().get()); mx = std::max(mx, i);
    CHECK(seen.insert(i).second, "duplicate-id", "dim " << d << " id " << i << " used by two elements | " << w.m.str());
    order.push_back(&*it);
    // identity is stable
    if (!is_cell) { IV k = sorted(vids(*it)); std::map<IV,int> & t = id.id_of[d]; if (t.count(k)) CHECK(t[k] == i, "id-changed", "dim " << d << " element " << show(k) << " had id " << t[k] << " now " << i); t[k] = i; }
    // handle <-> element
    CHECK(&vg::dereference_handle(w.mesh, it.handle()) == &*it, "iterator-handle", "dim " << d);
    CHECK(&vg::dereference_handle(w.mesh, vg::handle(w.mesh, *it)) == &*it, "handle-of-element", "dim " << d << " id " << i);
    CHECK(&vg::dereference_handle(cm, vg::handle(cm, const_cast<E const &>(*it))) == &*it, "const-handle-of-element", "dim " << d << " id " << i);
    CHECK(vg::handle(w.mesh, *it) == it.handle(), "handle-equality", "dim " << d << " id " << i);
  }
  CHECK(order.size() == rr.size(), "range-size", "dim " << d << " iterated " << order.size() << " size() " << rr.size());
  if (!order.empty()) CHECK(int(vg::id_upper_bound<E>(w.mesh).get()) > mx, "id-upper-bound", "dim " << d << " bound " << vg::id_upper_bound<E>(w.mesh).get() << " max id " << mx);
  // const iteration is the same sequence; index access, front/back
  std::size_t k = 0;
  for (CIt it = cr.begin(); it != cr.end(); ++it, ++k) CHECK(k < order.size() && &*it == order[k], "const-order", "dim " << d << " position " << k);
  for (k = 0; k < order.size(); ++k)
  {
    CHECK(&rr[k] == order[k], "index-access", "dim " << d << " [" << k << "] is not the element iterated at that position");
    CHECK(&cr[k] == order[k], "index-access-const", "dim " << d << " [" << k << "]");
    CHECK(&vg::dereference_handle(w.mesh, rr.handle_at(k)) == order[k], "handle-at", "dim " << d << " " << k);
  }
  front_back<Tag>(rr, order);
  if (!order.empty()) {
    It it = rr.end(); for (k = order.size(); k-- > 0; ) { --it; CHECK(&*it == order[k], "backward-iteration", "dim " << d << " " << k); }
    CHECK(it == rr.begin(), "backward-iteration", "dim " << d << " begin"); }
  // lookup by id and by element
  for (k = 0; k < order.size(); ++k)
  {
    if (order.size() > 40 && !r.chance(0.2)) continue;
    It f = vg::find(w.mesh, order[k]->id());
    CHECK(f != rr.end() && &*f == order[k], "find-by-id", "dim " << d << " id " << order[k]->id().get());
    CIt cf = vg::find(cm, order[k]->id());
    CHECK(cf != cr.end() && &*cf == order[k], "find-by-id-const", "dim " << d << " id " << order[k]->id().get());
    It fh = vg::find_by_handle(w.mesh, vg::handle(w.mesh, *order[k]));
    CHECK(fh != rr.end() && &*fh == order[k], "find-by-handle", "dim " << d << " id " << order[k]->id().get());
    { ID a = order[k]->id(), b = order[r.below(int(order.size()))]->id(); long x = long(a.get()), y = long(b.get()); CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "id-order", x << " and " << y); ID c = a; ++c; CHECK(long(c.get()) == x + 1 && a < c, "id-increment", x); }
    mon().hit("lookups");
  }
  for (int t = 0; t < 5; ++t)
  {
    int probe = r.below(mx + 30);
    if (seen.count(probe)) continue;
    ID pid; pid = ID(typename ID::base_id_type(probe));
    CHECK(vg::find(w.mesh, pid) == rr.end(), "find-unknown-id", "dim " << d << " id " << probe << " does not exist but is found");
    mon().hit("negative-lookups");
  }
}

void run_case(Rng & r, long)
{
  Model t = pick_model(r);
  World w; w.m.kind = t.kind; w.m.gdim = t.gdim; w.m.tdim = t.tdim;
  Ident ident;
  double pid = r.chance(0.5) ? 0.0 : r.real(0.1, 1.0);
  std::set<int> vid, cid;
  int step = 0; bool explicit_seen = false;
  auto fresh = [&](std::set<int> const & used) { 
    int mx = used.empty() ? -1 : *used.rbegin();
    if (r.chance(0.4)) return mx + 1;                        // exactly the next automatic id
    if (r.chance(0.05) && mx < 50000) return mx + id_gap(r) * 3;
    for (int g = 0; g < 20; ++g) { int c = r.below(mx + 12); if (!used.count(c)) return c; }
    return mx + 1 + r.below(5); };
  for (P3 const & q : t.p)
  {
    if (r.chance(pid))
    {
      int id = fresh(vid);
      w.b.v.push_back(vg::make_vertex_with_id(w.mesh, Vertex::id_type(id), mkpt(q)));
      int got = int(vg::dereference_handle(w.mesh, w.b.v.back()).id().get());
      CHECK(got == id, "explicit-id", "vertex asked for id " << id << " got " << got);
      explicit_seen = true; mon().hit("explicit-vertex-id");
    }
    else { w.b.v.push_back(vg::make_vertex(w.mesh, mkpt(q))); mon().hit(explicit_seen ? "auto-id-after-explicit" : "auto-id"); }
    int got = int(vg::dereference_handle(w.mesh, w.b.v.back()).id().get());
    CHECK(vid.insert(got).second, "vertex-id-reused", "vertex " << w.m.p.size() << " got id " << got << " already in use, ids " << show(vid));
    w.id2idx[got] = int(w.m.p.size()); w.m.p.push_back(q);
    if (++step % 5 == 0) check_ident<vg::vertex_tag>(w, ident, r);
  }
  for (IV const & c : t.c)
  {
    if (r.chance(0.08)) op_extra(w, r);
    if (r.chance(pid))
    {
      int id = fresh(cid); std::vector<VH> h; for (int x : c) h.push_back(w.b.v[x]);
      w.b.c.push_back(vg::make_cell_with_id(w.mesh, h.begin(), h.end(), Cell::id_type(id))); w.m.c.push_back(c);
      int got = int(vg::dereference_handle(w.mesh, w.b.c.back()).id().get());
      CHECK(got == id, "explicit-id", "cell asked for id " << id << " got " << got);
      mon().hit("explicit-cell-id");
    }
    else op_cell(w, w.mesh, c);
    int got = int(vg::dereference_handle(w.mesh, w.b.c.back()).id().get());
    CHECK(cid.insert(got).second, "cell-id-reused", "cell " << w.m.c.size() << " got id " << got << " already in use, ids " << show(cid));
    w.cell_ids.push_back(got);
    if (++step % 6 == 0) FOR_ALL(check_ident, w, ident, r);
  }
  FOR_ALL(check_ident, w, ident, r);
  check_cells(w);
  for (std::size_t i = 0; i < w.b.c.size(); ++i) CHECK(int(vg::dereference_handle(w.mesh, w.b.c[i]).id().get()) == w.cell_ids[i], "cell-id-changed", "cell " << i);
  // tolerance based vertex creation
  double tol0 = r.real(1e-6, 0.2);
  for (int t2 = 0; t2 < 10 && !w.m.p.empty(); ++t2)
  {
    P3 q = w.m.p[r.below(int(w.m.p.size()))]; bool def = r.chance(0.5); double tol = tol0;
    if (def) { if (r.chance(0.4)) { q = P3{{0, 0, 0}}; for (int d = 0; d < w.m.gdim; ++d) q[d] = r.chance(0.3) ? 0 : r.real(-5, 5); } else mon().hit("default-tolerance"); double n = 0; for (int d = 0; d < w.m.gdim; ++d) n += q[d] * q[d]; tol = std::sqrt(n) / 1e6; if (tol < 1e-7) continue; } // default: a millionth of the distance from the origin
    double off = r.chance(0.5) ? r.real(0, tol * 0.9) : r.real(tol * 1.1, tol * 3);
    q[r.below(w.m.gdim)] += r.chance(0.5) ? off : -off;
    double dmin = 1e300; int amin = -1; bool amb = false;
    for (std::size_t i = 0; i < w.m.p.size(); ++i) { double s = 0; for (int d = 0; d < w.m.gdim; ++d) s += (q[d] - w.m.p[i][d]) * (q[d] - w.m.p[i][d]); s = std::sqrt(s); if (std::fabs(s - tol) < (def ? 1e-4 * tol : 1e-9)) amb = true; if (s < dmin) { dmin = s; amin = int(i); } }
    if (amb) continue;
    std::size_t before = vg::vertices(w.mesh).size();
    VH h = def ? vg::make_unique_vertex(w.mesh, mkpt(q)) : vg::make_unique_vertex(w.mesh, mkpt(q), tol); if (def) mon().hit(dmin < tol ? "default-tolerance-merged" : "default-tolerance-created");
    int got = int(vg::dereference_handle(w.mesh, h).id().get());
    if (dmin < tol)
    {
      CHECK(vg::vertices(w.mesh).size() == before, "unique-vertex-duplicated", "a vertex within tolerance existed but a new one was made");
      CHECK(w.id2idx.count(got), "unique-vertex-unknown", "id " << got);
      int gi = w.id2idx[got]; double s = 0; for (int d = 0; d < w.m.gdim; ++d) s += (q[d] - w.m.p[gi][d]) * (q[d] - w.m.p[gi][d]);
      CHECK(std::sqrt(s) < tol, "unique-vertex-too-far", "returned vertex is " << std::sqrt(s) << " away, tolerance " << tol); (void)amin;
      mon().hit("unique-vertex-merged");
    }
    else
    {
      CHECK(vg::vertices(w.mesh).size() == before + 1, "unique-vertex-merged-wrongly", "no vertex within tolerance but none was created");
      CHECK(!w.id2idx.count(got), "vertex-id-reused", "id " << got);
      w.id2idx[got] = int(w.m.p.size()); w.m.p.push_back(q); w.b.v.push_back(h);
      mon().hit("unique-vertex-created");
    }
  }
  FOR_ALL(check_ident, w, ident, r);
  check_cells(w);
  if (w.m.c.size() >= 2) mon().state(mix(w.m.topo_hash(), hash_str(show(w.cell_ids))));
  mon().sample("cell ids " + show(w.cell_ids) + " " + w.m.str());
}
#endif

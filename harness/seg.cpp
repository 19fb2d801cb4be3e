// C08: segmentations under random histories of segment creation, naming, adding, erasing, clearing and copying,
#include <memory>
// compared after every step with a set model (element key -> segments).
#include "shadow.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/element_deletion.hpp"

// element keys: vertices {id}, lower elements sorted vertex ids, cells {id}
struct SegModel
{
  struct S { std::string name; std::set<IV> e[4]; };
  std::map<int, S> segs; int highest = -1;
  std::set<IV> all(int d) const { std::set<IV> r; for (auto const & s : segs) r.insert(s.second.e[d].begin(), s.second.e[d].end()); return r; }
  bool has_name(std::string const & n) const { for (auto const & s : segs) if (s.second.name == n) return true; return false; }
  int by_name(std::string const & n) const { for (auto const & s : segs) if (s.second.name == n) return s.first; return -1; }
};
static int TD() { return Shadow::tdim(); }
template<class E> typename std::enable_if<E::tag::dim != CellTag::dim, IV>::type key_of(E const & e) { return sorted(vids(e)); }
template<class E> typename std::enable_if<E::tag::dim == CellTag::dim, IV>::type key_of(E const & e) { return IV{int(e.id().get())}; }

struct World
{
  Mesh mesh; Shadow s; std::vector<VH> vh; std::vector<std::unique_ptr<Segmentation> > sg; std::vector<SegModel> mo;
  std::string str() const { std::ostringstream o; o << s.str(); for (auto const & m : mo) { o << " {"; for (auto const & x : m.segs) { o << " " << x.first << "'" << x.second.name << "'="; for (IV const & k : x.second.e[kind_tdim(KIND)]) o << k[0] << ","; } o << "}"; } return o.str(); }

  bool contains(int d, IV const & k, int e, IV const & ek) // is ek (dim e) on the boundary of (or equal to) k (dim d)
  {
    if (d == TD()) return s.cell_contains(s.cells[k[0]], e, ek);
    if (d == e) return k == ek;
    return s.low_contains(d, k, s.low[d][k].stored, e, ek);
  }
  void join(SegModel::S & g, int d, IV const & k)
  {
    g.e[d].insert(k);
    for (int e = 0; e < d; ++e)
    {
      if (e == 0) { IV vs = d == TD() ? s.cells[k[0]] : k; for (int v : vs) g.e[0].insert(IV{v}); }
      else for (auto const & l : s.low[e]) if (contains(d, k, e, l.first)) g.e[e].insert(l.first);
    }
  }
  void leave(SegModel::S & g, int e, IV const & ek)
  {
    if (e == TD()) { g.e[e].erase(ek); return; }
    for (int d = TD(); d >= e; --d) for (auto it = g.e[d].begin(); it != g.e[d].end(); ) if (contains(d, *it, e, ek)) g.e[d].erase(it++); else ++it;
  }

  template<class ET, class R> std::set<IV> keys(R const & rng, const char * what)
  {
    std::set<IV> ks; std::size_t n = 0;
    for (typename vg::result_of::const_iterator<R>::type it = rng.begin(); it != rng.end(); ++it, ++n)
    {
      auto f = vg::find(mesh, (*it).id());
      CHECK(&*f == &*it, "not-the-mesh-element", what << ": element of dimension " << ET::dim << " is not the mesh's own element | " << str());
      CHECK(ks.insert(key_of(*it)).second, "duplicate-in-segment", what << " dim " << ET::dim << " " << show(key_of(*it)) << " | " << str());
    }
    CHECK(n == rng.size(), "range-size", n << " vs " << rng.size());
    return ks;
  }
  template<class ET> void check_dim(int i)
  {
    const int d = ET::dim; Segmentation & S = *sg[i]; Segmentation const & CS = S; SegModel & M = mo[i];
    typedef typename vg::result_of::const_element_range<Segment, ET>::type SR; typedef typename vg::result_of::const_element_range<Segmentation, ET>::type AR; typedef typename vg::result_of::const_element_range<Mesh, ET>::type MR;
    for (auto & x : M.segs)
    {
      Segment const & seg = CS.get_segment(x.first);
      SR sr(seg); std::set<IV> k = keys<ET>(sr, "segment");
      CHECK(k == x.second.e[d], "segment-members", "segment " << x.first << " dim " << d << " holds " << k.size() << " elements, expected " << x.second.e[d].size() << " | " << str());
      mon().hit("segment-views");
    }
    AR ar(CS); std::set<IV> k = keys<ET>(ar, "segmentation");
    CHECK(k == M.all(d), "segmentation-elements", "dim " << d << " union holds " << k.size() << ", expected " << M.all(d).size() << " | " << str());
    MR mr(const_cast<Mesh const &>(mesh)); typename vg::result_of::element<Mesh, ET>::type const * last = 0; std::set<int> lastw; bool keep = true;
    for (typename vg::result_of::const_iterator<MR>::type it = mr.begin(); it != mr.end(); ++it)
    {
      typedef typename vg::result_of::element<Mesh, ET>::type E; E const & e = *it; IV ke = key_of(e);
      std::set<int> want; for (auto & x : M.segs) if (x.second.e[d].count(ke)) want.insert(x.first);
      typedef typename vg::result_of::segment_id_range<Segmentation, E>::type IR; IR ir = vg::segment_ids(CS, e);
      std::set<int> got; std::size_t n = 0;
      for (typename vg::result_of::iterator<IR>::type q = ir.begin(); q != ir.end(); ++q, ++n) got.insert(int(*q));
      CHECK(got == want && n == want.size() && ir.size() == n && ir.empty() == want.empty(), "segment-ids", "dim " << d << " element " << show(ke) << " reports " << show(got) << " (" << n << "), expected " << show(want) << " | " << str());
      for (auto & x : M.segs) CHECK(vg::is_in_segment(CS.get_segment(x.first), e) == bool(want.count(x.first)), "is-in-segment", "dim " << d << " element " << show(ke) << " segment " << x.first << " | " << str());
      if (last) { CHECK(bool(ir.is_equal(vg::segment_ids(CS, *last))) == (want == lastw), "segment-ids-equality", "dim " << d << " elements in segments " << show(want) << " and " << show(lastw) << " | " << str()); if (want == lastw && want.size() > 1) mon().hit("same-segments"); }
      if (!last || want.size() <= 1 || (keep = !keep)) { last = &e; lastw = want; }
      if (want.size() > 1) mon().hit("shared-elements"); if (want.empty()) mon().hit("unsegmented-elements");
    }
  }
  void check(int i)
  {
    Segmentation & S = *sg[i]; Segmentation const & CS = S; SegModel & M = mo[i];
    CHECK(S.size() == M.segs.size() && S.empty() == M.segs.empty(), "segment-count", S.size() << " vs " << M.segs.size());
    auto want = M.segs.begin();
    for (Segmentation::const_iterator it = CS.begin(); it != CS.end(); ++it, ++want) CHECK(want != M.segs.end() && int(it->id()) == want->first && it->name() == want->second.name, "segment-iteration", "segment " << it->id() << " '" << it->name() << "'");
    for (auto & x : M.segs)
    {
      CHECK(CS.segment_present(x.first) && CS.find(x.first) != CS.end() && int(CS.find(x.first)->id()) == x.first, "find-segment", x.first);
      CHECK(&CS.at(x.second.name) == &CS.at(x.first) && int(CS.get_segment(x.second.name).id()) == x.first, "segment-by-name", x.first << " '" << x.second.name << "' finds " << CS.at(x.second.name).id());
      CHECK(&CS.at(x.first).mesh() == &mesh && &CS.at(x.first).parent() == &CS, "segment-parent", x.first);
    }
    want = M.segs.begin(); // every other way to reach a segment
    for (Segmentation::iterator it = S.begin(); it != S.end(); ++it, ++want)
    { Segmentation::iterator const & ci = it; Segmentation::const_iterator c(it); CHECK(want != M.segs.end() && int((*it).id()) == want->first && it->name() == want->second.name && &*it == &*ci && &*c == &*it && ci->name() == c->name() && S.find(want->first) == it, "segment-iteration-mutable", "segment " << it->id()); }
    CHECK(want == M.segs.end(), "segment-iteration-mutable", "too few"); { std::size_t n = 0; for (Segmentation::const_iterator it = CS.cbegin(); it != CS.cend(); it++) ++n; CHECK(n == M.segs.size(), "segment-iteration", n); }
    for (auto & x : M.segs)
    {
      Segment const * q = &CS.at(x.first); std::string const & nm = x.second.name;
      CHECK(&CS[x.first] == q && &CS(x.first) == q && &CS[nm] == q && &CS(nm) == q && &CS.get_segment(x.first) == q && &CS.get_segment(nm) == q, "segment-access-const", x.first);
      CHECK(&S[x.first] == q && &S(x.first) == q && &S[nm] == q && &S(nm) == q && &S.get_segment(x.first) == q && &S.get_segment(nm) == q && &S.get_make_segment(nm) == q, "segment-access", x.first);
      CHECK(int(CS.id_upper_bound()) >= x.first, "segment-id-upper-bound", CS.id_upper_bound() << " but there is " << x.first);
    }
    CHECK(&S.mesh() == &mesh && &CS.mesh() == &mesh, "segmentation-mesh", "");
    CHECK(!CS.segment_present(M.highest + 5) && CS.find(M.highest + 5) == CS.end(), "find-absent", "");
    try { CS.at(M.highest + 5); CHECK(false, "absent-id-accepted", ""); } catch (vg::segment_id_not_found_exception const & e) { CHECK(std::string(e.what()).find(std::to_string(M.highest + 5)) != std::string::npos, "exception-message", e.what()); }
    try { CS.at("no such name"); CHECK(false, "absent-name-accepted", ""); } catch (vg::segment_name_not_found_exception const & e) { CHECK(std::string(e.what()).find("no such name") != std::string::npos, "exception-message", e.what()); }
    FOR_ALL(check_dim, i);
    mon().hit("segmentations-compared");
  }

  int pick_seg(Rng & r, int i) { if (mo[i].segs.empty()) return -1; auto it = mo[i].segs.begin(); std::advance(it, r.below(int(mo[i].segs.size()))); return it->first; }
  template<class ET> void add_or_erase(Rng & r, int i, bool add)
  {
    int g = pick_seg(r, i); if (g < 0) return;
    typedef typename vg::result_of::element_range<Mesh, ET>::type R; R er(mesh); if (er.size() == 0) return;
    std::vector<IV> pool; if (!add) for (IV const & k : mo[i].segs[g].e[ET::dim]) pool.push_back(k); if (!add && pool.empty()) return;
    IV target; if (!add) target = r.pick(pool);
    int n = r.below(int(er.size())), q = 0; Segment & seg = (*sg[i])(g);
    for (typename vg::result_of::iterator<R>::type it = er.begin(); it != er.end(); ++it, ++q)
    {
      typename vg::result_of::element<Mesh, ET>::type & e = *it;
      if (add ? q != n : key_of(e) != target) continue;
      if (add)
      {
        IV k = key_of(e); std::set<int> ids; ids.insert(g); int how = r.below(5);
        if (mo[i].segs[g].e[ET::dim].count(k)) mon().hit("added-again");
        if (how == 0) vg::add(seg, e);
        else if (how == 1) vg::add(seg, it.handle());
        else if (how == 2) vg::add(*sg[i], g, e);
        else if (how == 3) vg::add(*sg[i], g, it.handle());
        else { int h = pick_seg(r, i); ids.insert(h); std::vector<int> l(ids.begin(), ids.end()); if (r.chance(0.5)) vg::add(*sg[i], l.begin(), l.end(), e); else vg::add(*sg[i], l.begin(), l.end(), it.handle()); }
        for (int h : ids) join(mo[i].segs[h], ET::dim, k);
        mon().hit(ET::dim == TD() ? "added-cell" : "added-lower-element");
      }
      else { IV k = key_of(e); vg::erase(seg, e); leave(mo[i].segs[g], ET::dim, k); mon().hit(ET::dim == TD() ? "erased-cell" : "erased-lower-element"); }
      return;
    }
  }
  template<class MS> void new_cell(MS & ms, IV const & c, std::vector<std::pair<int,int> > const & in)
  {
    CH h = add_cell(ms, vh, c); int id = int(vg::dereference_handle(mesh, h).id().get());
    if (!s.cells.count(id)) { s.add_cell(id, c); for (int d = 1; d < TD(); ++d) for (IV const & b : s.cell_bnd(c, d)) s.note_low(d, b); }
    for (auto const & q : in) join(mo[q.first].segs[q.second], TD(), IV{id});
  }
};

static void check_copy(World & w, int i, Rng & r)
{
  Mesh dst(w.mesh); Segmentation ds(dst);
  vg::copy_segmentation(w.mesh, *w.sg[i], dst, ds); mon().hit("segmentation-copied");
  World c; (void)r;
  auto cmp = [&](int id) {
    Segment const & a = const_cast<Segmentation const &>(*w.sg[i]).get_segment(id);
    bool any = false; for (int d = 0; d <= TD(); ++d) any = any || !w.mo[i].segs[id].e[d].empty();
    CHECK(ds.segment_present(id) == any, "copied-segment-presence", "segment " << id);
    if (!any) return;
    Segment const & b = const_cast<Segmentation const &>(ds).get_segment(id);
    CHECK(vg::cells(a).size() == vg::cells(b).size() && vg::vertices(a).size() == vg::vertices(b).size(), "copied-segment-size", "segment " << id);
    typedef vg::result_of::const_cell_range<Segment>::type R; R x(a), y(b); std::set<IV> sx, sy;
    for (vg::result_of::iterator<R>::type it = x.begin(); it != x.end(); ++it) sx.insert(vids(*it));
    for (vg::result_of::iterator<R>::type it = y.begin(); it != y.end(); ++it) { sy.insert(vids(*it)); CHECK(&*vg::find(dst, (*it).id()) == &*it, "copied-segment-foreign", "segment " << id << " of the copy does not refer to the destination mesh"); }
    CHECK(sx == sy, "copied-segment-cells", "segment " << id); };
  for (auto & x : w.mo[i].segs) cmp(x.first);
}

void run_case(Rng & r, long)
{
  World w; GenOpt o; o.seam = 0.4; o.maxn = 2 + (KIND <= 8); o.drop = r.real(0, 0.4); o.isolated = r.below(2); o.wild = r.chance(0.3);
  Model m = gen_model(r, KIND, o);
  Built b; add_vertices(w.mesh, m, b); w.vh = b.v; for (std::size_t i = 0; i < m.p.size(); ++i) w.s.v[int(i)] = m.p[i];
  int nseg = r.range(1, 2); for (int i = 0; i < nseg; ++i) { w.sg.emplace_back(new Segmentation(w.mesh)); w.mo.emplace_back(); }
  std::size_t next = 0; int steps = r.range(15, 60); uint64_t h = 0;
  for (int t = 0; t < steps; ++t)
  {
    int i = r.below(nseg); Segmentation & S = *w.sg[i]; SegModel & M = w.mo[i];
    int x = r.below(100);
    if (x < 10)
    {
      int id = M.highest + 1; std::string nm = std::to_string(id);
      try { Segment & s = S.make_segment(); CHECK(!M.has_name(nm), "name-collision-accepted", nm); CHECK(int(s.id()) == id, "auto-segment-id", s.id() << " expected " << id); M.highest = id; M.segs[id].name = nm; mon().hit("segment-created"); }
      catch (vg::segment_name_collision_exception const & e) { CHECK(M.has_name(nm), "spurious-name-collision", e.what()); M.highest = id; mon().hit("name-collision"); }
    }
    else if (x < 18)
    {
      int id = r.chance(0.3) ? w.pick_seg(r, i) : wide_id(r, r.below(9)); if (id < 0) continue; std::string nm = std::to_string(id);
      bool present = M.segs.count(id);
      try { Segment & s = r.chance(0.5) ? S.get_make_segment(id) : S[id]; CHECK(int(s.id()) == id, "segment-id", s.id()); CHECK(present || !M.has_name(nm), "name-collision-accepted", nm); if (!present) { M.segs[id].name = nm; M.highest = std::max(M.highest, id); } mon().hit("segment-by-id"); }
      catch (vg::segment_name_collision_exception const &) { CHECK(!present && M.has_name(nm), "spurious-name-collision", nm); mon().hit("name-collision"); }
    }
    else if (x < 24)
    {
      std::string nm = r.chance(0.6) ? std::string(1, char('a' + r.below(4))) : std::to_string(r.below(6));
      int was = M.by_name(nm), id = M.highest + 1; bool coll = was < 0 && M.has_name(std::to_string(id)) ;
      try { Segment & s = S[nm]; if (was >= 0) CHECK(int(s.id()) == was, "segment-by-name", nm); else { CHECK(!coll, "name-collision-accepted", nm); CHECK(int(s.id()) == id, "auto-segment-id", s.id()); M.highest = id; M.segs[id].name = nm; if (nm == std::to_string(id)) mon().hit("own-auto-name"); } CHECK(s.name() == nm, "segment-name", s.name()); mon().hit("segment-by-name"); }
      catch (vg::segment_name_collision_exception const &)
      { CHECK(coll, "spurious-name-collision", nm); M.highest = id; mon().hit("name-collision"); }
    }
    else if (x < 29)
    {
      int g = w.pick_seg(r, i); if (g < 0) continue; std::string nm = r.chance(0.7) ? std::string(1, char('a' + r.below(6))) : std::to_string(r.below(9));
      if (r.chance(0.1)) { nm = M.segs[g].name; mon().hit("renamed-to-own-name"); } bool coll = M.segs[g].name != nm && M.has_name(nm);
      try { S(g).set_name(nm); CHECK(!coll, "name-collision-accepted", nm); M.segs[g].name = nm; mon().hit("renamed"); }
      catch (vg::segment_name_collision_exception const & e) { CHECK(coll, "spurious-name-collision", nm); CHECK(std::string(e.what()).find(nm) != std::string::npos, "exception-message", e.what()); mon().hit("rename-collision"); }
    }
    else if (x < 50)
    {
      IV c; if (next < m.c.size()) c = m.c[next++]; else if (r.chance(0.3) && !m.c.empty()) c = m.c[r.below(int(m.c.size()))]; else continue;
      bool dup = false; for (auto const & y : w.s.cells) dup = dup || sorted(y.second) == sorted(c);
      if (dup) continue;
      int g = w.pick_seg(r, i); std::vector<std::pair<int,int> > in;
      if (g >= 0 && r.chance(0.7)) { in.push_back(std::make_pair(i, g)); w.new_cell(S(g), c, in); mon().hit("cell-made-in-segment"); }
      else w.new_cell(w.mesh, c, in);
    }
    else if (x < 66) w.add_or_erase<CellTag>(r, i, true);
    else if (x < 74) { if (r.chance(0.5)) w.add_or_erase<vg::vertex_tag>(r, i, true); else w.add_or_erase<FacetTag>(r, i, true); }
    else if (x < 82) w.add_or_erase<CellTag>(r, i, false);
    else if (x < 88) { if (r.chance(0.5)) w.add_or_erase<vg::vertex_tag>(r, i, false); else w.add_or_erase<FacetTag>(r, i, false); }
    else if (x < 91) { int g = w.pick_seg(r, i); if (g >= 0) { vg::clear(S(g)); for (auto & e : M.segs[g].e) e.clear(); mon().hit("segment-cleared"); } }
    else if (x < 92) { if (r.chance(0.4)) S.init(w.mesh); else if (r.chance(0.3)) { // a segmentation that served another mesh
        Mesh other; Built ob = build(other, m); std::unique_ptr<Segmentation> ns(new Segmentation(other)); for (std::size_t q = 0; q < ob.c.size(); ++q) vg::add(*ns, int(q % 3), ob.c[q]); ns->init(w.mesh); w.sg[i] = std::move(ns); mon().hit("segmentation-moved"); }
      else if (r.chance(0.5)) S.clear(); else vg::clear(S); M = SegModel(); mon().hit("segmentation-cleared"); }
    else if (x < 95) check_copy(w, i, r);
    else if (x < 98 ) { int g = w.pick_seg(r, i); if (g >= 0) { P3 q = {{r.real(-9, 9), r.real(-9, 9), r.real(-9, 9)}}; for (int d = kind_gdim(KIND); d < 3; ++d) q[d] = 0; VH v = vg::make_vertex(S(g), mkpt(q)); int id = int(vg::dereference_handle(w.mesh, v).id().get()); CHECK(!w.s.v.count(id), "id-reused", id); w.s.v[id] = q; M.segs[g].e[0].insert(IV{id}); mon().hit("vertex-made-in-segment"); } }
    if (r.chance(0.35)) for (int j = 0; j < nseg; ++j) w.check(j);
  }
  for (int j = 0; j < nseg; ++j) { w.check(j); for (auto const & x : w.mo[j].segs) { h = mix(h, x.first); for (int d = 0; d <= TD(); ++d) for (IV const & k : x.second.e[d]) for (int q : k) h = mix(h, q); } }
  CheckMesh(w.mesh, w.s)();
  mon().state(mix(h, w.s.hash())); mon().sample(w.str());
}

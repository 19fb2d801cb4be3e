// C19: accessors and fields as partial maps from elements to values; C20: quantity transfer between dimensions.
#include "kinds.hpp"
#include "vec.hpp"
#include <deque>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"

template<class Tag> struct DimOf { enum { value = Tag::dim }; };
template<> struct DimOf<vg::vertex_tag> { enum { value = 0 }; };

template<class MS, class Tag> std::vector<typename vg::result_of::element<Mesh, Tag>::type const *> elems(MS const & ms)
{
  typedef typename vg::result_of::const_element_range<MS, Tag>::type R; std::vector<typename vg::result_of::element<Mesh, Tag>::type const *> v;
  R r(ms); for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) v.push_back(&*it);
  return v;
}

#if PROP == 19
// Shadow of one container: which identifiers hold data, and what.  Dense storage holds data for every identifier below its size.
template<class V> struct Shadow { bool dense; std::map<int, V> m;
  bool has(int id) const { return m.count(id) > 0; }
  V & touch(int id) { if (dense) { for (int i = 0; i <= id; ++i) if (!m.count(i)) m[i] = V(); } return m[id]; } };
template<class V> V val(Rng & r);
template<> double val<double>(Rng & r) { return r.real(-9, 9); }
template<> long val<long>(Rng & r) { return r.range(-900, 900); }
template<> std::string val<std::string>(Rng & r) { return "v" + std::to_string(r.below(1000000)) + std::string(r.below(40), 'x'); }

template<class C> struct is_dense { enum { value = 1 }; };
template<class K, class V> struct is_dense<std::map<K, V> > { enum { value = 0 }; };

template<class A, class E, class V> void probe(A & a, E const & e, Shadow<V> & sh, V const & def, bool field, Rng & r, const char * what)
{
  int id = int(e.id().get()); A const & ca = a; bool has = sh.has(id);
  switch (r.below(6))
  {
    case 0: { V x = val<V>(r); a(e) = x; sh.touch(id) = x; mon().hit(has ? "overwritten" : "created"); break; }
    case 1: { V got = a(e); sh.touch(id); CHECK(got == sh.m[id], "read-nonconst", what << " id " << id << " got " << got << " expected " << sh.m[id]); break; }
    case 2: { auto * p = a.find(e); CHECK((p != 0) == has, "find", what << " id " << id << " present " << (p != 0) << " expected " << has); if (p) { CHECK(*p == sh.m[id], "find-value", what << " id " << id); V x = val<V>(r); *p = x; sh.m[id] = x; } break; }
    case 3: { auto const * p = ca.find(e); CHECK((p != 0) == has, "find-const", what << " id " << id << " present " << (p != 0) << " expected " << has); if (p) CHECK(*p == sh.m[id], "find-const-value", what << " id " << id); break; }
    case 4: { bool thrown = false; V got = V(); try { got = a.at(e); } catch (std::out_of_range const &) { thrown = true; } CHECK(thrown == !has, "at", what << " id " << id << " threw " << thrown << " but data present is " << has); if (has) CHECK(got == sh.m[id], "at-value", what << " id " << id); if (thrown) mon().hit("out-of-range"); break; }
    default: { bool thrown = false; V got = V(); try { got = ca.at(e); } catch (std::out_of_range const &) { thrown = true; } CHECK(thrown == !has, "at-const", what << " id " << id << " threw " << thrown << " but data present is " << has); if (has) CHECK(got == sh.m[id], "at-const-value", what << " id " << id); }
  }
  has = sh.has(id);
  if (has || field) { V got = ca(e); CHECK(got == (has ? sh.m[id] : def), "read-const", what << " id " << id << " got " << got << " expected " << (has ? sh.m[id] : def)); if (!has) mon().hit("field-default"); }
}
template<class A, class E, class V> void probe_const(A const & ca, E const & e, Shadow<V> & sh, V const & def, bool field, const char * what)
{
  int id = int(e.id().get()); bool has = sh.has(id); CHECK(ca.is_valid(), "valid", what);
  auto const * p = ca.find(e); CHECK((p != 0) == has && (!p || *p == sh.m[id]), "find-const-container", what << " id " << id);
  bool thrown = false; V got = V(); try { got = ca.at(e); } catch (std::out_of_range const &) { thrown = true; } CHECK(thrown == !has && (!has || got == sh.m[id]), "at-const-container", what << " id " << id);
  if (has || field) CHECK(ca(e) == (has ? sh.m[id] : def), "read-const-container", what << " id " << id);
}

static Mesh * g_mesh; static std::vector<VH> g_v; static Model g_m; static std::size_t g_next;
static bool grow() { if (g_next >= g_m.c.size()) return false; add_cell(*g_mesh, g_v, g_m.c[g_next++]); return true; }

template<class C, class Tag> void drive(Rng & r, C & cont, const char * name)
{
  typedef typename vg::result_of::element<Mesh, Tag>::type E;
  typedef typename vg::result_of::accessor<C, E>::type A; typedef typename vg::result_of::field<C, E>::type F; typedef typename vg::result_of::accessor<const C, E>::type CA; typedef typename vg::result_of::field<const C, E>::type CF;
  typedef typename A::value_type V;
  Shadow<V> sh; sh.dense = is_dense<C>::value; V def = val<V>(r), zero = V();
  A none; CHECK(!none.is_valid(), "invalid-default", name << " default-constructed accessor claims validity"); F nonef; CHECK(!nonef.is_valid(), "invalid-default-field", name << " default-constructed field claims validity"); CA nonec; CF nonecf; CHECK(!nonec.is_valid() && !nonecf.is_valid(), "invalid-default-const", name);
  A a(cont), a2 = vg::make_accessor<E>(cont), a3; a3 = a; F f(cont, def), f0 = vg::make_field<E>(cont), f2(f); C const & cc = cont;
  CHECK(a.is_valid() && a2.is_valid() && a3.is_valid() && f.is_valid() && f0.is_valid() && f2.is_valid(), "valid", name);
  vg::base_dynamic_field<V, E> * dynamic = new vg::dynamic_field_wrapper<F>(f); vg::base_dynamic_field<const V, E> * cdynamic = new vg::dynamic_field_wrapper<const F>(f);
  vg::base_dynamic_accessor<V, E> * dacc = new vg::dynamic_accessor_wrapper<A>(a); vg::base_dynamic_accessor<const V, E> * cdacc = new vg::dynamic_accessor_wrapper<const A>(a);
  int n = r.range(5, 40);
  for (int i = 0; i < n; ++i)
  {
    if (r.chance(0.1) && grow()) mon().hit("elements-created-meanwhile");
    auto es = elems<Mesh, Tag>(*g_mesh); if (es.empty()) continue;
    E const & e = *r.pick(es); int id = int(e.id().get());
    switch (r.below(9))
    {
      case 0: probe(a, e, sh, zero, false, r, name); break;
      case 1: probe(a2, e, sh, zero, false, r, name); break;
      case 2: probe(a3, e, sh, zero, false, r, name); break;
      case 3: probe(f, e, sh, def, true, r, name); break;
      case 4: probe(f0, e, sh, zero, true, r, name); break;
      case 5: probe(f2, e, sh, def, true, r, name); break;
      case 6: probe(*dynamic, e, sh, def, true, r, name); mon().hit("dynamic"); break;
      case 7: probe(*dacc, e, sh, zero, false, r, name); mon().hit("dynamic"); break;
      default:
      {
        CA ca(cc); CF cf(cc, def), cf0(cc); probe_const(ca, e, sh, zero, false, name); probe_const(cf, e, sh, def, true, name); probe_const(cf0, e, sh, zero, true, name);
        probe_const(vg::make_accessor<E>(cc), e, sh, zero, false, name); probe_const(vg::make_field<E>(cc), e, sh, zero, true, name);
        bool has = sh.has(id); V const * p = cdynamic->find(e); CHECK((p != 0) == has && (!p || *p == sh.m[id]), "dynamic-const-find", name << " id " << id); CHECK((*cdynamic)(e) == (has ? sh.m[id] : def), "dynamic-const-read", name << " id " << id);
        p = cdacc->find(e); CHECK((p != 0) == has && (!p || *p == sh.m[id]), "dynamic-const-find", name << " id " << id); if (has) { CHECK((*cdacc)(e) == sh.m[id], "dynamic-const-read", name << " id " << id); CHECK(cdacc->at(e) == sh.m[id] && cdynamic->at(e) == sh.m[id], "dynamic-const-at", name); }
        mon().hit("const-container");
      }
    }
  }
  // everything again at the end, and nothing else was stored
  for (E const * e : elems<Mesh, Tag>(*g_mesh)) { probe_const(CF(cc, def), *e, sh, def, true, name); }
  CHECK(cont.size() == sh.m.size(), "container-size", name << " holds " << cont.size() << " values instead of " << sh.m.size());
  delete dynamic; delete cdynamic; delete dacc; delete cdacc;
  mon().hit(name);
}
template<class Tag> void drive_all(Rng & r)
{
  typedef typename vg::result_of::element<Mesh, Tag>::type E;
  typename vg::result_of::accessor_container<E, double>::type v; drive<std::vector<double>, Tag>(r, v, "vector");
  typename vg::result_of::accessor_container<E, long, vg::std_deque_tag>::type d; drive<std::deque<long>, Tag>(r, d, "deque");
  typename vg::result_of::accessor_container<E, std::string, vg::std_map_tag>::type m; drive<typename vg::result_of::accessor_container<E, std::string, vg::std_map_tag>::type, Tag>(r, m, "map");
}
// accessors and fields of a collection of containers, one per element type
static void drive_collection(Rng & r)
{
  typedef std::map<Cell::id_type, std::string> CM; typedef vg::make_typemap<Vertex, std::vector<double>, Cell, CM>::type TM; vg::collection<TM> coll; vg::collection<TM> const & cc = coll;
  std::map<int,double> sv; std::map<int,std::string> sc; auto vs = elems<Mesh, vg::vertex_tag>(*g_mesh); auto cs = elems<Mesh, CellTag>(*g_mesh); if (vs.empty() || cs.empty()) return;
  for (int i = 0; i < 10; ++i)
  {
    Vertex const & v = *r.pick(vs); Cell const & c = *r.pick(cs); double x = r.real(-9, 9); std::string t = val<std::string>(r);
    if (r.chance(0.5)) vg::make_accessor<Vertex>(coll)(v) = x; else vg::make_field<Vertex>(coll)(v) = x; sv[int(v.id().get())] = x;
    if (r.chance(0.5)) vg::make_accessor<Cell>(coll)(c) = t; else vg::make_field<Cell>(coll)(c) = t; sc[int(c.id().get())] = t;
  }
  auto fa = vg::make_field<Vertex>(cc); auto fc = vg::make_field<Cell>(cc); auto aa = vg::make_accessor<Vertex>(cc); auto ac = vg::make_accessor<Cell>(cc);
  for (auto v : vs) { int id = int(v->id().get()); double w = sv.count(id) ? sv[id] : 0; CHECK(fa(*v) == w, "collection-field", id); if (sv.count(id)) CHECK(aa(*v) == w && aa.at(*v) == w, "collection-accessor", id); }
  for (auto c : cs) { int id = int(c->id().get()); CHECK(fc(*c) == (sc.count(id) ? sc[id] : std::string()), "collection-field", id); CHECK((ac.find(*c) != 0) == (sc.count(id) > 0), "collection-find", id); if (sc.count(id)) CHECK(ac.at(*c) == sc[id], "collection-accessor", id); }
  mon().hit("collections");
}
void run_case(Rng & r, long)
{
  GenOpt o; o.maxn = 3; g_m = gen_model(r, KIND, o); Mesh mesh; g_mesh = &mesh; g_v.clear(); g_next = 0;
  // gaps in the vertex identifiers
  int id = 0; for (P3 const & q : g_m.p) { if (r.chance(0.3)) { id += id_gap(r); mon().hit("id-gaps"); g_v.push_back(vg::make_vertex_with_id(mesh, typename vg::result_of::id<Vertex>::type(id), mkpt(q))); } else g_v.push_back(vg::make_vertex(mesh, mkpt(q))); id = int(vg::dereference_handle(mesh, g_v.back()).id().get()) + 1; }
  int k = r.range(1, int(g_m.c.size())); for (int i = 0; i < k; ++i) grow();
  FOR_ALL(drive_all, r); drive_collection(r);
  // the coordinates themselves, through the default point accessor
  vg::result_of::default_point_accessor<Mesh>::type pa = vg::default_point_accessor(mesh);
  for (std::size_t i = 0; i < g_v.size(); ++i)
  {
    Vertex & v = vg::dereference_handle(mesh, g_v[i]); Vertex const & cv = v; CHECK(pa.is_valid() && to_p3(pa(v)) == g_m.p[i] && to_p3(pa.at(cv)) == g_m.p[i] && pa.find(v) == &vg::point(v), "point-accessor", "vertex " << i);
    if (r.chance(0.5)) { P3 q = {{0,0,0}}; for (int d = 0; d < g_m.gdim; ++d) q[d] = r.real(-3, 3); pa(v) = mkpt(q); g_m.p[i] = q; CHECK(to_p3(vg::point(mesh, v)) == q, "point-accessor-write", "vertex " << i); }
  }
  mon().hit("points"); mon().state(g_m.topo_hash());
}
#else
// ---- C20
template<class E> struct Src { typedef double value_type; std::map<E const *, double> const * m; long * calls; double operator()(E const & e) const { ++*calls; return m->at(&e); } };
template<class E> struct Set_ { std::map<E const *, double> got; std::map<E const *, int> times; void operator()(E const & e, double x) { got[&e] = x; ++times[&e]; } };
struct Avg { int mode; std::vector<std::vector<double> > * seen; template<class C> double operator()(C const & c) const { std::vector<double> v(c.begin(), c.end()); std::sort(v.begin(), v.end()); seen->push_back(v); if (v.empty()) return -12345; double s = 0; for (double x : v) s += x; return mode == 0 ? s / v.size() : mode == 1 ? v.back() : s; } };
template<class E> struct Filt { std::set<E const *> const * s; bool operator()(E const & e) const { return s->count(&e) > 0; } };

template<class S, class D, class MS> void transfer(Rng & r, MS const & ms, const char * what)
{
  typedef typename vg::result_of::element<Mesh, S>::type SE; typedef typename vg::result_of::element<Mesh, D>::type DE;
  std::vector<SE const *> se = elems<MS, S>(ms); std::vector<DE const *> de = elems<MS, D>(ms);
  std::map<SE const *, double> data; std::set<SE const *> sf; std::set<DE const *> df; double ps = r.chance(0.4) ? 1 : r.u(), pd = r.chance(0.4) ? 1 : r.u();
  const bool repeated = r.chance(0.4); if (repeated) mon().hit("repeated-values");
  for (SE const * e : se) { data[e] = repeated ? r.range(-2, 2) : r.real(-9, 9); if (r.chance(ps)) sf.insert(e); } for (DE const * e : de) if (r.chance(pd)) df.insert(e);
  std::vector<std::vector<double> > seen; long calls = 0; Src<SE> src; src.m = &data; src.calls = &calls; Set_<DE> dst; Avg avg; avg.mode = r.below(3); avg.seen = &seen; Filt<SE> fs; fs.s = &sf; Filt<DE> fd; fd.s = &df;
  bool tags = r.chance(0.5);
  if (tags) vg::quantity_transfer<S, D>(ms, src, dst, avg, fs, fd); else vg::quantity_transfer<SE, DE>(ms, src, dst, avg, fs, fd);
  // independent incidence by vertex sets
  std::map<SE const *, std::set<int> > sv; for (SE const * e : se) { IV v = vids(*e); sv[e] = std::set<int>(v.begin(), v.end()); }
  for (DE const * e : de)
  {
    IV v = vids(*e); std::set<int> dv(v.begin(), v.end()); std::vector<double> in;
    for (SE const * s : sf) { std::set<int> const & a = sv[s]; bool inc = int(DimOf<S>::value) > int(DimOf<D>::value) ? std::includes(a.begin(), a.end(), dv.begin(), dv.end()) : std::includes(dv.begin(), dv.end(), a.begin(), a.end()); if (inc) in.push_back(data[s]); }
    std::sort(in.begin(), in.end()); int times = dst.times.count(e) ? dst.times[e] : 0;
    if (!df.count(e)) { CHECK(times == 0, "destination-filter", what << " value written to a filtered-out element"); mon().hit("filtered-destination"); continue; }
    if (in.empty()) { mon().hit("no-source"); continue; }
    double s = 0; for (double x : in) s += x; double want = avg.mode == 0 ? s / in.size() : avg.mode == 1 ? in.back() : s;
    CHECK(times == 1, "written-once", what << " element written " << times << " times");
    CHECK(near(dst.got[e], want, 1e-12), "transferred-value", what << " dims " << int(DimOf<S>::value) << "->" << int(DimOf<D>::value) << " got " << dst.got[e] << " expected " << want << " from " << in.size() << " sources");
    mon().hit(in.size() > 1 ? "several-sources" : "single-source");
  }
  for (auto const & g : dst.got) CHECK(std::find(de.begin(), de.end(), g.first) != de.end(), "foreign-destination", what << " value written to an element outside the mesh or segment");
  mon().hit(std::string(what) + (int(DimOf<S>::value) > int(DimOf<D>::value) ? "-down" : "-up"));
}
template<class MS> void all(Rng & r, MS const & ms, const char * what)
{
  transfer<CellTag, vg::vertex_tag>(r, ms, what); transfer<vg::vertex_tag, CellTag>(r, ms, what);
#if KIND > 2
  transfer<CellTag, vg::line_tag>(r, ms, what); transfer<vg::line_tag, CellTag>(r, ms, what); transfer<vg::line_tag, vg::vertex_tag>(r, ms, what); transfer<vg::vertex_tag, vg::line_tag>(r, ms, what);
#endif
#if KIND > 8
  transfer<FacetTag, vg::vertex_tag>(r, ms, what); transfer<vg::vertex_tag, FacetTag>(r, ms, what); transfer<FacetTag, vg::line_tag>(r, ms, what); transfer<vg::line_tag, FacetTag>(r, ms, what); transfer<CellTag, FacetTag>(r, ms, what); transfer<FacetTag, CellTag>(r, ms, what);
#endif
}
void run_case(Rng & r, long)
{
  GenOpt o; o.maxn = 3; o.isolated = r.below(2); o.seam = 0.3; Model m = gen_model(r, KIND, o); Mesh mesh; Built b = build(mesh, m); Segmentation sg(mesh); std::vector<Segment> segs;
  // polygons and quadrilaterals may share two vertices without sharing a side; vertex-set incidence is exact for sub-elements only
  for (int s = 0; s < 2; ++s) { segs.push_back(sg.make_segment()); for (CH const & c : b.c) if (r.chance(0.5)) vg::add(segs[s], c); }
  all(r, mesh, "mesh"); for (Segment const & s : segs) all(r, s, "segment");
  if (m.c.size() >= 2) mon().state(m.topo_hash());
}
#endif

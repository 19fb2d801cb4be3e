// C30: several threads read one mesh, fill data of their own elements, and work on meshes of their own. Built with ThreadSanitizer;
// every thread must compute what a single thread had computed before.
#include <thread>
#include <atomic>
#include "ask.hpp"

// a history on objects of one thread alone
static Res own_history(Model const & t, uint64_t seed)
{
  Rng r(seed); Res q; Mesh mesh; Segmentation sg(mesh); std::vector<VH> v; for (P3 const & p : t.p) v.push_back(vg::make_vertex(mesh, mkpt(p)));
  int n = 0; for (IV const & c : t.c) { if (n++ % 2) add_cell(mesh, v, c); else add_cell(sg.get_make_segment(n % 3), v, c); }
  typedef vg::result_of::cell_range<Mesh>::type CR; { CR cr(mesh); for (std::size_t i = 0; i < cr.size(); ++i) { q.push_back(double(cr[i].id().get())); q.push_back(vg::volume(cr[i])); typedef vg::result_of::neighbor_range<Mesh, CellTag, FacetTag>::type N; N nb(mesh, cr.handle_at(i)); q.push_back(double(nb.size())); } }
  typedef vg::result_of::vertex_range<Mesh>::type VR; { VR vr(mesh); for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) q.push_back(vg::is_boundary(mesh, *it)); }
  { CR cr(mesh); vg::erase_element(mesh, cr.handle_at(r.below(int(cr.size())))); } { VR vr(mesh); for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { q.push_back(vg::is_boundary(mesh, *it)); typedef vg::result_of::coboundary_range<Mesh, vg::vertex_tag, CellTag>::type B; B b(mesh, it.handle()); q.push_back(double(b.size())); } }
  q.push_back(double(vg::elements<FacetTag>(mesh).size())); mesh.clear(); q.push_back(double(vg::cells(mesh).size())); return q;
}

void run_case(Rng & r, long)
{
  static NullBuf nb; static bool once = (std::cout.rdbuf(&nb), true); (void)once;
  Shared s; GenOpt o; o.large = 0; o.maxn = 3 - (KIND >= 9); o.drop = r.real(0, 0.4); o.isolated = r.below(2); Model m = gen_model(r, KIND, o); Built b = build(s.mesh, m); s.sg.reset(new Segmentation(s.mesh)); int ns = r.range(0, 3);
  for (int g = 0; g < ns; ++g) { s.sg->get_make_segment(g); s.sid.push_back(g); } if (ns) for (std::size_t i = 0; i < b.c.size(); ++i) { int g = r.below(ns + 1); if (g < ns) vg::add((*s.sg)(g), b.c[i]); }
  for (std::size_t i = 0; i < m.p.size(); ++i) s.vdata.push_back(r.real(-1, 1)); for (std::size_t i = 0; i < m.c.size(); ++i) if (r.chance(0.7)) s.cdata[vg::dereference_handle(s.mesh, b.c[i]).id()] = r.real(-1, 1);
  s.probe = m.p[r.below(int(m.p.size()))]; for (int d = 0; d < m.gdim; ++d) s.probe[d] += r.real(-0.5, 0.5);
  Scratch sd; std::size_t nc = m.c.size(); std::vector<Res> cells(nc), whole(WHOLE); const int T = r.range(2, 4); std::vector<uint64_t> seeds; std::vector<Res> own(T); std::vector<Model> models; for (int t = 0; t < T; ++t) { seeds.push_back(r.next()); GenOpt o2; o2.large = 0; o2.maxn = 2; models.push_back(gen_model(r, KIND, o2)); }
  Shared const & cs = s; for (std::size_t i = 0; i < nc; ++i) cells[i] = about_cell(cs, i); for (int w = 0; w < WHOLE; ++w) whole[w] = about_mesh(cs, sd.path("seq"), w); for (int t = 0; t < T; ++t) own[t] = own_history(models[t], seeds[t]);

  std::vector<std::vector<Res> > gc(T, std::vector<Res>(nc)), gw(T, std::vector<Res>(WHOLE)); std::vector<Res> go(T); std::vector<IV> order(T), plan(T); std::vector<std::string> err(T), file(T);
  for (int t = 0; t < T; ++t) { for (std::size_t i = 0; i < nc; ++i) order[t].push_back(int(i)); r.shuffle(order[t]); for (int w = 0; w < WHOLE + 2; ++w) plan[t].push_back(w); r.shuffle(plan[t]); file[t] = sd.path("thread" + std::to_string(t)); }
  std::vector<double> filled(nc, -1), field_filled(nc, -1); std::atomic<int> ready(0); std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.push_back(std::thread([&, t]() {
    ++ready; while (ready < T) {}
    try
    {
      typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(cs.mesh);
      for (int w : plan[t])
        if (w < WHOLE) gw[t][w] = about_mesh(cs, file[t], w);
        else if (w == WHOLE) go[t] = own_history(models[t], seeds[t]);
        else
        {
          vg::result_of::accessor<std::vector<double>, Cell>::type a(filled); vg::result_of::field<std::vector<double>, Cell>::type f(field_filled);
          for (int i : order[t]) { gc[t][i] = about_cell(cs, std::size_t(i)); if (int(cr[std::size_t(i)].id().get()) % T == t) { a(cr[std::size_t(i)]) = vg::volume(cr[std::size_t(i)]); f(cr[std::size_t(i)]) = double(t); } }
        }
    }
    catch (std::exception const & e) { err[t] = e.what(); if (err[t].empty()) err[t] = "exception"; }
  }));
  for (std::thread & x : th) x.join();
  for (int t = 0; t < T; ++t)
  {
    CHECK(err[t].empty(), "concurrent-exception", err[t]);
    for (std::size_t i = 0; i < nc; ++i) CHECK(same(gc[t][i], cells[i]), "concurrent-read", "cell " << i << " differs in thread " << t << " | " << m.str());
    for (int w = 0; w < WHOLE; ++w) CHECK(same(gw[t][w], whole[w]), "concurrent-mesh-read", "operation " << w << " differs in thread " << t << " | " << m.str());
    CHECK(same(go[t], own[t]), "concurrent-own-mesh", "thread " << t); mon().hit("threads"); mon().hit("concurrent-cell-reads", long(nc)); mon().hit("concurrent-own-meshes");
  }
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(cs.mesh);
  for (std::size_t i = 0; i < nc; ++i) { std::size_t id = std::size_t(cr[i].id().get()); CHECK(filled[id] == vg::volume(cr[i]) && field_filled[id] == double(int(id) % T), "concurrent-write", "data of cell " << id); mon().hit("concurrent-writes"); }
  if (ns) mon().hit("with-segments"); mon().state(m.hash()); mon().sample(m.str());
}

// Everything that can be asked about a mesh with segments and data, as one sequence of numbers (C30, C31).
#ifndef VH_ASK_HPP
#define VH_ASK_HPP
#include "kinds.hpp"
#include <memory>
#include <cstring>
#include "iotools.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/algorithm/interface.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"
#if KIND == 3 || KIND == 9
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
#include "viennagrid/algorithm/refine.hpp"
#endif

typedef vg::result_of::line<Mesh>::type Line;
typedef std::vector<double> Res;
struct NullBuf : std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(char const *, std::streamsize n) { return n; } };
template<class P> void put(Res & r, P const & p) { for (std::size_t i = 0; i < p.size(); ++i) r.push_back(p[i]); }
template<class R> void ids(Res & r, R rg) { r.push_back(double(rg.size())); for (typename vg::result_of::iterator<R>::type it = rg.begin(); it != rg.end(); ++it) r.push_back(double((*it).id().get())); }

static bool same(Res const & a, Res const & b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
struct Shared
{
  Mesh mesh; std::unique_ptr<Segmentation> sg; std::vector<double> vdata; std::map<vg::result_of::id<Cell>::type, double> cdata; std::vector<int> sid; P3 probe;
};

// everything that can be asked about one cell
static Res about_cell(Shared const & s, std::size_t i)
{
  Res r; Mesh const & m = s.mesh; typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cells(m); Cell const & c = cells[i]; r.push_back(double(c.id().get()));
  r.push_back(vg::volume(c)); r.push_back(vg::surface(c)); put(r, vg::centroid(c));
  typedef vg::result_of::const_vertex_range<Cell>::type VR; VR vr(c);
  for (vg::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it)
  {
    r.push_back(double((*it).id().get())); put(r, vg::point(m, *it)); r.push_back(vg::is_boundary(m, *it));
    typedef vg::result_of::const_coboundary_range<Mesh, vg::vertex_tag, CellTag>::type B; B b(m, it.handle()); ids(r, b);
    typename vg::result_of::accessor<std::vector<double> const, Vertex>::type a(s.vdata); r.push_back(a(*it));
    for (int k : s.sid) r.push_back(vg::is_in_segment((*s.sg)(k), *it));
  }
  typedef vg::result_of::const_element_range<Cell, FacetTag>::type FR; FR fr(c);
  for (vg::result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it)
  {
    r.push_back(double((*it).id().get())); r.push_back(vg::is_boundary(m, *it)); r.push_back(vg::volume(*it));
    for (int k : s.sid) if (vg::is_in_segment((*s.sg)(k), *it)) r.push_back(vg::is_boundary((*s.sg)(k), *it)); if (s.sid.size() > 1) r.push_back(vg::is_interface((*s.sg)(s.sid[0]), (*s.sg)(s.sid[1]), *it));
    typedef vg::result_of::const_coboundary_range<Mesh, FacetTag, CellTag>::type B; B b(m, it.handle()); ids(r, b);
  }
  typedef vg::result_of::const_element_range<Cell, vg::line_tag>::type LR; LR lr(c); ids(r, lr);
  typedef vg::result_of::const_neighbor_range<Mesh, CellTag, FacetTag>::type N; N n(m, vg::handle(m, c)); ids(r, n);
  r.push_back(&*vg::find(m, c.id()) == &c);
  typename vg::result_of::field<std::map<vg::result_of::id<Cell>::type, double> const, Cell>::type f(s.cdata); r.push_back(f(c));
  for (int k : s.sid) { r.push_back(vg::is_in_segment((*s.sg)(k), c)); }
  auto sids = vg::segment_ids(*s.sg, c); r.push_back(double(sids.size()));
#if KIND == 3 || KIND == 9
  put(r, vg::circumcenter(c)); r.push_back(vg::distance(mkpt(s.probe), c)); put(r, vg::closest_points(vg::default_point_accessor(m), c, mkpt(s.probe)).first); put(r, vg::closest_points(vg::default_point_accessor(m), c, mkpt(s.probe)).second); r.push_back(vg::is_inside(c, mkpt(s.probe)));
#endif
  return r;
}
enum { WHOLE = 12 };
struct Avg { template<class C> double operator()(C const & c) const { double q = 0; for (double x : c) q += x; return q / double(c.size()); } };
struct Set_ { std::map<vg::result_of::id<Cell>::type, double> * m; void operator()(Cell const & c, double x) const { (*m)[c.id()] = x; } };
struct Any { template<class E> bool operator()(E const &) const { return true; } };
#if KIND == 9
typedef vg::triangular_3d_mesh Hull;
#elif KIND == 10
typedef vg::quadrilateral_3d_mesh Hull;
#elif KIND == 6
typedef vg::line_3d_mesh Hull;
#else
typedef vg::line_2d_mesh Hull;
#endif
// whole-mesh queries and operations that only read the shared mesh
static Res about_mesh(Shared const & s, std::string const & file, int what)
{
  Res r; Mesh const & m = s.mesh;
  switch (what)
  {
    case 0: r.push_back(vg::volume(m)); r.push_back(vg::surface(m)); put(r, vg::centroid(m)); put(r, vg::bounding_box(m).first); put(r, vg::bounding_box(m).second); break;
    case 1: for (int k : s.sid) { Segment const & g = (*s.sg)(k); r.push_back(vg::volume(g)); typedef vg::result_of::const_cell_range<Segment>::type R; R rg(g); for (std::size_t i = 0; i < rg.size(); ++i) r.push_back(double(rg[i].id().get())); } break;
    case 2: { Mesh c(m); ids(r, vg::result_of::const_cell_range<Mesh>::type(c)); ids(r, vg::result_of::const_vertex_range<Mesh>::type(c)); r.push_back(vg::volume(static_cast<Mesh const &>(c))); vg::erase_element(c, vg::cells(c).handle_at(0)); r.push_back(double(vg::cells(c).size())); break; }
    case 3: { vg::io::vtk_writer<Mesh> w; vg::result_of::accessor<std::vector<double> const, Vertex>::type a(s.vdata); w.add_scalar_data_on_vertices(a, "v"); w(m, file); Mesh b; vg::io::vtk_reader<Mesh> rd; rd(b, file + ".vtu"); r.push_back(double(vg::cells(b).size())); r.push_back(double(vg::vertices(b).size())); r.push_back(double(hash_str(slurp(file + ".vtu")) >> 20)); break; }
#if KIND == 3 || KIND == 9
    case 4: { Mesh out; vg::cell_refine_uniformly(m, out); r.push_back(double(vg::cells(out).size())); r.push_back(vg::volume(static_cast<Mesh const &>(out))); break; }
    case 5: { Mesh out; Segmentation os(out); vg::cell_refine_uniformly(m, *s.sg, out, os); for (int k : s.sid) r.push_back(double(vg::cells(os(k)).size())); break; }
#else
    case 4: case 5: r.push_back(double(vg::vertices(m).size())); { typedef vg::result_of::const_vertex_range<Mesh>::type R; R v(m); for (std::size_t i = 0; i < v.size(); ++i) put(r, vg::point(v[i])); } break;
#endif
    case 6: { Hull h; vg::extract_boundary(m, h); r.push_back(double(vg::cells(h).size())); r.push_back(double(vg::vertices(h).size())); r.push_back(vg::volume(static_cast<Hull const &>(h))); break; }
#if KIND == 3 || KIND == 9 || KIND == 5
    case 7:
    {
      typedef vg::result_of::const_cell_handle<Mesh>::type CCH; typedef vg::result_of::voronoi_cell_contribution<CCH>::type C; std::deque<double> ia, vb, eb; std::deque<C> iac, vbc, ebc;
      vg::result_of::accessor<std::deque<double>, Line>::type A(ia), E(eb); vg::result_of::accessor<std::deque<double>, Vertex>::type V(vb); vg::result_of::accessor<std::deque<C>, Line>::type AC(iac), EC(ebc); vg::result_of::accessor<std::deque<C>, Vertex>::type VC(vbc);
      vg::apply_voronoi<Cell>(m, A, AC, V, VC, E, EC); for (double x : ia) r.push_back(x); for (double x : vb) r.push_back(x); for (double x : eb) r.push_back(x); break;
    }
#endif
    case 8: { std::vector<double> q(s.vdata.size()); vg::result_of::accessor<std::vector<double> const, Vertex>::type a(s.vdata); std::map<vg::result_of::id<Cell>::type, double> out; Set_ st; st.m = &out; Any any; vg::quantity_transfer<Vertex, Cell>(m, a, st, Avg(), any, any); for (auto const & x : out) { r.push_back(double(x.first.get())); r.push_back(x.second); } break; }
    case 9: { vg::io::opendx_writer<Mesh> w; vg::result_of::accessor<std::vector<double> const, Vertex>::type a(s.vdata); w.add_scalar_data_on_vertices(a, "v"); w(m, file + ".dx"); r.push_back(double(hash_str(slurp(file + ".dx")) >> 20)); break; }
    case 10: { vg::io::vmesh_writer<Mesh> w; w(m, *s.sg, "in", file + ".vmesh"); r.push_back(double(hash_str(slurp(file + ".vmesh")) >> 20)); break; }
    default: { Mesh c(m); vg::scale(c, 2.0, vg::centroid(m)); put(r, vg::bounding_box(c).first); r.push_back(vg::surface(static_cast<Mesh const &>(c))); }
  }
  return r;
}
#endif

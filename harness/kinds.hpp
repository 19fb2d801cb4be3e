// Binding of the library-independent model to one concrete ViennaGrid mesh type,
// selected with -DKIND=<enumerator>.
#ifndef VH_KINDS_HPP
#define VH_KINDS_HPP
#include "gen.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/point.hpp"
namespace vg = viennagrid;

template<int K> struct MeshOf;
template<> struct MeshOf<LINE1> { typedef vg::line_1d_mesh type; };
template<> struct MeshOf<LINE2> { typedef vg::line_2d_mesh type; };
template<> struct MeshOf<LINE3> { typedef vg::line_3d_mesh type; };
template<> struct MeshOf<TRI2>  { typedef vg::triangular_2d_mesh type; };
template<> struct MeshOf<TRI3>  { typedef vg::triangular_3d_mesh type; };
template<> struct MeshOf<QUAD2> { typedef vg::quadrilateral_2d_mesh type; };
template<> struct MeshOf<QUAD3> { typedef vg::quadrilateral_3d_mesh type; };
template<> struct MeshOf<POLY2> { typedef vg::polygonal_2d_mesh type; };
template<> struct MeshOf<POLY3> { typedef vg::polygonal_3d_mesh type; };
template<> struct MeshOf<TET3>  { typedef vg::tetrahedral_3d_mesh type; };
template<> struct MeshOf<HEX3>  { typedef vg::hexahedral_3d_mesh type; };

template<int D> struct MkPoint;
template<> struct MkPoint<1> { template<class P> static P mk(P3 const & q) { return P(q[0]); } };
template<> struct MkPoint<2> { template<class P> static P mk(P3 const & q) { return P(q[0], q[1]); } };
template<> struct MkPoint<3> { template<class P> static P mk(P3 const & q) { return P(q[0], q[1], q[2]); } };

template<class PT> P3 to_p3(PT const & p) { P3 q = {{0,0,0}}; for (std::size_t i = 0; i < p.size(); ++i) q[i] = p[i]; return q; }

// vertex ids of an element in stored order
template<class E> IV vids(E const & e)
{
  typedef typename vg::result_of::const_vertex_range<E>::type R;
  R r(e); IV v;
  for (typename vg::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) v.push_back(int((*it).id().get()));
  return v;
}

template<class W> IV vids(vg::element<vg::vertex_tag, W> const & v) { return IV{int(v.id().get())}; }

#ifdef KIND
typedef MeshOf<KIND>::type Mesh;
typedef vg::result_of::point<Mesh>::type Point;
typedef vg::result_of::cell_tag<Mesh>::type CellTag;
typedef vg::result_of::facet_tag<CellTag>::type FacetTag;
typedef vg::result_of::cell<Mesh>::type Cell;
typedef vg::result_of::vertex<Mesh>::type Vertex;
typedef vg::result_of::vertex_handle<Mesh>::type VH;
typedef vg::result_of::cell_handle<Mesh>::type CH;
typedef vg::result_of::segmentation<Mesh>::type Segmentation;
typedef vg::result_of::segment_handle<Segmentation>::type Segment;
inline Point mkpt(P3 const & q) { return MkPoint<vg::result_of::static_size<Point>::value>::mk<Point>(q); }

// compile-time tag of dimension d within the cell
template<class T> struct tdim_of { enum { value = T::dim }; };

struct Built { std::vector<VH> v; std::vector<CH> c; };

// vertex i of the model gets id i; in every fourth case the vertices are not created in the order of their ids
inline void add_vertices(Mesh & mesh, Model const & m, Built & b, bool any_order = true)
{
  Rng r(mix(uint64_t(mon().cur), 0x77)); std::size_t n = m.p.size();
  if (any_order && mon().cur % 4 == 1 && vg::vertices(mesh).empty())
  {
    std::vector<int> o; for (std::size_t i = 0; i < n; ++i) o.push_back(int(i)); r.shuffle(o);
    b.v.resize(n); for (int i : o) b.v[i] = vg::make_vertex_with_id(mesh, Vertex::id_type(i), mkpt(m.p[i]));
    return;
  }
  for (std::size_t i = 0; i < n; ++i) b.v.push_back(vg::make_vertex(mesh, mkpt(m.p[i])));
}

// cells are made through make_cell, make_element or the function named after the shape, depending on their vertices
template<class MS> CH add_cell(MS & ms, std::vector<VH> const & vh, IV const & c)
{
  std::vector<VH> h; int sum = 0; for (int x : c) { h.push_back(vh[x]); sum += x; }
  if (sum % 5 == 0) return vg::make_element<Cell>(ms, h.begin(), h.end());
  if (sum % 5 == 1) return vg::make_element<CellTag>(ms, h.begin(), h.end());
#if KIND <= 2
  if (sum % 5 == 2) return vg::make_line(ms, h[0], h[1]); if (sum % 5 == 3) return vg::make_edge(ms, h[0], h[1]);
#elif KIND <= 4
  if (sum % 5 <= 3) return vg::make_triangle(ms, h[0], h[1], h[2]);
#elif KIND <= 6
  if (sum % 5 <= 3) return vg::make_quadrilateral(ms, h[0], h[1], h[2], h[3]);
#elif KIND == 9
  if (sum % 5 <= 3) return vg::make_tetrahedron(ms, h[0], h[1], h[2], h[3]);
#elif KIND == 10
  if (sum % 5 <= 3) return vg::make_hexahedron(ms, h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]);
#endif
  return vg::make_cell(ms, h.begin(), h.end());
}
inline Built build(Mesh & mesh, Model const & m, bool any_order = true)
{
  Built b; add_vertices(mesh, m, b, any_order);
  for (IV const & c : m.c) b.c.push_back(add_cell(mesh, b.v, c));
  return b;
}

// iterate "for every boundary dimension 1..tdim-1" at compile time: Op<Tag>::run(args...)
#if KIND <= 2
#define FOR_LOWER(OP, ...) do {} while (0)
#define FOR_ALL_BELOW_CELL(OP, ...) OP<vg::vertex_tag>(__VA_ARGS__)
#elif KIND <= 8
#define FOR_LOWER(OP, ...) OP<vg::line_tag>(__VA_ARGS__)
#define FOR_ALL_BELOW_CELL(OP, ...) do { OP<vg::vertex_tag>(__VA_ARGS__); OP<vg::line_tag>(__VA_ARGS__); } while (0)
#else
#define FOR_LOWER(OP, ...) do { OP<vg::line_tag>(__VA_ARGS__); OP<FacetTag>(__VA_ARGS__); } while (0)
#define FOR_ALL_BELOW_CELL(OP, ...) do { OP<vg::vertex_tag>(__VA_ARGS__); OP<vg::line_tag>(__VA_ARGS__); OP<FacetTag>(__VA_ARGS__); } while (0)
#endif
#define FOR_ALL(OP, ...) do { FOR_ALL_BELOW_CELL(OP, __VA_ARGS__); OP<CellTag>(__VA_ARGS__); } while (0)

#endif // KIND
#endif

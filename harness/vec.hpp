// Small vector algebra of the oracles (independent of the library).
#ifndef VH_VEC_HPP
#define VH_VEC_HPP
#include "gen.hpp"
inline P3 operator-(P3 a, P3 const & b) { for (int i = 0; i < 3; ++i) a[i] -= b[i]; return a; }
inline P3 operator+(P3 a, P3 const & b) { for (int i = 0; i < 3; ++i) a[i] += b[i]; return a; }
inline P3 operator*(double f, P3 a) { for (int i = 0; i < 3; ++i) a[i] *= f; return a; }
inline double dot(P3 const & a, P3 const & b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
inline P3 cross(P3 const & a, P3 const & b) { return P3{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
inline double len(P3 const & a) { return std::sqrt(dot(a, a)); }
inline std::string show(P3 const & p) { std::ostringstream o; o.precision(17); o << "(" << p[0] << "," << p[1] << "," << p[2] << ")"; return o.str(); }
inline std::string show(std::vector<P3> const & v) { std::string s; for (P3 const & p : v) s += show(p); return s; }
#endif

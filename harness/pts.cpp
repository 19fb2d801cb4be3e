// C17: point algebra, norms and products in Cartesian, polar, spherical and cylindrical coordinates.
#include "vec.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/point.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
namespace vg = viennagrid;

template<class PT> P3 raw(PT const & p) { P3 q = {{0,0,0}}; for (std::size_t i = 0; i < p.size() && i < 3; ++i) q[i] = double(p[i]); return q; }
// oracle conversions to Cartesian coordinates
template<int d> P3 cart(P3 const & p, vg::cartesian_cs<d>) { return p; }
static P3 cart(P3 const & p, vg::polar_cs) { return P3{{p[0] * std::cos(p[1]), p[0] * std::sin(p[1]), 0}}; }
static P3 cart(P3 const & p, vg::spherical_cs) { return P3{{p[0] * std::sin(p[1]) * std::cos(p[2]), p[0] * std::sin(p[1]) * std::sin(p[2]), p[0] * std::cos(p[1])}}; }
static P3 cart(P3 const & p, vg::cylindrical_cs) { return P3{{p[0] * std::cos(p[1]), p[0] * std::sin(p[1]), p[2]}}; }
template<class PT> P3 C(PT const & p) { return cart(raw(p), typename vg::result_of::coordinate_system<PT>::type()); }

template<class PT, int D = PT::dim> struct Mk;
template<class PT> struct Mk<PT, 1> { static PT mk(P3 const & q) { return PT(q[0]); } };
template<class PT> struct Mk<PT, 2> { static PT mk(P3 const & q) { return PT(q[0], q[1]); } };
template<class PT> struct Mk<PT, 3> { static PT mk(P3 const & q) { return PT(q[0], q[1], q[2]); } };

static double SC, EPS;
static double some(Rng & r, double s) { int k = r.below(8); return k == 0 ? 0.0 : k == 1 ? s : k == 2 ? -s : s * r.real(-1, 1); }
static double ang(Rng & r) { int k = r.below(12); static const double sp[] = {0, M_PI / 2, -M_PI / 2, M_PI, -M_PI + 1e-12, M_PI / 4, 3 * M_PI / 4}; return k < 7 ? sp[k] : r.real(-M_PI, M_PI); }
template<int d> P3 rnd(Rng & r, double s, vg::cartesian_cs<d>) { P3 p = {{0,0,0}}; for (int i = 0; i < d && i < 3; ++i) p[i] = some(r, s); return p; }
static P3 rnd(Rng & r, double s, vg::polar_cs) { return P3{{std::fabs(some(r, s)), ang(r), 0}}; }
static P3 rnd(Rng & r, double s, vg::spherical_cs) { double th = r.chance(0.3) ? (r.chance(0.5) ? 0 : M_PI) : r.real(0, M_PI); return P3{{std::fabs(some(r, s)), th, ang(r)}}; }
static P3 rnd(Rng & r, double s, vg::cylindrical_cs) { return P3{{std::fabs(some(r, s)), ang(r), some(r, s)}}; }
template<class PT> PT make(Rng & r, double s)
{
  typedef typename vg::result_of::coord<PT>::type T; P3 q = rnd(r, s, typename vg::result_of::coordinate_system<PT>::type()); PT p = Mk<PT>::mk(q); PT const & cp = p;
  for (int i = 0; i < int(PT::dim) && i < 3; ++i) CHECK(p[i] == T(q[i]) && cp[i] == T(q[i]) && p.at(i) == T(q[i]), "constructor", "coordinate " << i << " is " << p[i] << ", constructed with " << q[i]);
  return p;
}

// round trip through an angle loses precision near the axis of spherical coordinates: acos(z/r)
static double lim(P3 const & c, bool spherical) { double n = len(c), sn = std::sqrt(c[0]*c[0] + c[1]*c[1]); if (!spherical || n == 0) return EPS * (SC + n); double st = std::max(sn / n, std::sqrt(EPS)); return EPS * SC + EPS * n / st; }
template<class PT> bool sph() { return std::is_same<typename vg::result_of::coordinate_system<PT>::type, vg::spherical_cs>::value; }
#define CMP(got, want, sig) do { P3 vg_g = C(got), vg_w = (want); CHECK(len(vg_g - vg_w) <= lim(vg_w, sph<decltype(got)>()), sig, #got << " = " << show(raw(got)) << " means " << show(vg_g) << " expected " << show(vg_w)); } while (0)

template<class PT> void one(Rng & r, const char * name)
{
  double s = SC; PT a = make<PT>(r, s), b = r.chance(0.1) ? a : make<PT>(r, s); P3 A = C(a), B = C(b); double f = r.chance(0.2) ? -1 : r.real(-3, 3); if (std::fabs(f) < 0.1) f = 0.5;
  typedef typename vg::result_of::coord<PT>::type T; T ft = T(f); f = double(ft);
  PT z; CHECK(len(raw(z)) == 0, "default-point", name << " default point is " << show(raw(z)));
  PT s1 = a + b; CMP(s1, A + B, "add"); PT s2 = a; s2 += b; CMP(s2, A + B, "add-assign"); PT d1 = a - b; CMP(d1, A - B, "subtract"); PT d2 = a; d2 -= b; CMP(d2, A - B, "subtract-assign");
  PT n = -a; CMP(n, -1.0 * A, "negate"); PT m1 = a * ft; CMP(m1, f * A, "multiply"); PT m2 = a; m2 *= ft; CMP(m2, f * A, "multiply-assign"); PT m3 = f * a; CMP(m3, f * A, "multiply-left"); PT q1 = a / ft; CMP(q1, (1 / f) * A, "divide"); PT q2 = a; q2 /= ft; CMP(q2, (1 / f) * A, "divide-assign");
  PT sa = a; sa += sa; CMP(sa, 2.0 * A, "self-add"); PT sb = a; sb -= sb; CMP(sb, 0.0 * A, "self-subtract");
  CHECK(a == a && !(a != a), "point-equal", name); PT cp(a); CHECK(cp == a, "copy", name); cp = b; CHECK(cp == b, "assign", name);
  double t = EPS * (SC + len(A)) * 4; CHECK(std::fabs(vg::norm_1(a) - (std::fabs(A[0]) + std::fabs(A[1]) + std::fabs(A[2]))) <= t && std::fabs(vg::norm_2(a) - len(A)) <= t && std::fabs(vg::norm_inf(a) - std::max(std::fabs(A[0]), std::max(std::fabs(A[1]), std::fabs(A[2])))) <= t, "norms", name << " norms of " << show(A) << " are " << vg::norm_1(a) << " " << vg::norm_2(a) << " " << vg::norm_inf(a));
  CHECK(vg::norm(a) == vg::norm_2(a) && vg::norm(a, vg::one_norm_tag()) == vg::norm_1(a) && vg::norm(a, vg::two_norm_tag()) == vg::norm_2(a) && vg::norm(a, vg::inf_norm_tag()) == vg::norm_inf(a), "norm-tags", name);
  auto c = vg::to_cartesian(a); CHECK(len(raw(c) - A) <= t, "to-cartesian", name << " " << show(raw(c)) << " expected " << show(A));
  PT lo = vg::min(a, b), hi = vg::max(a, b); bool less = false, dec = false; for (std::size_t i = 0; i < a.size(); ++i) { CHECK(lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]), "min-max", name); if (!dec && a[i] != b[i]) { less = a[i] < b[i]; dec = true; } } vg::point_less pl; CHECK(pl(a, b) == less && (!less || !pl(b, a)), "point-less", name << " " << show(raw(a)) << show(raw(b)));
  mon().hit(std::string("algebra-") + name); uint64_t h = 1; for (double x : raw(a)) { uint64_t u; memcpy(&u, &x, 8); h = mix(h, u); } mon().state(h);
}
template<class P1, class P2> void pair2(Rng & r, const char * name)
{
  P1 a = make<P1>(r, SC); P2 b = make<P2>(r, SC); P3 A = C(a), B = C(b); double t = EPS * 8 * (SC * SC + len(A) * len(B));
  CHECK(std::fabs(vg::inner_prod(a, b) - dot(A, B)) <= t && std::fabs(vg::inner_prod(b, a) - dot(A, B)) <= t, "inner-product", name << " " << vg::inner_prod(a, b) << " expected " << dot(A, B) << " of " << show(A) << show(B));
  double L = len(A - B); CHECK(std::fabs(vg::spanned_volume(a, b) - L) <= EPS * 8 * (SC + L), "spanned-volume-2", name << " " << vg::spanned_volume(a, b) << " expected " << L);
  mon().hit(std::string("mixed-") + name);
}
template<class PT> void flat_cross(Rng & r) { PT a = make<PT>(r, SC), b = make<PT>(r, SC); CHECK(len(raw(vg::cross_prod(a, b))) == 0, "flat-cross-product", show(raw(vg::cross_prod(a, b)))); mon().hit("flat-cross-products"); }
template<class P1, class P2> void pair3(Rng & r, const char * name)
{
  pair2<P1, P2>(r, name); P1 a = make<P1>(r, SC); P2 b = make<P2>(r, SC); P1 c = make<P1>(r, SC); P2 d = make<P2>(r, SC); P3 A = C(a), B = C(b), K = C(c), D = C(d);
  auto x = vg::cross_prod(a, b); P3 W = cross(A, B); double q = len(W), nab = len(A) * len(B); double st = 1; if (sph<P1>() && q > 0) st = std::max(std::sqrt(W[0]*W[0] + W[1]*W[1]) / q, std::sqrt(EPS));
  CHECK(len(C(x) - W) <= EPS * 16 * (SC * SC + nab) / st, "cross-product", name << " " << show(C(x)) << " expected " << show(W));
  double ar = 0.5 * len(cross(B - A, K - A)); CHECK(std::fabs(vg::spanned_volume(a, b, c) - ar) <= EPS * 16 * SC * SC * 16, "spanned-volume-3", name << " " << vg::spanned_volume(a, b, c) << " expected " << ar);
  double v = dot(B - A, cross(K - A, D - A)) / 6; CHECK(std::fabs(vg::signed_spanned_volume(a, b, c, d) - v) <= EPS * 64 * SC * SC * SC * 8, "spanned-volume-4", name << " " << vg::signed_spanned_volume(a, b, c, d) << " expected " << v);
}
template<class P1, class P2> void conv(Rng & r, const char * name)
{
  P1 a = make<P1>(r, SC); P3 A = C(a); P2 b(a); CMP(b, A, "conversion"); P2 c; c = a; CMP(c, A, "converting-assignment"); P1 back(b); P3 K = C(back); CHECK(len(K - A) <= 2 * lim(A, sph<P1>() || sph<P2>()), "round-trip", name << " " << show(K) << " expected " << show(A)); mon().hit(std::string("convert-") + name);
}
template<int N> void highdim(Rng & r)
{
  typedef vg::spatial_point<double, vg::cartesian_cs<N> > PT; PT a, b; double n1 = 0, n2 = 0, ni = 0; for (int i = 0; i < N; ++i) { CHECK(a[i] == 0, "default-point", "dimension " << N << " entry " << i); a[i] = some(r, SC); b[i] = some(r, SC); n1 += std::fabs(a[i]); n2 += a[i] * a[i]; ni = std::max(ni, std::fabs(a[i])); }
  PT s = a + b, d = a - b, m = a * 2.0, q = -a; for (int i = 0; i < N; ++i) CHECK(s[i] == a[i] + b[i] && d[i] == a[i] - b[i] && m[i] == 2 * a[i] && q[i] == -a[i], "componentwise", "dimension " << N);
  CHECK(near(vg::norm_1(a), n1, 1e-14, 0) && near(vg::norm_2(a), std::sqrt(n2), 1e-14, 0) && vg::norm_inf(a) == ni, "norms", "dimension " << N); mon().hit("high-dimension");
}
void run_case(Rng & r, long)
{
  using namespace vg; SC = std::pow(10.0, r.real(-6, 6)); EPS = 2e-15;
  typedef spatial_point<double, cartesian_cs<1> > C1; typedef spatial_point<double, cartesian_cs<2> > C2; typedef spatial_point<double, cartesian_cs<3> > C3; typedef spatial_point<double, polar_cs> PO; typedef spatial_point<double, spherical_cs> SP; typedef spatial_point<double, cylindrical_cs> CY;
  one<C1>(r, "cartesian1"); one<C2>(r, "cartesian2"); one<C3>(r, "cartesian3"); one<PO>(r, "polar"); one<SP>(r, "spherical"); one<CY>(r, "cylindrical");
  pair2<C1, C1>(r, "c1-c1"); pair2<C2, C2>(r, "c2-c2"); pair2<C2, PO>(r, "c2-polar"); pair2<PO, C2>(r, "polar-c2"); pair2<PO, PO>(r, "polar-polar");
  pair3<C3, C3>(r, "c3-c3"); pair3<C3, SP>(r, "c3-spherical"); pair3<C3, CY>(r, "c3-cylindrical"); pair3<SP, C3>(r, "spherical-c3"); pair3<SP, SP>(r, "spherical-spherical"); pair3<SP, CY>(r, "spherical-cylindrical"); pair3<CY, CY>(r, "cylindrical-cylindrical"); pair3<CY, SP>(r, "cylindrical-spherical"); pair3<CY, C3>(r, "cylindrical-c3");
  { // signed areas in the plane
    C2 a = make<C2>(r, SC), b = make<C2>(r, SC); PO c = make<PO>(r, SC); P3 A = C(a), B = C(b), K = C(c); double w = 0.5 * cross(B - A, K - A)[2]; CHECK(std::fabs(signed_spanned_volume(a, b, c) - w) <= EPS * 64 * SC * SC, "signed-area", signed_spanned_volume(a, b, c) << " expected " << w); }
  conv<C2, PO>(r, "c2-polar"); conv<PO, C2>(r, "polar-c2"); conv<C3, SP>(r, "c3-spherical"); conv<SP, C3>(r, "spherical-c3"); conv<C3, CY>(r, "c3-cylindrical"); conv<CY, C3>(r, "cylindrical-c3"); conv<SP, CY>(r, "spherical-cylindrical"); conv<CY, SP>(r, "cylindrical-spherical");
  flat_cross<C1>(r); flat_cross<C2>(r); highdim<4>(r); highdim<5>(r); highdim<7>(r);
  EPS = 2e-6; typedef spatial_point<float, cartesian_cs<3> > F3; typedef spatial_point<float, polar_cs> FP; one<F3>(r, "float3"); one<FP>(r, "float-polar"); pair3<F3, F3>(r, "float3"); conv<FP, spatial_point<float, cartesian_cs<2> > >(r, "float");
}

// File helpers of the I/O monitors: scratch files, a small independent XML/VTK parser, number formatting, input mutation.
#ifndef VH_IOTOOLS_HPP
#define VH_IOTOOLS_HPP
#include "gen.hpp"
#include <fstream>
#include <dirent.h>
#include <sys/stat.h>

struct Scratch   // directory of one case, removed with its files afterwards
{
  std::string dir;
  Scratch() { dir = mon().scratch + "/io_" + std::to_string(getpid()); wipe(); mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); }
  ~Scratch() { wipe(); }
  void wipe_dir(std::string const & d) { if (DIR * h = opendir(d.c_str())) { while (dirent * e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); } closedir(h); } }
  void wipe() { wipe_dir(dir + "/sub"); rmdir((dir + "/sub").c_str()); wipe_dir(dir); rmdir(dir.c_str()); }
  std::string path(std::string const & n) const { return dir + "/" + n; }
};
inline std::string slurp(std::string const & f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(std::string const & f, std::string const & s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }
inline bool exists(std::string const & f) { struct stat st; return stat(f.c_str(), &st) == 0; }
inline std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

struct Tag { std::string name; std::map<std::string, std::string> attr; std::string text; };   // flat list of tags in order of appearance
inline std::vector<Tag> parse_xml(std::string const & s)
{
  std::vector<Tag> t; std::size_t i = 0;
  while ((i = s.find('<', i)) != std::string::npos)
  {
    std::size_t e = i + 1; bool q = false; while (e < s.size() && (q || s[e] != '>')) { if (s[e] == '"') q = !q; ++e; }
    CHECK(e < s.size(), "xml-unterminated", "tag not closed at offset " << i);
    std::string b = s.substr(i + 1, e - i - 1); Tag g; std::size_t k = 0; while (k < b.size() && !isspace(b[k])) ++k; g.name = b.substr(0, k);
    while (k < b.size())
    {
      while (k < b.size() && (isspace(b[k]) || b[k] == '/' || b[k] == '?')) ++k;
      if (k >= b.size()) break;
      std::size_t eq = b.find("=\"", k); CHECK(eq != std::string::npos, "xml-attribute", "malformed tag " << b); std::size_t en = b.find('"', eq + 2); CHECK(en != std::string::npos, "xml-attribute", "malformed tag " << b);
      g.attr[b.substr(k, eq - k)] = b.substr(eq + 2, en - eq - 2); k = en + 1;
    }
    std::size_t nx = s.find('<', e); g.text = s.substr(e + 1, (nx == std::string::npos ? s.size() : nx) - e - 1); t.push_back(g); i = e;
  }
  return t;
}
inline std::vector<double> numbers(std::string const & s) { std::istringstream i(s); std::vector<double> v; std::string t; while (i >> t) { char * e; double x = strtod(t.c_str(), &e); CHECK(*e == 0, "not-a-number", "token " << t); v.push_back(x); } return v; }

struct Arr { std::string name; int comp; std::vector<double> v; };
struct Vtu { std::vector<P3> p; std::vector<IV> c; IV types; std::vector<Arr> pd, cd; };
inline Vtu parse_vtu(std::string const & text)
{
  std::vector<Tag> t = parse_xml(text); Vtu u; std::string sec; std::vector<std::string> open; int np = -1, nc = -1; std::vector<double> con, off, typ, pts; bool piece = false;
  for (Tag const & g : t)
  {
    if (g.name[0] == '?') continue;
    if (g.name[0] == '/') { CHECK(!open.empty() && open.back() == g.name.substr(1), "xml-nesting", "unexpected </" << g.name.substr(1) << ">"); open.pop_back(); sec = ""; continue; }
    std::string par = open.empty() ? "" : open.back(); open.push_back(g.name);
    if (g.name == "VTKFile") CHECK(g.attr.count("type") && g.attr.at("type") == "UnstructuredGrid", "vtu-type", "type attribute");
    if (g.name == "Piece") { np = atoi(g.attr.at("NumberOfPoints").c_str()); nc = atoi(g.attr.at("NumberOfCells").c_str()); piece = true; }
    if (g.name != "DataArray") continue;
    std::vector<double> v = numbers(g.text); int comp = g.attr.count("NumberOfComponents") ? atoi(g.attr.at("NumberOfComponents").c_str()) : 1;
    CHECK(g.attr.count("format") && g.attr.at("format") == "ascii", "vtu-format", "format attribute");
    if (par == "Points") { CHECK(comp == 3, "vtu-points", "components"); pts = v; }
    else if (par == "Cells") { std::string n = g.attr.at("Name"); (n == "connectivity" ? con : n == "offsets" ? off : typ) = v; CHECK(n == "connectivity" || n == "offsets" || n == "types", "vtu-cells", n); }
    else if (par == "PointData" || par == "CellData") { Arr a; a.name = g.attr.at("Name"); a.comp = comp; a.v = v; (par == "PointData" ? u.pd : u.cd).push_back(a); }
    else CHECK(false, "vtu-structure", "data array inside " << par);
  }
  CHECK(open.empty() && piece, "vtu-structure", "unbalanced file");
  CHECK(int(pts.size()) == 3 * np && int(off.size()) == nc && int(typ.size()) == nc, "vtu-counts", np << " points announced, " << pts.size() << " coordinates; " << nc << " cells announced, " << off.size() << " offsets, " << typ.size() << " types");
  for (int i = 0; i < np; ++i) u.p.push_back(P3{{pts[3*i], pts[3*i+1], pts[3*i+2]}});
  int from = 0; for (int i = 0; i < nc; ++i) { int to = int(off[i]); CHECK(to >= from && to <= int(con.size()), "vtu-offsets", "offset " << to); IV c; for (int j = from; j < to; ++j) { CHECK(con[j] >= 0 && con[j] < np, "vtu-index", "point index " << con[j] << " of " << np); c.push_back(int(con[j])); } u.c.push_back(c); u.types.push_back(int(typ[i])); from = to; }
  CHECK(from == int(con.size()), "vtu-connectivity", "connectivity has " << con.size() << " entries, offsets cover " << from);
  for (Arr const & a : u.pd) CHECK(int(a.v.size()) == a.comp * np, "vtu-pointdata", a.name << " has " << a.v.size() << " values for " << np << " points");
  for (Arr const & a : u.cd) CHECK(int(a.v.size()) == a.comp * nc, "vtu-celldata", a.name << " has " << a.v.size() << " values for " << nc << " cells");
  return u;
}

// Find the model point with these coordinates (15 significant digits survive a text file).
inline int match(std::vector<P3> const & p, P3 const & q, int gdim)
{
  int hit = -1;
  if (p.size() > 2000)
  { // sorted by the first coordinate
    static std::vector<P3> of; static std::vector<std::pair<double,int> > o; if (of.size() != p.size() || of.front() != p.front() || of.back() != p.back() || of[p.size() / 2] != p[p.size() / 2]) { of = p; o.clear(); for (std::size_t i = 0; i < p.size(); ++i) o.push_back(std::make_pair(p[i][0], int(i))); std::sort(o.begin(), o.end()); }
    double t = 1e-14 * std::fabs(q[0]);
    for (auto it = std::lower_bound(o.begin(), o.end(), std::make_pair(q[0] - t, -1)); it != o.end() && it->first <= q[0] + t; ++it) { bool ok = true; for (int d = 0; d < gdim && ok; ++d) ok = std::fabs(p[it->second][d] - q[d]) <= 8e-15 * std::max(std::fabs(p[it->second][d]), std::fabs(q[d])); if (ok) { CHECK(hit < 0, "ambiguous-point", "oracle: two model points coincide"); hit = it->second; } }
    return hit;
  }
  for (std::size_t i = 0; i < p.size(); ++i) { bool ok = true; for (int d = 0; d < gdim && ok; ++d) ok = std::fabs(p[i][d] - q[d]) <= 8e-15 * std::max(std::fabs(p[i][d]), std::fabs(q[d])); if (ok) { CHECK(hit < 0, "ambiguous-point", "oracle: two model points coincide"); hit = int(i); } }
  return hit;
}
inline bool same15(double a, double b) { return std::fabs(a - b) <= 8e-15 * std::max(std::fabs(a), std::fabs(b)); }

// Hostile edits of a text file: truncation, removed / duplicated / replaced tokens and lines, flipped bytes.
inline std::string mutate(Rng & r, std::string s, std::string & what)
{
  auto token = [&](std::size_t & b, std::size_t & e) { if (s.empty()) { b = e = 0; return; } std::size_t i = r.below(int(s.size())); while (i > 0 && !isspace((unsigned char)s[i - 1]) && s[i-1] != '"') --i; b = i; e = i; while (e < s.size() && !isspace((unsigned char)s[e]) && s[e] != '"') ++e; };
  static const char * junk[] = {"-1", "0", "1", "7", "999", "100000", "4294967295", "99999999999999999999", "-99999999999", "abc", "nan", "1e999", "3.5", "", "<", ">", "\"", "=", "</DataArray>", "</Piece>", "#", "{", "}", "[", "]", "(", ")"};
  int n = r.chance(0.7) ? 1 : r.range(2, 4);
  for (int k = 0; k < n; ++k)
  {
    std::size_t b, e; token(b, e);
    switch (r.below(6))
    {
      case 0: s.erase(b, e - b); what += "removed-token "; break;
      case 1: s.insert(e, " " + s.substr(b, e - b)); what += "doubled-token "; break;
      case 2: case 3: s.replace(b, e - b, junk[r.below(int(sizeof junk / sizeof *junk))]); what += "replaced-token "; break;
      case 4: { std::size_t l = s.find('\n', b); if (l == std::string::npos) l = s.size(); std::size_t f = s.rfind('\n', b); f = f == std::string::npos ? 0 : f; if (l > f) { if (r.chance(0.5)) s.erase(f, l - f); else s.insert(l, s.substr(f, l - f)); } what += "edited-line "; break; }
      default: if (!s.empty()) { s[r.below(int(s.size()))] = char(r.chance(0.7) ? r.range(32, 126) : r.below(256)); } what += "changed-byte ";
    }
  }
  return s;
}
#endif

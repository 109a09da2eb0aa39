// P15: the C interface: PLC histories against a model, tessellations equal to the C++ ones, lifecycles, printing.
#include "tess.hh"
#include "mesh3.hh"
#include "polytope_c.h"
#include <sstream>
using namespace tess;
typedef std::vector<std::vector<int> > Facets;
struct PlcModel { int dim; Facets facets; std::vector<Facets> holes; };
static std::string text(const PlcModel& m) { std::ostringstream s; if (m.dim == 2) { polytope::PLC<2, double> p; p.facets = m.facets; p.holes = m.holes; s << p; } else { polytope::PLC<3, double> p; p.facets = m.facets; p.holes = m.holes; s << p; } return s.str(); }
// What is printed into a string is a terminated prefix of what is printed to a file, and fits.
template<class F, class G> static void printing(Src& s, Case& c, const std::string& want, F toString, G toFile, const char* what) {
  const int n = s.chance(1, 3) ? (int)want.size() + s.range(-2, 3) : s.range(1, 400); if (n < 1) return; std::vector<char> buf(n + 16, 'x'); toString(&buf[0], n);
  size_t len = 0; while (len < (size_t)n && buf[len]) ++len; PBT_CHECK(len < (size_t)n, "print-string", what << ": no terminator within " << n << " characters"); for (int i = 0; i != 16; ++i) PBT_CHECK(buf[n + i] == 'x', "print-string", what << ": wrote behind the " << n << " characters it was given");
  PBT_CHECK(std::string(&buf[0]) == want.substr(0, n - 1), "print-string", what << ": printed " << len << " characters '" << std::string(&buf[0]).substr(0, 60) << "', expected the first " << std::min(want.size(), (size_t)n - 1) << " of '" << want.substr(0, 60) << "'");
  const std::string name = c.scratch + "/print"; FILE* f = fopen(name.c_str(), "w+"); if (!f) throw std::runtime_error("scratch"); toFile(f); long end = ftell(f); rewind(f); std::string got(end, 0); size_t r = fread(&got[0], 1, end, f); fclose(f); std::remove(name.c_str());
  PBT_CHECK((long)r == end && got == want, "print-file", what << ": printed " << end << " characters '" << got.substr(0, 60) << "', expected " << want.size());
}
static void compare(polytope_plc_t* p, const PlcModel& m) {
  bool ok = true; for (auto& f : m.facets) ok = ok && (m.dim == 2 ? f.size() == 2 : f.size() >= 3); for (auto& h : m.holes) for (auto& f : h) ok = ok && (m.dim == 2 ? f.size() == 2 : f.size() >= 3);
  PBT_CHECK(polytope_plc_valid(p) == ok, "plc", "valid is " << polytope_plc_valid(p) << ", expected " << ok); PBT_CHECK(polytope_plc_empty(p) == (m.facets.empty() && m.holes.empty()), "plc", "empty is " << polytope_plc_empty(p));
  for (size_t f = 0; f != m.facets.size(); ++f) { int n = polytope_plc_num_facet_nodes(p, f); PBT_CHECK(n == (int)m.facets[f].size(), "plc", "facet " << f << " has " << n << " nodes, expected " << m.facets[f].size()); std::vector<int> v(n + 2, -7); polytope_plc_get_facet_nodes(p, f, &v[1]); PBT_CHECK(v[0] == -7 && v[n + 1] == -7 && std::equal(m.facets[f].begin(), m.facets[f].end(), v.begin() + 1), "plc", "facet " << f << " reads back as " << pbt::str(v)); }
  for (size_t h = 0; h != m.holes.size(); ++h) { PBT_CHECK(polytope_plc_num_hole_facets(p, h) == (int)m.holes[h].size(), "plc", "hole " << h << " has " << polytope_plc_num_hole_facets(p, h) << " facets"); for (size_t f = 0; f != m.holes[h].size(); ++f) { const std::vector<int>& w = m.holes[h][f]; int n = polytope_plc_num_hole_facet_nodes(p, h, f); PBT_CHECK(n == (int)w.size(), "plc", "facet " << f << " of hole " << h << " has " << n << " nodes"); std::vector<int> v(n + 2, -7); polytope_plc_get_hole_facet_nodes(p, h, f, &v[1]); PBT_CHECK(v[0] == -7 && v[n + 1] == -7 && std::equal(w.begin(), w.end(), v.begin() + 1), "plc", "facet " << f << " of hole " << h << " reads back as " << pbt::str(v)); } }
}
static void history(Src& s, Case& c) {
  PlcModel m; m.dim = s.range(2, 3); polytope_plc_t* p = polytope_plc_new(m.dim); struct Free { polytope_plc_t* p; ~Free() { polytope_plc_free(p); } } g = {p}; const int ops = s.range(1, 40); bool cleared = false; size_t most = 0; c.desc << m.dim << "D:";
  for (int i = 0; i != ops; ++i) { switch ((int)s.draw(9)) {
    case 0: case 1: c.desc << " facet"; PBT_CHECK(polytope_plc_add_facet(p) == (int)m.facets.size(), "plc", "a new facet's index is not the number of facets before"); m.facets.push_back(std::vector<int>()); break;
    case 2: case 3: case 4: if (!m.facets.empty()) { int f = (int)s.draw(m.facets.size() - 1), k = s.range(1, 4); for (int q = 0; q != k; ++q) { int n = (int)s.draw(1000); c.desc << " node(" << f << "," << n << ")"; polytope_plc_add_facet_node(p, f, n); m.facets[f].push_back(n); } } break;
    case 5: c.desc << " hole"; PBT_CHECK(polytope_plc_add_hole(p) == (int)m.holes.size(), "plc", "a new hole's index is not the number of holes before"); m.holes.push_back(Facets()); break;
    case 6: if (!m.holes.empty()) { int h = (int)s.draw(m.holes.size() - 1); c.desc << " holefacet(" << h << ")"; PBT_CHECK(polytope_plc_add_hole_facet(p, h) == (int)m.holes[h].size(), "plc", "a new hole facet's index is not the number before"); m.holes[h].push_back(std::vector<int>()); } break;
    case 7: case 8: if (!m.holes.empty()) { int h = (int)s.draw(m.holes.size() - 1); if (!m.holes[h].empty()) { int f = (int)s.draw(m.holes[h].size() - 1), k = s.range(1, 4); for (int q = 0; q != k; ++q) { int n = (int)s.draw(1000); c.desc << " holenode(" << h << "," << f << "," << n << ")"; polytope_plc_add_hole_facet_node(p, h, f, n); m.holes[h][f].push_back(n); } } } break;
    default: if (s.chance(1, 3)) { c.desc << " clear"; polytope_plc_clear(p); m.facets.clear(); m.holes.clear(); cleared = true; } else printing(s, c, text(m), [&](char* b, int n) { polytope_plc_snprintf(p, b, n); }, [&](FILE* f) { polytope_plc_fprintf(p, f); }, "PLC"); }
    most = std::max(most, m.facets.size() + m.holes.size()); if (s.chance(1, 4) || i + 1 == ops) compare(p, m); }
  c.nontrivial = most >= 3; c.label(cleared ? "cleared on the way" : "grown only");
}
typedef polytope_tessellation_t CT;
template<int D> static void equal(const CT* t, const polytope::Tessellation<D, double>& m) {
  PBT_CHECK(t->dimension == D, "mesh", "dimension is " << t->dimension); PBT_CHECK(t->num_nodes*D == (int)m.nodes.size() && std::equal(m.nodes.begin(), m.nodes.end(), t->nodes), "mesh", "nodes differ (" << t->num_nodes << ", C++ has " << m.nodes.size()/D << ")");
  PBT_CHECK(t->num_cells == (int)m.cells.size(), "mesh", t->num_cells << " cells, C++ has " << m.cells.size()); int o = 0; for (size_t i = 0; i != m.cells.size(); ++i) { PBT_CHECK(t->cell_offsets[i] == o, "mesh", "cell offset " << i << " is " << t->cell_offsets[i] << ", expected " << o); PBT_CHECK(std::equal(m.cells[i].begin(), m.cells[i].end(), t->cell_faces + o), "mesh", "faces of cell " << i << " differ"); o += m.cells[i].size(); } PBT_CHECK(t->cell_offsets[m.cells.size()] == o, "mesh", "last cell offset");
  PBT_CHECK(t->num_faces == (int)m.faces.size(), "mesh", t->num_faces << " faces, C++ has " << m.faces.size()); o = 0; for (size_t i = 0; i != m.faces.size(); ++i) { PBT_CHECK(t->face_offsets[i] == o, "mesh", "face offset " << i << " is " << t->face_offsets[i]); PBT_CHECK(std::equal(m.faces[i].begin(), m.faces[i].end(), t->face_nodes + o), "mesh", "nodes of face " << i << " differ"); o += m.faces[i].size(); } PBT_CHECK(t->face_offsets[m.faces.size()] == o, "mesh", "last face offset");
  PBT_CHECK(t->num_boundary_nodes == (int)m.boundaryNodes.size() && std::equal(m.boundaryNodes.begin(), m.boundaryNodes.end(), t->boundary_nodes), "mesh", "boundary nodes differ"); PBT_CHECK(t->num_boundary_faces == (int)m.boundaryFaces.size() && std::equal(m.boundaryFaces.begin(), m.boundaryFaces.end(), t->boundary_faces), "mesh", "boundary faces differ");
  for (size_t i = 0; i != m.faces.size(); ++i) PBT_CHECK(t->face_cells[2*i] == m.faceCells[i][0] && t->face_cells[2*i + 1] == (m.faceCells[i].size() == 2 ? m.faceCells[i][1] : -1), "mesh", "cells of face " << i << " are " << t->face_cells[2*i] << ", " << t->face_cells[2*i + 1] << ", C++ has " << pbt::str(m.faceCells[i]));
  PBT_CHECK(t->num_neighbor_domains == 0 && t->shared_node_domain_offsets[0] == 0 && t->shared_face_domain_offsets[0] == 0, "mesh", "a serial mesh has neighbor domains");
}
// The hull travels as a C PLC.
static void hull(const CT* t, const Mesh2& m) {
  if (m.convexHull.empty()) { PBT_CHECK(!t->convex_hull, "mesh", "a convex hull appears that C++ does not have"); return; } PBT_CHECK(t->convex_hull, "mesh", "the convex hull is missing");
  for (size_t f = 0; f != m.convexHull.facets.size(); ++f) { int n = polytope_plc_num_facet_nodes(t->convex_hull, f); std::vector<int> v(n); polytope_plc_get_facet_nodes(t->convex_hull, f, &v[0]); PBT_CHECK(v == m.convexHull.facets[f], "mesh", "facet " << f << " of the convex hull differs"); }
}
static void blank(const CT* t, int dim) {
  PBT_CHECK(t->dimension == dim, "lifecycle", "dimension is " << t->dimension << " instead of " << dim); PBT_CHECK(!t->num_nodes && !t->num_cells && !t->num_faces && !t->num_boundary_nodes && !t->num_boundary_faces && !t->num_neighbor_domains, "lifecycle", "an empty tessellation counts " << t->num_nodes << " nodes, " << t->num_cells << " cells, " << t->num_faces << " faces, " << t->num_boundary_nodes << " and " << t->num_boundary_faces << " on the boundary");
  PBT_CHECK(!t->nodes && !t->cell_offsets && !t->cell_faces && !t->face_offsets && !t->face_nodes && !t->boundary_nodes && !t->boundary_faces && !t->face_cells && !t->convex_hull && !t->neighbor_domains && !t->shared_node_domain_offsets && !t->shared_nodes && !t->shared_face_domain_offsets && !t->shared_faces && !t->node_cell_offsets && !t->node_cells, "lifecycle", "an empty tessellation holds a pointer to something");
}
// One tessellator, several mesh objects, any order of filling, clearing, printing and freeing.
static void meshes(Src& s, Case& c) {
  polytope_tessellator_t* T = boost_tessellator_new(); struct Free { polytope_tessellator_t* t; std::vector<CT*> m; ~Free() { for (CT* x : m) if (x) polytope_tessellation_free(x); polytope_tessellator_free(t); } } g; g.t = T;
  polytope::BoostTessellator<double> B; const char* name = polytope_tessellator_name(T); PBT_CHECK(name && std::string(name) == B.name(), "tessellator", "the name is '" << std::string(name ? name : "(null)") << "'"); PBT_CHECK(polytope_tessellator_dimension(T) == 2 && polytope_tessellator_handles_plcs(T) == B.handlesPLCs() && polytope_tessellator_degeneracy(T) == B.degeneracy(), "tessellator", "dimension, handling of PLCs or degeneracy differ from C++");
  const int slots = s.range(1, 3), ops = s.range(2, 9); g.m.assign(slots, (CT*)0); std::vector<int> state(slots, 0); int fills = 0; std::vector<std::unique_ptr<Mesh2> > want(slots); std::vector<int> dim(slots, 2);
  for (int i = 0; i != ops; ++i) { const int k = (int)s.draw(slots - 1); CT*& t = g.m[k];
    if (!t) { dim[k] = s.chance(1, 8) ? 3 : 2; c.desc << " new" << k << "(" << dim[k] << ")"; t = polytope_tessellation_new(dim[k]); blank(t, dim[k]); state[k] = 0; want[k].reset(new Mesh2); continue; }
    const int op = (int)s.draw(7);
    if (op == 0) { c.desc << " free" << k; polytope_tessellation_free(t); t = 0; }
    else if (op == 1) { c.desc << " clear" << k; polytope_tessellation_clear(t); blank(t, dim[k]); state[k] = 0; want[k].reset(new Mesh2); }
    else if (op == 2) { c.desc << " print" << k; std::ostringstream o; if (dim[k] == 2) o << *want[k]; else { polytope::Tessellation<3, double> e; o << e; } printing(s, c, o.str(), [&](char* b, int n) { polytope_tessellation_snprintf(t, b, n); }, [&](FILE* f) { polytope_tessellation_fprintf(t, f); }, "tessellation"); }
    else if (dim[k] == 2) { if (state[k]) { polytope_tessellation_clear(t); c.desc << " clear" << k; state[k] = 0; want[k].reset(new Mesh2); }
      Domain d = s.chance(1, 3) ? generalDomain(s, c) : convexDomain(s, c); std::vector<P> gen = cloud(s, c, d, 20); const int how = (int)s.draw(2); if (how == 0 && gen.size() < 2) continue; c.desc << " fill" << k << "(" << how << "){"; describe(c, d, gen); c.desc << "}"; Reals pts; for (auto& p : gen) { pts.push_back(p.x); pts.push_back(p.y); } std::vector<double> in(pts); want[k].reset(new Mesh2); Mesh2& w = *want[k];
      if (how == 0) { B.tessellate(pts, w); polytope_tessellator_tessellate_unbounded(T, &in[0], gen.size(), t); c.label("unbounded"); }
      else { Reals bp; polytope::PLC<2, double> plc; toPLC(d, plc, bp); if (how == 1 && isBox(d)) { double lo[2], hi[2]; for (int j = 0; j != 2; ++j) { lo[j] = hi[j] = bp[j]; for (size_t q = j; q < bp.size(); q += 2) { lo[j] = std::min(lo[j], bp[q]); hi[j] = std::max(hi[j], bp[q]); } } B.tessellate(pts, lo, hi, w); polytope_tessellator_tessellate_in_box(T, &in[0], gen.size(), lo, hi, t); c.label("box"); }
        else { B.tessellate(pts, bp, plc, w); polytope_plc_t* cp = polytope_plc_new(2); for (auto& f : plc.facets) { int id = polytope_plc_add_facet(cp); for (int n : f) polytope_plc_add_facet_node(cp, id, n); } for (auto& h : plc.holes) { int hd = polytope_plc_add_hole(cp); for (auto& f : h) { int id = polytope_plc_add_hole_facet(cp, hd); for (int n : f) polytope_plc_add_hole_facet_node(cp, hd, id, n); } }
          PlcModel pm; pm.dim = 2; pm.facets = plc.facets; pm.holes = plc.holes; polytope_tessellator_tessellate_in_plc(T, &in[0], gen.size(), &bp[0], bp.size()/2, cp, t); try { compare(cp, pm); } catch (...) { polytope_plc_free(cp); throw; } polytope_plc_free(cp); c.label(plc.holes.empty() ? "plc" : "plc with holes"); } }
      PBT_CHECK(in == pts, "input-changed", "the points handed over were changed"); state[k] = 1; ++fills; equal<2>(t, w); hull(t, w); }
    for (int j = 0; j != slots; ++j) if (g.m[j]) { if (dim[j] == 2 && state[j]) equal<2>(g.m[j], *want[j]); else blank(g.m[j], dim[j]); } }
  PBT_CHECK(std::string(polytope_tessellator_name(T)) == B.name() && std::string(name) == B.name(), "tessellator", "the name changed"); c.nontrivial = fills > 0;
}
static std::vector<std::pair<std::string, int> > heard; static void handler(const char* m, int st) { heard.push_back(std::make_pair(std::string(m), st)); }
static void other(const char*, int) { heard.push_back(std::make_pair(std::string("other"), 0)); }
static void errors(Src& s, Case& c) {
  heard.clear(); std::vector<std::pair<std::string, int> > want; const int n = s.range(1, 8); bool first = true; polytope_set_error_handler(first ? handler : other);
  for (int i = 0; i != n; ++i) { if (s.chance(1, 3)) { first = !first; polytope_set_error_handler(first ? handler : other); } std::string m; int k = s.range(0, 40); for (int j = 0; j != k; ++j) m += (char)(33 + s.draw(90)); int st = s.range(-5, 200); c.desc << " '" << m << "'/" << st; polytope::error(m, st); want.push_back(first ? std::make_pair(m, st) : std::make_pair(std::string("other"), 0)); }
  PBT_CHECK(heard == want, "error-handler", "the handler heard " << heard.size() << " errors, raised were " << want.size() << (heard.size() == want.size() ? " different ones" : "")); c.nontrivial = n > 1;
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P15", {pbt::target("plc history", history, 8000, 300000, "a PLC built by up to 40 operations in 2D or 3D (facets, nodes, holes, hole facets, clearing, printing) against a model; non-trivial: at least three facets and holes at some time"),
    pbt::target("meshes", meshes, 1500, 40000, "up to three mesh objects and one tessellator through up to nine operations (create, tessellate unbounded, in a box or PLC, clear, print, free), every mesh compared with the C++ result after every step, under AddressSanitizer; non-trivial: at least one tessellation"),
    pbt::target("errors", errors, 1000, 20000, "up to eight errors raised with the handler exchanged in between; non-trivial: more than one error")},
    {"indices handed to the interface exist", "a filled mesh is cleared before it is filled again"});
}

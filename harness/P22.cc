// P22: geometric measures of cells, faces and simplices.
#include "mesh3.hh"
#include "polytope_geometric_utilities.hh"
using namespace tess; using namespace mesh3;
namespace geo = polytope::geometry;
static double rel(double a, double b, double scale) { return std::fabs(a - b)/scale; }
static void cells2(Src& s, Case& c) {
  Domain d = generalDomain(s, c); std::vector<P> g = cloud(s, c, d, 20); describe(c, d, g); c.nontrivial = g.size() >= 3;
  Mesh2 m; runAs(form(s, c, d), d, g, m); mesh::checkIndices(m, g.size()); const double L = d.length(); P lo, hi; d.bounds(lo, hi); double off = 0; off = std::max(std::fabs((double)lo.x), std::max(std::fabs((double)lo.y), std::max(std::fabs((double)hi.x), std::fabs((double)hi.y))));
  for (size_t i = 0; i != g.size(); ++i) {
    std::vector<unsigned> ids; Poly p = mesh::cellPoly(m, i, &ids); ref::R a = ref::area(p); if (std::fabs((double)a) < 1e-4*L*L) continue;
    P q; { P o = p[0]; ref::R t = 0; for (size_t k = 1; k + 1 < p.size(); ++k) { ref::R w = ref::cross(p[k] - o, p[k + 1] - o)/2; t += w; q = q + w/3*(p[k] - o + (p[k + 1] - o)); } q = o + (1/t)*q; }
    double ctr[2], area; geo::computeCellCentroidAndSignedArea(m, i, 0.0, ctr, area); double tol = 1e-12*(L + off)*(L + off)*p.size();
    PBT_CHECK(std::fabs(area - (double)a) <= tol, "area", "cell " << i << ": " << area << ", expected " << (double)a);
    PBT_CHECK(std::max(std::fabs(ctr[0] - (double)q.x), std::fabs(ctr[1] - (double)q.y)) <= tol/(double)a*(L + off), "centroid", "cell " << i << ": (" << ctr[0] << "," << ctr[1] << "), expected " << pt(q));
    std::set<unsigned> u(ids.begin(), ids.end()); P v; for (std::set<unsigned>::iterator k = u.begin(); k != u.end(); ++k) v = v + mesh::node(m, *k); v = (1.0L/u.size())*v;
    double vc[2]; geo::computeCellCentroid(m, i, vc); PBT_CHECK(std::max(std::fabs(vc[0] - (double)v.x), std::fabs(vc[1] - (double)v.y)) <= 1e-13*(L + off), "vertex-mean", "cell " << i << ": the mean of its corners is (" << vc[0] << "," << vc[1] << "), expected " << pt(v));
  }
}
static void cells3(Src& s, Case& c) {
  Domain d = convexDomain(s, c, true); std::vector<P> g = cloud(s, c, d, 12); describe(c, d, g); c.nontrivial = g.size() >= 2;
  Mesh2 m2; runAs(form(s, c, d), d, g, m2); mesh::checkIndices(m2, g.size()); Built b = mesh3::frame(s); Mesh3 m; extrude(m2, b, m, &s); R total = 0;
  // Rotate the stored corners of faces: measures cannot depend on where a ring starts.
  if (s.chance(1, 2)) for (size_t f = 0; f != m.faces.size(); ++f) std::rotate(m.faces[f].begin(), m.faces[f].begin() + s.draw(m.faces[f].size() - 1), m.faces[f].end());
  for (size_t i = 0; i != m.cells.size(); ++i) {
    P3 q; R v = mesh3::volume(m, i, &q); if (v < 1e-6) continue; total += v;
    double ctr[3], vol; geo::computeCellCentroidAndSignedVolume(m, i, ctr, vol);
    PBT_CHECK(std::fabs(vol - (double)v) <= 1e-9, "volume", "cell " << i << ": " << vol << ", expected " << (double)v);
    PBT_CHECK(std::fabs(ctr[0] - (double)q.x) + std::fabs(ctr[1] - (double)q.y) + std::fabs(ctr[2] - (double)q.z) <= 1e-9/(double)v + 1e-9, "centroid", "cell " << i << ": (" << ctr[0] << "," << ctr[1] << "," << ctr[2] << "), expected (" << (double)q.x << "," << (double)q.y << "," << (double)q.z << ")");
    double vc[3]; geo::computeCellCentroid(m, i, vc); std::set<unsigned> u; for (size_t k = 0; k != m.cells[i].size(); ++k) { int f = m.cells[i][k]; const std::vector<unsigned>& fn = m.faces[f < 0 ? ~f : f]; u.insert(fn.begin(), fn.end()); }
    P3 w; for (std::set<unsigned>::iterator k = u.begin(); k != u.end(); ++k) w = w + mesh3::node(m, *k); w = (1.0L/u.size())*w;
    PBT_CHECK(norm(w - P3(vc[0], vc[1], vc[2])) < 1e-11, "vertex-mean", "cell " << i << ": the mean of its corners is off");
  }
  for (size_t f = 0; f != m.faces.size(); ++f) {
    const std::vector<unsigned>& n = m.faces[f]; P3 a, ctr; for (size_t j = 0; j != n.size(); ++j) { ctr = ctr + mesh3::node(m, n[j]); a = a + cross(mesh3::node(m, n[j]) - mesh3::node(m, n[0]), mesh3::node(m, n[(j + 1)%n.size()]) - mesh3::node(m, n[0])); }
    ctr = (1.0L/n.size())*ctr; if (norm(a) < 1e-3) continue; 
    R shortest = 1e9L; for (size_t j = 0; j != n.size(); ++j) shortest = std::min(shortest, norm(mesh3::node(m, n[j]) - mesh3::node(m, n[(j + 1)%n.size()]))); if (shortest < 1e-3) continue;
    double fc[3], fh[3]; geo::computeFaceCentroidAndNormal(m, f, fc, fh); P3 h(fh[0], fh[1], fh[2]), e = (1/norm(a))*a;
    PBT_CHECK(norm(ctr - P3(fc[0], fc[1], fc[2])) < 1e-11, "face-mean", "face " << f << ": the mean of its corners is off");
    PBT_CHECK(norm(h - e) < 1e-6, "face-normal", "face " << f << ": normal (" << fh[0] << "," << fh[1] << "," << fh[2] << "), expected (" << (double)e.x << "," << (double)e.y << "," << (double)e.z << ")");
  }
}
static double co(Src& s) { int k = (int)s.draw(2); return k == 0 ? s.range(-4, 4) : k == 1 ? s.range(-16, 16)/8.0 : (s.unit(24) - 0.5)*8; }
static void simplices(Src& s, Case& c) {
  double v[5][3]; for (int i = 0; i != 5; ++i) for (int k = 0; k != 3; ++k) v[i][k] = co(s);
  c.desc << "points="; for (int i = 0; i != 5; ++i) c.desc << "(" << v[i][0] << "," << v[i][1] << "," << v[i][2] << ")";
  P3 q[5]; for (int i = 0; i != 5; ++i) q[i] = P3(v[i][0], v[i][1], v[i][2]);
  P3 ab = q[1] - q[0], ac = q[2] - q[0], ad = q[3] - q[0]; double x[3];
  R a2 = ab.x*ac.y - ab.y*ac.x, v6 = dot(ab, cross(ac, ad)); P3 n3 = cross(ab, ac);
  c.nontrivial = a2 != 0 && v6 != 0 && dot(n3, n3) > 0;
  PBT_CHECK(rel(std::fabs(geo::triangleVolume2(v[0], v[1], v[2])), std::fabs((double)a2), 64) < 1e-14, "triangle-volume", geo::triangleVolume2(v[0], v[1], v[2]) << ", expected " << (double)a2 << " up to orientation");
  PBT_CHECK(geo::triangleVolume2(v[0], v[1], v[2]) == -geo::triangleVolume2(v[0], v[2], v[1]), "triangle-volume", "not antisymmetric");
  PBT_CHECK(rel(std::fabs(geo::tetrahedralVolume6(v[0], v[1], v[2], v[3])), std::fabs((double)v6), 512) < 1e-14, "tet-volume", geo::tetrahedralVolume6(v[0], v[1], v[2], v[3]) << ", expected " << (double)v6 << " up to orientation");
  double tv, tc[3]; geo::tetrahedralVolumeAndCentroid6(v[0], v[1], v[2], v[3], tv, tc); PBT_CHECK(tv == geo::tetrahedralVolume6(v[0], v[1], v[2], v[3]), "tet-volume", "the two volume functions differ");
  double tc2[3]; geo::computeTetCentroid(v[0], v[1], v[2], v[3], tc2); P3 tm = 0.25L*(q[0] + q[1] + q[2] + q[3]);
  PBT_CHECK(norm(tm - P3(tc[0], tc[1], tc[2])) < 1e-14 && norm(tm - P3(tc2[0], tc2[1], tc2[2])) < 1e-14, "tet-centroid", "centroid of a tetrahedron is off");
  P3 cm = (1.0L/3)*(q[0] + q[1] + q[2]); geo::computeTriangleCentroid3d(v[0], v[1], v[2], x); PBT_CHECK(norm(cm - P3(x[0], x[1], x[2])) < 1e-14, "triangle-centroid", "3D");
  x[2] = v[0][2]; geo::computeTriangleCentroid2d(v[0], v[1], v[2], x); PBT_CHECK(std::fabs(x[0] - (double)cm.x) + std::fabs(x[1] - (double)cm.y) < 1e-14, "triangle-centroid", "2D");
  auto equi = [&](const char* what, int k, int dim, double tol) { R lo = 1e300L, hi = 0; for (int i = 0; i != k; ++i) { P3 e = q[i] - P3(x[0], x[1], x[2]); if (dim == 2) e.z = 0; R r = norm(e); lo = std::min(lo, r); hi = std::max(hi, r); }
    PBT_CHECK(hi - lo <= tol*std::max<R>(1, hi), what, "the distances to the corners run from " << (double)lo << " to " << (double)hi); };
  if (std::fabs((double)a2) > 0.05) {
    double y[2]; geo::computeCircumcenter2d(v[0], v[1], v[2], y); x[0] = y[0]; x[1] = y[1]; equi("circumcenter-2d", 3, 2, 1e-9);
    geo::computeCircumcenter(v[0], v[1], v[2], y); x[0] = y[0]; x[1] = y[1]; equi("circumcenter-2d (predicates)", 3, 2, 1e-9); c.label("circumcenter 2D");
  }
  if (std::fabs((double)v6) > 0.05) { geo::computeCircumcenter3d(v[0], v[1], v[2], v[3], x); equi("circumcenter-3d", 4, 3, 1e-8); c.label("circumcenter 3D"); }
  R ln = norm(n3)/std::max<R>(1e-300L, norm(ab)*norm(ac)); // sine of the angle
  if (norm(ab) > 0.1 && norm(ac) > 0.1 && ln > 1e-3 && norm(q[2] - q[1]) > 0.1) {
    PBT_CHECK(geo::computeTriangleCircumcenter3d(v[0], v[1], v[2], x), "triangle-circumcenter", "no circumcenter for a proper triangle"); equi("triangle-circumcenter", 3, 3, 1e-6);
    PBT_CHECK(std::fabs((double)dot(P3(x[0], x[1], x[2]) - q[0], n3)) < 1e-7*(double)norm(n3)*std::max(1.0, (double)norm(P3(x[0], x[1], x[2]))), "triangle-circumcenter", "the circumcenter is out of the triangle's plane"); c.label("triangle circumcenter");
    if (ln > 0.01) PBT_CHECK(!(geo::collinear<3, double>(v[0], v[1], v[2], 1e-10)), "collinear", "a proper triangle is called collinear");
  }
  double nx, ny, nz; geo::computeNormal(v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2], nx, ny, nz);
  PBT_CHECK(norm(n3 - P3(nx, ny, nz)) < 1e-12, "normal", "(" << nx << "," << ny << "," << nz << "), expected (" << (double)n3.x << "," << (double)n3.y << "," << (double)n3.z << ")");
  double cr[3]; geo::cross<3, double>(v[0], v[1], cr); P3 ec = cross(q[0], q[1]); PBT_CHECK(norm(ec - P3(cr[0], cr[1], cr[2])) < 1e-12, "cross", "3D cross product"); geo::cross<2, double>(v[0], v[1], cr); PBT_CHECK(cr[0] == 0 && cr[1] == 0 && std::fabs(cr[2] - (double)ec.z) < 1e-12, "cross", "2D cross product");
  PBT_CHECK(std::fabs((geo::dot<3, double>(v[0], v[1])) - (double)dot(q[0], q[1])) < 1e-12 && std::fabs((geo::dot<2, double>(v[0], v[1])) - (double)(q[0].x*q[1].x + q[0].y*q[1].y)) < 1e-12, "dot", "dot product");
  PBT_CHECK(std::fabs((geo::distance<3, double>(v[0], v[1])) - (double)norm(ab)) < 1e-13 && std::fabs((geo::distance<2, double>(v[0], v[1])) - std::hypot((double)ab.x, (double)ab.y)) < 1e-13, "distance", "distance");
  double u[3] = {v[0][0], v[0][1], v[0][2]}; if (norm(q[0]) > 0) { geo::unitVector<3, double>(u); PBT_CHECK(norm((1/norm(q[0]))*q[0] - P3(u[0], u[1], u[2])) < 1e-14, "unit-vector", "3D"); }
  double w[2] = {v[0][0], v[0][1]}; double wl = std::hypot(w[0], w[1]); if (wl > 0) { double e0 = w[0]/wl, e1 = w[1]/wl; geo::unitVector<2, double>(w); PBT_CHECK(std::fabs(e0 - w[0]) + std::fabs(e1 - w[1]) < 1e-14, "unit-vector", "2D"); }
  // Bounding boxes.
  std::vector<double> pos; for (int i = 0; i != 5; ++i) pos.insert(pos.end(), v[i], v[i] + 3); double bl[3], bh[3]; geo::computeBoundingBox<3, double>(pos, s.chance(1, 2), bl, bh);
  for (int k = 0; k != 3; ++k) { double lo = v[0][k], hi = v[0][k]; for (int i = 0; i != 5; ++i) { lo = std::min(lo, v[i][k]); hi = std::max(hi, v[i][k]); } PBT_CHECK(bl[k] == lo && bh[k] == hi, "bounding-box", "axis " << k << ": [" << bl[k] << "," << bh[k] << "], expected [" << lo << "," << hi << "]"); }
  double el[3] = {-1, -1, -1}, eh[3] = {1, 1, 1}; geo::expandBoundingBox<3, double>(&pos[0], pos.size(), false, el, eh); for (int k = 0; k != 3; ++k) PBT_CHECK(el[k] == std::min(-1.0, bl[k]) && eh[k] == std::max(1.0, bh[k]), "bounding-box", "expanded box, axis " << k);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P22", {
    pbt::target("cells2", cells2, 5000, 100000, "a tessellation of a generated 2D domain; area, centroid and corner mean of every cell against a fan about a corner in long double; non-trivial: at least 3 cells"),
    pbt::target("cells3", cells3, 5000, 100000, "a 3D mesh of prisms (a 2D tessellation extruded in up to 3 layers, mapped affinely, rings of faces rotated); volume and centroid of every cell, mean and normal of every face; non-trivial: at least 2 columns of cells"),
    pbt::target("simplices", simplices, 80000, 1600000, "five points in space on a coarse lattice or anywhere; triangle and tetrahedron measures, circumcenters, normals, products, bounding boxes; non-trivial: no degenerate triangle or tetrahedron")},
    {"measures are compared to relative roundoff; cells smaller than 1e-4 of the domain's area and triangles thinner than 1e-3 are not judged"});
}

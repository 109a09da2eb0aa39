// Synthetic 3D meshes: a 2D tessellation extruded in layers and mapped affinely, so every
// cell is a prism over a polygon, faces are planar, and all tables are known exactly.
#ifndef VERIF_MESH3_HH
#define VERIF_MESH3_HH
#include "tess.hh"

namespace mesh3 {
typedef polytope::Tessellation<3, double> Mesh3; using mesh::Mesh2; using ref::R;
struct P3 { R x, y, z; P3(): x(0), y(0), z(0) {} P3(R a, R b, R c): x(a), y(b), z(c) {} };
inline P3 operator-(P3 a, P3 b) { return P3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline P3 operator+(P3 a, P3 b) { return P3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline P3 operator*(R s, P3 a) { return P3(s*a.x, s*a.y, s*a.z); }
inline R dot(P3 a, P3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline P3 cross(P3 a, P3 b) { return P3(a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x); }
inline R norm(P3 a) { return std::sqrt(dot(a, a)); }
inline P3 node(const Mesh3& m, unsigned i) { return P3(m.nodes[3*i], m.nodes[3*i + 1], m.nodes[3*i + 2]); }

struct Built { std::vector<double> z; R a[9]; P3 off; std::vector<ref::Poly> base; // cell volume = base area * dz * det
  R det() const { return a[0]*(a[4]*a[8] - a[5]*a[7]) - a[1]*(a[3]*a[8] - a[5]*a[6]) + a[2]*(a[3]*a[7] - a[4]*a[6]); }
  P3 map(R x, R y, R zz) const { return off + P3(a[0]*x + a[1]*y + a[2]*zz, a[3]*x + a[4]*y + a[5]*zz, a[6]*x + a[7]*y + a[8]*zz); } };

// Random frame: identity or an orientation-preserving affine map; layers 1..nz.
inline Built frame(pbt::Src& s, int nzmax = 3) {
  Built b; int nz = s.range(1, nzmax); double z = 0; b.z.push_back(z);
  for (int k = 0; k != nz; ++k) { z += 0.1 + s.unit(6); b.z.push_back(z); }
  for (int k = 0; k != 9; ++k) b.a[k] = k%4 == 0 ? 1 : 0;
  if (s.chance(1, 2)) {
    for (int k = 0; k != 9; ++k) if (k%4) b.a[k] = (s.unit(6) - 0.5)*0.8; else b.a[k] = 0.5 + s.unit(6);
    if (b.det() < 0.05) for (int k = 0; k != 9; ++k) b.a[k] = k%4 == 0 ? 1 : 0;
    b.off = P3(s.range(-8, 8), s.range(-8, 8), s.range(-8, 8));
  }
  return b;
}
inline void extrude(const Mesh2& m2, const Built& bt, Mesh3& m, pbt::Src* s = 0) {
  m.clear(); const unsigned nn = m2.nodes.size()/2, nf = m2.faces.size(), nc = m2.cells.size(), nz = bt.z.size() - 1;
  for (unsigned k = 0; k <= nz; ++k) for (unsigned i = 0; i != nn; ++i) { P3 p = bt.map(m2.nodes[2*i], m2.nodes[2*i + 1], bt.z[k]); m.nodes.push_back((double)p.x); m.nodes.push_back((double)p.y); m.nodes.push_back((double)p.z); }
  // Horizontal faces first (normal up), then vertical ones (normal to the right of a -> b).
  for (unsigned k = 0; k <= nz; ++k) for (unsigned c = 0; c != nc; ++c) {
    std::vector<unsigned> ids; mesh::cellPoly(m2, c, &ids); std::vector<unsigned> f; for (size_t j = 0; j != ids.size(); ++j) f.push_back(k*nn + ids[j]);
    m.faces.push_back(f);
  }
  const unsigned base = (nz + 1)*nc;
  for (unsigned k = 0; k != nz; ++k) for (unsigned f = 0; f != nf; ++f) {
    unsigned a = m2.faces[f][0], b = m2.faces[f][1]; m.faces.push_back({k*nn + a, k*nn + b, (k + 1)*nn + b, (k + 1)*nn + a});
  }
  m.faceCells.resize(m.faces.size());
  for (unsigned k = 0; k != nz; ++k) for (unsigned c = 0; c != nc; ++c) {
    std::vector<int> cell; cell.push_back(~(int)(k*nc + c)); cell.push_back((int)((k + 1)*nc + c));
    for (size_t j = 0; j != m2.cells[c].size(); ++j) { int f = m2.cells[c][j]; cell.push_back(f < 0 ? ~(int)(base + k*nf + ~f) : (int)(base + k*nf + f)); }
    if (s) for (size_t j = cell.size(); j > 1; --j) std::swap(cell[j - 1], cell[s->draw(j - 1)]);
    int id = m.cells.size(); m.cells.push_back(cell);
    for (size_t j = 0; j != cell.size(); ++j) { int f = cell[j]; if (f < 0) m.faceCells[~f].push_back(~id); else m.faceCells[f].push_back(id); }
  }
  std::set<unsigned> bn;
  for (unsigned f = 0; f != m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { m.boundaryFaces.push_back(f); bn.insert(m.faces[f].begin(), m.faces[f].end()); }
  m.boundaryNodes.assign(bn.begin(), bn.end());
}
// Signed volume of cell c with its centroid, by fanning every face to a point (exact for planar faces).
inline R volume(const Mesh3& m, size_t c, P3* centroid = 0) {
  R v = 0; P3 s; P3 o = node(m, m.faces[m.cells[c][0] < 0 ? ~m.cells[c][0] : m.cells[c][0]][0]);
  for (size_t k = 0; k != m.cells[c].size(); ++k) {
    int f = m.cells[c][k]; const std::vector<unsigned>& n = m.faces[f < 0 ? ~f : f]; R sg = f < 0 ? -1 : 1;
    for (size_t j = 1; j + 1 < n.size(); ++j) { P3 a = node(m, n[0]) - o, b = node(m, n[j]) - o, d = node(m, n[j + 1]) - o; R t = sg*dot(a, cross(b, d))/6; v += t; s = s + t*(0.25L*(a + b + d)); }
  }
  if (centroid) *centroid = o + (1/v)*s;
  return v;
}
inline void checkTopology(const Mesh3& m, size_t ncells) {
  PBT_CHECK(m.cells.size() == ncells, "mesh-shape", m.cells.size() << " cells, expected " << ncells);
  PBT_CHECK(m.faceCells.size() == m.faces.size(), "mesh-shape", m.faceCells.size() << " faceCells for " << m.faces.size() << " faces");
  const unsigned nn = m.nodes.size()/3, nf = m.faces.size(); std::vector<std::vector<int> > use(nf); std::vector<int> nu(nn, 0);
  for (unsigned f = 0; f != nf; ++f) { PBT_CHECK(m.faces[f].size() >= 3, "mesh-shape", "face " << f << " has " << m.faces[f].size() << " nodes"); for (size_t j = 0; j != m.faces[f].size(); ++j) { PBT_CHECK(m.faces[f][j] < nn, "mesh-shape", "face " << f << " names node " << m.faces[f][j] << " of " << nn); ++nu[m.faces[f][j]]; } }
  for (size_t c = 0; c != ncells; ++c) for (size_t k = 0; k != m.cells[c].size(); ++k) { int f = m.cells[c][k], p = f < 0 ? ~f : f; PBT_CHECK(p >= 0 && (unsigned)p < nf, "mesh-shape", "cell " << c << " names face " << f << " of " << nf); use[p].push_back(f < 0 ? ~(int)c : (int)c); }
  for (unsigned f = 0; f != nf; ++f) { std::vector<int> a = use[f], b = m.faceCells[f]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    PBT_CHECK(a.size() == 1 || a.size() == 2, "face-cells", "face " << f << " belongs to " << a.size() << " cells");
    PBT_CHECK(a == b, "face-cells", "faceCells of face " << f << " is " << pbt::str(b) << " but the cells say " << pbt::str(a)); }
  for (unsigned n = 0; n != nn; ++n) PBT_CHECK(nu[n], "node-unused", "node " << n << " belongs to no face");
}
}
#endif

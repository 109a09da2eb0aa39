// A tessellation computed by several ranks: the case, the run and the gathered result.
#ifndef VERIF_DISTRIB_HH
#define VERIF_DISTRIB_HH
#include "tess.hh"
#include "orphans.hh"
#include "DistributedTessellator.hh"
#include "SerialDistributedTessellator.hh"
#include "mpi.h"

namespace distrib {
using namespace tess;

enum Bound { UNBOUNDED, BOX, PLC, REDUCED };
struct Setup { Domain d; Bound bound; bool serialOne, info, nonconvex; std::vector<std::vector<P> > part; std::vector<P> all; std::vector<int> owner; std::vector<size_t> off; };

// The case (identical on every rank): a domain, generators, and who owns which.
inline Setup setup(Src& s, Case& c, int nmax) {
  Setup u; u.nonconvex = s.chance(1, 4); u.d = u.nonconvex ? generalDomain(s, c) : convexDomain(s, c);
  std::vector<P> g = cloud(s, c, u.d, nmax, 4e-3, 4e-3, c.nproc);
  u.bound = (Bound)s.draw(3); if (u.bound == BOX && !isBox(u.d)) u.bound = PLC; if (u.bound == UNBOUNDED && u.nonconvex) u.bound = REDUCED;
  static const char* bn[] = {"unbounded", "box", "PLC", "ReducedPLC"}; c.label(std::string("boundary:") + bn[u.bound]);
  u.serialOne = s.chance(1, 3); c.label(u.serialOne ? "SerialDistributedTessellator" : "DistributedTessellator");
  u.info = !s.chance(1, 4);
  const int np = c.nproc; std::vector<int> own(g.size());
  int how = (int)s.draw(6); static const char* hn[] = {"strips", "blocks around seeds", "scattered", "one rank owns nearly all", "strips across", "rings", "rings by turns"}; c.label(std::string("ownership:") + hn[how]);
  std::vector<size_t> id(g.size()); for (size_t i = 0; i != id.size(); ++i) id[i] = i;
  if (how == 0 || how == 4) { std::stable_sort(id.begin(), id.end(), [&](size_t a, size_t b) { return how ? g[a].y < g[b].y : g[a].x < g[b].x; }); for (size_t k = 0; k != id.size(); ++k) own[id[k]] = (int)(k*np/id.size()); }
  else if (how == 1) { std::vector<P> seed; for (int p = 0; p != np; ++p) seed.push_back(g[s.draw(g.size() - 1)]); for (size_t i = 0; i != g.size(); ++i) own[i] = (int)nearest(g[i], seed); }
  else if (how == 2) for (size_t i = 0; i != g.size(); ++i) own[i] = (int)s.draw(np - 1);
  else if (how >= 5) { // nested: bands of distance from a generator, inner and outer ones possibly with one owner
    P mid = g[s.draw(g.size() - 1)]; if (s.chance(2, 3)) { P lo, hi; u.d.bounds(lo, hi); P c0 = 0.5L*(lo + hi); mid = g[nearest(c0, g)]; }
    std::stable_sort(id.begin(), id.end(), [&](size_t a, size_t b) { return ref::dist(g[a], mid) < ref::dist(g[b], mid); }); size_t bands = how == 5 ? np : np*(size_t)s.range(2, 3); const int turn = (int)s.draw(np - 1); for (size_t k = 0; k != id.size(); ++k) own[id[k]] = (int)((k*bands/id.size() + turn)%np);
  }
  else { int big = (int)s.draw(np - 1); for (size_t i = 0; i != g.size(); ++i) own[i] = s.chance(9, 10) ? big : (int)s.draw(np - 1); }
  // Every rank owns at least one generator.
  for (int p = 0; p != np; ++p) { std::vector<int> n(np, 0); for (size_t i = 0; i != g.size(); ++i) ++n[own[i]]; if (n[p]) continue; for (size_t i = 0; i != g.size(); ++i) if (n[own[i]] > 1) { own[i] = p; break; } }
  u.part.resize(np); for (int p = 0; p != np; ++p) { u.off.push_back(u.all.size()); for (size_t i = 0; i != g.size(); ++i) if (own[i] == p) { u.part[p].push_back(g[i]); u.all.push_back(g[i]); u.owner.push_back(p); } }
  describe(c, u.d, u.all); c.desc << " owners=" << pbt::str(u.owner) << (u.serialOne ? " SerialDistributedTessellator" : " DistributedTessellator") << " boundary " << bn[u.bound];
  if (getenv("VERIF_ECHO") && c.rank == 0) { FILE* f = fopen(getenv("VERIF_ECHO"), "w"); if (f) { fprintf(f, "%s\n", c.desc.str().c_str()); fclose(f); } }
  return u;
}
template<typename T> inline void call(T& t, const Setup& u, const std::vector<P>& g, Mesh2& m) {
  P lo, hi; u.d.bounds(lo, hi); double a[2] = {(double)lo.x, (double)lo.y}, b[2] = {(double)hi.x, (double)hi.y};
  polytope::PLC<2, double> plc; Reals pts; toPLC(u.d, plc, pts); polytope::ReducedPLC<2, double> r; r.points = pts; r.facets = plc.facets; r.holes = plc.holes;
  if (u.bound == UNBOUNDED) t.tessellate(flat(g), m); else if (u.bound == BOX) t.tessellate(flat(g), a, b, m); else if (u.bound == PLC) t.tessellate(flat(g), pts, plc, m); else t.tessellate(flat(g), r, m);
}
// The distributed mesh of this rank and the serial mesh of everything (computed on every rank: the
// library reduces bounding boxes over all ranks).
inline void run(const Setup& u, int rank, bool info, Mesh2& mine, Mesh2& whole) {
  if (u.serialOne) { polytope::SerialDistributedTessellator<2, double> t(new Boost2, true, info); call(t, u, u.part[rank], mine); }
  else { polytope::DistributedTessellator<2, double> t(new Boost2, true, info); call(t, u, u.part[rank], mine); }
  Boost2 t; call(t, u, u.all, whole);
}

// Every rank's mesh on every rank.
template<typename T> inline std::vector<std::vector<T> > gather(const std::vector<T>& v) {
  int np; MPI_Comm_size(MPI_COMM_WORLD, &np); int n = (int)(v.size()*sizeof(T)); std::vector<int> ns(np), at(np + 1, 0); MPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for (int p = 0; p != np; ++p) at[p + 1] = at[p] + ns[p];
  std::vector<char> all(at[np] + 1); MPI_Allgatherv((void*)(v.empty() ? 0 : v.data()), n, MPI_CHAR, all.data(), ns.data(), at.data(), MPI_CHAR, MPI_COMM_WORLD);
  std::vector<std::vector<T> > r(np); for (int p = 0; p != np; ++p) { r[p].resize(ns[p]/sizeof(T)); if (ns[p]) memcpy(r[p].data(), &all[at[p]], ns[p]); }
  return r;
}
template<typename T> inline std::vector<long> pack(const std::vector<std::vector<T> >& v) { std::vector<long> r(1, (long)v.size()); for (size_t i = 0; i != v.size(); ++i) { r.push_back((long)v[i].size()); for (size_t k = 0; k != v[i].size(); ++k) r.push_back((long)v[i][k]); } return r; }
template<typename T> inline void unpack(const std::vector<long>& r, std::vector<std::vector<T> >& v) { size_t k = 0; v.resize(r[k++]); for (size_t i = 0; i != v.size(); ++i) { v[i].resize(r[k++]); for (size_t j = 0; j != v[i].size(); ++j) v[i][j] = (T)r[k++]; } }
inline std::vector<Mesh2*> gather(const Mesh2& m) {
  std::vector<std::vector<double> > nodes = gather(m.nodes); std::vector<std::vector<long> > c = gather(pack(m.cells)), f = gather(pack(m.faces)), fc = gather(pack(m.faceCells)), sn = gather(pack(m.sharedNodes)), sf = gather(pack(m.sharedFaces));
  std::vector<std::vector<unsigned> > nd = gather(m.neighborDomains), bn = gather(m.boundaryNodes), bf = gather(m.boundaryFaces);
  std::vector<Mesh2*> r; for (size_t p = 0; p != nodes.size(); ++p) { Mesh2* q = new Mesh2; q->nodes = nodes[p]; unpack(c[p], q->cells); unpack(f[p], q->faces); unpack(fc[p], q->faceCells); unpack(sn[p], q->sharedNodes); unpack(sf[p], q->sharedFaces); q->neighborDomains = nd[p]; q->boundaryNodes = bn[p]; q->boundaryFaces = bf[p]; r.push_back(q); }
  return r;
}
// Within l of the bounding box of a set of points, l a quarter of its extent.
inline bool near(P q, const std::vector<P>& v) { P lo = v[0], hi = lo; for (size_t k = 0; k != v.size(); ++k) { lo = P(std::min(lo.x, v[k].x), std::min(lo.y, v[k].y)); hi = P(std::max(hi.x, v[k].x), std::max(hi.y, v[k].y)); } ref::R l = 0.25L*std::max(hi.x - lo.x, hi.y - lo.y); return q.x > lo.x - l && q.x < hi.x + l && q.y > lo.y - l && q.y < hi.y + l; }
struct All { std::vector<Mesh2*> m; ~All() { for (size_t i = 0; i != m.size(); ++i) delete m[i]; } };
}
#endif

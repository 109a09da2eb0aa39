// P13: serialized values read back unchanged.
#include "pbt.hh"
#include <memory>
#include <cstring>
#include <limits>
#include <cmath>
#include "polytope.hh"
#include "polytope_serialize.hh"
#include "Point.hh"
using namespace polytope;
using pbt::Src; using pbt::Case;
// Making, comparing (bit by bit) and measuring values of every type the serializer knows.
template<typename T> struct Value;
template<typename T> static bool bits(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
static double anyDouble(Src& s) { switch (s.draw(7)) { case 0: return 0; case 1: return -0.0; case 2: return s.real(-10, 10); case 3: return std::ldexp(s.real(-1, 1), s.range(-1070, 1020)); case 4: return std::numeric_limits<double>::infinity()*(s.chance(1, 2) ? 1 : -1); case 5: { uint64_t u = s.draw(UINT64_MAX); double d; memcpy(&d, &u, 8); return d; } case 6: return s.range(-1000, 1000); default: return std::numeric_limits<double>::denorm_min(); } }
#define SCALAR(T, EXPR) template<> struct Value<T> { static T make(Src& s, int) { return EXPR; } static bool same(const T& a, const T& b) { return bits(a, b); } static void old(Src&, T& v) { v = T(); } static T want(const T&, const T& b) { return b; } static size_t size(const T&) { return 1; } };
SCALAR(int, s.chance(1, 3) ? (int)s.draw(UINT32_MAX) : s.range(-300, 70000))
SCALAR(unsigned, s.chance(1, 3) ? (unsigned)s.draw(UINT32_MAX) : (unsigned)s.draw(70000))
SCALAR(double, anyDouble(s))
SCALAR(float, (float)s.real(-100, 100))
SCALAR(char, (char)s.draw(255))
SCALAR(uint64_t, s.draw(UINT64_MAX))
SCALAR(int64_t, (int64_t)s.draw(UINT64_MAX))
template<typename C> struct Value<Point2<C> > { static Point2<C> make(Src& s, int b) { C x = Value<C>::make(s, b), y = Value<C>::make(s, b); return Point2<C>(x, y, (unsigned)s.draw(UINT32_MAX)); } static bool same(const Point2<C>& a, const Point2<C>& b) { return bits(a.x, b.x) && bits(a.y, b.y) && a.index == b.index; } static void old(Src&, Point2<C>&) {} static Point2<C> want(const Point2<C>&, const Point2<C>& b) { return b; } static size_t size(const Point2<C>&) { return 3; } };
template<typename C> struct Value<Point3<C> > { static Point3<C> make(Src& s, int b) { C x = Value<C>::make(s, b), y = Value<C>::make(s, b), z = Value<C>::make(s, b); return Point3<C>(x, y, z, (unsigned)s.draw(UINT32_MAX)); } static bool same(const Point3<C>& a, const Point3<C>& b) { return bits(a.x, b.x) && bits(a.y, b.y) && bits(a.z, b.z) && a.index == b.index; } static void old(Src&, Point3<C>&) {} static Point3<C> want(const Point3<C>&, const Point3<C>& b) { return b; } static size_t size(const Point3<C>&) { return 4; } };
static const int SIZES[] = {0, 1, 2, 3, 5, 17, 255, 256, 257, 70000};
template<typename T> struct Value<std::vector<T> > {
  typedef std::vector<T> V;
  static V make(Src& s, int budget) { V v; int n = SIZES[s.draw(9)]; if (n > budget) n = n%4; for (int i = 0; i < n; ++i) { if (i < 20) v.push_back(Value<T>::make(s, budget/(n + 1))); else v.push_back(v[i%20]); } return v; }
  static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i != a.size(); ++i) if (!Value<T>::same(a[i], b[i])) return false; return true; }
  // Reading into a vector that holds something appends (the distributed tessellators gather this way).
  static void old(Src& s, V& v) { if (s.chance(1, 3)) v = make(s, 5); }
  static V want(const V& a, const V& b) { V r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
  static size_t size(const V& v) { size_t n = v.size(); for (size_t i = 0; i != v.size() && i < 20; ++i) n += Value<T>::size(v[i]); return n; }
};
template<int D> struct Value<PLC<D, double> > {
  typedef PLC<D, double> V; typedef Value<std::vector<std::vector<int> > > F; typedef Value<std::vector<std::vector<std::vector<int> > > > H;
  static V make(Src& s, int b) { V v; v.facets = F::make(s, b/2); v.holes = H::make(s, b/2); return v; }
  static bool same(const V& a, const V& b) { return a.facets == b.facets && a.holes == b.holes; }
  static void old(Src&, V&) {} static V want(const V&, const V& b) { return b; } static size_t size(const V& v) { return F::size(v.facets) + H::size(v.holes); }
};
template<int D> struct Value<ReducedPLC<D, double> > {
  typedef ReducedPLC<D, double> V; typedef Value<PLC<D, double> > B; typedef Value<std::vector<double> > Q;
  static V make(Src& s, int b) { V v; static_cast<PLC<D, double>&>(v) = B::make(s, b/2); v.points = Q::make(s, b/2); return v; }
  static bool same(const V& a, const V& b) { return B::same(a, b) && Q::same(a.points, b.points); }
  static void old(Src&, V&) {} static V want(const V&, const V& b) { return b; } static size_t size(const V& v) { return B::size(v) + Q::size(v.points); }
};
struct Item { virtual ~Item() {} virtual void put(std::vector<char>&) = 0; virtual void get(Src&, std::vector<char>::const_iterator&, const std::vector<char>::const_iterator&, size_t) = 0; virtual size_t size() = 0; };
template<typename T> struct Of : Item {
  T v; const char* name; Of(Src& s, const char* n): v(Value<T>::make(s, 80000)), name(n) {}
  void put(std::vector<char>& b) { const T before = v; serialize(v, b); PBT_CHECK(Value<T>::same(before, v), "source-changed", name << " was changed by serializing it"); }
  void get(Src& s, std::vector<char>::const_iterator& i, const std::vector<char>::const_iterator& e, size_t k) { T r = T(); Value<T>::old(s, r); const T w = Value<T>::want(r, v); deserialize(r, i, e); PBT_CHECK(Value<T>::same(r, w), "value", "item " << k << " (" << name << ") reads back differently"); }
  size_t size() { return Value<T>::size(v); }
};
static Item* any(Src& s) {
  switch (s.draw(26)) {
#define IT(k, ...) case k: return new Of<__VA_ARGS__>(s, #__VA_ARGS__);
    IT(0, int) IT(1, unsigned) IT(2, double) IT(3, float) IT(4, char) IT(5, uint64_t) IT(6, int64_t)
    IT(7, Point2<double>) IT(8, Point3<double>) IT(9, Point2<int>) IT(10, Point3<int64_t>)
    IT(11, std::vector<int>) IT(12, std::vector<unsigned>) IT(13, std::vector<double>) IT(14, std::vector<char>) IT(15, std::vector<Point2<double> >) IT(16, std::vector<Point3<int> >)
    IT(17, std::vector<std::vector<int> >) IT(18, std::vector<std::vector<double> >) IT(19, std::vector<std::vector<std::vector<int> > >) IT(20, std::vector<std::vector<std::vector<std::vector<unsigned> > > >)
    IT(21, PLC<2, double>) IT(22, PLC<3, double>) IT(23, ReducedPLC<2, double>) IT(24, ReducedPLC<3, double>) IT(25, std::vector<ReducedPLC<2, double> >)
  }
  return new Of<std::vector<PLC<3, double> > >(s, "std::vector<PLC<3, double> >");
}
static void body(Src& s, Case& c) {
  std::vector<char> buf; const int pre = s.chance(1, 4) ? s.range(1, 40) : 0; for (int i = 0; i != pre; ++i) buf.push_back((char)s.draw(255)); const std::vector<char> prefix = buf;
  std::vector<std::unique_ptr<Item> > items; const int n = s.range(1, 6); size_t total = 0; std::vector<size_t> ends;
  for (int i = 0; i != n; ++i) { items.emplace_back(any(s)); total += items.back()->size(); items.back()->put(buf); ends.push_back(buf.size()); }
  c.desc << n << " items, " << buf.size() << " bytes, ends=" << pbt::str(ends); c.nontrivial = total > 5; c.label(buf.size() > 65536 ? "more than 64 kB" : buf.size() > 1000 ? "more than 1 kB" : "small");
  PBT_CHECK(std::equal(prefix.begin(), prefix.end(), buf.begin()), "prefix", "serializing changed what the buffer held");
  const std::vector<char> wire(buf); std::vector<char>::const_iterator it = wire.begin() + pre;
  for (int i = 0; i != n; ++i) { items[i]->get(s, it, wire.end(), i); PBT_CHECK((size_t)(it - wire.begin()) == ends[i], "position", "after item " << i << " the reader is at " << (it - wire.begin()) << ", the writer was at " << ends[i]); }
  PBT_CHECK(it == wire.end(), "position", "bytes left over");
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P13", {pbt::target("sequences", body, 2500, 200000, "a buffer with or without earlier content and a sequence of 1-6 values of 27 types (scalars with any bit pattern, points, vectors nested up to four deep and up to 70000 long, PLCs and reduced PLCs, vectors of them), read back in order, vectors also into vectors that already hold something; non-trivial: more than five scalars in all")},
    {"PLCs are read into empty objects", "vectors shorter than 2^32"});
}

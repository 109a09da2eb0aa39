// Choice-sequence property-based testing engine.
//
// Every generated case is a function of a stream of bounded draws.  The stream
// is recorded while a case runs, so any failure (exception, crash, sanitizer
// report, hang) can be shrunk by editing the recorded stream and re-running, and
// the shrunk stream is the replay file.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <exception>

namespace pbt {

struct Failure { std::string msg; explicit Failure(const std::string& m): msg(m) {} };
struct Discard {};

// Fail with a category (text before the first ':') and a detail.
#define PBT_CHECK(cond, category, detail)                               \
  do { if (!(cond)) { std::ostringstream _os; _os.precision(17);        \
      _os << (category) << ": " << detail; throw pbt::Failure(_os.str()); } } while (0)

inline uint64_t splitmix(uint64_t& s) {
  s += 0x9E3779B97F4A7C15ULL; uint64_t z = s;
  z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27))*0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a*0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6) + (a >> 2)); return splitmix(s);
}

// The stream of draws.
class Src {
public:
  Src(): mRec(0), mCap(0), mN(0), mReplay(false), mSeed(0), mRd(0) {}
  void startRandom(uint64_t seed, uint64_t* rec, uint64_t* recN, size_t cap) {
    mSeed = seed; mRec = rec; mNp = recN; mCap = cap; mN = 0; *mNp = 0; mReplay = false; mRd = 0;
  }
  void startReplay(const std::vector<uint64_t>& c, uint64_t* rec, uint64_t* recN, size_t cap) {
    mChoices = c; mRec = rec; mNp = recN; mCap = cap; mN = 0; *mNp = 0; mReplay = true; mRd = 0;
  }
  // Uniform integer in [0, n] (inclusive); 0 is the simplest.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (mReplay) {
      v = mRd < mChoices.size() ? mChoices[mRd] : 0; ++mRd;
      if (v > n) v = (n == UINT64_MAX ? v : v % (n + 1));
    } else {
      v = splitmix(mSeed);
      if (n != UINT64_MAX) v %= (n + 1);
    }
    if (mN < mCap) { mRec[mN++] = v; *mNp = mN; }
    else throw Discard();
    return v;
  }
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; } // 0 => false
  // A value in [0,1): multiples of 2^-bits.
  double unit(int bits = 30) { return (double)draw((1ULL << bits) - 1)/(double)(1ULL << bits); }
  double real(double lo, double hi) { return lo + (hi - lo)*unit(); }
  template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  uint64_t used() const { return mN; }
private:
  uint64_t* mRec; uint64_t* mNp; size_t mCap, mN;
  bool mReplay; uint64_t mSeed; size_t mRd;
  std::vector<uint64_t> mChoices;
};

// What one case reports besides pass/fail.
struct Case {
  bool nontrivial;
  std::vector<std::string> labels;
  std::ostringstream desc;     // a written-out description of the input
  int rank, nproc;
  std::string scratch;         // a scratch directory private to this worker
  Case(): nontrivial(false), rank(0), nproc(1) { desc.precision(17); }
  void label(const std::string& s) { labels.push_back(s); }
};

typedef void (*PropFn)(Src&, Case&);

struct Target {
  std::string name;
  PropFn fn;
  int np;                  // MPI ranks
  long quick, thorough;    // number of cases
  std::string rule;        // how cases are made and what is non-trivial
  double caseSeconds;      // CPU limit (np = 1) or wall limit (np > 1) of one case
};

inline Target target(const std::string& name, PropFn fn, long quick, long thorough,
                     const std::string& rule, int np = 1, double caseSeconds = 60) {
  Target t; t.name = name; t.fn = fn; t.np = np; t.quick = quick; t.thorough = thorough;
  t.rule = rule; t.caseSeconds = caseSeconds; return t;
}

int run(int argc, char** argv, const std::string& property, const std::vector<Target>& targets,
        const std::vector<std::string>& assumptions);

template<typename T> std::string str(const std::vector<T>& v) {
  std::ostringstream os; os.precision(17); os << "[";
  for (size_t i = 0; i != v.size(); ++i) os << (i ? "," : "") << v[i];
  os << "]"; return os.str();
}
template<typename T> std::string str(const std::vector<std::vector<T> >& v) {
  std::ostringstream os; os << "[";
  for (size_t i = 0; i != v.size(); ++i) os << (i ? "," : "") << str(v[i]);
  os << "]"; return os.str();
}

}
#endif

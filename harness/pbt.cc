// Driver of the choice-sequence engine: parallel workers (each its own process,
// MPI-initialised, optionally an mpirun group), crash/hang capture, shrinking,
// replay verification and the evidence file.
#include "pbt.hh"
#include <mpi.h>
#include <atomic>
#include <algorithm>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_container_overflow=1:malloc_context_size=8:fast_unwind_on_malloc=1";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }

namespace pbt {
namespace {

const size_t CAP = 1 << 17;
struct Shm {
  std::atomic<int> cmd, state;
  int64_t cur, done, discarded;
  int result;
  uint64_t nIn, nRec;
  char msg[8192];
  char desc[1 << 17];
  uint64_t in[CAP];
  uint64_t rec[CAP];
};

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
std::string getenvs(const char* n, const std::string& d) { const char* v = getenv(n); return v && *v ? v : d; }

std::string gProperty, gBin, gScratch, gVerif;
std::vector<Target> gTargets;

Shm* mapShm(const std::string& path, bool create) {
  int fd = open(path.c_str(), create ? O_RDWR | O_CREAT | O_TRUNC : O_RDWR, 0600);
  if (fd < 0) { perror(path.c_str()); _exit(2); }
  if (create && ftruncate(fd, sizeof(Shm)) != 0) { perror("ftruncate"); _exit(2); }
  void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (Shm*)p;
}

void copyStr(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0;
}

// Run one case on this process (one of the ranks).  0 pass, 1 fail, 2 discard.
int runCase(const Target& t, Src& src, Case& c, std::string& msg) {
  struct itimerval tv; memset(&tv, 0, sizeof tv);
  if (t.np == 1) { tv.it_value.tv_sec = (long)t.caseSeconds; setitimer(ITIMER_PROF, &tv, 0); }
  int r = 0;
  try { t.fn(src, c); }
  catch (const Failure& f) { r = 1; msg = f.msg; }
  catch (const Discard&) { r = 2; }
  catch (const std::exception& e) { r = 1; msg = std::string("exception: ") + e.what(); }
  catch (...) { r = 1; msg = "exception: unknown"; }
  if (t.np == 1) { tv.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &tv, 0); }
  if (t.np > 1) {
    // Rank 0 decides, but a failure raised elsewhere is forwarded.
    int n = r == 1 ? (int)msg.size() : 0, size; MPI_Comm_size(MPI_COMM_WORLD, &size);
    int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::vector<int> ns(size); MPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int p = 0; p != size; ++p) if (ns[p] > 0) {
      std::vector<char> b(ns[p]); if (rank == p) b.assign(msg.begin(), msg.end());
      MPI_Bcast(b.data(), ns[p], MPI_CHAR, p, MPI_COMM_WORLD);
      msg.assign(b.begin(), b.end()); r = 1; break;
    }
  }
  return r;
}

uint64_t caseSeed(uint64_t seed, const std::string& tname, long i) {
  uint64_t h = 1469598103934665603ULL;
  for (size_t k = 0; k != tname.size(); ++k) { h ^= (unsigned char)tname[k]; h *= 1099511628211ULL; }
  return mix(mix(seed, h), (uint64_t)i);
}

uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (size_t k = 0; k != s.size(); ++k) { h ^= (unsigned char)s[k]; h *= 1099511628211ULL; }
  return h;
}

const Target& findTarget(const std::string& n) {
  for (size_t i = 0; i != gTargets.size(); ++i) if (gTargets[i].name == n) return gTargets[i];
  fprintf(stderr, "no target %s\n", n.c_str()); _exit(2);
}

std::string oneLine(const std::string& s, size_t cap) {
  std::string r; for (size_t i = 0; i != s.size() && r.size() < cap; ++i) r += (s[i] == '\n' ? ' ' : s[i]);
  if (s.size() > cap) r += "..."; return r;
}

std::string category(const std::string& msg) { return msg.substr(0, msg.find(':')); }

int workerMain(int argc, char** argv) {
  // --worker shm target mode(seed start stride total deadline | serve) 
  std::string shmPath = argv[2], tname = argv[3], mode = argv[4];
  const Target& t = findTarget(tname);
  MPI_Init(&argc, &argv);
  int rank, np; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
  if (np != t.np) { fprintf(stderr, "np mismatch %d %d\n", np, t.np); _exit(2); }
  Shm* shm = mapShm(shmPath, false);
  std::vector<uint64_t> ownRec(rank ? CAP : 1); uint64_t ownN = 0;
  uint64_t* rec = rank ? ownRec.data() : shm->rec; uint64_t* recN = rank ? &ownN : &shm->nRec;
  std::string scratch = shmPath + ".d"; mkdir(scratch.c_str(), 0700);
  // The library prints; keep this quiet.
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
  if (chdir(scratch.c_str()) != 0) _exit(2);
  if (mode == "run") {
    uint64_t seed = strtoull(argv[5], 0, 10); long start = atol(argv[6]), stride = atol(argv[7]), total = atol(argv[8]);
    double deadline = atof(argv[9]);
    std::map<std::string, long> labels; std::set<uint64_t> hashes; std::vector<std::string> samples; long nontrivial = 0;
    uint64_t maxUsed = 0;
    for (long i = start; i < total; i += stride) {
      int stop = now() > deadline;
      if (np > 1) MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
      if (stop) break;
      if (!rank) shm->cur = i;
      Src src; src.startRandom(caseSeed(seed, tname, i), rec, recN, CAP);
      Case c; c.rank = rank; c.nproc = np; c.scratch = scratch;
      std::string msg; int r = runCase(t, src, c, msg);
      if (r == 1 && getenv("VERIF_SURVEY")) {
        // Exploration aid: count failures by category instead of stopping.
        if (!rank) { c.labels.push_back("FAIL " + category(msg)); fprintf(stderr, "SURVEY %s case %ld: %s\n   %s\n", tname.c_str(), i, oneLine(msg, 300).c_str(), oneLine(c.desc.str(), 3000).c_str()); }
        r = 0;
      }
      if (r == 1) {
        if (!rank) { copyStr(shm->msg, sizeof shm->msg, msg); copyStr(shm->desc, sizeof shm->desc, c.desc.str()); shm->result = 1; }
        if (np > 1) MPI_Barrier(MPI_COMM_WORLD);
        if (np > 1) { MPI_Finalize(); _exit(0); }
        _exit(0);
      }
      if (!rank) {
        if (r == 2) ++shm->discarded;
        else {
          ++shm->done; maxUsed = std::max(maxUsed, src.used());
          for (size_t k = 0; k != c.labels.size(); ++k) ++labels[c.labels[k]];
          if (c.nontrivial) {
            ++nontrivial; std::string d = c.desc.str(); hashes.insert(hashStr(d));
            if (samples.size() < 2) samples.push_back(oneLine(d, 700));
          }
        }
      }
    }
    if (!rank) {
      std::ofstream os((shmPath + ".stats").c_str());
      os << "nontrivial " << nontrivial << "\n" << "maxused " << maxUsed << "\n";
      for (std::map<std::string, long>::iterator it = labels.begin(); it != labels.end(); ++it) os << "label " << it->second << " " << it->first << "\n";
      for (std::set<uint64_t>::iterator it = hashes.begin(); it != hashes.end(); ++it) os << "hash " << *it << "\n";
      for (size_t k = 0; k != samples.size(); ++k) os << "sample " << samples[k] << "\n";
      os.close();
      shm->result = 4; // finished cleanly
    }
    if (np > 1) MPI_Finalize();
    _exit(0);
  }
  // serve mode
  if (!rank) shm->state = 1; // ready
  while (true) {
    int cmd = 0;
    if (!rank) { while ((cmd = shm->cmd.load()) == 0) { usleep(100); if (getppid() == 1) { cmd = 2; break; } } }
    if (np > 1) MPI_Bcast(&cmd, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (cmd == 2) break;
    std::vector<uint64_t> in; uint64_t n = rank ? 0 : shm->nIn;
    if (np > 1) MPI_Bcast(&n, 1, MPI_UINT64_T, 0, MPI_COMM_WORLD);
    in.resize(n); if (!rank && n) memcpy(in.data(), shm->in, n*8);
    if (np > 1 && n) MPI_Bcast(in.data(), (int)n, MPI_UINT64_T, 0, MPI_COMM_WORLD);
    Src src; src.startReplay(in, rec, recN, CAP);
    Case c; c.rank = rank; c.nproc = np; c.scratch = scratch;
    std::string msg; int r = runCase(t, src, c, msg);
    if (!rank) {
      copyStr(shm->msg, sizeof shm->msg, msg); copyStr(shm->desc, sizeof shm->desc, c.desc.str());
      shm->result = r; shm->cmd = 0; shm->state = 2;
    }
  }
  if (np > 1) MPI_Finalize();
  _exit(0);
}

pid_t launch(const Target& t, const std::string& shmPath, const std::vector<std::string>& args) {
  pid_t pid = fork();
  if (pid == 0) {
    setsid();
    int fd = open((shmPath + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2); dup2(fd, 1); close(fd);
    int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
    std::vector<std::string> a;
    if (t.np > 1) {
      char n[16]; snprintf(n, sizeof n, "%d", t.np);
      a.push_back("mpirun"); a.push_back("--oversubscribe"); a.push_back("--bind-to"); a.push_back("none");
      a.push_back("-np"); a.push_back(n);
    } else {
      setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
      setenv("OMPI_MCA_btl", "self", 1);
    }
    a.push_back(gBin); a.push_back("--worker"); a.push_back(shmPath); a.push_back(t.name);
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v; for (size_t i = 0; i != a.size(); ++i) v.push_back((char*)a[i].c_str()); v.push_back(0);
    execvp(v[0], v.data()); _exit(127);
  }
  return pid;
}

void killGroup(pid_t pid) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }

void rmTree(const std::string& d) {
  DIR* dir = opendir(d.c_str()); if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str());
  }
  closedir(dir); rmdir(d.c_str());
}

// Explain an abnormal worker end.
std::string deathMessage(const std::string& shmPath, int status, bool timedOut) {
  std::string cat = "crash", detail;
  if (timedOut || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF)) { cat = "hang"; detail = "the case did not finish in its time limit"; }
  else {
    std::ifstream is((shmPath + ".err").c_str()); std::string line; std::string asan, verify;
    while (std::getline(is, line)) {
      if (asan.empty() && (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos)) asan = line;
      else if (!asan.empty() && line.find("SUMMARY:") != std::string::npos) { asan += " | " + line; }
      if (verify.empty() && line.find("MPI_ABORT was invoked") != std::string::npos) verify = "the library aborted the run";
    }
    std::ostringstream os;
    if (!asan.empty()) { cat = "memory-error"; os << asan; }
    else if (!verify.empty()) { cat = "abort"; os << verify; }
    else if (WIFSIGNALED(status)) os << "killed by signal " << WTERMSIG(status);
    else os << "exit status " << (WIFEXITED(status) ? WEXITSTATUS(status) : status);
    detail = os.str();
  }
  return cat + ": " + detail;
}


// A long-lived worker that re-runs candidate streams, restarted when it dies.
class Server {
public:
  Server(const Target& t, const std::string& path): mT(t), mPath(path), mPid(0), mShm(0) {}
  ~Server() { stop(); }
  void stop() {
    if (mPid) { mShm->cmd = 2; for (int i = 0; i != 200 && mPid; ++i) { int st; if (waitpid(mPid, &st, WNOHANG) == mPid) mPid = 0; else usleep(5000); }
      if (mPid) { killGroup(mPid); int st; waitpid(mPid, &st, 0); mPid = 0; } }
    if (mShm) { munmap(mShm, sizeof(Shm)); mShm = 0; }
  }
  // returns 0 pass, 1 fail, 2 discard
  int eval(const std::vector<uint64_t>& in, std::string& msg, std::string& desc, std::vector<uint64_t>& used) {
    if (!mPid) start();
    mShm->nIn = std::min(in.size(), CAP); if (!in.empty()) memcpy(mShm->in, in.data(), mShm->nIn*8);
    mShm->desc[0] = 0; mShm->msg[0] = 0; mShm->state = 1; mShm->cmd = 1;
    double t0 = now(), limit = mT.np > 1 ? mT.caseSeconds : 4*mT.caseSeconds + 60;
    while (true) {
      if (mShm->state.load() == 2) {
        msg = mShm->msg; desc = mShm->desc; used.assign(mShm->rec, mShm->rec + mShm->nRec);
        return mShm->result;
      }
      int st; pid_t p = waitpid(mPid, &st, WNOHANG);
      bool late = now() - t0 > limit;
      if (p == mPid || late) {
        if (mShm->state.load() == 2) continue;
        if (late) { killGroup(mPid); waitpid(mPid, &st, 0); } else kill(-mPid, SIGKILL);
        mPid = 0;
        msg = deathMessage(mPath, st, late); desc = mShm->desc; used.assign(mShm->rec, mShm->rec + mShm->nRec);
        return 1;
      }
      usleep(100);
    }
  }
private:
  void start() {
    if (mShm) munmap(mShm, sizeof(Shm));
    mShm = mapShm(mPath, true); mShm->cmd = 0; mShm->state = 0;
    std::vector<std::string> a(1, "serve"); mPid = launch(mT, mPath, a);
    double t0 = now();
    while (mShm->state.load() == 0) {
      usleep(500); int st;
      if (waitpid(mPid, &st, WNOHANG) == mPid || now() - t0 > 120) { fprintf(stderr, "cannot start a worker for %s\n", mT.name.c_str()); std::ifstream is((mPath + ".err").c_str()); std::string l; while (std::getline(is, l)) fprintf(stderr, "  %s\n", l.c_str()); exit(2); }
    }
  }
  const Target& mT; std::string mPath; pid_t mPid; Shm* mShm;
};

bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

void shrink(Server& s, std::vector<uint64_t>& best, std::string& msg, std::string& desc, double budget) {
  const std::string cat = category(msg);
  double t0 = now(); long tries = 0;
  struct Try {
    Server& s; std::vector<uint64_t>& best; std::string& msg; std::string& desc; const std::string& cat; double end; long& tries;
    bool over() const { return now() > end; }
    bool operator()(const std::vector<uint64_t>& cand) {
      if (over() || !simpler(cand, best)) return false;
      ++tries;
      std::string m, d; std::vector<uint64_t> u;
      if (s.eval(cand, m, d, u) != 1 || category(m) != cat) return false;
      if (simpler(u, cand)) best = u; else best = cand;
      msg = m; if (!d.empty()) desc = d; return true;
    }
  } attempt = { s, best, msg, desc, cat, t0 + budget, tries };
  bool progress = true;
  while (progress && !attempt.over()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size()/2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size() && !attempt.over(); ) {
        std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + chunk);
        if (attempt(c)) progress = true;
        else {
          std::vector<uint64_t> z(best); bool any = false;
          for (size_t k = i; k != i + chunk; ++k) { if (z[k]) any = true; z[k] = 0; }
          if (any && attempt(z)) progress = true;
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    // Deleting one draw while lowering an earlier count.
    for (size_t i = 0; i < best.size() && i < 64 && !attempt.over(); ++i) {
      if (best[i] == 0 || best[i] > 200) continue;
      for (size_t k = 1; k <= 8 && i + 1 + k <= best.size(); ++k) {
        std::vector<uint64_t> c(best); c[i] -= 1;
        size_t at = c.size() - k; c.erase(c.begin() + at, c.end());
        if (attempt(c)) { progress = true; break; }
      }
    }
    for (size_t i = 0; i < best.size() && !attempt.over(); ++i) {
      if (best[i] == 0) continue;
      uint64_t lo = 0, hi = best[i];
      while (lo + 1 < hi && !attempt.over()) {
        uint64_t mid = lo + (hi - lo)/2; std::vector<uint64_t> c(best); c[i] = mid;
        size_t sz = best.size();
        if (attempt(c)) { progress = true; if (best.size() != sz || i >= best.size()) break; hi = best[i] < hi ? best[i] : mid; if (hi == 0) break; }
        else lo = mid;
      }
    }
  }
}

std::string jsonStr(const std::string& s) {
  std::ostringstream os; os << '"';
  for (size_t i = 0; i != s.size(); ++i) { unsigned char c = s[i];
    if (c == '"' || c == '\\') os << '\\' << c; else if (c == '\n') os << "\\n"; else if (c == '\t') os << "\\t";
    else if (c < 32 || c > 126) os << "?"; else os << c; }
  os << '"'; return os.str();
}

void writeReplay(const std::string& path, const Target& t, const std::string& msg, const std::string& desc, const std::vector<uint64_t>& c) {
  std::ofstream os(path.c_str());
  os << "property " << gProperty << "\ntarget " << t.name << "\nmessage " << oneLine(msg, 4000) << "\nchoices " << c.size();
  for (size_t i = 0; i != c.size(); ++i) os << " " << c[i];
  os << "\ninput " << oneLine(desc, 100000) << "\n";
}

bool readReplay(const std::string& path, std::string& target, std::string& msg, std::vector<uint64_t>& c) {
  std::ifstream is(path.c_str()); if (!is) return false; std::string line; bool ok = false;
  while (std::getline(is, line)) {
    if (line.compare(0, 7, "target ") == 0) target = line.substr(7);
    else if (line.compare(0, 8, "message ") == 0) msg = line.substr(8);
    else if (line.compare(0, 8, "choices ") == 0) { std::istringstream ss(line.substr(8)); size_t n; ss >> n; c.resize(n); for (size_t i = 0; i != n; ++i) ss >> c[i]; ok = true; }
  }
  return ok;
}

struct Stats {
  long evals, discarded, nontrivial, planned; uint64_t maxUsed; std::set<uint64_t> hashes; std::map<std::string, long> labels; std::vector<std::string> samples;
  Stats(): evals(0), discarded(0), nontrivial(0), planned(0), maxUsed(0) {}
};

} // anonymous

int run(int argc, char** argv, const std::string& property, const std::vector<Target>& targets,
        const std::vector<std::string>& assumptions) {
  gProperty = property; gTargets = targets;
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; gBin = b; }
  if (argc > 1 && std::string(argv[1]) == "--worker") return workerMain(argc, argv);

  setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1); setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1);
  setenv("OMPI_MCA_btl", "self,vader", 1); setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 1);
  setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1); setenv("OMPI_MCA_plm_rsh_agent", "false", 1);
  setenv("OMPI_MCA_opal_signal", "", 1); setenv("OMPI_MCA_pml", "ob1", 1);
  setenv("OMPI_MCA_opal_warn_on_missing_libcuda", "0", 1);
  gVerif = getenvs("VERIF_DIR", "/verif");
  const uint64_t seed = strtoull(getenvs("VERIF_SEED", "1").c_str(), 0, 10);
  const std::string tier = getenvs("VERIF_TIER", "quick"); const bool thorough = tier == "thorough";
  const double t0 = now(), budget = atof(getenvs("VERIF_BUDGET", thorough ? "640" : "300").c_str());
  const double scale = atof(getenvs("VERIF_SCALE", "1").c_str());
  const int ncores = atoi(getenvs("VERIF_JOBS", "8").c_str());
  { std::string tmpl = getenvs("TMPDIR", "/tmp") + "/verif-" + property + "-XXXXXX"; std::vector<char> b(tmpl.begin(), tmpl.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; } gScratch = b.data(); }

  std::string replayArg; bool keepGoing = false; std::string only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) replayArg = argv[++i];
    else if (a == "--keep-going") keepGoing = true;
    else if (a == "--target" && i + 1 < argc) only = argv[++i];
    else if (a == "--list") { for (size_t k = 0; k != targets.size(); ++k) printf("%s np=%d quick=%ld thorough=%ld\n", targets[k].name.c_str(), targets[k].np, targets[k].quick, targets[k].thorough); rmTree(gScratch); return 0; }
  }
  if (!replayArg.empty()) {
    std::string tn, m, msg, desc; std::vector<uint64_t> c, u;
    if (!readReplay(replayArg, tn, m, c)) { fprintf(stderr, "cannot read %s\n", replayArg.c_str()); rmTree(gScratch); return 2; }
    int r; { Server s(findTarget(tn), gScratch + "/replay"); r = s.eval(c, msg, desc, u); }
    printf("replay %s target %s: %s\n", replayArg.c_str(), tn.c_str(), r == 1 ? ("FAIL " + msg).c_str() : r == 2 ? "discarded" : "pass");
    if (getenv("VERIF_SHOW")) printf("input: %s\n", desc.c_str());
    rmTree(gScratch);
    if (r == 1) { printf("VIOLATION property=%s replay=%s\n", property.c_str(), replayArg.c_str()); return 1; }
    return 0;
  }

  int violations = 0; long unreproduced = 0;
  std::set<std::string> known; // "target|category|choices" of listed findings
  {
    // Known findings: "finding: property=<id> replay=<path> <what fails>"
    std::ifstream is((gVerif + "/known_findings.txt").c_str()); std::string line;
    while (std::getline(is, line)) {
      if (line.compare(0, 9, "finding: ") != 0) continue;
      std::istringstream ss(line.substr(9)); std::string p, r, what; ss >> p >> r; std::getline(ss, what);
      if (p != "property=" + property || r.compare(0, 7, "replay=") != 0) continue;
      std::string path = gVerif + "/" + r.substr(7), tn, m, msg, desc; std::vector<uint64_t> c, u;
      if (!readReplay(path, tn, m, c)) { fprintf(stderr, "cannot read %s\n", path.c_str()); continue; }
      Server s(findTarget(tn), gScratch + "/known");
      if (s.eval(c, msg, desc, u) == 1) {
        if (category(msg) == category(m)) printf("KNOWN-FINDING: property=%s%s\n", property.c_str(), what.c_str());
        else { printf("VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str()); printf("  %s\n", oneLine(msg, 600).c_str()); ++violations; }
      }
    }
  }

  std::map<std::string, Stats> stats;
  for (size_t ti = 0; ti != targets.size(); ++ti) {
    const Target& t = targets[ti];
    if (!only.empty() && only != t.name) continue;
    Stats& st = stats[t.name];
    long total = (long)((thorough ? t.thorough : t.quick)*scale + 0.5); st.planned = total;
    int W = std::max(1, t.np > 1 ? ncores/t.np : ncores); if (total < W) W = (int)std::max(1L, total);
    double left = budget - (now() - t0), remainingTargets = (double)(targets.size() - ti);
    double deadline = now() + (remainingTargets <= 1 ? left : std::min(left, 2.5*left/remainingTargets));
    std::vector<pid_t> pids(W); std::vector<Shm*> shms(W); std::vector<std::string> paths(W);
    std::vector<double> lastMove(W); std::vector<int64_t> lastCur(W);
    for (int w = 0; w != W; ++w) {
      std::ostringstream p; p << gScratch << "/t" << ti << "w" << w; paths[w] = p.str();
      shms[w] = mapShm(paths[w], true); shms[w]->cur = -1; shms[w]->result = 0; lastCur[w] = -1; lastMove[w] = now();
      std::vector<std::string> a; a.push_back("run");
      char b[64]; snprintf(b, sizeof b, "%llu", (unsigned long long)seed); a.push_back(b);
      snprintf(b, sizeof b, "%d", w); a.push_back(b); snprintf(b, sizeof b, "%d", W); a.push_back(b);
      snprintf(b, sizeof b, "%ld", total); a.push_back(b); snprintf(b, sizeof b, "%.3f", deadline); a.push_back(b);
      pids[w] = launch(t, paths[w], a);
    }
    int running = W, bad = -1; std::string msg, desc; std::vector<uint64_t> choices;
    while (running > 0 && bad < 0) {
      usleep(2000);
      for (int w = 0; w != W && bad < 0; ++w) {
        if (!pids[w]) continue;
        int status = 0; pid_t p = waitpid(pids[w], &status, WNOHANG); bool late = false;
        if (p != pids[w]) {
          if (shms[w]->cur != lastCur[w]) { lastCur[w] = shms[w]->cur; lastMove[w] = now(); }
          else if (shms[w]->result == 0 && now() - lastMove[w] > (t.np > 1 ? t.caseSeconds : 4*t.caseSeconds + 60)) late = true;
          if (!late) continue;
          killGroup(pids[w]); waitpid(pids[w], &status, 0);
        }
        kill(-pids[w], SIGKILL); pids[w] = 0; --running;
        if (shms[w]->result == 4 && !late) continue;
        if (shms[w]->result == 1) { msg = shms[w]->msg; desc = shms[w]->desc; }
        else {
          if (shms[w]->cur < 0) { fprintf(stderr, "worker of %s did not start (status %d)\n", t.name.c_str(), status);
            std::ifstream is((paths[w] + ".err").c_str()); std::string l; while (std::getline(is, l)) fprintf(stderr, "  %s\n", l.c_str());
            for (int k = 0; k != W; ++k) if (pids[k]) killGroup(pids[k]);
            rmTree(gScratch); return 2; }
          msg = deathMessage(paths[w], status, late); desc = "";
        }
        choices.assign(shms[w]->rec, shms[w]->rec + std::min<uint64_t>(shms[w]->nRec, CAP));
        bad = w;
      }
    }
    for (int w = 0; w != W; ++w) if (pids[w]) { killGroup(pids[w]); int s; waitpid(pids[w], &s, 0); pids[w] = 0; }
    if (const char* sv = getenv("VERIF_SURVEY")) for (int w = 0; w != W; ++w) {
      std::ifstream es((paths[w] + ".err").c_str()); std::ofstream os(sv, std::ios::app); std::string l;
      while (std::getline(es, l)) if (l.compare(0, 6, "SURVEY") == 0 || l.compare(0, 3, "   ") == 0) os << l << "\n";
    }
    for (int w = 0; w != W; ++w) {
      st.evals += shms[w]->done; st.discarded += shms[w]->discarded;
      std::ifstream is((paths[w] + ".stats").c_str()); std::string k;
      while (is >> k) {
        if (k == "nontrivial") { long n; is >> n; st.nontrivial += n; }
        else if (k == "maxused") { uint64_t n; is >> n; st.maxUsed = std::max(st.maxUsed, n); }
        else if (k == "label") { long n; std::string l; is >> n; std::getline(is, l); st.labels[l.substr(1)] += n; }
        else if (k == "hash") { uint64_t h; is >> h; st.hashes.insert(h); }
        else if (k == "sample") { std::string l; std::getline(is, l); if (st.samples.size() < 3) st.samples.push_back(l.substr(1)); }
      }
      munmap(shms[w], sizeof(Shm));
    }
    if (bad >= 0) {
      // Reproduce, shrink, and confirm three times before saying anything.
      std::string m2, d2; std::vector<uint64_t> u2; const std::string firstMsg = msg; int again = 0;
      std::ostringstream sp; sp << gScratch << "/shrink" << ti;
      std::vector<uint64_t> orig = choices;
      Server s(t, sp.str());
      for (int k = 0; k != 3; ++k) if (s.eval(choices, m2, d2, u2) == 1) { ++again; msg = m2; if (!d2.empty()) desc = d2; }
      if (again == 0) {
        ++unreproduced; fprintf(stderr, "%s/%s: a failure did not reproduce: %s\n", property.c_str(), t.name.c_str(), oneLine(firstMsg, 500).c_str());
        // keep going with this target marked incomplete
        st.labels["unreproduced failure"]++;
      } else {
        shrink(s, choices, msg, desc, std::min(90.0, std::max(20.0, 0.25*budget)));
        int ok = 0; for (int k = 0; k != 3; ++k) if (s.eval(choices, m2, d2, u2) == 1) ++ok;
        if (ok == 0) choices = orig;
        ++violations;
        std::ostringstream rp; mkdir((gVerif + "/replays").c_str(), 0755);
        uint64_t h = 0; for (size_t i = 0; i != choices.size(); ++i) h = mix(h, choices[i]);
        rp << gVerif << "/replays/" << property << "-" << t.name << "-" << std::hex << (h & 0xffffffffULL) << ".replay";
        writeReplay(rp.str(), t, msg, desc, choices);
        printf("VIOLATION property=%s replay=%s\n", property.c_str(), rp.str().c_str());
        printf("  target %s: %s\n  input: %s\n", t.name.c_str(), oneLine(msg, 1500).c_str(), oneLine(desc, 3000).c_str());
        fflush(stdout);
      }
      s.stop();
      if (violations && !keepGoing) break;
    }
  }

  // Evidence.
  long evals = 0, distinct = 0; std::ostringstream rule, samples, tj; int ns = 0;
  for (size_t ti = 0; ti != targets.size(); ++ti) {
    if (!stats.count(targets[ti].name)) continue;
    Stats& st = stats[targets[ti].name]; const Target& t = targets[ti];
    evals += st.evals; distinct += (long)st.hashes.size();
    rule << "[" << t.name << "] " << t.rule << " ";
    for (size_t k = 0; k != st.samples.size(); ++k) samples << (ns++ ? "," : "") << jsonStr(t.name + ": " + st.samples[k]);
    tj << (tj.str().empty() ? "" : ",") << "\n   {\"target\":" << jsonStr(t.name) << ",\"ranks\":" << t.np << ",\"planned\":" << st.planned << ",\"evaluated\":" << st.evals
       << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.hashes.size() << ",\"longest_choice_stream\":" << st.maxUsed << ",\"labels\":{";
    bool first = true;
    for (std::map<std::string, long>::iterator it = st.labels.begin(); it != st.labels.end(); ++it) { tj << (first ? "" : ",") << jsonStr(it->first) << ":" << it->second; first = false; }
    tj << "}}";
  }
  mkdir((gVerif + "/evidence").c_str(), 0755);
  std::ofstream ev((gVerif + "/evidence/" + property + ".json").c_str());
  ev << "{\"property\":" << jsonStr(property) << ",\"tier\":" << jsonStr(thorough ? "thorough" : "quick") << ",\"seed\":" << seed << ",\"level\":\"exploration\",\n \"coverage\":{\"evaluations\":" << evals
     << ",\"distinct_nontrivial\":" << distinct << ",\n  \"rule\":" << jsonStr(rule.str()) << ",\n  \"samples\":[" << samples.str() << "],\n  \"targets\":[" << tj.str() << "],\n  \"unreproduced\":" << unreproduced << "},\n \"assumptions\":[";
  for (size_t i = 0; i != assumptions.size(); ++i) ev << (i ? "," : "") << jsonStr(assumptions[i]);
  ev << "],\n \"wall_s\":" << now() - t0 << ",\n \"violations\":" << violations << "}\n";
  ev.close();
  if (getenv("VERIF_LABELS") || getenv("VERIF_SURVEY"))
    for (std::map<std::string, Stats>::iterator it = stats.begin(); it != stats.end(); ++it) {
      printf("%s: evaluated %ld, discarded %ld, nontrivial %ld\n", it->first.c_str(), it->second.evals, it->second.discarded, it->second.nontrivial);
      for (std::map<std::string, long>::iterator l = it->second.labels.begin(); l != it->second.labels.end(); ++l) printf("   %8ld %s\n", l->second, l->first.c_str());
    }
  printf("%s %s seed=%llu: %ld cases, %ld distinct non-trivial, %.1f s, %s\n", property.c_str(), tier.c_str(), (unsigned long long)seed, evals, distinct, now() - t0, violations ? "VIOLATED" : "held");
  rmTree(gScratch);
  return violations ? 1 : 0;
}

} // namespace pbt

#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;
#ifdef PBT_COV
extern "C" void __gcov_dump(void);
static void cov() { __gcov_dump(); }
#else
static void cov() {}
#endif
namespace pbt {

static const int MAXCH = 1 << 16;
struct Shared {
  volatile long cur;        // case being run, -1 none
  volatile double started;  // when
  volatile long finished;   // cases finished by this child
  volatile int nch;
  uint32_t ch[MAXCH];
  volatile long reslen;
  char res[1 << 20];
};
static Shared *sh;

uint32_t Src::draw(uint32_t n) {
  uint32_t v;
  if (replay) {
    v = pos < rec.size() ? rec[pos] : 0;
    pos++;
    if (n == 0) n = 1;
    v %= n;
  } else {
    v = n ? (uint32_t)(next() % n) : 0;
    rec.push_back(v);
    if (sh && sh->nch < MAXCH) {
      sh->ch[sh->nch] = v;
      sh->nch = sh->nch + 1;
    }
  }
  return v;
}

vector<Scenario> &registry() {
  static vector<Scenario> r;
  return r;
}

string strf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char *p = nullptr;
  if (vasprintf(&p, fmt, ap) < 0) p = nullptr;
  va_end(ap);
  string s = p ? p : "";
  free(p);
  return s;
}

CaptureStdout::CaptureStdout() {
  fflush(stdout);
  saved = dup(1);
  f = tmpfile();
  dup2(fileno(f), 1);
}
CaptureStdout::~CaptureStdout() {
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  fclose(f);
}
string CaptureStdout::text() {
  fflush(stdout);
  off_t n = lseek(fileno(f), 0, SEEK_END);
  string s(n, 0);
  if (pread(fileno(f), &s[0], n, 0) < 0) s.clear();
  return s;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static string jstr(const string &s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
static const char *stname[] = {"ok", "trivial", "discard", "inconclusive", "fail", "crash", "timeout"};

struct Case {
  int scen;
  long idx;
};

static string gdir;      // scratch
static string gerrpath;  // child's stderr

static void prepare_child(const string &cwd, const string &err) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (chdir(cwd.c_str())) _exit(99);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0);
  dup2(n, 1);
  if (const char *o = getenv("PBT_STDOUT")) dup2(open(o, O_WRONLY | O_CREAT | O_TRUNC, 0644), 1);
  int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(e, 2);
}

static string slurp(const string &p, size_t lim = 200000) {
  ifstream f(p, ios::binary);
  stringstream ss;
  ss << f.rdbuf();
  string s = ss.str();
  if (s.size() > lim) s = s.substr(0, lim);
  return s;
}

// A short, stable name for a crash, from the child's stderr and status.
static string crash_class(int status, const string &err, string &detail) {
  string c;
  size_t p = err.find("SUMMARY: ");
  size_t a = err.find("Assertion `");
  auto frames = [&]() {
    size_t f0 = err.find("    #0");
    return f0 == string::npos ? string() : "\n" + err.substr(f0, 1500);
  };
  if (a != string::npos) {
    size_t b = err.rfind('\n', a);
    b = b == string::npos ? 0 : b + 1;
    string l = err.substr(b, err.find('\n', a) - b);
    size_t e = l.find("' failed", a - b);
    c = "crash assert " + l.substr(a - b + 10, e == string::npos ? string::npos : e - (a - b) - 9);
    detail = l + frames();
  } else if (p != string::npos) {
    string l = err.substr(p, err.find('\n', p) - p);
    // SUMMARY: AddressSanitizer: heap-buffer-overflow file:line in func
    size_t in = l.rfind(" in ");
    size_t k = l.find(": ", 9);
    string kind = l.substr(k + 2, l.find(' ', k + 2) - k - 2);
    c = "crash " + kind + (in != string::npos ? l.substr(in) : "");
    detail = l + frames();
  } else if (WIFSIGNALED(status)) {
    c = strf("crash signal %d", WTERMSIG(status));
    detail = err.substr(err.size() > 500 ? err.size() - 500 : 0);
  } else {
    c = strf("crash exit %d", WEXITSTATUS(status));
    detail = err.substr(err.size() > 500 ? err.size() - 500 : 0);
  }
  return c;
}

static uint64_t mix(uint64_t a, uint64_t b) {
  Src s;
  s.st = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x1234567ULL) * 0xbf58476d1ce4e5b9ULL;
  s.next();
  return s.next();
}
static uint64_t hstr(const string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

struct One {  // outcome of a single isolated run
  Result r;
  vector<uint32_t> choices;
};

// Runs one choice sequence in its own process.
static One run_isolated(const Scenario &sc, const vector<uint32_t> &ch, const string &cwd) {
  One o;
  string err = cwd + "/.stderr";
  sh->cur = 0;
  sh->nch = 0;
  sh->reslen = -1;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prepare_child(cwd, err);
    Src s;
    s.replay = true;
    s.rec = ch;
    Result r;
    sc.fn(s, r);
    string out = to_string((int)r.st) + "\n" + to_string(s.pos) + "\n" + r.cls + "\n" +
                 to_string(r.msg.size()) + "\n" + r.msg + r.desc;
    size_t n = min(out.size(), sizeof(sh->res));
    memcpy(sh->res, out.data(), n);
    sh->reslen = n;
    fflush(NULL);
    { cov(); _exit(0); }
  }
  double t0 = now();
  double lim = getenv("PBT_TIMEOUT") ? atof(getenv("PBT_TIMEOUT")) : sc.timeout * 2;
  int status;
  bool to = false;
  while (true) {
    pid_t w = waitpid(p, &status, WNOHANG);
    if (w == p) break;
    if (now() - t0 > lim) {
      kill(p, SIGKILL);
      waitpid(p, &status, 0);
      to = true;
      break;
    }
    usleep(300);
  }
  o.choices = ch;
  if (to) {
    o.r.st = TIMEOUT;
    return o;
  }
  if (sh->reslen >= 0 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    string s(sh->res, sh->reslen);
    size_t a = s.find('\n'), b = s.find('\n', a + 1), c = s.find('\n', b + 1), d = s.find('\n', c + 1);
    o.r.st = (Status)atoi(s.substr(0, a).c_str());
    size_t used = strtoul(s.substr(a + 1, b - a - 1).c_str(), 0, 10);
    o.r.cls = s.substr(b + 1, c - b - 1);
    size_t ml = strtoul(s.substr(c + 1, d - c - 1).c_str(), 0, 10);
    o.r.msg = s.substr(d + 1, ml);
    o.r.desc = s.substr(min(s.size(), d + 1 + ml));
    if (used < o.choices.size()) o.choices.resize(used);
  } else {
    o.r.st = CRASH;
    o.r.cls = crash_class(status, slurp(err), o.r.msg);
  }
  return o;
}

// The failing input's text when the run itself crashed: run up to the crash in
// describe-only mode.
bool describe_only = false;

static string worker_cwd(int w) {
  string d = gdir + "/w" + to_string(w);
  mkdir(d.c_str(), 0755);
  return d;
}

static void clean_cwd(const string &d) {
  static const char *files[] = {"tile.sizes", ".fst", ".precut", "codegen.context", "skipdeps.txt", ".regtile"};
  for (auto f : files) unlink((d + "/" + f).c_str());
}

static void worker(int w, int jobs, const vector<int> &scens, const vector<long> &plan, uint64_t seed,
                   double deadline, const string &resfile) {
  // plan[i] = scenario of case i; this worker runs i = w, w+jobs, ...
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string cwd = worker_cwd(w);
  string err = cwd + "/.stderr";
  vector<long> mine;
  for (long i = w; i < (long)plan.size(); i += jobs) mine.push_back(i);
  stable_sort(mine.begin(), mine.end(), [&](long a, long b) { return false; });
  size_t k = 0;
  while (k < mine.size() && now() < deadline) {
    // a batch of cases of the same scenario group: run until batch limit
    const Scenario &first = registry()[plan[mine[k]]];
    size_t e = min(mine.size(), k + (size_t)first.batch);
    sh->cur = -1;
    sh->finished = 0;
    pid_t p = fork();
    if (p == 0) {
      prepare_child(cwd, err);
      FILE *out = fopen(resfile.c_str(), "a");
      for (size_t j = k; j < e; j++) {
        if (now() > deadline) break;
        const Scenario &sc = registry()[plan[mine[j]]];
        if ((int)(j - k) >= sc.batch) break;
        sh->nch = 0;
        sh->started = now();
        sh->cur = mine[j];
        Src s;
        s.st = mix(mix(seed, hstr(sc.prop + "." + sc.name)), (uint64_t)mine[j]);
        Result r;
        clean_cwd(".");
        sc.fn(s, r);
        double dt = now() - sh->started;
        if (r.key.empty()) r.key = r.desc;
        fprintf(out, "{\"i\":%ld,\"sc\":%s,\"st\":\"%s\",\"key\":\"%016llx\",\"t\":%.4f,\"n\":%zu", mine[j],
                jstr(sc.name).c_str(), stname[r.st], (unsigned long long)hstr(r.key), dt, s.rec.size());
        if (!r.tags.empty()) {
          fprintf(out, ",\"tags\":{");
          bool f = true;
          for (auto &t : r.tags) {
            fprintf(out, "%s%s:%ld", f ? "" : ",", jstr(t.first).c_str(), t.second);
            f = false;
          }
          fprintf(out, "}");
        }
        if (r.st == FAIL) {
          fprintf(out, ",\"cls\":%s,\"msg\":%s,\"desc\":%s,\"ch\":[", jstr(r.cls).c_str(),
                  jstr(r.msg.substr(0, 4000)).c_str(), jstr(r.desc.substr(0, 8000)).c_str());
          for (size_t q = 0; q < s.rec.size(); q++) fprintf(out, "%s%u", q ? "," : "", s.rec[q]);
          fprintf(out, "]");
        } else if (mine[j] < 40 || mine[j] % 97 == 0) {
          fprintf(out, ",\"desc\":%s", jstr(r.desc.substr(0, 1500)).c_str());
        }
        fprintf(out, "}\n");
        fflush(out);
        sh->finished = sh->finished + 1;
        sh->cur = -1;
      }
      fclose(out);
      { cov(); _exit(0); }
    }
    int status = 0;
    bool to = false;
    useconds_t nap = 200;
    while (true) {
      pid_t q = waitpid(p, &status, WNOHANG);
      if (q == p) break;
      long c = sh->cur;
      if (c >= 0) {
        double lim = registry()[plan[c]].timeout;
        if (now() - sh->started > lim) {
          kill(p, SIGKILL);
          waitpid(p, &status, 0);
          if (sh->cur == c) to = true;
          break;
        }
      }
      usleep(nap);
      if (nap < 3000) nap += 100;
    }
    long fin = sh->finished;
    long c = sh->cur;
    if (c >= 0) {
      const Scenario &sc = registry()[plan[c]];
      FILE *out = fopen(resfile.c_str(), "a");
      if (to) {
        fprintf(out, "{\"i\":%ld,\"sc\":%s,\"st\":\"timeout\",\"key\":\"0\",\"t\":%.2f,\"ch\":[", c,
                jstr(sc.name).c_str(), sc.timeout);
        for (int q = 0; q < sh->nch; q++) fprintf(out, "%s%u", q ? "," : "", sh->ch[q]);
        fprintf(out, "]}\n");
      } else {
        string detail;
        string cls = crash_class(status, slurp(err), detail);
        fprintf(out, "{\"i\":%ld,\"sc\":%s,\"st\":\"crash\",\"key\":\"c%ld\",\"cls\":%s,\"msg\":%s,\"ch\":[", c,
                jstr(sc.name).c_str(), c, jstr(cls).c_str(), jstr(detail.substr(0, 3000)).c_str());
        for (int q = 0; q < sh->nch; q++) fprintf(out, "%s%u", q ? "," : "", sh->ch[q]);
        fprintf(out, "]}\n");
      }
      fclose(out);
      fin++;
    } else if (fin == 0) {
      // The child died outside a case (e.g. at exit): nothing to blame; go on.
      fin = (long)(e - k);
    }
    k += fin;
  }
}

// ---- shrinking ----
static bool same_failure(const One &o, const string &cls) {
  return (o.r.st == FAIL || o.r.st == CRASH) && o.r.cls == cls;
}

static vector<uint32_t> shrink(const Scenario &sc, vector<uint32_t> best, const string &cls, const string &cwd,
                               double budget, long &tries) {
  double end = now() + budget;
  auto attempt = [&](const vector<uint32_t> &c) {
    if (now() > end) return false;
    tries++;
    One o = run_isolated(sc, c, cwd);
    if (same_failure(o, cls)) {
      best = o.choices;
      return true;
    }
    return false;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete chunks
    for (size_t len = max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t at = 0; at + len <= best.size() && now() < end;) {
        vector<uint32_t> c = best;
        c.erase(c.begin() + at, c.begin() + at + len);
        if (attempt(c)) progress = true;
        else at += max<size_t>(1, len / 2 ? len / 2 : 1);
      }
      if (len == 1) break;
    }
    // zero chunks
    for (size_t len = max<size_t>(1, best.size() / 4); len >= 1 && now() < end; len /= 2) {
      for (size_t at = 0; at + len <= best.size() && now() < end; at += len) {
        bool any = false;
        for (size_t q = at; q < at + len; q++) any |= best[q] != 0;
        if (!any) continue;
        vector<uint32_t> c = best;
        fill(c.begin() + at, c.begin() + at + len, 0);
        if (attempt(c)) progress = true;
      }
      if (len == 1) break;
    }
    // lower single values
    for (size_t at = 0; at < best.size() && now() < end; at++) {
      uint32_t v = best[at];
      for (uint32_t t : {0u, 1u, v / 2, v - 1}) {
        if (at >= best.size() || t >= best[at]) continue;
        vector<uint32_t> c = best;
        c[at] = t;
        if (attempt(c)) {
          progress = true;
          break;
        }
      }
    }
  }
  return best;
}

static bool parse_choices(const string &text, string &prop, string &scen, vector<uint32_t> &ch) {
  auto field = [&](const char *n) -> string {
    size_t p = text.find(string("\"") + n + "\"");
    if (p == string::npos) return "";
    p = text.find(':', p);
    size_t a = text.find('"', p);
    size_t b = text.find('"', a + 1);
    return text.substr(a + 1, b - a - 1);
  };
  prop = field("property");
  scen = field("scenario");
  size_t p = text.find("\"choices\"");
  if (p == string::npos) return false;
  p = text.find('[', p);
  size_t e = text.find(']', p);
  stringstream ss(text.substr(p + 1, e - p - 1));
  string tok;
  while (getline(ss, tok, ',')) ch.push_back((uint32_t)strtoul(tok.c_str(), 0, 10));
  return true;
}

}  // namespace pbt

using namespace pbt;

static const Scenario *find_scen(const string &prop, const string &name) {
  for (auto &s : registry())
    if (s.prop == prop && s.name == name) return &s;
  return nullptr;
}

// Modes:
//   list
//   run PROP CASES SEED JOBS SECONDS WORKDIR RESULTS.jsonl [SCENARIO]
//   replay FILE WORKDIR          exit 1 if it fails again (prints class, message)
//   shrink FILE WORKDIR SECONDS OUT
static string abspath(const char *p) {
  if (p[0] == '/') return p;
  char buf[4096];
  return string(getcwd(buf, sizeof buf)) + "/" + p;
}
int main(int argc, char **argv) {
  string mode = argc > 1 ? argv[1] : "";
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  if (mode == "list") {
    for (auto &s : registry()) printf("%s %s %d\n", s.prop.c_str(), s.name.c_str(), s.weight);
    return 0;
  }
  if (mode == "run") {
    string prop = argv[2];
    long cases = atol(argv[3]);
    uint64_t seed = strtoull(argv[4], 0, 10);
    int jobs = atoi(argv[5]);
    double secs = atof(argv[6]);
    gdir = abspath(argv[7]);
    string res = abspath(argv[8]);
    string only = argc > 9 ? argv[9] : "";
    vector<int> scens;
    long tot = 0;
    for (size_t i = 0; i < registry().size(); i++)
      if (registry()[i].prop == prop && (only.empty() || registry()[i].name == only)) {
        scens.push_back(i);
        tot += registry()[i].weight;
      }
    if (scens.empty()) return 2;
    // Deterministic plan: scenarios in blocks so that batches are uniform.
    vector<long> plan;
    {
      // largest-remainder interleaving per block of `jobs`
      vector<double> acc(scens.size(), 0);
      while ((long)plan.size() < cases) {
        size_t b = 0;
        for (size_t q = 0; q < scens.size(); q++) {
          acc[q] += (double)registry()[scens[q]].weight / tot;
          if (acc[q] > acc[b]) b = q;
        }
        acc[b] -= 1;
        int rep = jobs * min(registry()[scens[b]].batch, 50);
        for (int z = 0; z < rep && (long)plan.size() < cases; z++) plan.push_back(scens[b]);
        // account for the repeat
        for (size_t q = 0; q < scens.size(); q++) acc[q] += (rep - 1) * (double)registry()[scens[q]].weight / tot;
        acc[b] -= rep - 1;
      }
    }
    double deadline = now() + secs;
    vector<pid_t> ps;
    for (int w = 0; w < jobs; w++) {
      pid_t p = fork();
      if (p == 0) {
        worker(w, jobs, scens, plan, seed, deadline, res + "." + to_string(w));
        { cov(); _exit(0); }
      }
      ps.push_back(p);
    }
    for (auto p : ps) {
      int st;
      waitpid(p, &st, 0);
    }
    return 0;
  }
  if (mode == "replay" || mode == "shrink") {
    string text = slurp(argv[2], 1 << 26), prop, scen;
    vector<uint32_t> ch;
    if (!parse_choices(text, prop, scen, ch)) return 2;
    const Scenario *sc = find_scen(prop, scen);
    if (!sc) return 2;
    gdir = abspath(argv[3]);
    mkdir(gdir.c_str(), 0755);
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    string cwd = worker_cwd(1000 + getpid());
    clean_cwd(cwd);
    One o = run_isolated(*sc, ch, cwd);
    if (mode == "replay") {
      printf("%s %s: %s\nclass: %s\n%s\n", prop.c_str(), scen.c_str(), stname[o.r.st], o.r.cls.c_str(),
             o.r.msg.c_str());
      if (!o.r.desc.empty()) printf("input:\n%s\n", o.r.desc.c_str());
      fflush(stdout);
      return (o.r.st == FAIL || o.r.st == CRASH) ? 1 : 0;
    }
    if (!(o.r.st == FAIL || o.r.st == CRASH)) return 0;
    long tries = 0;
    string cls = o.r.cls;
    vector<uint32_t> best = shrink(*sc, o.choices, cls, cwd, atof(argv[4]), tries);
    o = run_isolated(*sc, best, cwd);
    string desc = o.r.desc;
    if (o.r.st == CRASH) {
      // ask the generator to only describe its input
      setenv("PBT_DESCRIBE", "1", 1);
      One d = run_isolated(*sc, best, cwd);
      unsetenv("PBT_DESCRIBE");
      desc = d.r.desc;
    }
    ofstream f(argv[5]);
    f << "{\n \"property\": " << jstr(prop) << ",\n \"scenario\": " << jstr(scen) << ",\n \"class\": " << jstr(cls)
      << ",\n \"message\": " << jstr(o.r.msg) << ",\n \"input\": " << jstr(desc) << ",\n \"shrink_tries\": " << tries
      << ",\n \"choices\": [";
    for (size_t i = 0; i < best.size(); i++) f << (i ? "," : "") << best[i];
    f << "]\n}\n";
    return 1;
  }
  return 2;
}

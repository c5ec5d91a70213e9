// the runner of vpt: planning, forked workers, shrinking, replay files, results
#include "vpt.hpp"
#include <fstream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vpt {
Result runBody(const Clause& c, Src& s) {
  try {
    c.body(s);
    return {kPass, ""};
  } catch (const Fail& f) {
    return {kFail, f.msg};
  } catch (const Discard&) {
    return {kDiscard, ""};
  } catch (const std::exception& e) {
    return {kFail, std::string("unexpected exception escaped: ") + e.what()};
  } catch (...) {
    return {kFail, "unexpected non-standard exception escaped"};
  }
}

struct Stats {
  uint64_t cases = 0, discards = 0, nontrivial = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

uint64_t hashChoices(const std::vector<uint64_t>& v) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (uint64_t x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
  return h;
}

void armTimer(int seconds) {
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, 0);
}

struct Opts {
  uint64_t seed = 1;
  std::string tier = "quick", out, replayDir, clause, property = "?";
  std::string replayFile;
  int jobs = 8;
  double scale = 1.0, budget = 0;
  int caseCpu = 20;
  bool list = false;
};

double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
  }
  return o;
}

// one attempt of a choice sequence in a child: 0 pass/discard, 1 fail (msg filled), crash -> 1 with signal text
struct Attempt { bool fail; std::string msg; std::string desc; std::vector<uint64_t> used; };

typedef std::vector<std::vector<uint64_t> > History;  // cases run before the failing one in the same process

Attempt attempt(const Clause& c, const std::vector<uint64_t>& in, Shared* sh, int caseCpu, bool quiet = true, const History& before = History()) {
  char tmpl[] = "/tmp/vptXXXXXX";
  int fd = mkstemp(tmpl);
  unlink(tmpl);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
    for (auto& h : before) { armTimer(caseCpu); Src s(h, nullptr); runBody(c, s); }
    armTimer(caseCpu);
    Src s(in, sh);
    Result r = runBody(c, s);
    armTimer(0);
    std::ostringstream o;
    o << (int)r.out << "\n" << r.msg.size() << "\n" << r.msg << s.description();
    std::string t = o.str();
    size_t off = 0;
    while (off < t.size()) { ssize_t w = write(fd, t.data() + off, t.size() - off); if (w <= 0) break; off += w; }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Attempt a;
  a.fail = false;
  a.used.assign(sh->vals, sh->vals + std::min<uint64_t>((uint64_t)sh->n, (uint64_t)Shared::kMax));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::string t; char buf[65536]; lseek(fd, 0, SEEK_SET); ssize_t k;
    while ((k = read(fd, buf, sizeof buf)) > 0) t.append(buf, k);
    std::istringstream is(t);
    int out = 1; size_t len = 0; is >> out >> len; is.get();
    std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    a.fail = out == kFail;
    a.msg = rest.substr(0, len);
    a.desc = rest.size() > len ? rest.substr(len) : "";
  } else {
    a.fail = true;
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGPROF) o << "hang: the case did not finish within " << caseCpu << " s of CPU time";
      else o << "crash: killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    } else o << "crash: process ended with status " << WEXITSTATUS(st) << " (sanitizer report or exit inside the code under test)";
    a.msg = o.str();
  }
  close(fd);
  return a;
}

Attempt shrink(const Clause& c, Attempt best, Shared* sh, int caseCpu, double budget, const History& before = History()) {
  const double t0 = nowS();
  int attempts = 0;
  bool isHang = best.msg.compare(0, 5, "hang:") == 0;
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto tryIt = [&](std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (cand == best.used) return false;
    if (nowS() - t0 > budget || attempts > 4000) return false;
    attempts++;
    Attempt a = attempt(c, cand, sh, isHang ? std::min(caseCpu, 4) : caseCpu, true, before);
    if (!a.fail) return false;
    while (!a.used.empty() && a.used.back() == 0) a.used.pop_back();
    if (!better(a.used, best.used)) return false;
    best = a;
    return true;
  };
  while (!best.used.empty() && best.used.back() == 0) best.used.pop_back();
  bool progress = true;
  while (progress && nowS() - t0 < budget && attempts < 4000) {
    progress = false;
    for (size_t block : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {  // delete blocks
      for (size_t i = 0; i + block <= best.used.size();) {
        std::vector<uint64_t> cand = best.used;
        cand.erase(cand.begin() + i, cand.begin() + i + block);
        if (tryIt(cand)) { progress = true; continue; }
        // deletion with a decremented preceding choice (a length prefix)
        if (i > 0 && best.used[i - 1] > 0) {
          cand = best.used;
          cand[i - 1]--;
          cand.erase(cand.begin() + i, cand.begin() + i + block);
          if (tryIt(cand)) { progress = true; continue; }
        }
        i += 1;
        if (nowS() - t0 > budget) break;
      }
    }
    for (size_t i = 0; i < best.used.size(); ++i) {  // minimise values
      if (best.used[i] == 0) continue;
      std::vector<uint64_t> cand = best.used;
      cand[i] = 0;
      if (tryIt(cand)) { progress = true; continue; }
      uint64_t lo = 0, hi = best.used[i];
      int steps = 0;
      while (lo + 1 < hi && steps++ < 40 && i < best.used.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best.used;
        cand[i] = mid;
        size_t before = best.used.size();
        if (tryIt(cand)) { progress = true; hi = mid; if (best.used.size() != before) break; }
        else lo = mid;
      }
      if (nowS() - t0 > budget) break;
    }
  }
  return best;
}

uint64_t seedOf(const Clause& c, uint64_t seed, uint64_t i) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ hashStr(c.name) ^ (i * 0xD1B54A32D192ED03ull);
  splitmix(x);
  return x;
}
// the choice sequences of the cases lo..hi-1 of a worker
History casesOf(const Clause& c, uint64_t seed, uint64_t lo, uint64_t hi, int caseCpu) {
  char tmpl[] = "/tmp/vptXXXXXX";
  int fd = mkstemp(tmpl);
  unlink(tmpl);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    for (uint64_t i = lo; i < hi; ++i) {
      armTimer(caseCpu);
      Src s(seedOf(c, seed, i), nullptr);
      runBody(c, s);
      std::vector<uint64_t> o(1, s.used().size());
      o.insert(o.end(), s.used().begin(), s.used().end());
      const char* d = (const char*)o.data(); size_t n = o.size() * 8, off = 0;
      while (off < n) { ssize_t w = write(fd, d + off, n - off); if (w <= 0) _exit(9); off += w; }
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::string t; std::vector<char> buf(1 << 20); lseek(fd, 0, SEEK_SET); ssize_t k;
  while ((k = read(fd, buf.data(), buf.size())) > 0) t.append(buf.data(), k);
  close(fd);
  History h;
  for (size_t at = 0; at + 8 <= t.size();) {
    uint64_t n; memcpy(&n, t.data() + at, 8); at += 8;
    if (at + n * 8 > t.size()) break;
    h.push_back(std::vector<uint64_t>(n)); memcpy(h.back().data(), t.data() + at, n * 8); at += n * 8;
  }
  return h;
}
// a failure that needs earlier cases in the same process: the fewest of them that still lead to it
bool findHistory(const Clause& c, History& before, const std::vector<uint64_t>& in, Shared* sh, int caseCpu, double budget, Attempt& out) {
  const double t0 = nowS();
  auto fails = [&](const History& h) { Attempt a = attempt(c, in, sh, caseCpu, true, h); if (a.fail) out = a; return a.fail; };
  if (!fails(before)) return false;
  size_t n = 2;
  while (before.size() > 0 && nowS() - t0 < budget) {  // delta debugging
    const size_t len = before.size(); n = std::min(n, len);
    bool less = false;
    for (size_t k = 0; k < n && !less && nowS() - t0 < budget; ++k) {  // one piece only
      History h(before.begin() + len * k / n, before.begin() + len * (k + 1) / n);
      if (h.size() < len && fails(h)) { before = h; n = 2; less = true; }
    }
    for (size_t k = 0; k < n && !less && nowS() - t0 < budget; ++k) {  // all but one piece
      History h(before.begin(), before.begin() + len * k / n); h.insert(h.end(), before.begin() + len * (k + 1) / n, before.end());
      if (h.size() < len && fails(h)) { before = h; n = std::max<size_t>(2, n - 1); less = true; }
    }
    if (less) continue;
    if (n >= len) break;
    n = std::min(len, 2 * n);
  }
  return fails(before);
}

int vptMain(int argc, char** argv) {
  Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier") o.tier = v;
    else if (k == "--out") o.out = v;
    else if (k == "--replay-dir") o.replayDir = v;
    else if (k == "--clause") o.clause = v;
    else if (k == "--property") o.property = v;
    else if (k == "--replay") o.replayFile = v;
    else if (k == "--jobs") o.jobs = atoi(v.c_str());
    else if (k == "--scale") o.scale = atof(v.c_str());
    else if (k == "--budget") o.budget = atof(v.c_str());
    else if (k == "--case-cpu") o.caseCpu = atoi(v.c_str());
    else if (k == "--known") { std::stringstream ss(v); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) knownKeys().insert(t); }
    else if (k == "--list") o.list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  auto& reg = registry();
  if (o.list) { for (auto& c : reg) printf("%s\n", c.name.c_str()); return 0; }
  Shared* sh = (Shared*)mmap(0, sizeof(Shared) * (o.jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }

  if (!o.replayFile.empty()) {
    std::ifstream f(o.replayFile);
    if (!f) { fprintf(stderr, "cannot read %s\n", o.replayFile.c_str()); return 2; }
    std::string line, cl;
    std::vector<uint64_t> in;
    History before;
    while (std::getline(f, line)) {
      if (line.compare(0, 7, "before:") == 0) { before.push_back({}); std::istringstream is(line.substr(7)); uint64_t x; while (is >> x) before.back().push_back(x); }
      if (line.compare(0, 7, "clause ") == 0) cl = line.substr(7);
      if (line.compare(0, 8, "choices:") == 0) { std::istringstream is(line.substr(8)); uint64_t x; while (is >> x) in.push_back(x); }
    }
    for (auto& c : reg) if (c.name == cl) {
      Attempt a = attempt(c, in, sh, o.caseCpu, false, before);
      printf("clause %s: %s\n%s\n--- case ---\n%s\n", cl.c_str(), a.fail ? "FAILS" : "passes", a.msg.c_str(), a.desc.c_str());
      return a.fail ? 1 : 0;
    }
    fprintf(stderr, "no clause %s\n", cl.c_str());
    return 2;
  }

  const double t0 = nowS();
  bool thorough = o.tier == "thorough";
  double budget = o.budget > 0 ? o.budget : (thorough ? 600 : 240);
  // plan: chunks of cases, interleaved over the clauses so that a time-out cuts all clauses alike
  struct Chunk { size_t clause; uint64_t lo, hi; };
  std::vector<std::vector<Chunk>> per(reg.size());
  std::vector<uint64_t> planned(reg.size(), 0);
  size_t maxChunks = 0;
  for (size_t c = 0; c < reg.size(); ++c) {
    if (!o.clause.empty() && reg[c].name != o.clause) continue;
    uint64_t n = (uint64_t)std::max(1.0, (thorough ? reg[c].thorough : reg[c].quick) * o.scale);
    planned[c] = n;
    uint64_t k = thorough ? 64 : 16;
    uint64_t size = std::max<uint64_t>(1, (n + k - 1) / k);
    for (uint64_t lo = 0; lo < n; lo += size) per[c].push_back(Chunk{c, lo, std::min(n, lo + size)});
    maxChunks = std::max(maxChunks, per[c].size());
  }
  std::vector<Chunk> plan;
  for (size_t k = 0; k < maxChunks; ++k) for (auto& p : per) if (k < p.size()) plan.push_back(p[k]);

  std::vector<Stats> stats(reg.size());
  struct Worker { pid_t pid; int fd; Chunk ch; };
  std::map<int, Worker> running;  // slot -> worker
  size_t next = 0;
  struct Found { size_t clause; std::vector<uint64_t> choices; std::string msg; uint64_t lo, at; };
  std::vector<Found> found;
  std::set<size_t> failedClauses;
  fflush(0);

  auto launch = [&](int slot, const Chunk& ch) {
    char tmpl[] = "/tmp/vptXXXXXX";
    int fd = mkstemp(tmpl);
    unlink(tmpl);
    Shared* my = sh + 1 + slot;
    my->n = 0; my->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1); dup2(dn, 2);
      const Clause& c = reg[ch.clause];
      Stats st;
      std::ostringstream out;
      bool failed = false;
      for (uint64_t i = ch.lo; i < ch.hi; ++i) {
        my->caseIdx = i;
        armTimer(o.caseCpu);
        Src s(seedOf(c, o.seed, i), my);
        Result r = runBody(c, s);
        st.cases++;
        if (r.out == kDiscard) { st.discards++; continue; }
        if (r.out == kFail) {
          failed = true;
          out << "F " << s.used().size();
          for (auto v : s.used()) out << " " << v;
          out << "\n" << jesc(r.msg) << "\n";
          break;
        }
        for (auto& l : s.labels()) st.labels[l]++;
        if (s.isNontrivial()) {
          st.nontrivial++;
          st.hashes.insert(hashChoices(s.used()));
          if (st.samples.size() < 1) st.samples.push_back(s.description());
        }
      }
      armTimer(0);
      (void)failed;
      out << "S " << st.cases << " " << st.discards << " " << st.nontrivial << "\n";
      out << "H " << st.hashes.size();
      for (auto h : st.hashes) out << " " << h;
      out << "\n";
      for (auto& l : st.labels) out << "L " << l.second << " " << jesc(l.first) << "\n";
      for (auto& t : st.samples) out << "X " << jesc(t.substr(0, 1500)) << "\n";
      std::string t = out.str();
      size_t off = 0;
      while (off < t.size()) { ssize_t w = write(fd, t.data() + off, t.size() - off); if (w <= 0) _exit(9); off += w; }
      my->done = 1;
      _exit(0);
    }
    running[slot] = Worker{pid, fd, ch};
  };
  auto collect = [&](int slot, int st) {
    Worker w = running[slot];
    running.erase(slot);
    Stats& S = stats[w.ch.clause];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[1 + slot].done) {
      std::string t; std::vector<char> buf(1 << 20); lseek(w.fd, 0, SEEK_SET); ssize_t k;
      while ((k = read(w.fd, buf.data(), buf.size())) > 0) t.append(buf.data(), k);
      std::istringstream is(t);
      std::string line;
      while (std::getline(is, line)) {
        std::istringstream ls(line);
        char tag; ls >> tag;
        if (tag == 'F') {
          Found f; f.clause = w.ch.clause; f.lo = w.ch.lo; f.at = sh[1 + slot].caseIdx; size_t n; ls >> n; f.choices.resize(n);
          for (auto& v : f.choices) ls >> v;
          std::getline(is, f.msg);
          found.push_back(f); failedClauses.insert(w.ch.clause);
        } else if (tag == 'S') { uint64_t a, b, c; ls >> a >> b >> c; S.cases += a; S.discards += b; S.nontrivial += c; }
        else if (tag == 'H') { size_t n; ls >> n; uint64_t h; while (ls >> h) S.hashes.insert(h); }
        else if (tag == 'L') { uint64_t n; ls >> n; ls.get(); std::string l; std::getline(ls, l); S.labels[l] += n; }
        else if (tag == 'X') { if (S.samples.size() < 3) S.samples.push_back(line.substr(2)); }
      }
    } else {
      Found f; f.clause = w.ch.clause;
      Shared& m = sh[1 + slot];
      f.lo = w.ch.lo; f.at = m.caseIdx;
      f.choices.assign(m.vals, m.vals + std::min<uint64_t>((uint64_t)m.n, (uint64_t)Shared::kMax));
      f.msg = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? "hang" : "crash by signal") : "abnormal exit";
      S.cases += m.caseIdx - w.ch.lo + 1;
      found.push_back(f); failedClauses.insert(w.ch.clause);
    }
    close(w.fd);
  };
  bool timeUp = false;
  while (true) {
    while ((int)running.size() < o.jobs && next < plan.size() && !timeUp) {
      if (nowS() - t0 > budget) { timeUp = true; break; }
      if (failedClauses.count(plan[next].clause)) { next++; continue; }
      int slot = 0;
      while (running.count(slot)) slot++;
      launch(slot, plan[next++]);
    }
    if (running.empty()) break;
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    for (auto& kv : running) if (kv.second.pid == p) { collect(kv.first, st); break; }
  }

  // failures: confirm, shrink, confirm 3x, write the replay file
  int violations = 0;
  std::set<size_t> reported;
  std::ostringstream vout;
  for (auto& f : found) {
    if (reported.count(f.clause)) continue;
    const Clause& c = reg[f.clause];
    Attempt a; a.fail = false;
    for (int k = 0; k < 3 && !a.fail; ++k) a = attempt(c, f.choices, sh, o.caseCpu * 2);
    History before;
    if (!a.fail && f.msg == "hang") {  // it was slow, and did finish with more time
      fprintf(stderr, "clause %s: a slow case finished within %d s of CPU time\n", c.name.c_str(), o.caseCpu * 2);
      continue;
    }
    bool elsewhere = false;
    if (!a.fail) {  // it may need the cases that ran before it in the same process
      before = casesOf(c, o.seed, f.lo, f.at, o.caseCpu);
      if (!findHistory(c, before, f.choices, sh, o.caseCpu, thorough ? 120 : 40, a)) {
        // seen once, and not again: still a failure of the code under test
        elsewhere = true;
        a.msg = f.msg + " (seen once; neither the case alone nor the cases of its worker failed again)"; a.used = f.choices; a.fail = true;
      }
    }
    if (!elsewhere) {
      Attempt full = a;
      full.used = f.choices;
      a = shrink(c, full, sh, o.caseCpu, thorough ? 120 : 30, before);
      if (before.size() == 1) {  // and the earlier case
        const std::vector<uint64_t> last = a.used;
        for (size_t block : {64, 16, 4, 1}) for (size_t i = 0; i + block <= before[0].size() && nowS() - t0 < budget + 200;) {
          History h = before; h[0].erase(h[0].begin() + i, h[0].begin() + i + block);
          if (attempt(c, last, sh, o.caseCpu, true, h).fail) before = h; else i += block;
        }
        Attempt b = attempt(c, last, sh, o.caseCpu, true, before);
        if (b.fail) { a = b; a.used = last; }
      }
      int again = 0;
      for (int k = 0; k < 3; ++k) again += attempt(c, a.used, sh, o.caseCpu * 2, true, before).fail;
      if (again < 3) {  // the shrunk form is not stable: fall back on the original case
        a = full; a.used = f.choices;
        for (int k = 0; k < 10; ++k) { Attempt b = attempt(c, f.choices, sh, o.caseCpu * 2, true, before); if (b.fail) { a = b; a.used = f.choices; break; } }
      }
    }
    reported.insert(f.clause);
    violations++;
    std::string path = o.replayDir + "/" + o.property + "-" + c.name + ".replay";
    std::ofstream rf(path);
    rf << "property " << o.property << "\nclause " << c.name << "\n";
    for (auto& h : before) { rf << "before:"; for (auto v : h) rf << " " << v; rf << "\n"; }
    rf << "choices:";
    for (auto v : a.used) rf << " " << v;
    rf << "\nmessage: " << a.msg << "\n--- case ---\n" << a.desc << "\n";
    rf.close();
    vout << "clause " << c.name << " FAILED" << (before.empty() ? "" : " after " + std::to_string(before.size()) + " earlier case(s)") << ": " << a.msg << "\n--- minimal case ---\n" << a.desc << "\n";
    vout << "VIOLATION property=" << o.property << " replay=" << path << "\n";
  }

  // results
  std::ostringstream js;
  uint64_t cases = 0, nontriv = 0, distinct = 0, disc = 0;
  std::ostringstream cl;
  bool first = true, vacuous = false;
  std::vector<std::string> samples;
  for (size_t c = 0; c < reg.size(); ++c) {
    Stats& S = stats[c];
    if (!planned[c]) continue;
    cases += S.cases; nontriv += S.nontrivial; distinct += S.hashes.size(); disc += S.discards;
    cl << (first ? "" : ",") << "\n  {\"clause\":\"" << reg[c].name << "\",\"rule\":\"" << jesc(reg[c].rule) << "\",\"planned\":" << planned[c]
       << ",\"cases\":" << S.cases << ",\"discarded\":" << S.discards << ",\"nontrivial\":" << S.nontrivial << ",\"distinct_nontrivial\":" << S.hashes.size() << ",\"labels\":{";
    bool f2 = true;
    for (auto& l : S.labels) { cl << (f2 ? "" : ",") << "\"" << l.first << "\":" << l.second; f2 = false; }
    cl << "}}";
    first = false;
    if (!S.samples.empty()) samples.push_back(reg[c].name + ": " + S.samples[0]);
    if (S.nontrivial == 0 && !failedClauses.count(c)) { vacuous = true; fprintf(stderr, "clause %s generated no non-trivial case\n", reg[c].name.c_str()); }
  }
  js << "{\"evaluations\":" << cases << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct
     << ",\"time_limited\":" << (timeUp ? "true" : "false") << ",\"violations\":" << violations << ",\"wall_s\":" << (nowS() - t0) << ",\n\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) js << (i ? ",\n" : "\n") << "\"" << samples[i] << "\"";
  js << "],\n\"clauses\":[" << cl.str() << "]}\n";
  if (!o.out.empty()) { std::ofstream f(o.out); f << js.str(); }
  else std::cout << js.str();
  std::cout << vout.str() << std::flush;
  if (violations) return 1;
  if (vacuous) return 2;
  return 0;
}

}  // namespace vpt

#ifdef VPT_FUZZ
// libFuzzer entry: byte 0 picks the clause, the rest is the choice sequence (1, 2 or 8 bytes per choice,
// chosen by the leading byte), so coverage feedback steers the structured generators.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  auto& reg = vpt::registry();
  if (size < 2) return 0;
  const vpt::Clause& c = reg[data[0] % reg.size()];
  std::vector<uint64_t> in;
  size_t i = 1;
  while (i < size) {
    uint8_t h = data[i++];
    if (h < 224) in.push_back(h);
    else {
      size_t n = h < 240 ? 2 : (h < 248 ? 4 : 8);
      uint64_t v = 0;
      for (size_t k = 0; k < n && i < size; ++k) v = (v << 8) | data[i++];
      in.push_back(v);
    }
  }
  vpt::Src s(in, nullptr);
  vpt::Result r = vpt::runBody(c, s);
  if (r.out == vpt::kFail) {
    fprintf(stderr, "VPT-FAIL clause %s: %s\nchoices:", c.name.c_str(), r.msg.c_str());
    for (auto v : s.used()) fprintf(stderr, " %llu", (unsigned long long)v);
    fprintf(stderr, "\n");
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) { return vpt::vptMain(argc, argv); }
#endif

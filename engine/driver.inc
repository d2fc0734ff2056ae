// Exploration driver: depth-first search per process, with work splitting by
// fork() while fewer than opt.workers processes are active.
#include <sys/resource.h>

static std::string gOutDir;

static void wstr(FILE* f, std::string const& s) {
  fprintf(f, "%zu ", s.size());
  fwrite(s.data(), 1, s.size(), f);
  fputc('\n', f);
}
static std::string rstr(FILE* f) {
  std::size_t n = 0;
  if (fscanf(f, "%zu", &n) != 1) return "";
  fgetc(f);
  std::string s(n, 0);
  if (n && fread(s.data(), 1, n, f) != n) return "";
  return s;
}
static u64 rnum(FILE* f) {
  unsigned long long x = 0;
  if (fscanf(f, "%llu", &x) != 1) return 0;
  return x;
}

void Engine::saveResult() {
  u64 id = sh->nextResult.fetch_add(1);
  std::string fn = gOutDir + "/r" + std::to_string(id);
  std::string tmp = fn + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if (!f) {
    sh->lost.fetch_add(1);
    return;
  }
  auto n = [&](u64 x) { fprintf(f, "%llu\n", static_cast<unsigned long long>(x)); };
  n(st_.paths); n(st_.forks); n(st_.steps); n(st_.asserts); n(st_.assertQueries); n(st_.killed);
  n(solver.stats.queries); n(solver.stats.sat); n(solver.stats.unsat); n(solver.stats.unknown);
  n(solver.stats.cacheHits); n(solver.stats.fpQueries); n(static_cast<u64>(solver.stats.time * 1e6));
  n(work.size());
  n(hitFuncs.size());
  for (auto& h : hitFuncs) wstr(f, h);
  n(labelCount.size());
  for (auto& [k, v] : labelCount) { wstr(f, k); n(v); }
  n(inconclusive.size());
  for (auto& k : inconclusive) wstr(f, k);
  n(viols.size());
  for (auto& v : viols) {
    n(v.entry); wstr(f, v.kind); wstr(f, v.msg); wstr(f, v.loc);
    n(v.inputs.size());
    for (std::size_t i = 0; i < v.inputs.size(); ++i) { n(v.inputs[i]); wstr(f, v.names[i]); }
  }
  n(samples.size());
  for (auto& p : samples) {
    n(p.entry);
    n(p.inputs.size()); for (auto x : p.inputs) n(x);
    n(p.obs.size()); for (auto x : p.obs) n(x);
  }
  fprintf(f, "END\n");
  fclose(f);
  rename(tmp.c_str(), fn.c_str());
}

void Engine::loadResult(std::string const& fn) {
  FILE* f = fopen(fn.c_str(), "r");
  if (!f) { inconclusive.insert("a worker process died without a result"); return; }
  st_.paths += rnum(f); st_.forks += rnum(f); st_.steps += rnum(f); st_.asserts += rnum(f);
  st_.assertQueries += rnum(f); st_.killed += rnum(f);
  solver.stats.queries += rnum(f); solver.stats.sat += rnum(f); solver.stats.unsat += rnum(f);
  solver.stats.unknown += rnum(f); solver.stats.cacheHits += rnum(f); solver.stats.fpQueries += rnum(f);
  solver.stats.time += static_cast<double>(rnum(f)) / 1e6;
  u64 left = rnum(f);
  if (left) st_.errorsPaths += left;
  for (u64 n = rnum(f); n-- > 0;) hitFuncs.insert(rstr(f));
  for (u64 n = rnum(f); n-- > 0;) { auto k = rstr(f); labelCount[k] += rnum(f); }
  for (u64 n = rnum(f); n-- > 0;) inconclusive.insert(rstr(f));
  for (u64 n = rnum(f); n-- > 0;) {
    Violation v;
    v.entry = static_cast<u32>(rnum(f)); v.kind = rstr(f); v.msg = rstr(f); v.loc = rstr(f);
    for (u64 k = rnum(f); k-- > 0;) { v.inputs.push_back(rnum(f)); v.names.push_back(rstr(f)); }
    bool dup = false;
    for (auto& x : viols) dup |= x.entry == v.entry && x.kind == v.kind && x.msg == v.msg && x.loc == v.loc;
    if (!dup) viols.push_back(std::move(v));
  }
  for (u64 n = rnum(f); n-- > 0;) {
    PathSample p;
    p.entry = static_cast<u32>(rnum(f));
    for (u64 k = rnum(f); k-- > 0;) p.inputs.push_back(rnum(f));
    for (u64 k = rnum(f); k-- > 0;) p.obs.push_back(rnum(f));
    samples.push_back(std::move(p));
  }
  char buf[8] = {0};
  if (fscanf(f, "%7s", buf) != 1 || std::string(buf) != "END")
    inconclusive.insert("a worker result file is truncated");
  fclose(f);
}

// explores everything in `work`; splits by forking
void Engine::worker() {
  std::vector<pid_t> kids;
  double lastSplit = 0;
  for (;;) {
    if (work.empty()) break;
    if (sh->abortFlag.load() || timeUp()) break;
    if (work.size() >= 2 && sh->active.load() < static_cast<i64>(opt.workers)) {
      double t = now();
      if (t - lastSplit > 0.003) {
        lastSplit = t;
        if (sh->active.fetch_add(1) < static_cast<i64>(opt.workers)) {
          fflush(nullptr);
          pid_t p = fork();
          if (p == 0) {
            kids.clear();
            st_ = Stats{};
            SolverStats z;
            solver.stats = z;
            viols.clear();
            samples.clear();
            labelCount.clear();
            inconclusive.clear();
            rnd ^= static_cast<u64>(getpid()) * 0x9E3779B97F4A7C15ULL;
            std::vector<StateP> mine;
            for (std::size_t i = 0; i < work.size(); i += 2) mine.push_back(std::move(work[i]));
            work = std::move(mine);
            lastSplit = now();
            continue;
          }
          if (p > 0) {
            kids.push_back(p);
            std::vector<StateP> mine;
            for (std::size_t i = 1; i < work.size(); i += 2) mine.push_back(std::move(work[i]));
            work = std::move(mine);
          } else {
            sh->active.fetch_sub(1);
          }
        } else {
          sh->active.fetch_sub(1);
        }
      }
    }
    StateP s = std::move(work.back());
    work.pop_back();
    if (execState(*s)) {
      finish(*s);
    } else if (sh->abortFlag.load() || timeUp()) {
      // interrupted (or killed): count as unexplored
      ++st_.errorsPaths;
    }
  }
  if (st_.errorsPaths && work.empty()) work.push_back(nullptr);
  sh->active.fetch_sub(1);
  saveResult();
  for (pid_t k : kids) {
    int st = 0;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) sh->lost.fetch_add(1);
  }
}

static void onAlarm(int) { _exit(9); }

int Engine::run() {
  double t0 = now();
  deadline = t0 + opt.timeout;
  SMDiagnostic err;
  M = parseIRFile(opt.file, err, lctx);
  if (!M) {
    err.print("symx", errs());
    return 3;
  }
  DL = &M->getDataLayout();
  auto s0 = std::make_unique<State>();
  try {
    loadGlobals(*s0);
  } catch (Unsupported const& u) {
    fprintf(stderr, "symx: while loading globals: %s\n", u.what.c_str());
    return 3;
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (sh) Shared{};
  // static initialisers, run concretely
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors"); gc && gc->hasInitializer()) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function*>> cs;
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
        auto* st = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* F = dyn_cast<Function>(st->getOperand(1)))
          cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F);
      }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& [prio, F] : cs) {
        try {
          enter(*s0, getFunc(F), {}, 0);
        } catch (Unsupported const& u) {
          fprintf(stderr, "symx: static initialiser: %s\n", u.what.c_str());
          return 3;
        }
        s0->done = false;
        if (!execState(*s0)) {
          fprintf(stderr, "symx: static initialiser %s failed\n", F->getName().str().c_str());
          for (auto& i : inconclusive) fprintf(stderr, "  %s\n", i.c_str());
          for (auto& v : viols) fprintf(stderr, "  %s: %s at %s\n", v.kind.c_str(), v.msg.c_str(), v.loc.c_str());
          return 3;
        }
      }
    }
  }
  hitFuncs.clear();
  s0->steps = 0;
  s0->done = false;
  if (opt.entries.empty())
    for (auto& F : *M)
      if (F.getName().starts_with("H_") && !F.isDeclaration()) opt.entries.push_back(F.getName().str());
  if (!opt.concrete.empty()) {
    concreteMode = true;
    std::ifstream in(opt.concrete);
    u64 x;
    while (in >> x) concreteInputs.push_back(x);
  }
  for (std::size_t i = opt.entries.size(); i-- > 0;) {
    Function* F = M->getFunction(opt.entries[i]);
    if (!F || F->isDeclaration()) {
      fprintf(stderr, "symx: no entry %s\n", opt.entries[i].c_str());
      return 3;
    }
    auto s = std::make_unique<State>(*s0);
    s->entry = static_cast<u32>(i);
    enter(*s, getFunc(F), {}, 0);
    work.push_back(std::move(s));
  }
  char dir[] = "/tmp/symx.XXXXXX";
  gOutDir = mkdtemp(dir);
  signal(SIGALRM, onAlarm);
  sh->active.store(1);
  fflush(nullptr);
  pid_t top = fork();
  if (top == 0) {
    alarm(static_cast<unsigned>(opt.timeout) + 30);
    worker();
    fflush(nullptr);
    _exit(0);
  }
  int stt = 0;
  while (waitpid(top, &stt, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) sh->lost.fetch_add(1);
  // wait for stragglers whose parent died
  for (u64 i = 0; i < sh->nextResult.load(); ++i) {
    std::string fn = gOutDir + "/r" + std::to_string(i);
    loadResult(fn);
    unlink(fn.c_str());
  }
  rmdir(gOutDir.c_str());
  if (sh->lost.load()) inconclusive.insert("a worker process died (resource limit or crash)");
  bool complete = inconclusive.empty() && st_.errorsPaths == 0 && !timeUp() && !sh->abortFlag.load();
  writeOut(opt.out, complete, now() - t0);
  if (!viols.empty()) return 1;
  return complete ? 0 : 2;
}

void Engine::writeOut(std::string const& path, bool complete, double wall) {
  std::ostringstream o;
  o << "{\n \"complete\": " << (complete ? "true" : "false") << ",\n";
  o << " \"paths\": " << st_.paths << ", \"forks\": " << st_.forks << ", \"steps\": " << st_.steps
    << ", \"killed\": " << st_.killed << ", \"unexplored\": " << st_.errorsPaths << ",\n";
  o << " \"assertions\": " << st_.asserts << ", \"assertion_queries\": " << st_.assertQueries << ",\n";
  o << " \"queries\": " << solver.stats.queries << ", \"sat\": " << solver.stats.sat
    << ", \"unsat\": " << solver.stats.unsat << ", \"unknown\": " << solver.stats.unknown
    << ", \"cache_hits\": " << solver.stats.cacheHits << ", \"fp_queries\": " << solver.stats.fpQueries
    << ", \"solver_seconds\": " << solver.stats.time << ", \"wall_seconds\": " << wall << ",\n";
  auto list = [&](char const* k, std::set<std::string> const& v) {
    o << " \"" << k << "\": [";
    bool first = true;
    for (auto& x : v) {
      o << (first ? "\n  \"" : ",\n  \"") << jsonEsc(x) << "\"";
      first = false;
    }
    o << "],\n";
  };
  list("functions", hitFuncs);
  list("inconclusive", inconclusive);
  o << " \"labels\": {";
  bool first = true;
  for (auto& [k, v] : labelCount) {
    o << (first ? "" : ", ") << "\"" << jsonEsc(k) << "\": " << v;
    first = false;
  }
  o << "},\n \"violations\": [";
  first = true;
  for (auto& v : viols) {
    o << (first ? "\n" : ",\n") << "  {\"entry\": \"" << opt.entries[v.entry] << "\", \"kind\": \"" << v.kind
      << "\", \"msg\": \"" << jsonEsc(v.msg) << "\", \"loc\": \"" << jsonEsc(v.loc) << "\", \"inputs\": [";
    for (std::size_t i = 0; i < v.inputs.size(); ++i) o << (i ? ", " : "") << v.inputs[i];
    o << "], \"names\": [";
    for (std::size_t i = 0; i < v.names.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEsc(v.names[i]) << "\"";
    o << "]}";
    first = false;
  }
  o << "],\n \"samples\": [";
  first = true;
  std::map<u32, unsigned> per;
  std::size_t stride = 1;
  std::map<u32, std::size_t> tot;
  for (auto& p : samples) ++tot[p.entry];
  std::map<u32, std::size_t> idx;
  for (auto& p : samples) {
    stride = std::max<std::size_t>(1, tot[p.entry] / opt.samples);
    if (idx[p.entry]++ % stride) continue;
    if (per[p.entry]++ >= opt.samples) continue;
    o << (first ? "\n" : ",\n") << "  {\"entry\": \"" << opt.entries[p.entry] << "\", \"inputs\": [";
    for (std::size_t i = 0; i < p.inputs.size(); ++i) o << (i ? ", " : "") << p.inputs[i];
    o << "], \"obs\": [";
    for (std::size_t i = 0; i < p.obs.size(); ++i) o << (i ? ", " : "") << p.obs[i];
    o << "]}";
    first = false;
  }
  o << "]\n}\n";
  if (path.empty()) {
    fputs(o.str().c_str(), stdout);
  } else {
    std::ofstream f(path);
    f << o.str();
  }
}

int main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") o.entries.push_back(nx());
    else if (a == "--out") o.out = nx();
    else if (a == "--workers") o.workers = static_cast<unsigned>(std::stoul(nx()));
    else if (a == "--timeout") o.timeout = std::stod(nx());
    else if (a == "--rlimit") o.solverTimeout = static_cast<unsigned>(std::stoul(nx()));
    else if (a == "--max-steps") o.maxSteps = std::stoull(nx());
    else if (a == "--max-depth") o.maxDepth = static_cast<u32>(std::stoul(nx()));
    else if (a == "--max-viol") o.maxViol = static_cast<unsigned>(std::stoul(nx()));
    else if (a == "--samples") o.samples = static_cast<unsigned>(std::stoul(nx()));
    else if (a == "--concrete") o.concrete = nx();
    else if (a == "--fork-div") o.forkDiv = std::stoull(nx());
    else if (a == "--xdump") o.xdump = nx();
    else if (a == "--dump-every") o.dumpEvery = static_cast<unsigned>(std::stoul(nx()));
    else if (a == "--src-prefix") o.srcPrefix = nx();
    else o.file = a;
  }
  Engine e(o);
  int r = e.run();
  fflush(nullptr);
  _exit(r);
}

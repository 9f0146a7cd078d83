#include "plan.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
bool Explorer::time_left() const { return deadline <= 0 || mono() < deadline; }

std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
std::string join(const std::vector<std::string> &v, const std::string &sep) {
  std::string r;
  for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i];
  return r;
}
std::string esc(const std::string &s) {
  static const char *hex = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    if (c <= ' ' || c >= 127 || c == '%') {
      o += '%';
      o += hex[c >> 4];
      o += hex[c & 15];
    } else
      o += c;
  }
  return o.empty() ? "%" : o; // lone % = empty
}
static std::string unesc(const std::string &s) {
  if (s == "%") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      o += s[i];
  return o;
}
std::string plan_text(const Plan &p) {
  std::string o = "vsim-replay 1\nprop " + p.prop + "\n";
  for (auto &x : p.par) o += "par " + esc(x.first) + " " + esc(x.second) + "\n";
  for (auto &f : p.files) o += "file " + esc(f.first) + " " + esc(f.second) + "\n";
  for (auto &q : p.procs) {
    o += "proc\n";
    for (auto &a : q.argv) o += " arg " + esc(a) + "\n";
    if (q.has_stdin) o += " stdin " + esc(q.stdin_data) + "\n";
    const Env &e = q.env;
    o += fmt(" env %llu %d %d %d %d %d %d %d\n", (unsigned long long)e.seed, e.rchunk, e.wchunk,
             e.bufsize, e.fill, e.sigpipe_ignored, e.crash_children, e.pipe_slack);
    for (auto &f : q.faults)
      o += fmt(" fault %s %s %lld %lld %lld %d\n", fault_name(f.kind), esc(f.target).c_str(),
               (long long)f.at, (long long)f.at2, (long long)f.arg, f.err);
    if (q.max_steps) o += fmt(" steps %llu\n", (unsigned long long)q.max_steps);
  }
  for (auto &x : p.ops) o += "op " + esc(x) + "\n";
  return o;
}
bool plan_parse(const std::string &s, Plan &p) {
  size_t i = 0;
  bool first = true;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::string line = s.substr(i, e - i);
    i = e + 1;
    if (!line.empty() && line[0] == '#') continue;
    std::vector<std::string> t;
    size_t b = 0;
    while (b < line.size()) {
      while (b < line.size() && line[b] == ' ') b++;
      size_t c = line.find(' ', b);
      if (c == std::string::npos) c = line.size();
      if (c > b) t.push_back(line.substr(b, c - b));
      b = c;
    }
    if (t.empty()) continue;
    if (first) {
      if (t[0] != "vsim-replay") return false;
      first = false;
      continue;
    }
    if (t[0] == "prop") p.prop = t[1];
    else if (t[0] == "par") p.par[unesc(t[1])] = unesc(t[2]);
    else if (t[0] == "file") p.files[unesc(t[1])] = unesc(t[2]);
    else if (t[0] == "proc") p.procs.push_back(ProcSpec());
    else if (t[0] == "op") p.ops.push_back(unesc(t[1]));
    else if (p.procs.empty()) return false;
    else {
      ProcSpec &q = p.procs.back();
      if (t[0] == "arg") q.argv.push_back(unesc(t[1]));
      else if (t[0] == "stdin") { q.has_stdin = true; q.stdin_data = unesc(t[1]); }
      else if (t[0] == "steps") q.max_steps = strtoull(t[1].c_str(), nullptr, 10);
      else if (t[0] == "env" && t.size() >= 9) {
        Env &v = q.env;
        v.seed = strtoull(t[1].c_str(), nullptr, 10);
        v.rchunk = atoi(t[2].c_str()); v.wchunk = atoi(t[3].c_str()); v.bufsize = atoi(t[4].c_str());
        v.fill = atoi(t[5].c_str()); v.sigpipe_ignored = atoi(t[6].c_str());
        v.crash_children = atoi(t[7].c_str()); v.pipe_slack = atoi(t[8].c_str());
      } else if (t[0] == "fault" && t.size() >= 7) {
        Fault f;
        f.kind = fault_by_name(t[1]);
        f.target = unesc(t[2]);
        f.at = atoll(t[3].c_str()); f.at2 = atoll(t[4].c_str()); f.arg = atoll(t[5].c_str());
        f.err = atoi(t[6].c_str());
        q.faults.push_back(f);
      } else
        return false;
    }
  }
  return !first && !p.prop.empty();
}
std::string plan_brief(const Plan &p) {
  std::string o;
  for (auto &q : p.procs) {
    if (!o.empty()) o += " ;; ";
    o += join(q.argv);
    if (q.has_stdin) o += fmt(" <(stdin %zu bytes)", q.stdin_data.size());
    o += fmt(" [env seed=%llu r=%d w=%d buf=%d fill=%d]", (unsigned long long)q.env.seed, q.env.rchunk,
             q.env.wchunk, q.env.bufsize, q.env.fill);
    for (auto &f : q.faults)
      o += fmt(" !%s(%s at=%lld at2=%lld arg=%lld err=%d)", fault_name(f.kind), f.target.c_str(),
               (long long)f.at, (long long)f.at2, (long long)f.arg, f.err);
  }
  if (!p.ops.empty()) {
    o += fmt(" ops(%zu):", p.ops.size());
    for (size_t i = 0; i < p.ops.size() && i < 12; i++) o += " " + p.ops[i] + ";";
  }
  for (auto &x : p.par)
    if (x.second.size() < 60) o += " " + x.first + "=" + x.second;
  return o.substr(0, 1500);
}

// ---------------------------------------------------------------- helpers
struct Memo { uint64_t key; ProcResult r; };
static std::vector<Memo *> memos;
static uint64_t spec_key(const Fs &fs, const ProcSpec &s) {
  uint64_t h = 17;
  for (auto &f : fs) h = hash_str(f.second, hash_str(f.first, h) * 31 + 7);
  for (auto &a : s.argv) h = hash_str(a, h) * 33 + 1;
  h = hash_str(s.stdin_data, h) + s.has_stdin;
  const Env &e = s.env;
  int64_t v[] = {(int64_t)e.seed, e.rchunk, e.wchunk, e.bufsize, e.fill, e.sigpipe_ignored,
                 e.crash_children, e.pipe_slack, (int64_t)s.max_steps};
  return hash_bytes(v, sizeof v, h);
}
const ProcResult &base_run(const Fs &fs, const ProcSpec &spec) {
  uint64_t k = spec_key(fs, spec);
  for (size_t i = 0; i < memos.size(); i++)
    if (memos[i]->key == k) return memos[i]->r;
  if (memos.size() >= 24) {
    delete memos[0];
    memos.erase(memos.begin());
  }
  ProcSpec s = spec;
  s.faults.clear();
  memos.push_back(new Memo{k, run_process(fs, s)});
  return memos.back()->r;
}
ProcResult run_in(Verdict &v, const Fs &fs, const ProcSpec &spec) {
  ProcResult r = run_process(fs, spec);
  v.hash = mix(v.hash, mix(r.loghash, mix(r.steps, (uint64_t)r.how * 1000 + r.code)));
  for (auto &f : r.fs) v.hash = hash_str(f.second, v.hash);
  v.hash = hash_str(r.report, hash_str(r.out, v.hash));
  return r;
}
bool fs_equal(const Fs &a, const Fs &b, std::string *diff, const std::set<std::string> *ignore) {
  for (auto &x : a) {
    if (ignore && ignore->count(x.first)) continue;
    auto i = b.find(x.first);
    if (i == b.end()) { if (diff) *diff = x.first + " missing"; return false; }
    if (i->second != x.second) {
      if (diff) {
        size_t k = 0;
        while (k < x.second.size() && k < i->second.size() && x.second[k] == i->second[k]) k++;
        *diff = fmt("%s: %zu bytes instead of %zu, first difference at %zu", x.first.c_str(),
                    i->second.size(), x.second.size(), k);
      }
      return false;
    }
  }
  for (auto &x : b)
    if (!(ignore && ignore->count(x.first)) && !a.count(x.first)) {
      if (diff) *diff = x.first + " unexpected";
      return false;
    }
  return true;
}

// ---------------------------------------------------------------- minimiser
static bool same(const Verdict &a, const Verdict &b) { return a.bad && b.bad && a.cls == b.cls && a.sig == b.sig; }

static Plan minimise(const Plan &start, CheckFn check, const Verdict &want, double budget) {
  Plan best = start;
  double t0 = mono();
  int tries = 0;
  auto ok = [&](const Plan &p) {
    if (mono() - t0 > budget || tries > 1500) return false;
    tries++;
    Verdict v = check(p);
    return same(want, v);
  };
  bool progress = true;
  while (progress && mono() - t0 < budget) {
    progress = false;
    // faults
    for (size_t q = 0; q < best.procs.size(); q++)
      for (size_t i = 0; i < best.procs[q].faults.size();) {
        Plan p = best;
        p.procs[q].faults.erase(p.procs[q].faults.begin() + i);
        if (ok(p)) { best = p; progress = true; } else i++;
      }
    // operations: remove runs of decreasing length
    for (size_t len = std::max<size_t>(best.ops.size() / 2, 1); len >= 1 && !best.ops.empty(); len /= 2) {
      for (size_t i = 0; i < best.ops.size();) {
        Plan p = best;
        size_t e = std::min(i + len, p.ops.size());
        p.ops.erase(p.ops.begin() + i, p.ops.begin() + e);
        if (ok(p)) { best = p; progress = true; } else i += len;
      }
      if (len == 1) break;
    }
    // environment
    for (size_t q = 0; q < best.procs.size(); q++) {
      Env d;
      auto attempt = [&](int Env::*m) {
        if (best.procs[q].env.*m == d.*m) return;
        Plan p = best;
        p.procs[q].env.*m = d.*m;
        if (ok(p)) { best = p; progress = true; }
      };
      attempt(&Env::rchunk); attempt(&Env::wchunk); attempt(&Env::bufsize); attempt(&Env::fill);
      attempt(&Env::sigpipe_ignored); attempt(&Env::crash_children); attempt(&Env::pipe_slack);
    }
    // arguments
    if (best.get("noargmin") != "1")
      for (size_t q = 0; q < best.procs.size(); q++)
        for (size_t i = 1; i < best.procs[q].argv.size();) {
          bool done = false;
          for (int n = 2; n >= 1 && !done; n--) {
            if (best.procs[q].argv[i][0] != '-' || i + n > best.procs[q].argv.size()) continue;
            Plan p = best;
            p.procs[q].argv.erase(p.procs[q].argv.begin() + i, p.procs[q].argv.begin() + i + n);
            if (ok(p)) { best = p; progress = true; done = true; }
          }
          if (!done) i++;
        }
    // file contents: lines, coarse to fine
    std::vector<std::string> names;
    for (auto &f : best.files) names.push_back(f.first);
    for (auto &nm : names) {
      if (best.files[nm].size() < 2) continue;
      std::vector<std::string> lines;
      {
        const std::string &s = best.files[nm];
        size_t i = 0;
        while (i < s.size()) {
          size_t e = s.find('\n', i);
          e = e == std::string::npos ? s.size() : e + 1;
          lines.push_back(s.substr(i, e - i));
          i = e;
        }
      }
      auto put = [&](const std::vector<std::string> &l) {
        std::string s;
        for (auto &x : l) s += x;
        return s;
      };
      for (size_t len = std::max<size_t>(lines.size() / 2, 1); len >= 1; len /= 2) {
        for (size_t i = 0; i < lines.size() && lines.size() > 1;) {
          std::vector<std::string> l = lines;
          l.erase(l.begin() + i, l.begin() + std::min(i + len, l.size()));
          if (l.empty()) { i += len; continue; }
          Plan p = best;
          p.files[nm] = put(l);
          if (ok(p)) { best = p; lines = l; progress = true; } else i += len;
          if (mono() - t0 > budget) return best;
        }
        if (len == 1) break;
      }
    }
  }
  return best;
}

static std::string one_line(std::string s) {
  for (auto &c : s)
    if ((unsigned char)c < ' ') c = ' ';
  return s;
}
static std::string self_exe() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  return std::string(b, n > 0 ? n : 0);
}

Verdict Explorer::try_plan(const Plan &p0) {
  Plan p = p0;
  p.prop = prop;
  Verdict v = check(p);
  evaluations++;
  if (v.nontrivial) {
    nontrivial++;
    if (distinct.size() < 2000000) distinct.insert(v.hash);
    if (!v.state.empty() && states.size() < 200000) states.insert(v.state);
    if (samples.size() < 4 || (samples.size() < 8 && evaluations % 97 == 0))
      samples.push_back(plan_brief(p) + " => " + (v.state.empty() ? "ok" : v.state));
  }
  if (!v.bad) return v;
  if (v.cls == "HARNESS") {
    error = true;
    error_text = v.detail;
    return v;
  }
  if (!v.sig.empty())
    for (auto &k : known)
      if (k == v.sig) {
        known_hits[k]++;
        v.bad = false;
        return v;
      }
  // gate 1: the same plan must fail the same way again
  Verdict v2 = check(p);
  if (!same(v, v2) || v.hash != v2.hash) {
    unrepeatable++;
    unrepeatable_text = "violation did not repeat identically: " + v.cls + " / " + v2.cls + " : " + v.detail +
                 fmt(" (run %llu)", (unsigned long long)run_index);
    return v;
  }
  Plan m = minimise(p, check, v, 45);
  Verdict vm = check(m);
  if (!same(v, vm)) { m = p; vm = v; }
  mkdir(outdir.c_str(), 0777);
  std::string text = plan_text(m);
  std::string path = outdir + "/" + prop + fmt("-%016llx.replay", (unsigned long long)hash_str(text));
  text = "# " + prop + " violated: " + vm.cls + "\n# " + one_line(vm.detail) + fmt("\n# seed %llu run %llu\n",
         (unsigned long long)seed, (unsigned long long)run_index) + "# " + one_line(plan_brief(m)) + "\n" + text;
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) {
    error = true;
    error_text = "cannot write replay file " + path;
    return v;
  }
  close(fd);
  // gate 2: a fresh process must reproduce it from the file
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 1);
    dup2(dn, 2);
    std::string exe = self_exe();
    execl(exe.c_str(), exe.c_str(), "replay", path.c_str(), (char *)nullptr);
    _exit(3);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
    unrepeatable++;
    unrepeatable_text = fmt("replay in a fresh process did not reproduce (status %d): ", st) + vm.cls + " " + vm.detail + " " + path;
    return v;
  }
  violation_line = "VIOLATION property=" + prop + " replay=" + path;
  error_text = vm.cls + ": " + vm.detail + " [" + plan_brief(m) + "]";
  return v;
}

int replay_file(const std::string &path, bool quiet) {
  std::string s;
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", path.c_str());
    return 2;
  }
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  Plan p;
  if (!plan_parse(s, p)) {
    fprintf(stderr, "not a replay file: %s\n", path.c_str());
    return 2;
  }
  for (auto &q : properties())
    if (p.prop == q.id) {
      Verdict v = q.check(p);
      if (v.bad) {
        if (!quiet) {
          printf("%s: %s\n%s\n", v.cls.c_str(), v.detail.c_str(), plan_brief(p).c_str());
          printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), path.c_str());
        }
        return v.cls == "HARNESS" ? 2 : 1;
      }
      if (!quiet) printf("property %s holds on %s (%s)\n", p.prop.c_str(), path.c_str(), v.state.c_str());
      return 0;
    }
  fprintf(stderr, "unknown property %s\n", p.prop.c_str());
  return 2;
}
} // namespace sim

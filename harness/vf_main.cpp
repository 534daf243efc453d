// Runner: shards the cases of every property over forked workers, catches
// failures (exceptions, crashes, sanitizer reports, endless cases), shrinks
// them, replays the shrunk case three times and reports.
#include "vf.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
std::vector<Prop>& props()
{
  static std::vector<Prop> p;
  return p;
}
std::vector<Known>& knowns()
{
  static std::vector<Known> p;
  return p;
}

namespace
{
struct Shared
{
  volatile uint64_t current; // case index being run + 1
  volatile uint64_t done;
};

double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t case_seed(uint64_t seed, const char* prop, uint64_t idx)
{
  uint64_t h = mix64(seed ^ 0xA5A5A5A5ull);
  for (const char* p = prop; *p; ++p)
    h = mix64(h ^ (unsigned char)*p);
  return mix64(h ^ (idx * 0x2545F4914F6CDD1Dull));
}

uint64_t hash_choices(const std::vector<uint64_t>& v)
{
  uint64_t h = v.size();
  for (auto x : v)
    h = mix64(h ^ x);
  return h;
}

std::string json_escape(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s)
  {
    switch (ch)
    {
      case '"':
        o += "\\\"";
        break;
      case '\\':
        o += "\\\\";
        break;
      case '\n':
        o += "\\n";
        break;
      case '\t':
        o += "\\t";
        break;
      default:
        if (ch < 0x20 || ch >= 0x7f)
        {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", ch);
          o += b;
        }
        else
          o += (char)ch;
    }
  }
  return o;
}

Shared* g_shared{};
uint64_t g_lastCase{};
int g_ticks{};
int g_cpuLimit = 30;

void on_prof(int)
{
  const uint64_t cur = g_shared->current;
  if (cur == g_lastCase)
  {
    if (++g_ticks >= g_cpuLimit)
    {
      const char m[] = "\nVF: case exceeded its CPU limit\n";
      if (write(2, m, sizeof m - 1)) { }
      _exit(97);
    }
  }
  else
  {
    g_lastCase = cur;
    g_ticks = 0;
  }
}

void arm_watchdog(int limit)
{
  g_cpuLimit = limit;
  g_ticks = 0;
  struct sigaction sa
  {
  };
  sa.sa_handler = on_prof;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval tv{};
  tv.it_interval.tv_sec = 1;
  tv.it_value.tv_sec = 1;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// 0 ok, 1 fail, 2 discarded
int run_case(const Prop& p, Case& c, std::string& msg)
{
  try
  {
    p.fn(c);
    return 0;
  }
  catch (const Discard&)
  {
    return 2;
  }
  catch (const Fail& f)
  {
    msg = f.msg;
    return 1;
  }
  catch (const std::exception& e)
  {
    msg = std::string("uncaught exception: ") + e.what();
    return 1;
  }
  catch (...)
  {
    msg = "uncaught exception of unknown type";
    return 1;
  }
}

struct TaskStats
{
  uint64_t evals{}, discards{};
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> excluded;
  std::vector<uint64_t> sampleIdx; // indices of non trivial cases
};

struct Failure
{
  std::size_t prop;
  uint64_t idx;
  std::string kind; // fail, crash, hang
  std::string msg;
};

std::string slurp(const std::string& p, std::size_t max = 6000)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  auto s = ss.str();
  if (s.size() > max)
    s = s.substr(0, max / 2) + "\n...\n" + s.substr(s.size() - max / 2);
  return s;
}

// ---- task child -----------------------------------------------------------
[[noreturn]] void task_child(
    const Prop& p, uint64_t seed, uint64_t from, uint64_t to,
    const std::string& base, Shared* sh)
{
  g_shared = sh;
  int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  dup2(fd, 2);
  dup2(fd, 1);
  arm_watchdog(30);
  TaskStats st;
  int rc = 0;
  std::string msg;
  uint64_t failIdx = 0;
  for (uint64_t i = from; i < to; i++)
  {
    sh->current = i + 1;
    Case c(case_seed(seed, p.name, i));
    int r = run_case(p, c, msg);
    if (r == 1)
    {
      failIdx = i;
      rc = 10;
      break;
    }
    if (r == 2)
    {
      st.discards++;
      continue;
    }
    st.evals++;
    if (c.m_nontrivial)
    {
      if (st.distinct.insert(hash_choices(c.choices())).second
          && st.sampleIdx.size() < 2 && c.choices().size() < 400)
        st.sampleIdx.push_back(i);
    }
    for (auto& l : c.m_labels)
      st.labels[l]++;
    for (auto& l : c.m_excluded)
      st.excluded[l]++;
    sh->done = i + 1;
  }
  std::ofstream o(base + ".st", std::ios::binary);
  o << st.evals << " " << st.discards << " " << st.distinct.size() << "\n";
  for (auto h : st.distinct)
    o << h << " ";
  o << "\n" << st.labels.size() << "\n";
  for (auto& l : st.labels)
    o << l.second << " " << l.first << "\n";
  o << st.excluded.size() << "\n";
  for (auto& l : st.excluded)
    o << l.second << " " << l.first << "\n";
  o << st.sampleIdx.size() << "\n";
  for (auto i : st.sampleIdx)
    o << i << " ";
  o << "\n";
  if (rc)
  {
    std::ofstream f(base + ".fail", std::ios::binary);
    f << failIdx << "\n" << msg;
  }
  o.close();
  _exit(rc);
}

// waits for a child, killing it if it makes no progress while not using CPU
int wait_child(pid_t pid, Shared* sh, bool& stuck, int stuckPolls)
{
  stuck = false;
  uint64_t last = ~0ull;
  long lastCpu = -1;
  int idle = 0;
  for (int n = 0;; n++)
  {
    int st = 0;
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid)
      return st;
    usleep(n < 200 ? 500 : 20000);
    if (n < 200 || n % 5)
      continue;
    // every 100 ms
    long cpu = 0;
    {
      std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
      std::string s;
      std::getline(f, s);
      auto pos = s.rfind(')');
      if (pos != std::string::npos)
      {
        std::istringstream is(s.substr(pos + 2));
        std::string tok;
        for (int k = 0; k < 13 && is >> tok; k++)
          if (k == 11 || k == 12)
            cpu += atol(tok.c_str());
      }
    }
    if (sh->current == last && cpu == lastCpu)
      idle++;
    else
      idle = 0;
    last = sh->current;
    lastCpu = cpu;
    if (idle > stuckPolls)
    {
      stuck = true;
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return st;
    }
  }
}

// runs one choice sequence in a forked child.  returns "" if it passes,
// otherwise the failure text.
struct OneResult
{
  bool failed{};
  std::string kind, msg;
  std::vector<uint64_t> used;
};

OneResult run_one(
    const Prop& p, const std::vector<uint64_t>& ch, const std::string& base,
    Shared* sh, int cpu, bool verbose)
{
  OneResult res;
  unlink((base + ".one").c_str());
  sh->current = 1;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    g_shared = sh;
    int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    arm_watchdog(cpu);
    Case c{ch};
    c.verbose = verbose;
    std::string msg;
    int r = run_case(p, c, msg);
    std::ofstream o(base + ".one", std::ios::binary);
    o << r << " " << c.choices().size();
    for (auto x : c.choices())
      o << " " << x;
    o << "\n";
    if (r == 1)
      o << msg << "\n";
    if (verbose)
      o << "\n--- case ---\n" << c.log.str();
    o.close();
    _exit(r == 1 ? 10 : 0);
  }
  bool stuck = false;
  int st = wait_child(pid, sh, stuck, cpu < 10 ? 50 : 600);
  std::ifstream f(base + ".one", std::ios::binary);
  int r = -1;
  std::size_t n = 0;
  if (f >> r >> n)
  {
    res.used.resize(n);
    for (auto& x : res.used)
      f >> x;
    f.ignore(1);
    std::stringstream ss;
    ss << f.rdbuf();
    res.msg = ss.str();
  }
  if (stuck)
  {
    res.failed = true;
    res.kind = "hang";
    res.msg = "the case blocked without using CPU (deadlock)";
  }
  else if (WIFSIGNALED(st))
  {
    res.failed = true;
    res.kind = "crash";
    res.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + "\n"
              + slurp(base + ".err", 3000);
  }
  else if (WEXITSTATUS(st) == 10)
  {
    res.failed = true;
    res.kind = "fail";
  }
  else if (WEXITSTATUS(st) == 97)
  {
    res.failed = true;
    res.kind = "hang";
    res.msg = "the case used more than " + std::to_string(cpu)
              + " s of CPU without ending";
  }
  else if (WEXITSTATUS(st) != 0)
  {
    res.failed = true;
    res.kind = "crash";
    res.msg = "exit status " + std::to_string(WEXITSTATUS(st)) + "\n"
              + slurp(base + ".err", 3000);
  }
  if (res.used.empty())
    res.used = ch;
  return res;
}

OneResult run_some(
    const Prop& p, const std::vector<uint64_t>& ch, const std::string& base,
    Shared* sh, int cpu, bool verbose)
{
  OneResult r;
  for (int i = 0; i < p.repro_attempts; i++)
  {
    r = run_one(p, ch, base, sh, cpu, verbose);
    if (r.failed)
      return r;
  }
  return r;
}

std::vector<uint64_t> shrink(
    const Prop& p, std::vector<uint64_t> cur, const std::string& base, Shared* sh,
    const std::string& kind, int maxTries, double maxTime, int& tries)
{
  tries = 0;
  const double t0 = now();
  const int cpu = kind == "hang" ? 4 : 30;
  auto budget = [&] { return tries < maxTries && now() - t0 < maxTime; };
  auto attempt = [&](const std::vector<uint64_t>& v) {
    if (!budget())
      return false;
    tries++;
    auto r = run_some(p, v, base, sh, cpu, false);
    if (r.failed && r.kind == kind)
    {
      // keep what was really consumed
      auto u = r.used;
      if (u.size() <= v.size())
        cur = u;
      else
        cur = v;
      while (!cur.empty() && cur.back() == 0)
        cur.pop_back();
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && budget())
  {
    improved = false;
    // delete blocks
    for (std::size_t bs = std::min<std::size_t>(cur.size(), 64); bs >= 1; bs /= 2)
    {
      for (std::size_t i = cur.size(); i-- > 0 && budget();)
      {
        if (i + bs > cur.size())
          continue;
        auto v = cur;
        v.erase(v.begin() + i, v.begin() + i + bs);
        if (attempt(v))
        {
          improved = true;
          if (i > cur.size())
            i = cur.size();
        }
        else if (bs > 1)
          i = i >= bs / 2 ? i - bs / 2 + 1 : 0;
      }
      if (bs == 1)
        break;
    }
    // zero then lower
    for (std::size_t i = 0; i < cur.size() && budget(); i++)
    {
      if (cur[i] == 0)
        continue;
      auto v = cur;
      v[i] = 0;
      if (attempt(v))
      {
        improved = true;
        continue;
      }
      if (i >= cur.size())
        break;
      uint64_t lo = 0, hi = cur[i];
      while (lo + 1 < hi && budget() && i < cur.size())
      {
        const uint64_t mid = lo + (hi - lo) / 2;
        v = cur;
        v[i] = mid;
        if (attempt(v))
        {
          improved = true;
          if (i >= cur.size())
            break;
          hi = cur[i];
          if (hi <= lo)
            break;
        }
        else
          lo = mid;
      }
    }
  }
  return cur;
}
}

int main_(int argc, char** argv)
{
  std::string id = "C00", tier = "quick", out, replay, only, replays = ".", known;
  uint64_t seed = 1;
  unsigned jobs = 8;
  double scale = 1.;
  for (int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--id")
      id = v;
    else if (a == "--tier")
      tier = v;
    else if (a == "--seed")
      seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--out")
      out = v;
    else if (a == "--replay")
      replay = v;
    else if (a == "--only")
      only = v;
    else if (a == "--replays")
      replays = v;
    else if (a == "--known")
      known = v;
    else if (a == "--jobs")
      jobs = atoi(v.c_str());
    else if (a == "--scale")
      scale = atof(v.c_str());
  }
  const double t0 = now();
  char tmpl[] = "/tmp/vf.XXXXXX";
  const char* tmpc = mkdtemp(tmpl);
  if (!tmpc)
    return 3;
  const std::string tmp = tmpc;
  struct Clean
  {
    std::string d;
    pid_t owner = getpid();
    ~Clean()
    {
      if (owner == getpid() && d.rfind("/tmp/vf.", 0) == 0)
      {
        std::string cmd = "rm -rf " + d;
        if (system(cmd.c_str())) { }
      }
    }
  } clean{tmp};
  auto mk = [] {
    return (Shared*)mmap(
        nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  };

  // ---- replay one saved case ----------------------------------------------
  if (!replay.empty())
  {
    std::ifstream f(replay);
    std::string line, prop;
    std::vector<uint64_t> ch;
    while (std::getline(f, line))
    {
      if (line.rfind("prop: ", 0) == 0)
        prop = line.substr(6);
      if (line.rfind("choices:", 0) == 0)
      {
        std::istringstream is(line.substr(8));
        uint64_t x;
        while (is >> x)
          ch.push_back(x);
      }
    }
    for (auto& k : knowns())
      if ("known-" + std::string(k.id) == prop)
      {
        try
        {
          k.fn();
          std::cout << "replay: passes\n";
          return 0;
        }
        catch (const std::exception& e)
        {
          std::cout << "replay: FAILS: " << e.what() << "\n";
          return 1;
        }
      }
    for (auto& p : props())
      if (p.name == prop)
      {
        auto r = run_some(p, ch, tmp + "/r", mk(), 30, true);
        std::cout << (r.failed ? "replay: FAILS (" + r.kind + "): " : "replay: passes ")
                  << r.msg << "\n";
        return r.failed ? 1 : 0;
      }
    std::cerr << "unknown property in replay file\n";
    return 3;
  }

  // ---- known findings file --------------------------------------------------
  std::set<std::string> listed;
  {
    std::ifstream f(known);
    std::string line;
    while (std::getline(f, line))
    {
      // known: property=<id> finding=<finding id> ...
      auto p = line.find("finding=");
      if (line.rfind("known:", 0) == 0 && p != std::string::npos
          && line.find("property=" + id + " ") != std::string::npos)
      {
        auto e = line.find_first_of(" \t", p);
        listed.insert(line.substr(p + 8, e == std::string::npos ? e : e - p - 8));
      }
    }
  }
  int violations = 0;
  std::vector<std::string> knownHit;
  mkdir(replays.c_str(), 0755);
  for (auto& k : knowns())
  {
    if (!only.empty())
      break;
    std::string base = tmp + "/known";
    fflush(nullptr);
    Shared* sh = mk();
    sh->current = 1;
    pid_t pid = fork();
    if (pid == 0)
    {
      g_shared = sh;
      int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(fd, 2);
      dup2(fd, 1);
      arm_watchdog(30);
      std::string msg;
      int rc = 0;
      try
      {
        k.fn();
      }
      catch (const std::exception& e)
      {
        rc = 10;
        msg = e.what();
      }
      std::ofstream(base + ".one") << msg;
      _exit(rc);
    }
    bool stuck;
    int st = wait_child(pid, sh, stuck, 600);
    const bool bad = stuck || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    if (!bad)
      continue;
    if (listed.count(k.id))
    {
      std::cout << "KNOWN-FINDING: property=" << id << " " << k.id << ": " << k.what
                << std::endl;
      knownHit.push_back(k.id);
    }
    else
    {
      std::string path = replays + "/" + id + "-known-" + k.id + ".txt";
      std::ofstream(path) << "check: " << id << "\nprop: known-" << k.id
                          << "\nchoices:\n"
                          << k.what << "\n"
                          << slurp(base + ".one") << slurp(base + ".err");
      std::cout << "VIOLATION property=" << id << " replay=" << path << std::endl;
      std::cerr << slurp(base + ".one") << slurp(base + ".err");
      violations++;
    }
  }

  // ---- plan -----------------------------------------------------------------
  struct Task
  {
    std::size_t prop;
    uint64_t from, to;
    std::string base;
    Shared* sh{};
    pid_t pid{};
  };
  std::vector<Task> tasks;
  for (std::size_t pi = 0; pi < props().size(); pi++)
  {
    auto& p = props()[pi];
    if (!only.empty() && only != p.name)
      continue;
    uint64_t n = tier == "thorough" ? p.thorough : p.quick;
    n = std::max<uint64_t>(1, (uint64_t)(n * scale));
    const uint64_t shards = std::min<uint64_t>(n, p.repro_attempts > 1 ? 4 : 16);
    for (uint64_t s = 0; s < shards; s++)
    {
      Task t;
      t.prop = pi;
      t.from = n * s / shards;
      t.to = n * (s + 1) / shards;
      t.base = tmp + "/t" + std::to_string(tasks.size());
      tasks.push_back(t);
    }
  }

  std::vector<Failure> failures;
  std::set<std::size_t> failedProps;
  std::vector<Task*> running;
  std::map<std::size_t, TaskStats> stats;
  std::size_t next = 0;
  struct Prog
  {
    uint64_t last{};
    long cpu{-1};
    int idle{};
  };
  std::map<pid_t, Prog> prog;
  int poll = 0;
  while (next < tasks.size() || !running.empty())
  {
    while (running.size() < jobs && next < tasks.size())
    {
      Task& t = tasks[next++];
      if (failedProps.count(t.prop))
        continue;
      t.sh = mk();
      std::cout.flush();
      fflush(nullptr);
      t.pid = fork();
      if (t.pid == 0)
        task_child(props()[t.prop], seed, t.from, t.to, t.base, t.sh);
      running.push_back(&t);
    }
    usleep(2000);
    poll++;
    for (std::size_t i = 0; i < running.size();)
    {
      Task& t = *running[i];
      int st = 0;
      pid_t r = waitpid(t.pid, &st, WNOHANG);
      bool stuck = false;
      if (r == 0 && poll % 50 == 0)
      {
        long cpu = 0;
        std::ifstream f("/proc/" + std::to_string(t.pid) + "/stat");
        std::string s;
        std::getline(f, s);
        auto pos = s.rfind(')');
        if (pos != std::string::npos)
        {
          std::istringstream is(s.substr(pos + 2));
          std::string tok;
          for (int k = 0; k < 13 && is >> tok; k++)
            if (k == 11 || k == 12)
              cpu += atol(tok.c_str());
        }
        auto& pr = prog[t.pid];
        if (pr.last == t.sh->current && pr.cpu == cpu)
          pr.idle++;
        else
          pr.idle = 0;
        pr.last = t.sh->current;
        pr.cpu = cpu;
        if (pr.idle > 600)
        {
          stuck = true;
          kill(t.pid, SIGKILL);
          waitpid(t.pid, &st, 0);
          r = t.pid;
        }
      }
      if (r == 0)
      {
        i++;
        continue;
      }
      // merge stats
      {
        std::ifstream f(t.base + ".st");
        auto& s = stats[t.prop];
        uint64_t ev = 0, di = 0, n = 0;
        if (f >> ev >> di >> n)
        {
          s.evals += ev;
          s.discards += di;
          for (uint64_t k = 0, h; k < n && f >> h; k++)
            s.distinct.insert(h);
          auto rd = [&](std::map<std::string, uint64_t>& m) {
            f >> n;
            for (uint64_t k = 0; k < n; k++)
            {
              uint64_t cnt;
              std::string l;
              f >> cnt;
              f.ignore(1);
              std::getline(f, l);
              m[l] += cnt;
            }
          };
          rd(s.labels);
          rd(s.excluded);
          f >> n;
          for (uint64_t k = 0, h; k < n && f >> h; k++)
            s.sampleIdx.push_back(h);
        }
      }
      if (stuck || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
      {
        Failure f;
        f.prop = t.prop;
        f.idx = t.sh->current ? t.sh->current - 1 : t.from;
        f.kind = "crash";
        if (stuck || (WIFEXITED(st) && WEXITSTATUS(st) == 97))
          f.kind = "hang";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 10)
          f.kind = "fail";
        f.msg = f.kind == "fail" ? slurp(t.base + ".fail") : slurp(t.base + ".err");
        failures.push_back(f);
        failedProps.insert(t.prop);
      }
      running.erase(running.begin() + i);
    }
  }

  // ---- shrink and report ------------------------------------------------------
  std::sort(failures.begin(), failures.end(), [](auto& a, auto& b) {
    return std::tie(a.prop, a.idx) < std::tie(b.prop, b.idx);
  });
  std::set<std::size_t> reported;
  std::vector<std::string> flaky;
  for (auto& f : failures)
  {
    if (reported.count(f.prop))
      continue;
    const Prop& p = props()[f.prop];
    Shared* sh = mk();
    const std::string base = tmp + "/shrink";
    // regenerate the choice sequence of the case
    std::vector<uint64_t> ch;
    {
      unlink((base + ".one").c_str());
      fflush(nullptr);
      sh->current = 1;
      // the case is re-run from its seed in a child, which streams its choices
      // to shared memory: they are there whatever ends it
      const std::size_t cap = 1 << 22;
      uint64_t* buf = (uint64_t*)mmap(
          nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = fork();
      if (pid == 0)
      {
        g_shared = sh;
        int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        arm_watchdog(30);
        Case c(case_seed(seed, p.name, f.idx));
        c.sink = buf;
        c.sink_cap = cap;
        std::string msg;
        run_case(p, c, msg);
        _exit(0);
      }
      // poll the child: on a hang, ask for the choices with SIGABRT first
      const double ts = now();
      int st = 0;
      for (;;)
      {
        if (waitpid(pid, &st, WNOHANG) == pid)
          break;
        usleep(1000);
        if (now() - ts > (f.kind == "hang" ? 6. : 60.))
        {
          kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
          break;
        }
      }
      ch.assign(buf + 1, buf + 1 + buf[0]);
      munmap(buf, cap * 8);
    }
    int fails = 0;
    OneResult first;
    const int need = p.repro_attempts > 1 ? 1 : 3;
    const int cpu = f.kind == "hang" ? 10 : 30;
    for (int i = 0; i < need; i++)
    {
      auto r = run_some(p, ch, base, sh, cpu, false);
      if (r.failed)
      {
        fails++;
        first = r;
      }
    }
    if (fails < need)
    {
      flaky.push_back(
          std::string(p.name) + " case " + std::to_string(f.idx) + " (" + f.kind
          + "): did not fail again when run alone; first message: "
          + f.msg.substr(0, 400));
      continue;
    }
    int tries = 0;
    const bool hang = first.kind == "hang";
    auto small = shrink(
        p, ch, base, sh, first.kind, hang ? 12 : (p.repro_attempts > 1 ? 30 : 3000),
        hang ? 60. : 60., tries);
    int again = 0;
    OneResult fin;
    for (int i = 0; i < need; i++)
    {
      auto r = run_some(p, small, base, sh, cpu, true);
      if (r.failed)
      {
        again++;
        fin = r;
      }
    }
    if (again < need)
    {
      small = ch;
      fin = run_some(p, small, base, sh, cpu, true);
      if (!fin.failed)
        fin = first;
    }
    char name[64];
    snprintf(name, sizeof name, "%016llx", (unsigned long long)hash_choices(small));
    std::string path = replays + "/" + id + "-" + p.name + "-" + name + ".txt";
    std::ofstream o(path);
    o << "check: " << id << "\nprop: " << p.name << "\nchoices:";
    for (auto x : small)
      o << " " << x;
    o << "\nseed: " << seed << "\ncase: " << f.idx << "\nkind: " << fin.kind
      << "\nshrink_tries: " << tries << "\nmessage:\n"
      << fin.msg << "\n";
    o.close();
    std::cout << "VIOLATION property=" << id << " replay=" << path << std::endl;
    std::cerr << id << "/" << p.name << " (" << fin.kind << "): "
              << fin.msg.substr(0, 3000) << std::endl;
    violations++;
    reported.insert(f.prop);
  }
  for (auto& f : flaky)
    std::cerr << "note: not reproducible, not reported: " << f << "\n";

  // ---- evidence -----------------------------------------------------------------
  uint64_t evals = 0, disc = 0, distinct = 0;
  std::ostringstream per;
  std::vector<std::string> samples;
  bool firstP = true;
  for (std::size_t pi = 0; pi < props().size(); pi++)
  {
    auto it = stats.find(pi);
    if (it == stats.end())
      continue;
    auto& s = it->second;
    const Prop& p = props()[pi];
    evals += s.evals;
    disc += s.discards;
    distinct += s.distinct.size();
    per << (firstP ? "" : ",") << "\n    \"" << p.name
        << "\": {\"evaluations\": " << s.evals
        << ", \"distinct_nontrivial\": " << s.distinct.size()
        << ", \"discarded\": " << s.discards << ", \"classes\": {";
    bool fl = true;
    for (auto& l : s.labels)
    {
      per << (fl ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
      fl = false;
    }
    per << "}, \"excluded\": {";
    fl = true;
    for (auto& l : s.excluded)
    {
      per << (fl ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
      fl = false;
    }
    per << "}}";
    firstP = false;
    if (!s.sampleIdx.empty() && !failedProps.count(pi))
    {
      std::sort(s.sampleIdx.begin(), s.sampleIdx.end());
      const uint64_t idx = s.sampleIdx.front();
      Shared* sh = mk();
      // re-run verbosely from its seed
      const std::string base = tmp + "/sample";
      fflush(nullptr);
      sh->current = 1;
      pid_t pid = fork();
      if (pid == 0)
      {
        g_shared = sh;
        int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        arm_watchdog(30);
        Case c(case_seed(seed, p.name, idx));
        c.verbose = true;
        std::string msg;
        run_case(p, c, msg);
        std::ofstream o(base + ".one", std::ios::binary);
        o << c.log.str();
        o.close();
        _exit(0);
      }
      bool stuck;
      wait_child(pid, sh, stuck, 600);
      auto txt = slurp(base + ".one", 1200);
      samples.push_back(
          std::string(p.name) + " #" + std::to_string(idx) + ": " + txt);
    }
  }
  std::ostringstream ev;
  ev << "{\n  \"property\": \"" << id << "\",\n  \"tier\": \"" << tier
     << "\",\n  \"seed\": " << seed << ",\n  \"level\": \"exploration\",\n"
     << "  \"coverage\": {\n   \"evaluations\": " << evals
     << ",\n   \"distinct_nontrivial\": " << distinct << ",\n   \"discarded\": " << disc
     << ",\n   \"rule\": \"" << json_escape(rule) << "\",\n   \"per_property\": {"
     << per.str() << "\n   },\n   \"samples\": [";
  for (std::size_t i = 0; i < samples.size(); i++)
    ev << (i ? ",\n" : "\n") << "    \"" << json_escape(samples[i]) << "\"";
  ev << "\n   ],\n   \"known_findings_reproduced\": [";
  for (std::size_t i = 0; i < knownHit.size(); i++)
    ev << (i ? ", " : "") << "\"" << json_escape(knownHit[i]) << "\"";
  ev << "],\n   \"not_reproducible\": [";
  for (std::size_t i = 0; i < flaky.size(); i++)
    ev << (i ? ", " : "") << "\"" << json_escape(flaky[i]) << "\"";
  ev << "]\n  },\n  \"assumptions\": [],\n  \"violations\": " << violations
     << ",\n  \"wall_s\": " << (now() - t0) << "\n}\n";
  if (!out.empty())
  {
    std::ofstream o(out);
    o << ev.str();
  }
  std::cout << id << ": " << evals << " cases, " << distinct
            << " distinct non-trivial, " << violations << " violation(s), "
            << (now() - t0) << " s" << std::endl;
  return violations ? 1 : 0;
}
}

int main(int argc, char** argv)
{
  return vf::main_(argc, argv);
}

// Driver for shared memory and processes.  Shared memory is used from several worker processes.
#include "proto.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <set>
#include "boost/filesystem.hpp"
#include "maidsafe/common/ipc.h"
#include "maidsafe/common/process.h"
using namespace maidsafe;
namespace fs = boost::filesystem;

// What the system says about a process: asking about the second number is not allowed.
static const pid_t kNobody = 0x3ffffff0, kForbidden = 0x3ffffff1;
extern "C" int kill(pid_t p, int sig) noexcept {
  if (p == kNobody || p == kForbidden) {
    errno = p == kNobody ? ESRCH : EPERM;
    return -1;
  }
  return int(syscall(SYS_kill, p, sig));
}
static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static std::string Text(const std::string& t) {
  std::string s;
  for (int x : Nums(t)) s.push_back(char(x));
  return s;
}
static std::vector<std::string> Texts(const std::string& t) {
  std::vector<std::string> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ';')) s.push_back(Text(w));
  return s;
}
static std::string Bytes(const std::string& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::string Lists(const std::vector<std::string>& v) {
  std::vector<std::string> o;
  for (auto& s : v) o.push_back(Bytes(s));
  return proto::Join(o);
}
static std::string g_tag;
static std::set<std::string> g_names;
template <typename F>
static std::string Thrown(F f) {
  try {
    return f();
  } catch (const std::exception&) {
    return "{\"err\":\"thrown\"}";
  }
}
static std::string Do(const proto::Args& a) {
  const std::string& c = a[0];
  std::string name = g_tag + (a.size() > 2 ? Text(a[2]) : "");
  if (c == "create") return Thrown([&] { return ipc::CreateSharedMemory(name, Texts(a[3])), std::string("0"); });
  if (c == "remove") return Thrown([&] { return ipc::RemoveSharedMemory(name), std::string("0"); });
  if (c == "read") return Thrown([&] { return Lists(ipc::ReadSharedMemory(name, std::stoi(a[3]))); });
  if (c == "pid") return process::GetProcessId() == uint64_t(getpid()) ? "0" : "1";
  return "\"?\"";
}
static std::map<std::string, std::pair<pid_t, int>> g_kids;  // process, and the pipe which ends it
struct Proc {
  pid_t pid = 0;
  FILE *to = nullptr, *from = nullptr;
  void Start() {
    int in[2], out[2];
    if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) abort();
    std::cout.flush();
    pid = fork();
    if (!pid) {
      FILE* f = fdopen(in[0], "r");
      close(in[1]);
      for (auto& k : g_kids) close(k.second.second);
      char* line = nullptr;
      size_t cap = 0;
      while (getline(&line, &cap, f) > 0) {
        alarm(15);
        std::string r = proto::Try([&] { return Do(proto::Split(line)); }) + "\n";
        if (write(out[1], r.data(), r.size()) < 0) break;
      }
      _exit(0);
    }
    close(in[0]);
    close(out[1]);
    to = fdopen(in[1], "w");
    from = fdopen(out[0], "r");
  }
  void End() {
    if (!pid) return;
    syscall(SYS_kill, pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    fclose(to);
    fclose(from);
    pid = 0;
  }
  std::string Ask(const std::string& line) {
    if (!pid) Start();
    fputs((line + "\n").c_str(), to);
    fflush(to);
    std::string r;
    int ch;
    while ((ch = fgetc(from)) != EOF && ch != '\n') r += char(ch);
    if (ch == EOF) {
      End();
      return "\"died\"";
    }
    return r;
  }
};
static std::map<std::string, Proc> g_procs;

int main(int argc, char** argv) {
  if (argc > 2 && std::string(argv[1]) == "other") {
    const char* args[] = {argv[0], nullptr};
    SetThisExecutablePath(args);
    std::cout << process::GetOtherExecutablePath(Text(argv[2])).string();
    return 0;
  }
  signal(SIGPIPE, SIG_IGN);
  g_tag = "v" + std::to_string(getpid()) + "x";
  auto clean = [] {
    for (auto& n : g_names) Thrown([&] { return ipc::RemoveSharedMemory(n), std::string(); });
    g_names.clear();
    for (auto& p : g_procs) p.second.End();
    g_procs.clear();
    for (auto& k : g_kids) {
      close(k.second.second);
      syscall(SYS_kill, k.second.first, SIGKILL);
      waitpid(k.second.first, nullptr, 0);
    }
    g_kids.clear();
  };
  auto rc = proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    std::string line;
    for (auto& w : a) line += w + " ";
    if (c == "reset") return clean(), "0";
    if (c == "create" || c == "remove" || c == "read" || c == "pid") {
      if (c == "create") g_names.insert(g_tag + Text(a[2]));
      return a[1] == "0" ? Do(a) : g_procs[a[1]].Ask(line);
    }
    if (c == "kill") return g_procs[a[1]].End(), "0";
    if (c == "many") {  // many <processes> <name> <number>: read by all at once
      std::vector<std::pair<pid_t, int>> ps;
      int go[2];
      if (pipe(go)) abort();
      for (int i = 0; i < std::stoi(a[1]); ++i) {
        int p[2];
        if (pipe(p)) abort();
        std::cout.flush();
        pid_t q = fork();
        if (!q) {
          char b;
          close(go[1]);
          if (read(go[0], &b, 1) < 0) _exit(1);
          std::string first;
          for (int k = 0; k < 20; ++k) {
            std::string r = Do({"read", "0", a[2], a[3]});
            if (k && r != first) r = "\"changed\"";
            first = r;
          }
          if (write(p[1], first.data(), first.size()) < 0) _exit(1);
          _exit(0);
        }
        close(p[1]);
        ps.emplace_back(q, p[0]);
      }
      close(go[1]);
      close(go[0]);
      std::set<std::string> all;
      for (auto& p : ps) {
        std::string r;
        char b[4096];
        ssize_t n;
        while ((n = read(p.second, b, sizeof b)) > 0) r.append(b, size_t(n));
        close(p.second);
        waitpid(p.first, nullptr, 0);
        all.insert(r.empty() ? "\"died\"" : r);
      }
      std::vector<std::string> v(all.begin(), all.end());
      return v.size() == 1 ? v[0] : proto::Join(v);
    }
    // ---- processes
    if (c == "start") {
      int p[2];
      if (pipe2(p, O_CLOEXEC)) abort();
      std::cout.flush();
      pid_t q = fork();
      if (!q) {
        close(p[1]);
        for (auto& k : g_kids) close(k.second.second);
        char b;
        _exit(read(p[0], &b, 1) < 0);
      }
      close(p[0]);
      g_kids[a[1]] = {q, p[1]};
      return "0";
    }
    if (c == "exit") {  // exits by itself and stays unreaped
      close(g_kids[a[1]].second);
      g_kids[a[1]].second = -1;
      siginfo_t i;
      waitid(P_PID, id_t(g_kids[a[1]].first), &i, WEXITED | WNOWAIT);
      return "0";
    }
    if (c == "reap") {
      waitpid(g_kids[a[1]].first, nullptr, 0);
      return "0";
    }
    if (c == "drop") {
      g_kids.erase(a[1]);
      return "0";
    }
    if (c == "running") {
      pid_t p = a[1] == "self" ? getpid() : a[1] == "nobody" ? kNobody : a[1] == "forbidden" ? kForbidden : g_kids.at(a[1]).first;
      return process::IsRunning(p) ? "true" : "false";
    }
    if (c == "line") return Bytes(process::ConstructCommandLine(Texts(a[1])));
    if (c == "other") {  // other <name> <extension of the running program>
      char dir[] = "/tmp/verif_proc_XXXXXX";
      if (!mkdtemp(dir)) abort();
      fs::path d = fs::path(dir) / "some dir";
      fs::create_directory(d);
      fs::path me = d / ("me" + Text(a[2]));
      fs::copy_file("/proc/self/exe", me);
      fs::permissions(me, fs::owner_all);
      int p[2];
      if (pipe2(p, O_CLOEXEC)) abort();
      std::cout.flush();
      pid_t q = fork();
      if (!q) {
        dup2(p[1], 1);
        execl(me.c_str(), me.c_str(), "other", a[1].c_str(), nullptr);
        _exit(1);
      }
      close(p[1]);
      std::string r;
      char b;
      while (read(p[0], &b, 1) == 1) r += b;
      close(p[0]);
      waitpid(q, nullptr, 0);
      std::string pre = fs::canonical(d).string() + "/";
      fs::remove_all(dir);
      return r.compare(0, pre.size(), pre) == 0 ? Bytes(r.substr(pre.size())) : proto::Q(r);
    }
    return "\"?\"";
  });
  clean();
  return rc;
}

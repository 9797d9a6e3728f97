// Driver for the path of the running program: every command is a program of its own.
#include "proto.h"
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <cstring>
#include "boost/filesystem.hpp"
#include "maidsafe/common/config.h"
using namespace maidsafe;
namespace fs = boost::filesystem;

// What the system says the program is: 0 the truth, 1 nothing.
static int g_link = 0;
static ssize_t Link(const char* p, char* b, size_t n) {
  if (g_link && std::string(p) == "/proc/self/exe") {
    errno = ENOENT;
    return -1;
  }
  return syscall(SYS_readlinkat, AT_FDCWD, p, b, n);
}
extern "C" ssize_t readlink(const char* __restrict p, char* __restrict b, size_t n) noexcept { return Link(p, b, n); }

// Runs commands ";"-separated: set<k> with the k'th argv, get, dir, cd
static int Child(const std::string& script) {
  const char* names[] = {"prog", "./x/../prog", "/abs/dir/prog", "dir/prog"};
  std::istringstream is(script);
  std::string w, cwd, self;
  bool set = false;
  char buf[PATH_MAX + 1] = {0};
  if (syscall(SYS_readlinkat, AT_FDCWD, "/proc/self/exe", buf, PATH_MAX) < 0) return 98;
  self = buf;
  std::vector<std::string> o;
  auto show = [&](fs::path p) -> std::string {
    if (p == self) return "\"self\"";
    if (p == fs::path(self).parent_path()) return "\"self dir\"";
    for (int k = 0; k < 4; ++k) {
      fs::path q = names[k][0] == '/' ? fs::path(names[k]) : fs::path(cwd) / names[k];
      if (p == q) return "\"argv " + std::to_string(k) + "\"";
      if (p == q.parent_path()) return "\"argv dir " + std::to_string(k) + "\"";
    }
    if (p.string().size() > 3000) return "\"long\"";
    return proto::Q(p.string());
  };
  while (std::getline(is, w, ';')) {
    int k = 0;
    if (std::isdigit((unsigned char)w.back())) {
      k = w.back() - 48;
      w.pop_back();
    }
    o.push_back(proto::Try([&]() -> std::string {
      if (w.compare(0, 3, "set") == 0) {
        const char* argv[] = {names[k], nullptr};
        if (!set) cwd = fs::current_path().string();
        set = true;
        SetThisExecutablePath(argv);
        return "0";
      }
      if (w == "get") return show(ThisExecutablePath());
      if (w == "dir") return show(ThisExecutableDir());
      if (w == "cd") return chdir("/") ? "1" : "0";
      return "\"?\"";
    }));
  }
  std::cout << proto::Join(o) << std::endl;
  return 0;
}

int main(int argc, char** argv) {
  if (argc > 3 && std::string(argv[1]) == "child") {
    g_link = std::stoi(argv[2]);
    return Child(argv[3]);
  }
  std::string self = argv[0];
  return proto::Loop([&](const proto::Args& a) -> std::string {
    if (a[0] == "reset") return "0";
    int p[2];
    if (pipe(p)) return "\"pipe\"";
    pid_t pid = fork();
    if (!pid) {
      dup2(p[1], 1);
      close(p[0]);
      if (chdir("/tmp")) _exit(96);
      // steps "name,number" become "name number"
      std::string t = a[2];
      t.erase(std::remove(t.begin(), t.end(), ','), t.end());
      execl(self.c_str(), self.c_str(), "child", a[1].c_str(), t.c_str(), nullptr);
      _exit(97);
    }
    close(p[1]);
    std::string out;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, size_t(n));
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return "\"program ended with " + std::to_string(st) + "\"";
    while (!out.empty() && out.back() == '\n') out.pop_back();
    return out;
  });
}

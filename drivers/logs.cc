// Driver for logging: every run is a process of its own.
#include "proto.h"
#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <sys/wait.h>
#include <termios.h>
#include <chrono>
#include <fstream>
#include <regex>
#include <thread>
#include "boost/filesystem.hpp"
#include "maidsafe/common/log.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
namespace fs = boost::filesystem;
typedef std::vector<int> Ints_t;

static std::vector<std::string> Parts(const std::string& t, char sep) {
  std::vector<std::string> v;
  if (t == "-") return v;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, sep)) v.push_back(w);
  return v;
}
static Ints_t Nums(const std::string& t) {
  Ints_t n;
  for (auto& w : Parts(t, ',')) n.push_back(std::stoi(w));
  return n;
}
static std::vector<Ints_t> Lists(const std::string& t) {
  std::vector<Ints_t> v;
  for (auto& w : Parts(t, ';')) v.push_back(Nums(w));
  return v;
}
static std::vector<std::string> Texts(const std::string& t) {
  std::vector<std::string> v;
  for (auto& l : Lists(t)) v.emplace_back(l.begin(), l.end());
  return v;
}
static std::string Show(const std::string& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::string Slurp(const fs::path& p) {
  std::ifstream f(p.string(), std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static std::string Now() {
  char b[30];
  time_t t = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
  strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", gmtime(&t));
  return b;
}

struct Where {
  std::map<std::string, int> threads;  // by id
  std::string from, to;
};
// Lines of a text; the end of a colour belongs to the line before it.
static std::string Lines(const std::string& s, const Where& w) {
  std::vector<std::string> out;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i);
    std::string l = s.substr(i, e == std::string::npos ? e : e - i);
    if (e == std::string::npos) l += "(no end of line)", i = s.size();
    else i = e + 1;
    if (s.compare(i, 3, "\033[m") == 0) l += "\033[m", i += 3;
    int t = 0;
    static const std::regex stamp("^((?:\033\\[0;3.m)?[A-Z ] )([0-9a-fx]+) ([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})\\.([0-9]+)");
    std::smatch m;
    if (std::regex_search(l, m, stamp)) {
      auto it = w.threads.find(m[2]);
      t = it == w.threads.end() ? 99 : it->second;
      std::string time = m[3], rest = m.suffix();
      bool ok = time >= w.from && time <= w.to;
      l = m[1].str() + (ok ? "@" : "(another time)") + rest;
    }
    out.push_back("[" + std::to_string(t) + "," + Show(l) + "]");
  }
  return proto::Join(out);
}

static const char* kNames[] = {"*", "api", "common", "crux", "drive", "encrypt", "launcher", "nfs", "passport", "routing", "vault", "vault_manager"};

static void Child(const proto::Args& a, const fs::path& dir) {
  Ints_t flags = Nums(a[1]);
  auto values = Texts(a[4]), paths = Texts(a[5]), texts = Texts(a[6]), extra = Texts(a[8]);
  fs::path folder = dir / "logs" / "deep";
  std::vector<std::string> arg = {"prog", "--log_config", (dir / "config").string()};
  if (flags[4] == 2) {
    std::ofstream((dir / "logs").string()) << "x";
    folder = dir / "logs";
  }
  arg.push_back("--log_folder");
  arg.push_back(flags[4] == 0 ? std::string() : folder.string());
  if (flags[1]) arg.push_back("--log_no_async");
  if (flags[2]) arg.push_back("--log_no_console");
  if (flags[3] != -2) arg.push_back("--log_colour_mode=" + std::to_string(flags[3]));
  if (flags[5]) arg.push_back("--help");
  for (auto& o : Lists(a[2])) arg.push_back(std::string("--log_") + kNames[o[0]] + "=" + values[size_t(o[1] - 1)]);
  {
    std::ofstream f((dir / "config").string());
    for (auto& o : Lists(a[3])) f << "log_" << kNames[o[0]] << " = " << values[size_t(o[1] - 1)] << "\n";
  }
  for (auto& x : extra) arg.push_back(x);
  std::vector<char*> argv;
  for (auto& x : arg) argv.push_back(&x[0]);
  argv.push_back(nullptr);
  auto unused = log::Logging::Instance().Initialise(int(arg.size()), &argv[0]);
  std::vector<std::string> u;
  if (unused.empty() || std::string(unused[0].data()) != ThisExecutablePath().string()) u.push_back("\"no program path\"");
  else
    for (size_t i = 1; i < unused.size(); ++i) u.push_back(Show(std::string(unused[i].data())));
  auto again = log::Logging::Instance().Initialise(int(arg.size()), &argv[0]);
  if (!again.empty()) u.push_back("\"initialised again\"");
  std::map<int, std::vector<Ints_t>> program;
  for (auto& m : Lists(a[7])) program[m[0]].push_back(m);
  std::vector<std::thread> threads;
  std::mutex mutex;
  std::ofstream ids((dir / "ids").string());
  std::atomic<size_t> ready(0);
  for (auto& p : program)
    threads.emplace_back([&, p] {
      {
        std::lock_guard<std::mutex> lock(mutex);
        ids << std::this_thread::get_id() << " " << p.first << std::endl;
      }
      for (++ready; ready < program.size();) std::this_thread::yield();
      for (auto& m : p.second) {
        const std::string& t = texts[size_t(m[4] - 1)];
        if (m[1] >= 100) log::TestLogMessage(log::Colour(m[1] - 100)).MessageStream() << t << "\n";
        else log::detail::LogMessage(paths[size_t(m[3] - 1)].c_str(), m[1]) = log::detail::OstreamBinder<void, void>() << ":" << m[2] << "] " << t;
      }
    });
  for (auto& t : threads) t.join();
  log::Logging::Instance().Flush();
  std::ofstream((dir / "unused").string()) << proto::Join(u);
  exit(0);  // what is still to be written is
}

int main() {
  char tmp[] = "/tmp/verif_logs_XXXXXX";
  if (!mkdtemp(tmp)) return 1;
  auto rc = proto::Loop([&](const proto::Args& a) -> std::string {
    if (a[0] != "run") return "0";
    alarm(120);
    fs::path dir = fs::path(tmp) / "run";
    fs::remove_all(dir);
    fs::create_directory(dir);
    bool tty = Nums(a[1])[0] == 1;
    Where w;
    w.from = Now();
    int master = -1, slave = -1;
    if (tty) {
      if (openpty(&master, &slave, nullptr, nullptr, nullptr)) return "\"no terminal\"";
      termios t;
      tcgetattr(slave, &t);
      cfmakeraw(&t);
      tcsetattr(slave, TCSANOW, &t);
    } else {
      slave = open((dir / "out").string().c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      dup2(slave, 1);
      setenv("TERM", tty ? "xterm" : "dumb", 1);
      try {
        Child(a, dir);
      } catch (const std::exception& e) {
        std::ofstream((dir / "unused").string()) << proto::Q(e.what());
      }
      _exit(1);
    }
    close(slave);
    std::string screen;
    if (tty) {
      char b[4096];
      ssize_t n;
      while ((n = read(master, b, sizeof b)) > 0) screen.append(b, size_t(n));
      close(master);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    w.to = Now();
    if (!tty) screen = Slurp(dir / "out");
    std::string u = Slurp(dir / "unused");
    if (status) return "{\"err\":" + proto::Q("exit " + std::to_string(status) + " " + u) + "}";
    std::ifstream ids((dir / "ids").string());
    std::string id;
    int t;
    while (ids >> id >> t) w.threads[id] = t;
    std::map<std::string, std::string> files;
    fs::path folder = dir / "logs" / "deep";
    if (fs::is_directory(folder))
      for (fs::directory_iterator it(folder), end; it != end; ++it) {
        std::string n = it->path().filename().string();
        static const std::regex name("^([0-9]{4}-[0-9]{2}-[0-9]{2})_([0-9]{2})-([0-9]{2})-([0-9]{2})_(.*)\\.log$");
        std::smatch m;
        if (!std::regex_match(n, m, name)) files["?" + n] = "";
        else {
          std::string time = m[1].str() + " " + m[2].str() + ":" + m[3].str() + ":" + m[4].str();
          files[(time >= w.from && time <= w.to ? "" : "of another time ") + m[5].str()] = Slurp(it->path());
        }
      }
    std::vector<std::string> f;
    for (auto& x : files) f.push_back("[" + Show(x.first) + "," + Lines(x.second, w) + "]");
    return "[" + u + "," + Lines(screen, w) + "," + proto::Join(f) + "]";
  });
  fs::remove_all(tmp);
  return rc;
}

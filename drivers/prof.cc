// Driver for the profiler: every report is that of a program of its own, which uses the given places.
#include "proto.h"
#include <sys/wait.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <thread>
#include "maidsafe/common/profiler.h"
using namespace maidsafe;

struct Use {
  std::string file, function;
  int line;
  long long ns;
  int times;
};
static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static std::string S(const std::string& t) {
  std::string s;
  for (int x : Nums(t)) s += char(x);
  return s;
}
static std::string Bytes(const std::string& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}

// The program: stdin has the uses, "threads n" and "scoped" lines.
static int Child() {
  std::vector<Use> uses;
  unsigned threads = 1;
  bool scoped = false;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto a = proto::Split(line);
    if (a[0] == "threads") threads = unsigned(std::stoi(a[1]));
    else if (a[0] == "scoped") scoped = true;
    else {
      auto d = Nums(a[4]);
      uses.push_back(Use{S(a[1]), S(a[3]), std::stoi(a[2]), ((d[0] * 1000ll + d[1]) * 1000 + d[2]) * 1000 + d[3], std::stoi(a[5])});
    }
  }
  auto run = [&](unsigned which) {
    unsigned n = 0;
    for (auto& u : uses)
      for (int i = 0; i < u.times; ++i)
        if (n++ % threads == which) {
          if (scoped) {
            profile::ProfileEntry e(u.file, u.line, u.function);
            auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
            while (std::chrono::steady_clock::now() < until) std::this_thread::yield();
          } else {
            profile::Profiler::Instance().AddEntry(profile::ProfileEntry::Location(u.file, u.line, u.function), std::chrono::nanoseconds(u.ns));
          }
        }
  };
  profile::Profiler::Instance();
  std::vector<std::thread> ts;
  for (unsigned i = 1; i < threads; ++i) ts.push_back(std::thread(run, i));
  run(0);
  for (auto& t : ts) t.join();
  return 0;
}

struct Entry {
  std::string place;
  long long count, average, total;
};
static std::string Dur(long long n) {
  return "[" + std::to_string(n / 1000000000) + "," + std::to_string(n / 1000000 % 1000) + "," + std::to_string(n / 1000 % 1000) + "," + std::to_string(n % 1000) + "]";
}
static bool Num(const std::string& t, long long* out) {
  size_t i = t.find_first_not_of(' ');
  if (i == std::string::npos || t.find_first_not_of("0123456789", i) != std::string::npos) return false;
  *out = std::stoll(t.substr(i));
  return true;
}
static bool Duration(const std::string& line, const char* what, long long* out) {
  size_t w = std::strlen(what), d = line.find('.', w);
  long long s, n;
  if (line.compare(0, w, what) || d == std::string::npos || line.size() != d + 12 || line.substr(d + 10) != " s") return false;
  if (!Num(line.substr(w, d - w), &s) || !Num(line.substr(d + 1, 9), &n)) return false;
  *out = s * 1000000000 + n;
  return true;
}

int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "child") return Child();
  std::vector<std::string> lines;
  std::string head, self = argv[0];
  bool scoped = false;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    if (a[0] == "reset") {  // reset <threads> <scoped>
      lines.clear();
      scoped = a.size() > 2 && a[2] == "1";
      head = "threads " + (a.size() > 1 ? a[1] : "1") + "\n" + (scoped ? "scoped\n" : "");
      return "0";
    }
    if (a[0] == "use") {
      std::string l;
      for (auto& w : a) l += w + " ";
      lines.push_back(l);
      return "0";
    }
    // report
    auto began = std::chrono::steady_clock::now();
    char in[] = "/tmp/verif_prof_XXXXXX", out[] = "/tmp/verif_prof_XXXXXX";
    int fi = mkstemp(in), fo = mkstemp(out);
    std::string text = head;
    for (auto& l : lines) text += l + "\n";
    if (write(fi, text.data(), text.size()) != ssize_t(text.size())) return "\"write\"";
    lseek(fi, 0, SEEK_SET);
    pid_t pid = fork();
    if (!pid) {
      dup2(fi, 0);
      dup2(fo, 1);
      execl(self.c_str(), self.c_str(), "child", nullptr);
      _exit(97);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    close(fi);
    close(fo);
    std::ifstream f(out);
    std::vector<std::string> got;
    std::string l;
    while (std::getline(f, l)) got.push_back(l);
    unlink(in);
    unlink(out);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return "\"program ended with " + std::to_string(st) + "\"";
    static const char* titles[] = {"Sorted by name", "Sorted by call count", "Sorted by average duration", "Sorted by total duration"};
    std::vector<std::vector<Entry>> secs;
    for (size_t i = 0; i < got.size();) {
      bool title = false;
      for (auto& t : titles)
        if (got[i] == t) {
          if (secs.size() != size_t(&t - titles)) return "\"sections out of order\"";
          title = true;
        }
      if (title) {
        secs.emplace_back();
        i += 2;
      } else if (i + 1 < got.size() && got[i + 1].compare(0, 9, "  Called:") == 0) {
        Entry e;
        e.place = got[i];
        std::string c = got[i + 1].substr(9);
        if (c.size() < 6 || c.substr(c.size() - 6) != " times" || !Num(c.substr(0, c.size() - 6), &e.count)) return "\"count\"";
        if (i + 3 >= got.size() || !Duration(got[i + 2], "  Average duration:", &e.average) || !Duration(got[i + 3], "  Total duration:", &e.total))
          return "\"duration\"";
        if (secs.empty()) return "\"entry without section\"";
        secs.back().push_back(e);
        i += 4;
      } else {
        ++i;
      }
    }
    if (secs.size() != 4) return "\"sections: " + std::to_string(secs.size()) + "\"";
    // measured times: plausible or not
    if (scoped) {
      double wall = std::chrono::duration<double, std::nano>(std::chrono::steady_clock::now() - began).count() * 8;
      for (int s = 0; s < 4; ++s)
        for (size_t i = 0; i < secs[s].size(); ++i) {
          Entry& e = secs[s][i];
          if (e.total < e.count * 1000000 || double(e.total) > wall || e.average != e.total / e.count) return "\"measured times\"";
          if (i && s && (s == 1 ? e.count : s == 2 ? e.average : e.total) > (s == 1 ? secs[s][i - 1].count : s == 2 ? secs[s][i - 1].average : secs[s][i - 1].total))
            return "\"order\"";
        }
      for (auto& s : secs)
        for (auto& e : s) e.average = e.total = 0;
    }
    // entries which a section does not order are put in order of their places
    auto key = [](int s, const Entry& e) { return s == 1 ? e.count : s == 2 ? e.average : e.total; };
    for (int s = 1; s < 4; ++s)
      for (size_t i = 0; i < secs[s].size();) {
        size_t j = i;
        while (j < secs[s].size() && key(s, secs[s][j]) == key(s, secs[s][i])) ++j;
        std::sort(secs[s].begin() + i, secs[s].begin() + j, [](const Entry& x, const Entry& y) { return x.place < y.place; });
        i = j;
      }
    std::vector<std::string> r;
    for (auto& s : secs) {
      std::vector<std::string> o;
      for (auto& e : s)
        o.push_back("{\"place\":" + Bytes(e.place) + ",\"count\":" + std::to_string(e.count) + ",\"average\":" + Dur(e.average) + ",\"total\":" + Dur(e.total) + "}");
      r.push_back(proto::Join(o));
    }
    return proto::Join(r);
  });
}

// Driver for databases.  A worker process has the connections; it can be killed, also at its n-th access to
// the files.  Waiting takes no time.
#include "proto.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <cstring>
#include <memory>
#include "boost/filesystem.hpp"
#include "maidsafe/common/sqlite3_wrapper.h"
using namespace maidsafe;
namespace fs = boost::filesystem;

// ---- access to the files
static long g_until = -1;   // accesses until the fault
static bool g_fail = false;  // it makes accesses fail instead of ending the process
static bool g_once = false;  // only one
static bool Fault() {
  if (g_until < 0) return false;
  if (g_until > 0) {
    --g_until;
    return false;
  }
  if (!g_fail) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  if (g_once) g_until = -1;
  errno = ENOSPC;
  return true;
}
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
  if (Fault()) return -1;
  return syscall(SYS_pwrite64, fd, b, n, o);
}
extern "C" int ftruncate64(int fd, off64_t n) noexcept { return Fault() ? -1 : int(syscall(SYS_ftruncate, fd, n)); }
extern "C" int fdatasync(int fd) { return Fault() ? -1 : int(syscall(SYS_fdatasync, fd)); }
extern "C" int fsync(int fd) { return Fault() ? -1 : int(syscall(SYS_fsync, fd)); }
extern "C" int unlink(const char* p) noexcept { return Fault() ? -1 : int(syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
static bool g_sleep = false;
extern "C" int nanosleep(const struct timespec* t, struct timespec* r) {
  if (!g_sleep) return 0;
  struct timespec s = *t;
  if (s.tv_sec || s.tv_nsec > 5000000) s = {0, 5000000};
  return int(syscall(SYS_nanosleep, &s, r));
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
extern "C" int usleep(useconds_t u) {
  struct timespec t = {long(u) / 1000000, long(u) % 1000000 * 1000};
  return nanosleep(&t, nullptr);
}

static fs::path g_root, g_db;
static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
template <typename C>
static C As(const std::string& t) {
  C s;
  for (int x : Nums(t)) s.push_back((typename C::value_type)x);
  return s;
}
template <typename C>
static std::string Bytes(const C& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
// A transaction in memory which was used before.
struct Tx {
  alignas(sqlite::Transaction) unsigned char mem[sizeof(sqlite::Transaction)];
  sqlite::Transaction* t;
  explicit Tx(sqlite::Database& d) : t(nullptr) {
    std::memset(mem, 0xff, sizeof mem);
    t = new (mem) sqlite::Transaction(d);
  }
  ~Tx() { t->~Transaction(); }
};
struct Worker {
  std::map<int, std::unique_ptr<sqlite::Database>> db;
  std::map<int, std::unique_ptr<Tx>> tx;
  std::map<int, std::vector<std::unique_ptr<Tx>>> old;
  std::unique_ptr<sqlite::Database> own, other;
  std::unique_ptr<sqlite::Statement> st;
  bool failed = false, more = false;

  static std::string Rows(sqlite::Database& d) {
    sqlite::Statement s(d, "SELECT k, v FROM t ORDER BY k");
    std::vector<std::string> o;
    while (s.Step() == sqlite::StepResult::kSqliteRow) o.push_back("[" + s.ColumnText(0) + "," + Bytes(s.ColumnBlob(1)) + "]");
    return proto::Join(o);
  }
  static void Exec(sqlite::Database& d, const char* q) {
    sqlite::Statement s(d, q);
    s.Step();
  }
  std::string Run(const proto::Args& a) {
    const std::string& c = a[0];
    int n = a.size() > 1 && std::isdigit((unsigned char)a[1][0]) ? std::stoi(a[1]) : 0;
    if (c == "setup") {
      sqlite::Database d(g_db, sqlite::Mode::kReadWriteCreate);
      Exec(d, "CREATE TABLE t(k INTEGER PRIMARY KEY, v BLOB)");
      Exec(d, "CREATE TABLE u(id INTEGER PRIMARY KEY, a NOT NULL UNIQUE, b)");
      return "0";
    }
    if (c == "open") {
      db[n].reset(new sqlite::Database(g_db, a[2] == "r" ? sqlite::Mode::kReadOnly : sqlite::Mode::kReadWrite));
      return "0";
    }
    if (c == "close") {
      db.erase(n);
      return "0";
    }
    if (c == "begin") {
      std::unique_ptr<Tx> t(new Tx(*db[n]));
      if (tx[n]) old[n].push_back(std::move(tx[n]));
      tx[n] = std::move(t);
      return "0";
    }
    if (c == "file") {  // what there is in place of a database, the mode, and what is done
      fs::path p = g_root / "y.db";
      for (const char* x : {"y.db", "y.db-wal", "y.db-shm", "y.db-journal"}) fs::remove_all(g_root / x);
      if (a[1] == "folder") fs::create_directory(p);
      else if (a[1] != "missing") {
        std::ofstream f(p.c_str(), std::ios::binary);
        f << std::string(a[1] == "empty" ? 0 : a[1] == "short" ? 10 : 5000, 'x');
      }
      bool there = fs::exists(p), opened = false;
      std::string r = proto::Try([&]() -> std::string {
        sqlite::Database d(p, a[2] == "r" ? sqlite::Mode::kReadOnly : a[2] == "w" ? sqlite::Mode::kReadWrite : sqlite::Mode::kReadWriteCreate);
        opened = true;
        if (a[3] == "begin") {
          sqlite::Transaction t(d);
          t.Commit();
        } else if (a[3] == "select") {
          sqlite::Statement s(d, "SELECT name FROM sqlite_master");
          if (s.Step() != sqlite::StepResult::kSqliteDone) return "\"row\"";
        }
        return "\"fine\"";
      });
      if (r == "{\"err\":\"db_not_present\"}") r = "\"db_not_present\"";
      return "[" + r + "," + (opened ? "true" : "false") + "," + (!there && fs::exists(p) ? "true" : "false") + "]";
    }
    if (c == "put" || c == "ins" || c == "del") {
      sqlite::Statement s(*db[n], c == "put" ? "INSERT OR REPLACE INTO t VALUES(?,?)" : c == "ins" ? "INSERT INTO t VALUES(?,?)" : "DELETE FROM t WHERE k=?");
      s.BindText(1, a[2]);
      if (c != "del") s.BindBlob(2, As<SerialisedData>(a[3]));
      s.Step();
      return "0";
    }
    if (c == "list") return Rows(*db[n]);
    if (c == "commit") {
      tx[n]->t->Commit();
      return "0";
    }
    if (c == "drop") {
      tx.erase(n);
      return "0";
    }
    if (c == "forget") {
      old.erase(n);
      return "0";
    }
    if (c == "throw") {
      try {
        std::unique_ptr<Tx> mine(std::move(tx[n]));
        tx.erase(n);
        throw 1;
      } catch (int) {
      }
      return "0";
    }
    if (c == "checkpoint") {
      db[n]->CheckPoint();
      return "0";
    }
    if (c == "die" || c == "fail" || c == "once") {
      g_fail = c != "die";
      g_once = c == "once";
      g_until = std::stol(a[3]);
      std::string r = proto::Try([&]() -> std::string {
        if (a[2] == "commit") tx[n]->t->Commit();
        if (a[2] == "checkpoint") db[n]->CheckPoint();
        return "done";
      });
      g_until = -1;
      return r == "done" ? "true" : "false";
    }
    // ---- statements
    if (!own) {
      own.reset(new sqlite::Database(g_db, sqlite::Mode::kReadWrite));
      other.reset(new sqlite::Database(g_db, sqlite::Mode::kReadOnly));
    }
    if (c == "prep") {
      static const std::map<std::string, const char*> q = {
          {"ins", "INSERT INTO u(a,b) VALUES(?,?)"}, {"all", "SELECT a, b FROM u ORDER BY id"}, {"key", "SELECT a, b FROM u WHERE a=?"},
          {"ge", "SELECT a, b FROM u WHERE a>=? ORDER BY id"}, {"del", "DELETE FROM u WHERE a=?"}, {"syntax", "SELECT FROM WHERE"},
          {"notable", "SELECT a FROM nothing"}, {"nocolumn", "SELECT zz FROM u"}};
      more = false;
      st.reset();
      st.reset(new sqlite::Statement(*own, q.at(a[1])));
      failed = false;
      return "0";
    }
    if (c == "bind") {
      if (a[2] == "text") st->BindText(n, As<std::string>(a[3]));
      else st->BindBlob(n, As<SerialisedData>(a[3]));
      return "0";
    }
    auto row = [](sqlite::Statement& s) {
      std::string x = s.ColumnText(0);
      SerialisedData d = s.ColumnBlob(0);
      if (std::string(d.begin(), d.end()) != x) return std::string("\"text and blob differ\"");
      return "[" + Bytes(x) + "," + Bytes(s.ColumnBlob(1)) + "]";
    };
    if (c == "more" && !more) return "0";
    if (c == "step" || c == "more") {
      failed = true;
      more = false;
      bool got = st->Step() == sqlite::StepResult::kSqliteRow;
      failed = false;
      more = got;
      return got ? "{\"row\":" + row(*st) + "}" : "\"done\"";
    }
    if (c == "again") {
      more = false;
      try {
        st->Reset();
      } catch (const maidsafe_error&) {
        if (!failed) throw;  // reset tells about a failed step once more
      }
      failed = false;
      return "0";
    }
    if (c == "dump") {
      sqlite::Statement s(*other, "SELECT a, b FROM u ORDER BY id");
      std::vector<std::string> o;
      while (s.Step() == sqlite::StepResult::kSqliteRow) o.push_back(row(s));
      return proto::Join(o);
    }
    return "\"?\"";
  }
};

static pid_t g_pid = 0;
static FILE *g_to, *g_from;
static void Start() {
  int in[2], out[2];
  if (pipe(in) || pipe(out)) abort();
  std::cout.flush();
  g_pid = fork();
  if (!g_pid) {
    close(in[1]);
    close(out[0]);
    if (g_to) fclose(g_to), fclose(g_from);
    FILE* f = fdopen(in[0], "r");
    char* line = nullptr;
    size_t cap = 0;
    Worker w;
    while (getline(&line, &cap, f) > 0) {
      alarm(60);
      std::string r = proto::Try([&] { return w.Run(proto::Split(line)); }) + "\n";
      if (syscall(SYS_write, out[1], r.data(), r.size()) < 0) break;
    }
    _exit(0);
  }
  close(in[0]);
  close(out[1]);
  g_to = fdopen(in[1], "w");
  g_from = fdopen(out[0], "r");
}
static void End() {
  if (!g_pid) return;
  kill(g_pid, SIGKILL);
  waitpid(g_pid, nullptr, 0);
  fclose(g_to);
  fclose(g_from);
  g_to = g_from = nullptr;
  g_pid = 0;
}
// "" if the worker died
static std::string Ask(const std::string& line) {
  if (!g_pid) Start();
  fputs((line + "\n").c_str(), g_to);
  fflush(g_to);
  std::string r;
  int ch;
  while ((ch = fgetc(g_from)) != EOF && ch != '\n') r += char(ch);
  if (ch == EOF) {
    End();
    return "";
  }
  return r;
}
static int Racer(int times, unsigned seed, int out) {
  g_sleep = true;
  try {
    sqlite::Database d(g_db, sqlite::Mode::kReadWrite);
    long last = -1;
    int commits = 0;
    for (int i = 0; i < times; ++i) {
      std::unique_ptr<Tx> t;
      try {
        t.reset(new Tx(d));
      } catch (const maidsafe_error&) {
        continue;
      }
      sqlite::Statement g(d, "SELECT v FROM t WHERE k=1");
      long v = g.Step() == sqlite::StepResult::kSqliteRow ? std::stol("0" + g.ColumnText(0)) : 0;
      g.Reset();
      if (v < last) return 3;
      {
        sqlite::Statement p(d, "INSERT OR REPLACE INTO t VALUES(1,?)");
        p.BindText(1, std::to_string(v + 1));
        p.Step();
      }
      last = v;
      seed = seed * 1103515245 + 12345;
      if ((seed >> 16) % 3) {
        t->t->Commit();
        last = v + 1;
        ++commits;
      }
    }
    char b = char(commits);
    if (syscall(SYS_write, out, &b, 1) != 1) return 4;
    return 0;
  } catch (const std::exception& e) {
    return 5;
  }
}

int main() {
  signal(SIGPIPE, SIG_IGN);
  char dir[] = "/tmp/verif_sql_XXXXXX";
  if (!mkdtemp(dir)) return 1;
  g_root = dir;
  g_db = g_root / "x.db";
  auto rc = proto::Loop([&](const proto::Args& a) -> std::string {
    alarm(100);
    std::string line;
    for (auto& w : a) line += w + " ";
    if (a[0] == "reset") {
      End();
      for (const char* n : {"x.db", "x.db-wal", "x.db-shm", "x.db-journal"}) fs::remove(g_root / n);
      std::string r = Ask("setup");
      End();
      return r;
    }
    if (a[0] == "kill") {
      if (!g_pid) Start();
      End();
      return "0";
    }
    if (a[0] == "die" || a[0] == "fail" || a[0] == "once") {
      std::string r = Ask(line);
      End();
      Ask("open 9 r");
      std::string rows = Ask("list 9");
      End();
      return "{\"done\":" + (r == "true" ? r : std::string("false")) + ",\"rows\":" + (rows.empty() ? "\"died\"" : rows) + "}";
    }
    if (a[0] == "race") {  // race <processes> <times> <seed>
      End();
      Ask("open 8 r");  // it keeps the log in place
      Ask("list 8");
      int p[2];
      if (pipe(p)) abort();
      std::cout.flush();
      std::vector<pid_t> ps;
      for (int i = 0; i < std::stoi(a[1]); ++i) {
        pid_t q = fork();
        if (!q) _exit(Racer(std::stoi(a[2]), unsigned(std::stoi(a[3]) + i * 77), p[1]));
        ps.push_back(q);
      }
      close(p[1]);
      std::string seen = "increasing";
      for (pid_t q : ps) {
        int st = 0;
        waitpid(q, &st, 0);
        if (st) seen = "process ended with " + std::to_string(st);
      }
      long commits = 0;
      char b;
      while (read(p[0], &b, 1) == 1) commits += (unsigned char)b;
      close(p[0]);
      End();
      sqlite::Database d(g_db, sqlite::Mode::kReadOnly);
      sqlite::Statement g(d, "SELECT v FROM t WHERE k=1");
      long v = g.Step() == sqlite::StepResult::kSqliteRow ? std::stol("0" + g.ColumnText(0)) : 0;
      return "{\"commits\":" + std::to_string(commits) + ",\"final\":" + std::to_string(v) + ",\"seen\":" + proto::Q(seen) + "}";
    }
    std::string r = Ask(line);
    return r.empty() ? "\"died\"" : r;
  });
  End();
  fs::remove_all(g_root);
  return rc;
}

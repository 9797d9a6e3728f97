// Driver for the menu and for reading lines from a terminal.
#include "proto.h"
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <unistd.h>
#include "cryptopp/sha.h"
#include "maidsafe/common/cli.h"
#include "maidsafe/common/log.h"
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"
using namespace maidsafe;

static std::string Text(const std::string& t) {
  std::string s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s += char(std::stoi(w));
  return s;
}
static std::vector<std::string> Texts(const std::string& t) {  
  std::vector<std::string> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ';')) s.push_back(Text(w));
  return s;
}
static std::string List(const std::string& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}

static bool Echoes() {
  termios t;
  return tcgetattr(0, &t) == 0 && (t.c_lflag & ECHO);
}
// Input of lines, noting whether the terminal echoes when each is asked for.
class Lines : public std::streambuf {
 public:
  explicit Lines(const std::vector<std::string>& l) : lines(l) {}
  std::vector<bool> echo;
  size_t n = 0;

 protected:
  int underflow() override {
    echo.push_back(Echoes());
    if (n == lines.size()) return traits_type::eof();
    cur = lines[n++] + "\n";
    setg(&cur[0], &cur[0], &cur[0] + cur.size());
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::vector<std::string> lines;
  std::string cur;
};
struct Terminal {  // what is printed is kept; input comes from the lines
  Lines buf;
  std::streambuf* old_in;
  int old_out;
  FILE* tmp;
  explicit Terminal(const std::vector<std::string>& l) : buf(l), old_in(std::cin.rdbuf(&buf)), tmp(tmpfile()) {
    std::cin.clear();
    std::cout.flush();
    fflush(stdout);
    old_out = dup(1);
    dup2(fileno(tmp), 1);
  }
  std::string End() {
    log::Logging::Instance().Flush();
    std::cout.flush();
    fflush(stdout);
    dup2(old_out, 1);
    close(old_out);
    std::cin.rdbuf(old_in);
    std::cin.clear();
    std::string s;
    char b[4096];
    rewind(tmp);
    for (size_t n; (n = fread(b, 1, sizeof b, tmp)) > 0;) s.append(b, n);
    fclose(tmp);
    return s;
  }
};

static std::string Plain(const std::string& s) {
  std::string out;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
      for (i += 2; i < s.size() && !isalpha((unsigned char)s[i]); ++i) {}
    } else {
      out += s[i];
    }
  return out;
}
// The menus shown: title, numbered items, way back.
static std::string Shown(const std::string& out) {
  std::vector<std::string> all;
  size_t at = out.find("\x1b[2J");
  while (at != std::string::npos) {
    size_t next = out.find("\x1b[2J", at + 1);
    std::istringstream is(Plain(out.substr(at, next == std::string::npos ? next : next - at)));
    at = next;
    std::string line, title, back("[]");
    std::vector<std::string> items;
    bool ok = true;
    int rules = 0;
    while (std::getline(is, line)) {
      if (line.empty()) continue;
      if (line.find_first_not_of('~') == std::string::npos) {
        ++rules;
      } else if (rules == 0) {
        ok = ok && title.empty();
        title = line;
      } else if (rules == 1) {
        size_t d = line.find_first_not_of("0123456789"), n = d ? line.find_first_not_of(' ', d) : d;
        if (!d || d == std::string::npos || n == std::string::npos) { ok = false; continue; }
        int k = std::stoi(line.substr(0, d));
        std::string name = line.substr(n);
        if (k == 99 && name.compare(0, 9, "Back to: ") == 0) back = List(name.substr(9));
        else if (k == int(items.size()) + 1) items.push_back(List(name));
        else ok = false;
      }
    }
    all.push_back(ok ? "{\"title\":" + List(title) + ",\"items\":" + proto::Join(items) + ",\"back\":" + back + "}" : "\"unreadable\"");
  }
  return proto::Join(all);
}
static std::string Sha(const std::string& s) {
  std::string d(64, 0);
  CryptoPP::SHA512().CalculateDigest((unsigned char*)&d[0], (const unsigned char*)s.data(), s.size());
  return d;
}

int main() {
  std::ios::sync_with_stdio(false);
  // the terminal is a pseudo terminal; commands come from what was standard input
  int cmds = dup(0), master, slave;
  if (openpty(&master, &slave, nullptr, nullptr, nullptr)) return 2;
  dup2(slave, 0);
  struct Fd : std::streambuf {
    int fd;
    char c;
    int underflow() override {
      if (read(fd, &c, 1) != 1) return traits_type::eof();
      setg(&c, &c, &c + 1);
      return traits_type::to_int_type(c);
    }
  } in;
  in.fd = cmds;
  std::cin.rdbuf(&in);
  std::unique_ptr<Menu> menu;
  std::vector<MenuItem*> items;
  std::vector<std::string> ran;
  CLI cli;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      items.clear();
      menu.reset(new Menu("T"));
      items = {nullptr, nullptr};
      return "0";
    }
    if (c == "add") {
      size_t p = std::stoul(a[1]), id = items.size();
      MenuItem::Functor f;
      if (a[3] == "ok") f = [&ran, id] { ran.push_back(std::to_string(id)); };
      if (a[3] == "error") f = [&ran, id] { ran.push_back(std::to_string(id)); BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element)); };
      if (a[3] == "std") f = [&ran, id] { ran.push_back(std::to_string(id)); throw std::runtime_error("operation"); };
      try {
        MenuItem* m = p == 1 ? menu->AddItem(Text(a[2]), f) : items.at(p)->AddChildItem(Text(a[2]), f);
        items.push_back(m);
        return "{\"err\":\"none\"}";
      } catch (const maidsafe_error& e) {
        return "{\"err\":" + proto::Q(proto::ErrCode(e.code())) + "}";
      }
    }
    if (c == "run") {
      Terminal t(Texts(a[1]));
      ran.clear();
      int r = menu->Run();
      std::string out = t.End();
      return "{\"ret\":" + proto::Q(r ? proto::ErrCode(IntToError(r).code()) : "success") + ",\"ran\":" + proto::Join(ran) + ",\"shown\":" + Shown(out) + "}";
    }
    if (c == "tok") {
      std::vector<std::string> v;
      for (const auto& s : cli.TokeniseLine(Text(a[1]))) v.push_back(List(s));
      return proto::Join(v);
    }
    if (c == "get" || c == "eof") {
      std::vector<std::string> l;
      if (c == "get") l.push_back(Text(a[3]));
      Terminal t(l);
      std::string got;
      try {
        if (a[1] == "int") got = "{\"value\":" + List(std::to_string(cli.Get<int>("A number?", a[2] == "echo"))) + "}";
        else got = "{\"value\":" + List(cli.Get<std::string>("A word?", a[2] == "echo")) + "}";
      } catch (const maidsafe_error& e) {
        got = "{\"err\":" + proto::Q(proto::ErrCode(e.code())) + "}";
      }
      bool during = t.buf.echo.empty() ? false : t.buf.echo[0], after = Echoes();
      std::string out = Plain(t.End());
      bool asked = out.find(a[1] == "int" ? "A number?" : "A word?") != std::string::npos;
      return "{\"got\":" + (asked ? got : "\"not asked\"") + ",\"during\":" + (during ? "true" : "false") + ",\"after\":" + (after ? "true" : "false") + "}";
    }
    if (c == "pass") {
      std::vector<std::string> l = Texts(a[2]);
      Terminal t(l);
      std::string got;
      try {
        std::string h = cli.GetPassword(a[1] == "repeat");
        std::string which = "\"another\"";
        for (const auto& s : l) {
          std::istringstream is(s);
          std::string w;
          if (is >> w && Sha(w) == h) which = List(w);
        }
        got = "{\"value\":" + which;
      } catch (const maidsafe_error& e) {
        got = "{\"err\":" + proto::Q(proto::ErrCode(e.code()));
      }
      bool shown = false;
      for (bool b : t.buf.echo) shown = shown || b;
      bool after = Echoes();
      got += ",\"n\":" + std::to_string(t.buf.n) + "}";
      t.End();
      return "{\"got\":" + got + ",\"shown\":" + (shown ? "true" : "false") + ",\"after\":" + (after ? "true" : "false") + "}";
    }
    return "\"?\"";
  });
}

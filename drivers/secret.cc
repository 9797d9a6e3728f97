// Driver for secret input.
#include "proto.h"
#include "maidsafe/common/authentication/user_credentials.h"
using namespace maidsafe;
namespace ad = maidsafe::authentication::detail;
using Bytes_t = std::string;

static Bytes_t Raw(const std::string& t) {
  Bytes_t s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(char(std::stoi(w)));
  return s;
}
template <typename C>
static std::string Show(const C& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::string Flag(bool b) { return b ? "true" : "false"; }

struct Input {
  virtual ~Input() {}
  virtual void insert(size_t, const Bytes_t&) = 0;
  virtual void remove(size_t, size_t) = 0;
  virtual void clear() = 0;
  virtual void finalise() = 0;
  virtual std::string finalised() = 0;
  virtual bool valid(const boost::regex&) = 0;
  virtual std::string read() = 0;
  virtual std::string hash() = 0;
  virtual std::string value() = 0;
};
template <typename S>
struct Of : Input {
  S s;
  Of() : s() {}
  explicit Of(const Bytes_t& t) : s(t) {}
  void insert(size_t p, const Bytes_t& t) override {
    if (t.size() % 2) s.Insert(p, t);
    else s.Insert(p, ad::SafeString(t.begin(), t.end()));
  }
  void remove(size_t p, size_t n) override { n == 1 ? s.Remove(p) : s.Remove(p, n); }
  void clear() override { s.Clear(); }
  void finalise() override { s.Finalise(); }
  std::string finalised() override {
    if (s.IsFinalised() != s.IsInitialised()) return "\"differ\"";
    return Flag(s.IsFinalised());
  }
  bool valid(const boost::regex& r) override { return s.IsValid(r); }
  std::string read() override { return Show(s.string()); }
  std::string hash() override {
    auto h = s.template Hash<crypto::SHA512>();
    auto t = s.string();
    auto w = crypto::Hash<crypto::SHA512>(std::string(t.begin(), t.end()));
    bool same = h.string().size() == w.string().size() && std::equal(h.string().begin(), h.string().end(), w.string().begin(), [](char a, byte b) { return byte(a) == b; });
    return same ? "\"hash of the text\"" : "\"another hash\"";
  }
  std::string value() override {
    try {
      std::string d = std::to_string(s.Value());
      for (char& c : d) c = char(c - '0');
      return Show(d);
    } catch (const std::invalid_argument&) {
      return "{\"err\":\"invalid\"}";
    } catch (const std::out_of_range&) {
      return "{\"err\":\"range\"}";
    }
  }
};
typedef ad::SecureString::size_type N;
struct TestTag {};
template <typename P, N n>
static Input* Make(const Bytes_t* t) {
  typedef ad::SecureInputString<P, n, TestTag> S;
  return t ? new Of<S>(*t) : new Of<S>();
}
static Input* Make(const std::string& k, const std::string& n, const Bytes_t* t) {
  if (k == "ge") {
    if (n == "1") return t ? static_cast<Input*>(new Of<authentication::UserCredentials::Pin>(*t)) : new Of<authentication::UserCredentials::Pin>();
    return n == "0" ? Make<std::greater_equal<N>, 0>(t) : Make<std::greater_equal<N>, 3>(t);
  }
  if (k == "eq") return n == "2" ? Make<std::equal_to<N>, 2>(t) : Make<std::equal_to<N>, 4>(t);
  return n == "2" ? Make<std::less_equal<N>, 2>(t) : Make<std::less_equal<N>, 5>(t);
}

typedef ad::SafeString auth_t;
typedef ad::SecureString::Hash hash_t;

int main() {
  std::unique_ptr<Input> in;
  std::unique_ptr<ad::SecureString> str;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") in.reset(), str.reset();
    else if (c == "new") in.reset(Make(a[1], a[2], nullptr));
    else if (c == "from") {
      Bytes_t t = Raw(a[3]);
      in.reset(Make(a[1], a[2], &t));
    } else if (c == "insert") in->insert(size_t(std::stoul(a[1])), Raw(a[2]));
    else if (c == "remove") in->remove(size_t(std::stoul(a[1])), size_t(std::stoul(a[2])));
    else if (c == "clear") in->clear();
    else if (c == "finalise") in->finalise();
    else if (c == "finalised") return in->finalised();
    else if (c == "valid") {
      static const std::map<std::string, boost::regex> r = {{"digit", boost::regex("[0-9]")}, {"lower", boost::regex("[a-z]")}, {"nonblank", boost::regex("[^ ]")}, {"any", boost::regex(".*")}};
      return Flag(in->valid(r.at(a[1])));
    } else if (c == "read") return in->read();
    else if (c == "hash") return in->hash();
    else if (c == "value") return in->value();
    else if (c == "string") {
      Bytes_t t = Raw(a[1]);
      str.reset(t.empty() ? new ad::SecureString() : new ad::SecureString(t));
    } else if (c == "append") {
      Bytes_t t = Raw(a[1]);
      if (t.size() == 1) str->Append(t[0]);
      else str->Append(t);
    } else if (c == "end") str->Finalise();
    else if (c == "empty") str->Clear();
    else if (c == "get") return Show(str->string());
    else if (c == "move") {
      typedef authentication::UserCredentials UC;
      UC from;
      auto text = [&](const std::string& w) { return Raw(w); };
      if (a[2] != "-") from.keyword.reset(new UC::Keyword(text(a[2])));
      if (a[3] != "-") from.pin.reset(new UC::Pin(text(a[3])));
      if (a[4] != "-") from.password.reset(new UC::Password(text(a[4])));
      UC to(a[1] == "construct" ? std::move(from) : UC());
      if (a[1] != "construct") {
        if (a[1] == "replace") to.keyword.reset(new UC::Keyword(Bytes_t("old"))), to.pin.reset(new UC::Pin(Bytes_t("1"))), to.password.reset(new UC::Password(Bytes_t("old")));
        to = std::move(from);
      }
      int left = (from.keyword != nullptr) + (from.pin != nullptr) + (from.password != nullptr);
      std::string out = "{\"now\":[" + (to.keyword ? Show(to.keyword->string()) : "[]") + "," + (to.pin ? Show(to.pin->string()) : "[]") + "," + (to.password ? Show(to.password->string()) : "[]");
      return out + "],\"left\":" + std::to_string(left) + "}";
    }
    else if (c == "join") {
      Bytes_t x = Raw(a[2]), y = Raw(a[3]);
      const auth_t f(x.begin(), x.end()), l(y.begin(), y.end());
      using ad::operator+;
      if (a[1] == "first") return Show(hash_t(f) + l);
      if (a[1] == "second") return Show(f + hash_t(l));
      return Show(ad::operator+(f, l));
    }
    else return "\"?\"";
    return "0";
  });
}

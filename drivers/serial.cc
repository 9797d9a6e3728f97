// Driver for serialisation and for conversions of addresses.
#include "proto.h"
#include <cstring>
#include "boost/flyweight.hpp"
#include "boost/optional.hpp"
#include "cereal/types/vector.hpp"
#include "maidsafe/common/convert.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
using namespace maidsafe;

using L = std::vector<int>;
using LL = std::vector<L>;
using Strings = std::vector<std::string>;
using Fly = boost::flyweight<std::string>;
static L Nums(const std::string& t) {
  L s;
  if (t == "-" || t.empty()) return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static LL Lists(const std::string& t) {
  LL s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ';')) s.push_back(Nums(w));
  return s;
}
static std::string S(const L& v) {
  std::string s;
  for (int x : v) s += char(x);
  return s;
}
template <typename T>
static T Raw(const L& v) {
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)v[i];
  T t;
  std::memcpy(&t, b, sizeof t);
  return t;
}
struct Two {
  int n;
  std::string s;
  template <typename A>
  void serialize(A& ar) { ar(n, s); }
};
struct Split {
  int n;
  std::string s;
  template <typename A>
  A& save(A& ar) const { return ar(n, s); }
  template <typename A>
  A& load(A& ar) { return ar(n, s); }
};
// The installed cereal takes shared pointers where the flyweight functions give plain ones: archives which
// number plain pointers as those functions expect.
template <typename A>
struct FlyOut {
  A& ar;
  std::map<const void*, uint32_t> ids;
  explicit FlyOut(A& a) : ar(a) {}
  uint32_t registerSharedPointer(const void* p) {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    uint32_t id = uint32_t(ids.size() + 1);
    ids[p] = id;
    return id | cereal::detail::msb_32bit;
  }
  template <typename T>
  void operator()(T&& t) { ar(std::forward<T>(t)); }
};
template <typename A>
struct FlyIn {
  A& ar;
  std::map<uint32_t, std::shared_ptr<void>> ptrs;
  explicit FlyIn(A& a) : ar(a) {}
  void registerSharedPointer(uint32_t id, std::shared_ptr<void> p) { ptrs[id & ~cereal::detail::msb_32bit] = p; }
  std::shared_ptr<void> getSharedPointer(uint32_t id) {
    if (!ptrs.count(id)) throw cereal::Exception("no pointer");
    return ptrs[id];
  }
  template <typename T>
  void operator()(T&& t) { ar(std::forward<T>(t)); }
};
struct Flies {
  std::vector<Fly> v;
  template <typename A>
  void save(A& ar) const {
    ar(cereal::make_size_tag(static_cast<cereal::size_type>(v.size())));
    FlyOut<A> out(ar);
    for (auto& x : v) cereal::CEREAL_SAVE_FUNCTION_NAME(out, x);
  }
  template <typename A>
  void load(A& ar) {
    cereal::size_type n;
    ar(cereal::make_size_tag(n));
    if (n > 1000) throw cereal::Exception("size");
    v.assign(n, Fly());
    FlyIn<A> in(ar);
    for (auto& x : v) cereal::CEREAL_LOAD_FUNCTION_NAME(in, x);
  }
};

// How values are shown.
template <typename C>
static std::string Bytes(const C& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
template <typename T>
static typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type Show(T v) {
  if (sizeof(T) == 8 || std::is_floating_point<T>::value) {
    std::string b(sizeof v, 0);
    std::memcpy(&b[0], &v, sizeof v);
    return Bytes(b);
  }
  return "[" + std::to_string((long long)v) + "]";
}
static std::string Show(const std::string& s) { return Bytes(s); }
static std::string Show(const std::vector<maidsafe::byte>& s) { return Bytes(s); }
static std::string Show(const boost::filesystem::path& p) { return Bytes(p.native()); }
static std::string Show(const L& v) {
  std::string out("[");
  for (size_t i = 0; i < v.size(); ++i) out += (i ? "," : "") + std::to_string(v[i]);
  return out + "]";
}
static std::string Show(const Strings& v) { std::vector<std::string> o; for (auto& x : v) o.push_back(Show(x)); return proto::Join(o); }
static std::string Show(const LL& v) { std::vector<std::string> o; for (auto& x : v) o.push_back(Show(x)); return proto::Join(o); }
static std::string Show(const Flies& f) { std::vector<std::string> o; for (auto& x : f.v) o.push_back(Show(x.get())); return proto::Join(o); }
static std::string Show(const std::map<int, std::string>& m) {
  std::vector<std::string> o;
  int i = 0;
  for (auto& x : m) { if (x.first != ++i) return "\"keys\""; o.push_back(Show(x.second)); }
  return proto::Join(o);
}
static std::string Show(const std::map<std::string, L>& m) {
  std::vector<std::string> o;
  int i = 0;
  for (auto& x : m) { if (x.first != std::string(1, char(++i))) return "\"keys\""; o.push_back(Show(x.second)); }
  return proto::Join(o);
}
static std::string Show(const boost::optional<int>& v) { return v ? "[" + std::to_string(*v) + "]" : "[]"; }
template <typename T>
static std::string Show(const boost::optional<T>& v) { return v ? "[" + Show(*v) + "]" : "[]"; }
template <typename A>
static std::string ShowIp(const A& a) { return a.is_v4() ? Bytes(a.to_v4().to_bytes()) : Bytes(a.to_v6().to_bytes()); }
static std::string Show(const asio::ip::address& a) { return ShowIp(a); }
static std::string Show(const boost::asio::ip::address& a) { return ShowIp(a); }
static std::string Show(const Two& t) { return "[[" + std::to_string(t.n) + "]," + Show(t.s) + "]"; }
static std::string Show(const Split& t) { return "[[" + std::to_string(t.n) + "]," + Show(t.s) + "]"; }

template <typename A>
static A Ip4(const L& v) {
  typename A::bytes_type b;
  std::copy(v.begin(), v.end(), b.begin());
  return A(b);
}
template <typename A>
static A Ip6(const L& v, unsigned long scope = 0) {
  typename A::bytes_type b;
  std::copy(v.begin(), v.end(), b.begin());
  return A(b, scope);
}

// Calls f with the value of that type.
template <typename F>
static std::string With(const std::string& t, const std::string& arg, F f) {
  const L v = arg.find(';') == std::string::npos ? Nums(arg) : L();
  const LL vv = Lists(arg);
  auto at = [&](size_t i) { return v.size() > i ? v[i] : 0; };
  if (t == "i8") return f(int8_t(at(0)));
  if (t == "u8") return f(uint8_t(at(0)));
  if (t == "bool") return f(at(0) != 0);
  if (t == "char") return f(char(at(0)));
  if (t == "i16") return f(int16_t(at(0)));
  if (t == "u16") return f(uint16_t(at(0)));
  if (t == "i32") return f(int32_t(at(0)));
  if (t == "u32") return f(uint32_t(at(0)));
  L w(v);
  w.resize(16);
  if (t == "i64") return f(Raw<int64_t>(w));
  if (t == "u64") return f(Raw<uint64_t>(w));
  if (t == "f32") return f(Raw<float>(w));
  if (t == "f64") return f(Raw<double>(w));
  if (t == "str") return f(S(v));
  if (t == "bytes") return f(std::vector<maidsafe::byte>(v.begin(), v.end()));
  if (t == "path") return f(boost::filesystem::path(S(v)));
  if (t == "vi") return f(L(v));
  Strings ss;
  for (auto& x : vv) ss.push_back(S(x));
  if (t == "vstr") return f(ss);
  if (t == "vvi") return f(LL(vv));
  if (t == "mis") { std::map<int, std::string> m; int i = 0; for (auto& x : ss) m[++i] = x; return f(m); }
  if (t == "msvi") { std::map<std::string, L> m; char i = 0; for (auto& x : vv) m[std::string(1, ++i)] = x; return f(m); }
  if (t == "oi") return f(v.empty() ? boost::optional<int>() : boost::optional<int>(v[0]));
  if (t == "ostr") return f(arg == "-" ? boost::optional<std::string>() : boost::optional<std::string>(S(v)));
  if (t == "ovi") return f(arg == "-" ? boost::optional<L>() : boost::optional<L>(v));
  if (t == "ip4") return f(asio::ip::address(Ip4<asio::ip::address_v4>(w = L(w.begin(), w.begin() + 4))));
  if (t == "bip4") return f(boost::asio::ip::address(Ip4<boost::asio::ip::address_v4>(w = L(w.begin(), w.begin() + 4))));
  if (t == "ip6") return f(asio::ip::address(Ip6<asio::ip::address_v6>(w)));
  if (t == "bip6") return f(boost::asio::ip::address(Ip6<boost::asio::ip::address_v6>(w)));
  if (t == "fly") { Flies x; for (auto& s : ss) x.v.push_back(Fly(s)); return f(x); }
  L n = vv.empty() ? L{0} : vv[0];
  if (n.empty()) n.push_back(0);
  std::string s = ss.size() > 1 ? ss[1] : "";
  if (t == "two") { Two x; x.n = n[0]; x.s = s; return f(x); }
  if (t == "split") { Split x; x.n = n[0]; x.s = s; return f(x); }
  throw std::runtime_error("type " + t);
}
template <typename T>
static std::string Verdict(const T& v, std::function<T()> f) {
  try {
    return Show(f()) == Show(v) ? "equal" : "different";
  } catch (const std::exception&) {
    return "thrown";
  }
}
struct Trip {
  template <typename T>
  std::string operator()(const T& v) const {
    SerialisedData d = Serialise(v);
    std::string text = ConvertToString(v);
    std::string back = Verdict<T>(v, [&] { return Parse<T>(d); });
    if (back == "equal") back = Verdict<T>(v, [&] { T t{}; Parse(d, t); return t; });
    std::string tb = std::string(text.begin(), text.end()) != std::string(d.begin(), d.end()) ? "bytes differ" : Verdict<T>(v, [&] { return ConvertFromString<T>(text); });
    if (tb == "equal") tb = Verdict<T>(v, [&] { T t{}; ConvertFromString(text, t); return t; });
    std::string cut("rejected");
    for (size_t n = 0; n < d.size(); ++n) {
      if (Verdict<T>(v, [&] { return Parse<T>(SerialisedData(d.begin(), d.begin() + n)); }) != "thrown" ||
          Verdict<T>(v, [&] { return ConvertFromString<T>(text.substr(0, n)); }) != "thrown")
        cut = "accepted";
    }
    return "{\"bytes\":" + Bytes(d) + ",\"back\":" + proto::Q(back) + ",\"text\":" + proto::Q(tb) + ",\"cut\":" + proto::Q(cut) + "}";
  }
};
struct Put {
  OutputVectorStream& s;
  template <typename T>
  std::string operator()(const T& v) const { return Bytes(Serialise(s, v)); }
};
struct Get {
  InputVectorStream& s;
  template <typename T>
  std::string operator()(const T&) const {
    try {
      return "{\"value\":" + Show(Parse<T>(s)) + "}";
    } catch (const std::exception&) {
      return "{\"err\":\"rejected\"}";
    }
  }
};

template <typename A>
static std::string Endpoint(const A& e) {
  std::string ip = e.address().is_v4() ? Bytes(e.address().to_v4().to_bytes()) : Bytes(e.address().to_v6().to_bytes());
  unsigned long scope = e.address().is_v6() ? e.address().to_v6().scope_id() : 0;
  return "{\"ip\":" + ip + ",\"scope\":" + std::to_string(scope) + ",\"port\":" + std::to_string(e.port()) + "}";
}

int main() {
  std::unique_ptr<OutputVectorStream> out;
  std::unique_ptr<InputVectorStream> in;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      out.reset(new OutputVectorStream);
      in.reset();
      return "0";
    }
    if (c == "trip") return With(a[1], a[2], Trip());
    if (c == "put") return With(a[1], a[2], Put{*out});
    if (c == "many") {  // many <number> <text> <numbers> <flag>
      int n = std::stoi(a[1]);
      std::string t = S(Nums(a[2]));
      L v = Nums(a[3]);
      bool b = a[4] == "1";
      SerialisedData d = Serialise(n, t, v, b);
      std::string text = ConvertToString(n, t, v, b), back = "equal";
      if (text != std::string(d.begin(), d.end())) back = "bytes differ";
      for (int way = 0; way < 3; ++way) {
        int n1 = -1;
        std::string t1 = "old";
        L v1{9, 9};
        bool b1 = !b;
        std::stringstream ss(text);
        if (way == 0) Parse(d, n1, t1, v1, b1);
        if (way == 1) ConvertFromString(text, n1, t1, v1, b1);
        if (way == 2) ConvertFromStream(ss, n1, t1, v1, b1);
        if (n1 != n || t1 != t || v1 != v || b1 != b) back = "different " + std::to_string(way);
      }
      return "{\"bytes\":" + Bytes(d) + ",\"back\":" + proto::Q(back) + "}";
    }
    if (c == "open") {
      in.reset(new InputVectorStream(out->vector()));
      return "0";
    }
    if (c == "get") return With(a[1], "-", Get{*in});
    if (c == "ends") {  // ends <address> <scope> <port>
      L v = Nums(a[1]);
      std::vector<std::string> r;
      unsigned long scope = std::stoul(a[2]);
      unsigned short port = (unsigned short)std::stoul(a[3]);
      auto one = [&](asio::ip::address x, boost::asio::ip::address y) {
        asio::ip::udp::endpoint e(x, port);
        boost::asio::ip::udp::endpoint f(y, port);
        r = {Endpoint(e), Endpoint(f), Endpoint(convert::ToBoost(e)), Endpoint(convert::ToAsio(f)),
             Endpoint(convert::ToAsio(convert::ToBoost(e))), Endpoint(convert::ToBoost(convert::ToAsio(f)))};
        r.push_back(Endpoint(asio::ip::udp::endpoint(convert::ToAsio(y), port)));
        r.push_back(Endpoint(boost::asio::ip::udp::endpoint(convert::ToBoost(x), port)));
      };
      if (v.size() == 4) {
        auto x = Ip4<asio::ip::address_v4>(v);
        auto y = Ip4<boost::asio::ip::address_v4>(v);
        one(asio::ip::address(x), boost::asio::ip::address(y));
        r.push_back(Endpoint(asio::ip::udp::endpoint(convert::ToAsio(y), port)));
        r.push_back(Endpoint(boost::asio::ip::udp::endpoint(convert::ToBoost(x), port)));
      } else {
        auto x = Ip6<asio::ip::address_v6>(v, scope);
        auto y = Ip6<boost::asio::ip::address_v6>(v, scope);
        one(asio::ip::address(x), boost::asio::ip::address(y));
        r.push_back(Endpoint(asio::ip::udp::endpoint(convert::ToAsio(y), port)));
        r.push_back(Endpoint(boost::asio::ip::udp::endpoint(convert::ToBoost(x), port)));
      }
      for (auto& x : r)
        if (x != r[0]) return "\"differs: " + std::to_string(&x - &r[0]) + "\"";
      return r[0];
    }
    if (c == "code") {
      boost::system::error_code e(std::stoi(a[1]), boost::system::system_category());
      std::error_code s = convert::ToStd(e);
      if (s.category() != std::generic_category()) return "\"category\"";
      return std::to_string(s.value());
    }
    if (c == "text") {
      std::string s = S(Nums(a[1]));
      std::vector<unsigned char> v = convert::ToByteVector(s);
      if (convert::ToString(v) != s) return "\"not undone\"";
      return Bytes(v);
    }
    return "\"?\"";
  });
}

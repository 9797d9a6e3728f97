// Driver for hashing: SipHash and a hash algorithm which records the bytes it is given.
#include "proto.h"
#include <cstring>
#include <forward_list>
#include <list>
#include <set>
#include "boost/range/iterator_range.hpp"
#include "boost/utility/string_ref.hpp"
#include "maidsafe/common/hash.h"
#include "maidsafe/common/hash/algorithms/siphash.h"
using namespace maidsafe;

namespace maidsafe {
class Recorder : public maidsafe::detail::HashAlgorithmBase<Recorder> {
 public:
  void Update(const maidsafe::byte* in, std::uint64_t n) MAIDSAFE_NOEXCEPT { bytes.insert(bytes.end(), in, in + n); }
  std::uint64_t Finalize() const MAIDSAFE_NOEXCEPT { return bytes.size(); }
  std::vector<unsigned char> bytes;
};
}

using L = std::vector<int>;
using LL = std::vector<L>;
static L Nums(const std::string& t) {
  L s;
  if (t == "-" || t.empty()) return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static LL Lists(const std::string& t) {
  LL s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ';')) s.push_back(Nums(w));
  return s;
}
static std::string S(const L& v) {
  std::string s;
  for (int x : v) s += char(x);
  return s;
}
template <typename F>
static F Flt(const L& v) {
  unsigned char b[sizeof(F)];
  for (size_t i = 0; i < sizeof(F); ++i) b[i] = (unsigned char)v[i];
  F f;
  std::memcpy(&f, b, sizeof f);
  return f;
}
template <typename P>
static P Padded(int a, int b) {  // different padding each time
  static unsigned char fill = 1;
  alignas(P) unsigned char mem[sizeof(P)];
  std::memset(mem, fill++, sizeof mem);
  P* p = new (mem) P;
  p->first = (typename P::first_type)a;
  p->second = (typename P::second_type)b;
  return *p;
}

namespace custom {
struct Member {
  int n;
  std::string s;
  template <typename H>
  void HashAppend(H& hash) const { hash(n, s); }
};
struct Free {
  int n;
  std::string s;
};
template <typename H>
void HashAppend(H& hash, const Free& f) { hash(f.n, f.s); }
struct Serialize {
  const static bool use_serialize_for_hashing = true;
  int n;
  std::string s;
  template <typename A>
  void serialize(A& archive) { archive(n, s); }
};
struct Save {
  const static bool use_serialize_for_hashing = true;
  int n;
  std::string s;
  template <typename A>
  void save(A& archive) const { archive& n& s; }
};
struct Versioned {
  const static bool use_serialize_for_hashing = true;
  int n;
  std::string s;
  template <typename A>
  void serialize(A& archive, std::uint32_t version) { archive(n + int(version), s); }
};
}  // namespace custom

template <typename H>
void Feed(H& h, const std::string& t, const std::string& arg) {
  const L v = arg.find(';') == std::string::npos ? Nums(arg) : L();
  const LL vv = Lists(arg);
  if (t == "i8") h(int8_t(v[0]));
  else if (t == "u8") h(uint8_t(v[0]));
  else if (t == "bool") h(v[0] != 0);
  else if (t == "char") h(char(v[0]));
  else if (t == "i16") h(int16_t(v[0]));
  else if (t == "u16") h(uint16_t(v[0]));
  else if (t == "c16") h(char16_t(v[0]));
  else if (t == "i32") h(int32_t(v[0]));
  else if (t == "u32") h(uint32_t(v[0]));
  else if (t == "i64") h(int64_t(v[0]));
  else if (t == "size") h(size_t(v[0]));
  else if (t == "f32") h(Flt<float>(v));
  else if (t == "ref32") { float f = Flt<float>(v); const float& r = f; h(r); }
  else if (t == "f64") h(Flt<double>(v));
  else if (t == "str") h(S(v));
  else if (t == "strref") { std::string s(S(v)); h(boost::string_ref(s)); }
  else if (t == "vu8") h(std::vector<unsigned char>(v.begin(), v.end()));
  else if (t == "u16s") h(std::u16string(v.begin(), v.end()));
  else if (t == "vi") h(v);
  else if (t == "ari") { std::array<int, 3> a; std::copy(v.begin(), v.end(), a.begin()); h(a); }
  else if (t == "carr") { int a[3]; std::copy(v.begin(), v.end(), a); h(a); }
  else if (t == "li") h(std::list<int>(v.begin(), v.end()));
  else if (t == "fi") { const std::forward_list<int> f(v.begin(), v.end()); h(f); }
  else if (t == "si") h(std::set<int>(v.begin(), v.end()));
  else if (t == "ili") {
    if (v.empty()) h(std::initializer_list<int>());
    else if (v.size() == 1) h(std::initializer_list<int>({v[0]}));
    else h(std::initializer_list<int>({v[0], v[1]}));
  } else if (t == "irange") { std::list<int> l(v.begin(), v.end()); h(boost::iterator_range<std::list<int>::iterator>(l.begin(), l.end())); }
  else if (t == "vstr") { std::vector<std::string> s; for (auto& x : vv) s.push_back(S(x)); h(s); }
  else if (t == "lstr") { std::list<std::string> s; for (auto& x : vv) s.push_back(S(x)); h(s); }
  else if (t == "sstr") { std::set<std::string> s; for (auto& x : vv) s.insert(S(x)); h(s); }
  else if (t == "mis") { std::map<int, std::string> m; int i = 0; for (auto& x : vv) m[++i] = S(x); h(m); }
  else if (t == "mii") { std::map<int, int> m; for (auto& x : vv) m[x[0]] = x[1]; h(m); }
  else if (t == "vpp") { std::vector<std::pair<int, int>> p; for (auto& x : vv) p.emplace_back(x[0], x[1]); h(p); }
  else if (t == "vp8") {
    std::vector<std::pair<int8_t, int>> p;
    for (auto& x : vv) p.push_back(Padded<std::pair<int8_t, int>>(x[0], x[1]));
    h(p);
  } else if (t == "vvi") h(vv);
  else if (t == "vf64") { std::vector<double> d; for (auto& x : vv) d.push_back(Flt<double>(x)); h(d); }
  else if (t == "p8") h(Padded<std::pair<int8_t, int>>(v[0], v[1]));
  else if (t == "pp") h(std::make_pair(v[0], v[1]));
  else if (t == "args") h(v[0], v[1], v[2]);
  else if (t == "amp") h & v[0] & v[1] & v[2];
  else if (t == "args2") { const std::string s(S(vv[1])); h(vv[0][0], s); }
  else if (t == "ps") h(std::make_pair(vv[0][0], S(vv[1])));
  else if (t == "custm") h(custom::Member{vv[0][0], S(vv[1])});
  else if (t == "custn") h(custom::Free{vv[0][0], S(vv[1])});
  else if (t == "ser") { custom::Serialize s{}; s.n = vv[0][0]; s.s = S(vv[1]); h(s); }
  else if (t == "sav") { custom::Save s{}; s.n = vv[0][0]; s.s = S(vv[1]); h(s); }
  else if (t == "ver") { custom::Versioned s{}; s.n = vv[0][0]; s.s = S(vv[1]); h(s); }
  else if (t == "tup") h(std::make_tuple(vv[0][0], S(vv[1]), int8_t(vv[2][0])));
  else throw std::runtime_error("type " + t);
}
struct Typed {
  std::string t, arg;
  template <typename H>
  void HashAppend(H& hash) const { Feed(hash, t, arg); }
};

template <typename S>
static std::string List(const S& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
struct Hasher {
  SipHash sip;
  size_t len;
};

int main() {
  std::map<std::string, Hasher> hs;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      hs.clear();
      return "0";
    }
    if (c == "key") {
      std::array<maidsafe::byte, 16> k;
      auto v = Nums(a[2]);
      std::copy(v.begin(), v.end(), k.begin());
      hs.erase(a[1]);
      hs.insert({a[1], Hasher{SipHash(k), 0}});
      return "0";
    }
    if (c == "seeded") {
      SeededHash<SipHash> h;
      auto x = h(Typed{a[1], a[2]}), y = h(Typed{a[3], a[4]});
      if (h(Typed{a[1], a[2]}) != x) return "\"not deterministic\"";
      return x == y ? "true" : "false";
    }
    Hasher& h = hs.at(a[1]);
    if (c == "up" || c == "gen") {
      std::vector<unsigned char> b;
      if (c == "up") for (int x : Nums(a[2])) b.push_back((unsigned char)x);
      else for (int i = 1; i <= std::stoi(a[2]); ++i) b.push_back((unsigned char)((h.len + i) * 37 + 11));
      h.sip.Update(b.data(), b.size());
      h.len += b.size();
      return "0";
    }
    if (c == "add") {
      Recorder r;
      Feed(r, a[2], a[3]);
      Feed(h.sip, a[2], a[3]);
      h.len += r.bytes.size();
      return List(r.bytes);
    }
    if (c == "fin") {
      std::uint64_t v = h.sip.Finalize();
      std::vector<unsigned char> b;
      for (int i = 0; i < 8; ++i) b.push_back((unsigned char)(v >> (8 * i)));
      return List(b);
    }
    if (c == "copy") {
      Hasher k(h);
      hs.erase(a[2]);
      hs.insert({a[2], k});
      return "0";
    }
    return "\"?\"";
  });
}

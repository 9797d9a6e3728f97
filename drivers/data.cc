// Driver for data objects and their names.
#include "proto.h"
#include <memory>
#include "cereal/types/memory.hpp"
#include "cryptopp/sha.h"
#include "maidsafe/common/utils.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
#include "maidsafe/common/serialisation/serialisation.h"
using namespace maidsafe;

using Bytes = std::vector<unsigned char>;
template <typename S>
static std::string List(const S& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static Bytes Nums(const std::string& t) {
  Bytes s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back((unsigned char)std::stoi(w));
  return s;
}
static std::string Text(const std::string& t) {
  Bytes b = Nums(t);
  return std::string(b.begin(), b.end());
}
static Bytes Name(const std::string& t) {  // two numbers: 63 times the first, then the second
  Bytes a = Nums(t);
  if (a.empty()) return a;
  Bytes b(64, a[0]);
  b[63] = a[1];
  return b;
}
static NonEmptyString Value(const std::string& t) {
  Bytes b = Nums(t);
  return b.empty() ? NonEmptyString() : NonEmptyString(b);
}
static Bytes Sha(const Bytes& v) {
  Bytes d(64);
  CryptoPP::SHA512().CalculateDigest(d.data(), v.data(), v.size());
  return d;
}

static std::map<std::string, ImmutableData> im;
static std::map<std::string, MutableData> mu;
static std::shared_ptr<Data> ptr;
static Bytes blob;
static bool blob_is_pointer, blob_is_immutable;

template <typename F>
static std::string Thrown(F f) {
  try {
    f();
    return "nothing";
  } catch (const maidsafe_error& e) {
    return proto::ErrCode(e.code());
  } catch (const std::exception&) {
    return "other";
  }
}
template <typename D>
static std::string See(const D& d) {
  if (!d.IsInitialised()) {
    std::string e;
    for (const std::string& t : {Thrown([&] { d.Name(); }), Thrown([&] { d.TypeId(); }), Thrown([&] { d.NameAndType(); }),
                                 Thrown([&] { d.Value(); }), Thrown([&] { Serialise(d); })})
      if (t != "uninitialised") e += " " + t;
    return proto::Q("uninitialised" + e);
  }
  Bytes v = d.Value().string(), n = d.Name().string();
  auto nt = d.NameAndType();
  if (nt.name != d.Name() || nt.type_id != d.TypeId()) return "\"NameAndType differs\"";
  std::string name = List(n), by = "raw";
  if (n == Sha(v)) name = List(v), by = "hash";
  else if (Bytes(63, n[0]) == Bytes(n.begin(), n.end() - 1)) name = List(Bytes{n[0], n[63]}), by = "given";
  return "{\"id\":" + std::to_string(d.TypeId().data) + ",\"name\":" + name + ",\"by\":" + proto::Q(by) + ",\"value\":" + List(v) + "}";
}
static std::string SeePtr() {
  if (!ptr) return "\"none\"";
  if (auto i = std::dynamic_pointer_cast<ImmutableData>(ptr)) return See(*i);
  if (auto m = std::dynamic_pointer_cast<MutableData>(ptr)) return See(*m);
  return "\"another type\"";
}
static std::string All(const std::string& res) {
  return "{\"res\":" + proto::Q(res) + ",\"i1\":" + See(im["i1"]) + ",\"i2\":" + See(im["i2"]) + ",\"m1\":" + See(mu["m1"]) +
         ",\"m2\":" + See(mu["m2"]) + ",\"p\":" + SeePtr() + "}";
}
// Accepted by neither way of parsing?
template <typename D>
static std::string Rejected(const Bytes& b) {
  bool a = Thrown([&] { Parse<D>(b); }) != "nothing";
  bool c = Thrown([&] { ConvertFromString<D>(std::string(b.begin(), b.end())); }) != "nothing";
  return a && c ? "rejected" : a || c ? "rejected by one of two" : "accepted";
}
static std::string RejectedBlob(const Bytes& b) {
  return blob_is_pointer ? Rejected<std::shared_ptr<Data>>(b) : blob_is_immutable ? Rejected<ImmutableData>(b) : Rejected<MutableData>(b);
}
template <typename D, typename E>
static void Slot(std::map<std::string, D>& s, const std::string& c, const proto::Args& a, E& made) {
  const std::string& x = a[1];
  if (c == "copy") s[x] = s[a[2]];
  else if (c == "move") s[x] = std::move(s[a[2]]);
  else if (c == "cctor") { D d(s[a[2]]); s.erase(x); s.insert({x, d}); }
  else if (c == "mctor") { D d(std::move(s[a[2]])); s.erase(x); s.insert({x, d}); }
  else if (c == "clear") s[x] = D();
  else if (c == "up") ptr = std::make_shared<D>(s[x]);
  else if (c == "ser") {
    Bytes b = Serialise(s[x]);
    std::string t = ConvertToString(s[x]);
    if (b != Bytes(t.begin(), t.end())) throw std::runtime_error("two serialised forms");
    blob = b;
    blob_is_pointer = false;
    blob_is_immutable = std::is_same<D, ImmutableData>::value;
  } else if (c == "parse") {
    D d = Parse<D>(blob);
    D e = ConvertFromString<D>(std::string(blob.begin(), blob.end()));
    if (See(d) != See(e)) throw std::runtime_error("parsed differently");
    s[x] = d;
  } else made();
}
struct Pair {
  static Data::NameAndTypeId Of(const std::string& n, const std::string& id) {
    std::string digits;
    for (unsigned char d : Nums(id)) digits += char('0' + d);
    return Data::NameAndTypeId(Identity(Name(n)), DataTypeId(std::uint32_t(std::stoul(digits))));
  }
  static std::string Digits(const DataTypeId& id) {
    std::string s = std::to_string(id.data);
    for (char& c : s) c = char(c - '0');
    return List(s);
  }
};

int main() {
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      im.clear();
      mu.clear();
      ptr.reset();
      blob.clear();
      return "0";
    }
    if (c == "cmp") {
      auto p = Pair::Of(a[1], a[2]), q = Pair::Of(a[3], a[4]);
      std::string s;
      if (p == q) s += " ==";
      if (p != q) s += " !=";
      if (p < q) s += " <";
      if (p > q) s += " >";
      if (p <= q) s += " <=";
      if (p >= q) s += " >=";
      return proto::Q(s.substr(s.empty() ? 0 : 1));
    }
    if (c == "file") return List(maidsafe::detail::GetFileName(Pair::Of(a[1], a[2])).string());
    if (c == "trip") {
      auto p = Pair::Of(a[1], a[2]);
      auto q = Parse<Data::NameAndTypeId>(Serialise(p));
      Data::NameAndTypeId copy(q), moved(std::move(q)), assigned, massigned;
      assigned = moved;
      auto r = moved;
      massigned = std::move(r);
      for (auto& x : {copy, moved, assigned, massigned})
        if (!(x == p) || x.name != p.name || x.type_id != p.type_id) return "\"different\"";
      return "\"same\"";
    }
    if (c == "parse" && a.size() == 2 && a[1].find_first_of("im") == std::string::npos) {
      try {
        auto p = maidsafe::detail::GetDataNameAndTypeId(Text(a[1]));
        return "{\"name\":" + List(p.name.string()) + ",\"id\":" + Pair::Digits(p.type_id) + "}";
      } catch (const std::exception&) {
        return "{\"err\":\"rejected\"}";
      }
    }
    std::string err = "ok";
    try {
      if (c == "serp") {
        blob = Serialise(ptr);
        blob_is_pointer = true;
      } else if (c == "parsep") {
        ptr = Parse<std::shared_ptr<Data>>(blob);
        auto p = ConvertFromString<std::shared_ptr<Data>>(std::string(blob.begin(), blob.end()));
        std::string s = SeePtr();
        std::swap(p, ptr);
        if (s != SeePtr()) throw std::runtime_error("parsed differently");
      } else if (c == "tamper") {
        Bytes b(blob);
        size_t i = std::stoul(a[1]) % b.size();
        if (i % 72 < 8 && i < 80) i -= i % 72 % 8 / 2 * 2;  // not sizes of gigabytes
        b[i] ^= (unsigned char)std::stoi(a[2]);
        err = RejectedBlob(b);
      } else if (c == "cut") {
        err = RejectedBlob(Bytes(blob.begin(), blob.begin() + std::stoul(a[1]) % blob.size()));
      } else if (c == "forge") {
        Bytes b = Serialise(Identity(Name(a[2])), Nums(a[3]));
        err = a[1] == "i" ? Rejected<ImmutableData>(b) : Rejected<MutableData>(b);
      } else if (a[1][0] == 'i') {
        auto made = [&] { im[a[1]] = ImmutableData(Value(a[2])); };
        Slot(im, c, a, made);
      } else {
        auto made = [&] { mu[a[1]] = MutableData(a[2] == "-" ? Identity() : Identity(Name(a[2])), Value(a[3])); };
        Slot(mu, c, a, made);
      }
    } catch (const maidsafe_error& e) {
      err = proto::ErrCode(e.code());
    }
    return All(err);
  });
}

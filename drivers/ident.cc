// Driver for identities.
#include "proto.h"
#include <set>
#include "maidsafe/common/identity.h"
#include "maidsafe/common/encode.h"
using namespace maidsafe;

using Bytes = std::vector<unsigned char>;
template <typename S>
static std::string List(const S& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static Identity Id(const std::string& t) {
  auto a = Nums(t);
  if (a.empty()) return Identity();
  Bytes b;
  if (a.size() == 3) {
    for (int i = 1; i <= 64; ++i) b.push_back((unsigned char)(i <= a[0] ? i * 37 : i == a[0] + 1 ? a[1] : a[2] * i * 91 + a[2] + i));
  } else {
    for (int v : a) b.push_back((unsigned char)v);
  }
  return Identity(b);
}
static std::string Text(const std::string& t) {
  std::string s;
  for (int v : Nums(t)) s += char(v);
  return s;
}
static const char* B(bool b) { return b ? "true" : "false"; }

int main() {
  std::set<Bytes> seen;
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") return "0";
    if (c == "common") return "{\"bits\":" + std::to_string(CommonLeadingBits(Id(a[1]), Id(a[2]))) + "}";
    if (c == "closer") return std::string("{\"closer\":") + B(CloserToTarget(Id(a[1]), Id(a[2]), Id(a[3]))) + "}";
    if (c == "encode") {
      Identity i = Id(a[1]);
      bool back = true;
      auto e = [&](std::function<std::string()> f, std::function<Identity(const std::string&)> g) {
        try {
          std::string s = f();
          back = back && g(s) == i;
          return List(s);
        } catch (const maidsafe_error& x) {
          return proto::Q(proto::ErrCode(x.code()));
        }
      };
      auto bin = e([&] { return binary::Encode(i); }, [](const std::string& s) { return MakeIdentity(binary::String(s)); });
      auto hx = e([&] { return hex::Encode(i); }, [](const std::string& s) { return MakeIdentity(hex::String(s)); });
      auto b = e([&] { return base64::Encode(i); }, [](const std::string& s) { return MakeIdentity(base64::String(s)); });
      return "{\"bin\":" + bin + ",\"hex\":" + hx + ",\"b64\":" + b + (i.IsInitialised() ? std::string(",\"back\":") + B(back) : "") + "}";
    }
    if (c == "frombin") return "{\"b\":" + List(MakeIdentity(binary::String(Text(a[1]))).string()) + "}";
    if (c == "fromhex") return "{\"b\":" + List(MakeIdentity(hex::String(Text(a[1]))).string()) + "}";
    if (c == "fromb64") return "{\"b\":" + List(MakeIdentity(base64::String(Text(a[1]))).string()) + "}";
    if (c == "random") {
      Identity i = MakeIdentity();
      bool fresh = seen.insert(i.string()).second;
      return "{\"size\":" + std::to_string(i.string().size()) + ",\"fresh\":" + B(fresh) + "}";
    }
    return "\"?\"";
  });
}

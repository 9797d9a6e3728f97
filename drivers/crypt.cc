// Driver for encryption, sharing, compression, signatures and derived passwords.
#include "proto.h"
#include <set>
#include "boost/filesystem.hpp"
#include "maidsafe/common/authentication/user_credential_utils.h"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
namespace fs = boost::filesystem;
using Bytes_t = std::vector<byte>;

static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static Bytes_t Raw(const std::string& t) {
  Bytes_t b;
  for (int x : Nums(t)) b.push_back(byte(x));
  return b;
}
template <typename C>
static std::string Show(const C& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
// A text is bytes followed by a number of sevens.
static Bytes_t Text(const std::string& b, const std::string& n) {
  Bytes_t t = Raw(b);
  t.insert(t.end(), size_t(std::stol(n)), 7);
  return t;
}
static NonEmptyString Str(const Bytes_t& t) { return t.empty() ? NonEmptyString() : NonEmptyString(t); }
static std::string ShowText(Bytes_t t) {
  size_t n = 0;
  while (!t.empty() && t.back() == 7) t.pop_back(), ++n;
  return "[" + Show(t) + "," + std::to_string(n) + "]";
}
static crypto::AES256KeyAndIV Key(const std::string& seed, const std::string& bit) {
  if (seed == "-1") return crypto::AES256KeyAndIV();
  Bytes_t k(48);
  for (size_t i = 0; i < k.size(); ++i) k[i] = byte(std::stoi(seed) * 31 + int(i) * 7);
  int b = std::stoi(bit);
  if (b >= 0) k[size_t(b / 8)] ^= byte(1 << (b % 8));
  return crypto::AES256KeyAndIV(k);
}
struct Slot {
  Bytes_t b;
  std::vector<NonEmptyString> parts;
};
static std::map<std::string, Slot> g_slots;
static std::map<int, rsa::Keys> g_keys;
static rsa::Keys K(const std::string& k) {
  int i = std::stoi(k);
  if (i == 0) return rsa::Keys();
  auto it = g_keys.find(i);
  if (it == g_keys.end()) {
    rsa::Keys k;
    if (i < 10) {
      k = rsa::GenerateKeyPair();
    } else {  // of another size, as may be read from an encoded key
      CryptoPP::InvertibleRSAFunction p;
      p.GenerateRandomWithKeySize(crypto::random_number_generator(), i == 10 ? 3072u : 1536u);
      k.private_key = rsa::PrivateKey(p);
      k.public_key = rsa::PublicKey(p);
    }
    it = g_keys.insert(std::make_pair(i, k)).first;
  }
  return it->second;
}
template <typename F>
static std::string Thrown(F f) {
  try {
    return f();
  } catch (const std::exception&) {
    return "{\"err\":\"thrown\"}";
  }
}
static std::string Flag(bool b) { return b ? "true" : "false"; }
template <typename H>
static std::string Hashes(const Bytes_t& t) {
  std::string s(t.begin(), t.end());
  auto a = crypto::Hash<H>(t);
  auto b = crypto::Hash<H>(s);
  std::string h(a.string().begin(), a.string().end());
  if (h != b.string()) return "\"depends on the type\"";
  if (!t.empty()) {
    auto c = crypto::Hash<H>(NonEmptyString(t));
    if (c.string() != a.string()) return "\"depends on the type\"";
  }
  return Show(h);
}
static authentication::UserCredentials Cred(const proto::Args& a) {
  authentication::UserCredentials u;
  auto s = [](const std::string& t) {
    Bytes_t b = Raw(t);
    return std::string(b.begin(), b.end());
  };
  if (a[1] != "-") u.keyword.reset(new authentication::UserCredentials::Keyword(s(a[1])));
  if (a[2] != "-") u.pin.reset(new authentication::UserCredentials::Pin(s(a[2])));
  if (a[3] != "-") u.password.reset(new authentication::UserCredentials::Password(s(a[3])));
  return u;
}

int main() {
  char dir[] = "/tmp/verif_crypt_XXXXXX";
  if (!mkdtemp(dir)) return 1;
  fs::path file = fs::path(dir) / "f";
  auto rc = proto::Loop([&](const proto::Args& a) -> std::string {
    alarm(120);
    const std::string& c = a[0];
    if (c == "reset") {
      g_slots.clear();
      return "0";
    }
    Bytes_t* b = a.size() > 1 ? &g_slots[a[1]].b : nullptr;
    // ---- edits
    if (c == "flip") {
      long k = std::stol(a[2]) % long(b->size() * 8);
      (*b)[size_t(k / 8)] ^= byte(1 << (k % 8));
      return "0";
    }
    if (c == "cut") {
      b->resize(b->size() - size_t(std::stol(a[2])));
      return "0";
    }
    if (c == "ext") {
      Bytes_t e = Raw(a[2]);
      b->insert(b->end(), e.begin(), e.end());
      return "0";
    }
    if (c == "copy") {
      g_slots[a[2]] = g_slots[a[1]];
      return "0";
    }
    if (c == "same") return Flag(*b == g_slots[a[2]].b);
    if (c == "size") return std::to_string(b->size());
    // ---- symmetric encryption
    if (c == "enc") {
      auto r = crypto::SymmEncrypt(Str(Text(a[2], a[3])), Key(a[4], a[5]));
      *b = r->string();
      return "0";
    }
    if (c == "dec") {
      crypto::CipherText t;
      if (!b->empty()) t = crypto::CipherText(NonEmptyString(*b));
      return ShowText(crypto::SymmDecrypt(t, Key(a[2], a[3])).string());
    }
    // ---- compression
    if (c == "zip") {
      auto r = crypto::Compress(Str(Text(a[2], a[3])), uint16_t(std::stoi(a[4])));
      *b = r->string();
      return "0";
    }
    if (c == "unzip") {
      crypto::CompressedText t;
      if (!b->empty()) t = crypto::CompressedText(NonEmptyString(*b));
      return ShowText(crypto::Uncompress(t).string());
    }
    // ---- parts
    if (c == "split") {  // split <slot> <kind> <t> <n> <bytes> <sevens>
      auto& p = g_slots[a[1]].parts;
      auto f = a[2] == "share" ? crypto::SecretShareData : crypto::InfoDisperse;
      auto q = f(std::stoi(a[3]), std::stoi(a[4]), Str(Text(a[5], a[6])));
      std::set<Bytes_t> s;
      for (auto& x : q) s.insert(x.string());
      bool fresh = true;
      if (a[2] == "share")
        for (auto& x : f(std::stoi(a[3]), std::stoi(a[4]), Str(Text(a[5], a[6])))) fresh = fresh && !s.count(x.string());
      p = q;
      return "[" + std::to_string(q.size()) + "," + Flag(s.size() == q.size()) + "," + Flag(fresh) + "]";
    }
    if (c == "join") {  // join <slot> <kind> <indices>
      crypto::DataParts p;
      if (a[3] == "-") return (a[2] == "share" ? crypto::SecretRecoverData : crypto::InfoRetrieve)(p), "\"recovered\"";
      for (int i : Nums(a[3])) p.push_back(g_slots[a[1]].parts.at(size_t(i - 1)));
      return Thrown([&] { return ShowText((a[2] == "share" ? crypto::SecretRecoverData : crypto::InfoRetrieve)(p).string()); });
    }
    // ---- keys
    auto put = [&](const Bytes_t& t) { WriteFile(file, t); };
    if (c == "sign" || c == "signfile") {
      Bytes_t t = Text(a[2], a[3]);
      if (c == "sign") *b = rsa::Sign(Str(t), K(a[4]).private_key).string();
      else put(t), *b = rsa::SignFile(file, K(a[4]).private_key).string();
      return "0";
    }
    if (c == "check" || c == "checkfile") {
      Bytes_t t = Text(a[2], a[3]);
      rsa::Signature s;
      if (!b->empty()) s = rsa::Signature(*b);
      if (c == "check") return Flag(rsa::CheckSignature(Str(t), s, K(a[4]).public_key));
      put(t);
      return Flag(rsa::CheckFileSignature(file, s, K(a[4]).public_key));
    }
    if (c == "nofile") {
      fs::remove(file);
      if (a[1] == "sign") return rsa::SignFile(file, K(a[2]).private_key), "0";
      return Flag(rsa::CheckFileSignature(file, rsa::Signature(Bytes_t(256, 1)), K(a[2]).public_key));
    }
    if (c == "seal") {
      *b = rsa::Encrypt(Str(Text(a[2], a[3])), K(a[4]).public_key).string();
      return "0";
    }
    if (c == "open") {
      return Thrown([&] { return ShowText(rsa::Decrypt(Str(*b), K(a[2]).private_key).string()); });
    }
    if (c == "save") {
      *b = a[2] == "private" ? rsa::EncodeKey(K(a[3]).private_key).string() : rsa::EncodeKey(K(a[3]).public_key).string();
      return "0";
    }
    if (c == "load") {
      std::vector<std::string> m;
      auto add = [&](int i, bool yes) {
        if (yes) m.push_back(std::to_string(i));
      };
      if (a[2] == "private") {
        auto k = rsa::DecodeKey(b->empty() ? rsa::EncodedPrivateKey() : rsa::EncodedPrivateKey(*b));
        for (int i = 1; i <= 3; ++i) add(i, rsa::MatchingKeys(k, K(std::to_string(i)).private_key));
      } else {
        auto k = rsa::DecodeKey(b->empty() ? rsa::EncodedPublicKey() : rsa::EncodedPublicKey(*b));
        for (int i = 1; i <= 3; ++i) add(i, rsa::MatchingKeys(k, K(std::to_string(i)).public_key));
        if (!m.empty() && !rsa::ValidateKey(k)) m.push_back("\"invalid\"");
      }
      return proto::Join(m);
    }
    if (c == "match") {
      if (a[1] == "private") return Flag(rsa::MatchingKeys(K(a[2]).private_key, K(a[3]).private_key));
      return Flag(rsa::MatchingKeys(K(a[2]).public_key, K(a[3]).public_key));
    }
    if (c == "valid") return Flag(rsa::ValidateKey(K(a[1]).public_key));
    // ---- derived passwords and hashes
    if (c == "derive") {  // derive <password> <salt> <pin> [<label>]
      Bytes_t l = Raw(a[4]);
      uint32_t pin = uint32_t(std::stoul(a[3]));
      auto r = a[4] == "0" ? crypto::CreateSecurePassword(Str(Raw(a[1])), Str(Raw(a[2])), pin)
                           : crypto::CreateSecurePassword(Str(Raw(a[1])), Str(Raw(a[2])), pin, std::string(l.begin(), l.end()));
      return Show(r->string());
    }
    if (c == "hash") {
      Bytes_t t = Raw(a[2]);
      return a[1] == "1" ? Hashes<crypto::SHA1>(t) : a[1] == "256" ? Hashes<crypto::SHA256>(t) : a[1] == "384" ? Hashes<crypto::SHA384>(t) : Hashes<crypto::SHA512>(t);
    }
    if (c == "obfuscate") return Show(authentication::Obfuscate(Cred(a), Str(Text(a[4], a[5]))).string());
    if (c == "userkey") return Show(authentication::CreateSecurePassword(Cred(a))->string());
    return "\"?\"";
  });
  fs::remove_all(dir);
  return rc;
}

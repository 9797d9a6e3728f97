// Driver for StructuredDataVersions.
#include "proto.h"
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/serialisation/serialisation.h"

// The wire format of a serialised object, restated here.
struct WireBranch {
  boost::optional<maidsafe::StructuredDataVersions::VersionName> absent_parent;
  std::vector<maidsafe::StructuredDataVersions::VersionName> names;
  template <typename Archive>
  Archive& serialize(Archive& archive) { return archive(absent_parent, names); }
};
struct Wire {
  std::uint32_t max_versions = 0, max_branches = 0;
  std::vector<WireBranch> branches;
  template <typename Archive>
  Archive& serialize(Archive& archive) { return archive(max_versions, max_branches, branches); }
};

using SDV = maidsafe::StructuredDataVersions;
using VN = SDV::VersionName;

static std::vector<int> g_index;
static VN Name(int v) {
  if (v == 0) return VN();
  return VN(g_index[v - 1], maidsafe::Identity(std::string(maidsafe::identity_size, char('a' + v))));
}
static int Num(const VN& n) {
  if (!n.id.IsInitialised()) return 0;
  int v = n.id.string()[0] - 'a';
  return v >= 1 && v <= int(g_index.size()) && Name(v) == n ? v : -99;
}
static std::string Str(const SDV& s) {
  auto b = s.Serialise()->string();
  return std::string(b.begin(), b.end());
}
static std::map<int, int> g_lastparent;  // hint only: which parent to try first
static int g_ops = 0;
static std::string Observe(SDV& s) {
  std::vector<std::string> br;
  for (const auto& tip : s.Get()) {
    std::vector<std::string> chain;
    VN last;
    for (const auto& n : s.GetBranch(tip)) {
      chain.push_back(std::to_string(Num(n)));
      last = n;
      if (chain.size() > g_index.size()) return "\"endless branch\"";
    }
    int top = -99;
    // Putting a held version again succeeds exactly with its parent's name, and changes nothing.
    bool all = g_ops % 8 == 0;   // all candidates from time to time, else the likely one first
    auto hint = g_lastparent.find(Num(last));
    if (!all && hint != g_lastparent.end()) {
      try {
        if (!s.Put(Name(hint->second), last)) top = hint->second;
      } catch (const maidsafe::maidsafe_error&) {}
    }
    if (top == -99) for (int p = 0; p <= int(g_index.size()); ++p) {
      try {
        auto r = s.Put(Name(p), last);
        top = (top == -99 && !r) ? p : -98;
        g_lastparent[Num(last)] = p;
      } catch (const maidsafe::maidsafe_error&) {}
    }
    br.push_back("{\"b\":" + proto::Join(chain) + ",\"top\":" + std::to_string(top) + "}");
  }
  return "{\"mv\":" + std::to_string(s.max_versions()) + ",\"mb\":" + std::to_string(s.max_branches()) +
         ",\"br\":" + proto::Join(br) + "}";
}

int main() {
  std::vector<std::unique_ptr<SDV>> objs;
  auto ints = [](const std::string& t) {
    std::vector<int> v;
    std::istringstream is(t);
    std::string w;
    while (std::getline(is, w, ',')) v.push_back(std::stoi(w));
    return v;
  };
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    auto n = [&](size_t i) { return std::stoi(a[i]); };
    if (c == "reset") {  // reset idx,idx,.. mv,mb mv,mb ..
      g_index = ints(a[1]);
      g_ops = 0;
      g_lastparent.clear();
      objs.clear();
      for (size_t i = 2; i < a.size(); ++i) {
        auto l = ints(a[i]);
        objs.emplace_back(new SDV(l[0], l[1]));
      }
      return "\"ok\"";
    }
    if (c == "ctor") return proto::Try([&] { SDV s(n(1), n(2)); return std::string("\"ok\""); });
    if (c == "prefixes") {
      // every proper prefix of the serialised form, and every single-byte change at a few bytes,
      // must throw a maidsafe error or give a usable object
      std::string s = Str(*objs[n(1) - 1]);
      int accepted = 0, other = 0;
      for (size_t i = 1; i < s.size(); ++i) {
        try {
          SDV x(SDV::serialised_type(maidsafe::NonEmptyString(std::vector<unsigned char>(s.begin(), s.begin() + i))));
          ++accepted;
        } catch (const maidsafe::maidsafe_error& e) {
          if (proto::ErrCode(e.code()) != "parsing_error") ++other;
        }
      }
      return "[" + std::to_string(accepted) + "," + std::to_string(other) + "]";
    }
    ++g_ops;
    std::vector<std::string> before;
    for (auto& o : objs) before.push_back(Str(*o));
    std::string res;
    SDV& x = *objs[n(1) - 1];
    try {
      res = "none";
      if (c == "put") {
        auto r = x.Put(Name(n(2)), Name(n(3)));
        if (r) res = "rem:" + std::to_string(Num(*r));
      } else if (c == "del") {
        x.DeleteBranchUntilFork(Name(n(2)));
      } else if (c == "branch") {
        x.GetBranch(Name(n(2)));
      } else if (c == "clear") {
        x.clear();
      } else if (c == "reparse") {
        objs[n(1) - 1].reset(new SDV(x.Serialise()));
      } else if (c == "apply") {
        x.ApplySerialised(objs[n(2) - 1]->Serialise());
      } else if (c == "assign") {
        x = SDV(objs[n(2) - 1]->Serialise());
      } else if (c == "parse") {  // parse i mv mb form
        Wire w;
        w.max_versions = n(2);
        w.max_branches = n(3);
        std::istringstream form(a[4] == "-" ? std::string() : a[4]);
        std::string br, item;
        while (std::getline(form, br, '/')) {
          w.branches.emplace_back();
          std::istringstream bs(br);
          bool first = true;
          while (std::getline(bs, item, ';')) {
            auto x = ints(item);
            if (first) {
              if (x[0]) w.branches.back().absent_parent = Name(x[0]);
              first = false;
            } else {
              VN name = Name(x[0]);
              if (x[1]) name.forking_child_count = uint32_t(x[1]);
              w.branches.back().names.push_back(name);
            }
          }
        }
        auto bytes = maidsafe::Serialise(w);
        objs[n(1) - 1].reset(new SDV(SDV::serialised_type(maidsafe::NonEmptyString(bytes))));
      } else if (c == "swap") {
        swap(x, *objs[n(2) - 1]);
      } else {
        return "\"?\"";
      }
    } catch (const maidsafe::maidsafe_error& e) {
      res = proto::ErrCode(e.code());
    }
    const bool failed = res != "none" && res.compare(0, 4, "rem:") != 0;
    bool same = true;
    std::vector<std::string> obs;
    for (size_t i = 0; i < objs.size(); ++i) {
      if (failed && Str(*objs[i]) != before[i]) same = false;
      obs.push_back(Observe(*objs[i]));
    }
    return "{\"res\":" + proto::Q(res) + ",\"same\":" + (same ? "true" : "false") + ",\"obs\":" + proto::Join(obs) + "}";
  });
}

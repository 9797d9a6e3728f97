// Driver for the data buffer.
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include "conc.h"
#include "boost/filesystem.hpp"
#include "maidsafe/common/data_buffer.h"

namespace fs = boost::filesystem;
using maidsafe::DataBuffer;
static std::string g_dir;
static std::vector<int> g_size;  // by value
static long g_max_seen;

static DataBuffer::KeyType Key(int k) {
  return DataBuffer::KeyType(maidsafe::Identity(std::string(maidsafe::identity_size, char('A' + k))),
                             maidsafe::DataTypeId(k % 3));
}
static std::string Content(int v) {
  std::string s(size_t(g_size[v - 1]), char('a' + v));
  return s;
}
static int ValueOf(const std::string& s) {
  for (size_t v = 1; v <= g_size.size(); ++v)
    if (Content(int(v)) == s) return int(v);
  return -1;
}
static std::string Text(const maidsafe::NonEmptyString& n) {
  return std::string(n.string().begin(), n.string().end());
}
// total size of the files in the buffer's directory
static long Files(std::vector<int>* values) {
  long total = 0;
  DIR* d = opendir(g_dir.c_str());
  if (!d) return -1;
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    std::string path = g_dir + "/" + e->d_name;
    struct stat st;
    if (stat(path.c_str(), &st) || !S_ISREG(st.st_mode)) continue;
    total += st.st_size;
    if (values) {
      std::ifstream in(path, std::ios::binary);
      std::string c((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      values->push_back(ValueOf(c));
    }
  }
  closedir(d);
  return total;
}
static void Sample() {
  sched::NoSwitch guard;
  long n = Files(nullptr);
  if (n > g_max_seen) {
    g_max_seen = n;
    conc::Ev("disk", "disk", std::to_string(n));
  }
}
static std::string List(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}

int main(int, char** argv) {
  std::string base = std::string(argv[1]);
  // config: maxm, maxd, pop, dir kind (0: own temporary, 1: given and kept, 2: given and removed,
  //         3: given, existing and kept), final action, number of keys, sizes of values ...
  return conc::Main([&](const std::vector<int>& cfg, const conc::Program& p) {
    const int kind = cfg[3], finish = cfg[4], nkeys = cfg[5];
    g_size.assign(cfg.begin() + 6, cfg.end());
    g_max_seen = 0;
    bool wiped = false, stopped = false;
    std::function<void(const DataBuffer::KeyType&, const maidsafe::NonEmptyString&)> pop;
    if (cfg[2])
      pop = [&](const DataBuffer::KeyType& k, const maidsafe::NonEmptyString& v) {
        int kk = -1;
        for (int i = 1; i <= nkeys; ++i)
          if (Key(i) == k) kk = i;
        Sample();
        conc::Ev("pop", "pop", std::to_string(kk) + "," + std::to_string(ValueOf(Text(v))));
      };
    std::unique_ptr<DataBuffer> b;
    maidsafe::MemoryUsage mm{uint64_t(cfg[0])};
    maidsafe::DiskUsage md{uint64_t(cfg[1])};
    // the temporary directory is private to this process
    std::string made = "ok";
    const bool usable = kind < 4;
    g_dir = base + "/given";
    try {
      if (kind == 3 || kind == 5) fs::create_directories(g_dir);
      if (kind == 3) std::ofstream(g_dir + "/.other") << "other";
      if (kind == 4) std::ofstream(g_dir) << "a file";
      if (kind == 5) fs::create_directories(g_dir + "/TestFile/x");
      if (kind == 0)
        b.reset(new DataBuffer(mm, md, pop));
      else
        b.reset(new DataBuffer(mm, md, pop, kind == 4 ? g_dir + "/below" : g_dir, kind == 2));
    } catch (const maidsafe::maidsafe_error& e) {
      made = proto::ErrCode(e.code());
    } catch (const std::exception& e) {
      made = std::string("std:") + e.what();
    }
    conc::Ev("new", "new", std::to_string(cfg[0]) + "," + std::to_string(cfg[1]) + "," + (usable ? "1" : "0"), made);
    if (!b) {
      for (fs::directory_iterator it(base), end; it != end; ++it) fs::remove_all(it->path());
      return;
    }
    if (kind == 0)
      for (fs::directory_iterator it(base), end; it != end; ++it) g_dir = it->path().string();
    auto op = [&](int, const conc::Op& o) {
      static const char* names[] = {"", "store", "get", "del", "delp", "setm", "setd"};
      const std::string n = names[o[0]];
      std::vector<int> args(o.begin() + 1, o.end());
      conc::Ev("call", n, List(args));
      std::string r = "ok";
      try {
        switch (o[0]) {
          case 1: b->Store(Key(o[1]), maidsafe::NonEmptyString(Content(o[2]))); break;
          case 2: {
            auto v = b->Get(Key(o[1]));
            r = std::to_string(ValueOf(Text(v)));
            break;
          }
          case 3: b->Delete(Key(o[1])); break;
          case 4:
            b->Delete([&](const DataBuffer::KeyType& k) {
              for (int i : args)
                if (Key(i) == k) return true;
              return false;
            });
            break;
          case 5: b->SetMaxMemoryUsage(maidsafe::MemoryUsage(uint64_t(o[1]))); break;
          case 6: b->SetMaxDiskUsage(maidsafe::DiskUsage(uint64_t(o[1]))); break;
        }
      } catch (const maidsafe::maidsafe_error& e) {
        r = proto::ErrCode(e.code());
        if (r == "cannot_exceed_limit") stopped = true;
        if (wiped && o[0] == 2 && r != "no_such_element") r = "gone";
      } catch (const std::exception& e) {
        r = std::string("std:") + e.what();
      }
      Sample();
      conc::Ev("ret", n, List(args), r);
    };
    auto files = [&] {
      sched::NoSwitch guard;
      std::vector<int> v;
      Files(&v);
      std::sort(v.begin(), v.end());
      conc::Ev("files", "files", List(v));
    };
    conc::Clients c;
    // config bit 4 of 'finish': destroy while the worker may still be busy
    if (finish & 16) {
      c.Start(p, op);
      c.Join();
    } else {
      size_t done = 0;
      c.Start(p, [&](int t, const conc::Op& o) {
        op(t, o);
        sched::NoSwitch g;
        ++done;
      });
      size_t total = 0;
      for (auto& t : p) total += t.size();
      // let it come to rest; while calls are blocked, make room in one of several ways
      for (int round = 0; round < 100; ++round) {
        sched::Quiesce();
        conc::Ev("quiet", "quiet");
        files();
        if (done == total) break;
        std::vector<int> all(nkeys);
        for (int i = 0; i < nkeys; ++i) all[i] = i + 1;
        int how = (finish >> (round % 2)) & 1;
        if (round >= 2 || how) {
          op(0, {6, 1000});
        } else if (round == 0) {
          op(0, {3, 1});
        } else {
          conc::Op o = all;
          o.insert(o.begin(), 4);
          op(0, o);
        }
      }
      c.Join();
      for (int k = 1; k <= nkeys; ++k) op(0, {2, k});
      if (finish & 4) {  // what can still be got without the files was in memory
        sched::Quiesce();
        conc::Ev("quiet", "quiet");
        std::vector<fs::path> all;
        for (fs::directory_iterator it(g_dir), end; it != end; ++it)
          if (it->path().filename().string()[0] != '.') all.push_back(it->path());
        for (auto& x : all) fs::remove(x);
        wiped = true;
        conc::Ev("wipe", "wipe");
        for (int k = 1; k <= nkeys; ++k) op(0, {2, k});
      }
    }
    conc::Ev("call", "destroy");
    b.reset();
    Sample();
    const bool there = fs::exists(g_dir), other = fs::exists(g_dir + "/.other") == (kind == 3);
    conc::Ev("ret", "destroy", "", !there ? "removed" : other ? "kept" : "other file lost");
    fs::remove_all(g_dir);
  });
}

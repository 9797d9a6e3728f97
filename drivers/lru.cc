// Driver for the LRU cache / filter.  Time is virtual: the monotonic clock is this file's.
#include <time.h>
#include <dlfcn.h>
#include "proto.h"
#include "maidsafe/common/containers/lru_cache.h"

static long long g_now_ns = 1000000000LL * 1000000;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  if (id != CLOCK_MONOTONIC) return real(id, ts);
  ++g_now_ns;  // every look at the clock takes a nanosecond
  ts->tv_sec = g_now_ns / 1000000000LL;
  ts->tv_nsec = g_now_ns % 1000000000LL;
  return 0;
}

using Key = std::string;
static std::string K(int k) { return "key" + std::to_string(k); }

int main() {
  std::unique_ptr<maidsafe::LruCache<Key, std::string>> cache;
  std::unique_ptr<maidsafe::LruCache<Key, void>> filter;
  int nkeys = 0;
  const auto unit = std::chrono::microseconds(1000);
  auto obs = [&](const std::string& res) {
    std::vector<std::string> has;
    for (int k = 1; k <= nkeys; ++k)
      has.push_back((cache ? cache->Check(K(k)) : filter->Check(K(k))) ? "true" : "false");
    return "{\"res\":" + proto::Q(res) + ",\"size\":" + std::to_string(cache ? cache->size() : filter->size()) +
           ",\"has\":" + proto::Join(has) + "}";
  };
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    auto n = [&](size_t i) { return std::stoi(a[i]); };
    if (c == "reset") {  // reset kind nkeys cap ttl
      cache.reset();
      filter.reset();
      nkeys = n(2);
      int cap = n(3), ttl = n(4);
      bool f = a[1] == "filter";
      // entries added at age TTL ticks are still valid: half a tick of slack absorbs the clock reads
      auto t = unit * ttl + unit / 2;
      if (cap && ttl) {
        if (f) filter.reset(new maidsafe::LruCache<Key, void>(cap, t));
        else cache.reset(new maidsafe::LruCache<Key, std::string>(cap, t));
      } else if (cap) {
        if (f) filter.reset(new maidsafe::LruCache<Key, void>(cap));
        else cache.reset(new maidsafe::LruCache<Key, std::string>(cap));
      } else {
        if (f) filter.reset(new maidsafe::LruCache<Key, void>(t));
        else cache.reset(new maidsafe::LruCache<Key, std::string>(t));
      }
      return "\"ok\"";
    }
    if (c == "add") {
      if (cache) cache->Add(K(n(1)), a[2]);
      else filter->Add(K(n(1)));
      return obs("ok");
    }
    if (c == "get") {
      auto r = cache->Get(K(n(1)));
      return obs(r ? *r : proto::ErrCode(r.error().code()));
    }
    if (c == "del") { cache->Delete(K(n(1))); return obs("ok"); }
    if (c == "tick") { g_now_ns += 1000000LL * n(1); return obs("ok"); }
    return "\"?\"";
  });
}

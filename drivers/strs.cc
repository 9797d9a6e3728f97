// Driver for encodings, bounded strings and tagged values.
#include "proto.h"
#include <type_traits>
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/tagged_value.h"
using namespace maidsafe;

using Bytes = std::vector<unsigned char>;
template <typename S>
static std::string List(const S& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::string Text(const std::string& t) {
  std::string s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s += char(std::stoi(w));
  return s;
}
static Bytes Vec(const std::string& s) { return Bytes(s.begin(), s.end()); }

using A = maidsafe::detail::BoundedString<2, 4>;
using W = maidsafe::detail::BoundedString<0, 6, std::string>;
using F = maidsafe::detail::BoundedString<3, 3>;
struct Slots {
  A a1, a2;
  W w;
  F f1, f2;
};
template <typename B>
static std::string Show(const B& b) {
  return b.IsInitialised() ? List(b.string()) : "[-1]";
}
template <typename B>
static std::string Read(const B& b) {
  auto err = [](std::function<void()> f) -> std::string {
    try {
      f();
    } catch (const maidsafe_error& e) {
      return proto::ErrCode(e.code());
    }
    return "";
  };
  volatile size_t sink = 0;
  std::vector<std::string> e{err([&] { sink = b.string().size(); }), err([&] { sink = b.size(); }), err([&] { sink = size_t(b.data() != nullptr); }),
                             err([&] { hex::Encode(b); }), err([&] { base64::Encode(b); })};
  if (!b.IsInitialised() || b.string().size() > 0) e.push_back(err([&] { sink = b[0]; }));
  for (auto& x : e)
    if (x != e[0]) return "mixed";
  if (!e[0].empty()) return e[0];
  std::string s(b.string().begin(), b.string().end());
  for (size_t i = 0; i < s.size(); ++i)
    if ((unsigned char)b[i] != (unsigned char)s[i] || (unsigned char)b.data()[i] != (unsigned char)s[i]) return "differs";
  if (hex::Encode(b) != hex::Encode(s) || base64::Encode(b) != base64::Encode(s)) return "encodes otherwise";
  return std::to_string(b.size());
}
template <typename B>
static std::string Cmp(const B& x, const B& y) {
  std::string s;
  auto add = [&](bool c, const char* n) {
    if (c) s += (s.empty() ? "" : " ") + std::string(n);
  };
  add(x == y, "==");
  add(x != y, "!=");
  add(x < y, "<");
  add(x > y, ">");
  add(x <= y, "<=");
  add(x >= y, ">=");
  return s;
}
template <typename B>
struct StringOf {
  using type = typename std::decay<decltype(std::declval<B>().string())>::type;
};
template <typename B>
static bool Common(B& x, B* y, const std::string& op, const std::string& arg, std::string& r) {
  using S = typename StringOf<B>::type;
  r = "ok";
  if (op == "make") {
    std::string t = Text(arg);
    x = B(S(t.begin(), t.end()));
  } else if (op == "bytes") {
    x = B(Text(arg));
  } else if (op == "parse") {
    std::string t = Text(arg);
    auto d = Serialise(S(t.begin(), t.end()));
    Parse(d, x);
  } else if (op == "clear") {
    x = B();
  } else if (op == "read") {
    r = Read(x);
  } else if (!y) {
    return false;
  } else if (op == "copy") {
    x = *y;
  } else if (op == "cctor") {
    B t(*y);
    x = t;
  } else if (op == "move") {
    x = std::move(*y);
  } else if (op == "mctor") {
    if (&x != y) {
      B t(std::move(*y));
      x = t;
    }
  } else if (op == "trip") {
    auto d = Serialise(*y);
    x = Parse<B>(d);
  } else if (op == "cmp") {
    r = Cmp(x, *y);
  } else {
    return false;
  }
  return true;
}

template <typename V>
struct Tag;
using TT = TaggedValue<std::string, Tag<int>>;
using TN = TaggedValue<int, Tag<char>>;
using TN2 = TaggedValue<int, Tag<long>>;
static_assert(!std::is_convertible<TN, TN2>::value || !std::is_same<TN, TN2>::value, "distinct");
static_assert(!std::is_convertible<int, TN>::value, "explicit");

int main() {
  std::unique_ptr<Slots> s(new Slots);
  TT t1, t2;
  TN n1(0), n2(0);
  bool set1 = false, set2 = false;
  std::string mode;
  auto all = [&](const std::string& res) {
    std::string v;
    if (mode == "tag") {
      v = List(t1.data) + "," + List(t2.data) + "," + (set1 ? "[" + std::to_string(n1.data) + "]" : "[]") + "," +
          (set2 ? "[" + std::to_string(n2.data) + "]" : "[]");
    } else {
      v = Show(s->a1) + "," + Show(s->a2) + "," + Show(s->w) + "," + Show(s->f1) + "," + Show(s->f2);
    }
    return "{\"res\":" + proto::Q(res) + ",\"all\":[" + v + "]}";
  };
  auto bounded = [&](const proto::Args& a) -> std::string {
    const std::string &op = a[0], &x = a[1], y = a.size() > 2 ? a[2] : "";
    std::string r = "n/a";
    if (op == "put") {
      size_t i = size_t(std::stoi(a[2]));
      int v = std::stoi(a[3]);
      auto put = [&](bool init, size_t n, std::function<void()> f) {
        if (init && i >= n) return;
        f();
        r = "ok";
      };
      if (x == "a1") put(s->a1.IsInitialised(), s->a1.IsInitialised() ? s->a1.size() : 0, [&] { s->a1[i] = (unsigned char)v; });
      if (x == "a2") put(s->a2.IsInitialised(), s->a2.IsInitialised() ? s->a2.size() : 0, [&] { s->a2[i] = (unsigned char)v; });
      if (x == "w") put(s->w.IsInitialised(), s->w.IsInitialised() ? s->w.size() : 0, [&] { s->w[i] = char(v); });
      if (x == "f1") put(s->f1.IsInitialised(), 3, [&] { s->f1[i] = (unsigned char)v; });
      if (x == "f2") put(s->f2.IsInitialised(), 3, [&] { s->f2[i] = (unsigned char)v; });
      return r;
    }
    auto pa = [&](const std::string& n) { return n == "a1" ? &s->a1 : n == "a2" ? &s->a2 : nullptr; };
    auto pf = [&](const std::string& n) { return n == "f1" ? &s->f1 : n == "f2" ? &s->f2 : nullptr; };
    auto pw = [&](const std::string& n) { return n == "w" ? &s->w : nullptr; };
    if (pa(x) && Common(*pa(x), pa(y), op, y, r)) return r;
    if (pf(x) && Common(*pf(x), pf(y), op, y, r)) return r;
    if (pw(x) && Common(*pw(x), pw(y), op, y, r)) return r;
    r = "n/a";
    if (op == "xor" && pf(x) && pf(y)) {
      *pf(x) = *pf(x) ^ *pf(y);
      return "ok";
    }
    if (op == "conv" || op == "assign") {
      bool c = op == "conv";
      if ((x == "a1" && y == "f1") || (x == "a2" && y == "f2")) {
        if (c) *pa(x) = A(*pf(y));
        else *pa(x) = *pf(y);
        return "ok";
      }
      if (c && x == "w" && y == "a1") {
        s->w = W(s->a1);
        return "ok";
      }
      if (c && x == "w" && y == "f2") {
        s->w = W(s->f2);
        return "ok";
      }
    }
    return "n/a";
  };
  auto tagged = [&](const proto::Args& a) -> std::string {
    const std::string &op = a[0], &x = a[1], &y = a[2];
    bool text = x[0] == 't';
    TT &tx = x == "t1" ? t1 : t2, &ty = y == "t1" ? t1 : t2;
    TN &nx = x == "n1" ? n1 : n2, &ny = y == "n1" ? n1 : n2;
    if (!text) (x == "n1" ? set1 : set2) = true;
    if (op == "make") {
      if (text) tx = TT(Text(y));
      else nx = TN(std::stoi(y));
    } else if (op == "copy") {
      if (text) tx = ty;
      else nx = ny;
    } else if (op == "cctor") {
      if (text) {
        TT t(ty);
        std::string as = t;
        if (as != ty.data || t->size() != as.size()) return "differs";
        tx = t;
      } else {
        TN t(ny);
        int as = t;
        if (as != ny.data) return "differs";
        nx = t;
      }
    } else if (op == "move") {
      if (text && &tx != &ty) {
        TT t(std::move(ty));
        tx = std::move(t);
        ty = TT();
      } else if (!text && &nx != &ny) {
        nx = std::move(ny);
      }
    } else if (op == "trip") {
      if (text) {
        auto d = Serialise(ty);
        if (d != Serialise(ty.data)) return "serialised otherwise";
        tx = Parse<TT>(d);
      } else {
        auto d = Serialise(ny);
        if (d != Serialise(ny.data)) return "serialised otherwise";
        Parse(d, nx);
      }
    } else if (op == "cmp") {
      return text ? Cmp(tx, ty) : Cmp(nx, ny);
    }
    return "ok";
  };
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      s.reset(new Slots);
      t1 = t2 = TT();
      n1 = n2 = TN(0);
      set1 = set2 = false;
      mode = a[1];
      return "0";
    }
    if (mode == "enc") {
      std::string b = Text(a[1]);
      if (c == "enc") {
        std::string h = hex::Encode(b), e = base64::Encode(b);
        bool agree = hex::Encode(Vec(b)) == h && base64::Encode(Vec(b)) == e && hex::DecodeToBytes(h) == Vec(hex::DecodeToString(h)) &&
                     base64::DecodeToBytes(e) == Vec(base64::DecodeToString(e));
        return "{\"hex\":" + List(h) + ",\"b64\":" + List(e) + ",\"hback\":" + List(hex::DecodeToBytes(h)) + ",\"bback\":" + List(base64::DecodeToBytes(e)) +
               ",\"hsub\":" + List(hex::Substr(b)) + ",\"bsub\":" + List(base64::Substr(b)) + ",\"agree\":" + (agree ? "true" : "false") + "}";
      }
      auto dec = [&](std::function<std::string(const std::string&)> f, std::function<Bytes(const std::string&)> g) -> std::string {
        std::string x, y;
        try {
          x = List(g(b));
        } catch (const maidsafe_error& e) {
          y = proto::ErrCode(e.code());
        }
        try {
          std::string t = List(f(b));
          if (t != x) return "\"the two disagree\"";
        } catch (const maidsafe_error& e) {
          if (proto::ErrCode(e.code()) != y) return "\"the two disagree\"";
          return "{\"err\":" + proto::Q(y) + "}";
        }
        return "{\"b\":" + x + "}";
      };
      if (c == "hexdec") return dec(hex::DecodeToString, hex::DecodeToBytes);
      if (c == "b64dec") {
        std::string r = dec(base64::DecodeToString, base64::DecodeToBytes);
        // leftover bits
        try {
          std::string d = base64::DecodeToString(b);
          if (base64::Encode(d) != b && b.size() % 4 == 0 && b.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=") == std::string::npos &&
              (b.find('=') == std::string::npos || b.find_first_not_of('=', b.find('=')) == std::string::npos) &&
              base64::Encode(d).substr(0, b.size() - 4) == b.substr(0, b.size() - 4))
            return "{\"lenient\":true}";
        } catch (const maidsafe_error&) {
        }
        return r;
      }
      return "\"?\"";
    }
    std::string r;
    try {
      r = mode == "tag" ? tagged(a) : bounded(a);
    } catch (const maidsafe_error& e) {
      r = proto::ErrCode(e.code());
    }
    return all(r);
  });
}

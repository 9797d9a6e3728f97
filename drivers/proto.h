// Line protocol shared by the drivers: one command per line on stdin, one JSON line on stdout.
#ifndef VERIF_PROTO_H_
#define VERIF_PROTO_H_
#include <unistd.h>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <system_error>
#include <vector>
#include "boost/exception/all.hpp"
#include "boost/system/system_error.hpp"
#include "maidsafe/common/error.h"

namespace proto {

inline std::string Esc(const std::string& s) {
  std::string out;
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { out += '\\'; out += c; }
    else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
    else out += c;
  }
  return out;
}
inline std::string Q(const std::string& s) { return "\"" + Esc(s) + "\""; }
template <typename T>
std::string Join(const std::vector<T>& v) {
  std::string s("[");
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s + "]";
}
inline std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string out;
  for (unsigned char c : s) { out += d[c >> 4]; out += d[c & 15]; }
  return out;
}
inline std::string UnHex(const std::string& s) {
  std::string out;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) out += char(v(s[i]) * 16 + v(s[i + 1]));
  return out;
}

// Symbolic name of the current exception ("" if none of the known kinds).
inline std::string ErrName(const std::error_code& c) {
  return std::string(c.category().name()) + ":" + std::to_string(c.value());
}
inline std::string ErrCode(const std::error_code& c) {
  using maidsafe::CommonErrors;
#define VERIF_NAME(n) {CommonErrors::n, #n}
  static const std::pair<CommonErrors, const char*> names[] = {
      VERIF_NAME(success),
      VERIF_NAME(pending_result),
      VERIF_NAME(unknown),
      VERIF_NAME(null_pointer),
      VERIF_NAME(invalid_identity),
      VERIF_NAME(invalid_key_size),
      VERIF_NAME(outside_of_bounds),
      VERIF_NAME(invalid_argument),
      VERIF_NAME(invalid_conversion),
      VERIF_NAME(file_too_large),
      VERIF_NAME(uninitialised),
      VERIF_NAME(already_initialised),
      VERIF_NAME(hashing_error),
      VERIF_NAME(symmetric_encryption_error),
      VERIF_NAME(symmetric_decryption_error),
      VERIF_NAME(compression_error),
      VERIF_NAME(uncompression_error),
      VERIF_NAME(cannot_invoke_from_this_thread),
      VERIF_NAME(cannot_exceed_limit),
      VERIF_NAME(unable_to_handle_request),
      VERIF_NAME(filesystem_io_error),
      VERIF_NAME(no_such_element),
      VERIF_NAME(serialisation_error),
      VERIF_NAME(parsing_error),
      VERIF_NAME(not_a_directory),
      VERIF_NAME(db_busy),
      VERIF_NAME(db_not_present),
      VERIF_NAME(db_error),
      VERIF_NAME(defaulted)};
#undef VERIF_NAME
#define VERIF_NAME(n) {maidsafe::AsymmErrors::n, #n}
  static const std::pair<maidsafe::AsymmErrors, const char*> asymm[] = {
      VERIF_NAME(keys_generation_error),
      VERIF_NAME(keys_serialisation_error),
      VERIF_NAME(keys_parse_error),
      VERIF_NAME(invalid_private_key),
      VERIF_NAME(invalid_public_key),
      VERIF_NAME(data_empty),
      VERIF_NAME(invalid_file),
      VERIF_NAME(invalid_signature),
      VERIF_NAME(signature_empty),
      VERIF_NAME(encryption_error),
      VERIF_NAME(decryption_error),
      VERIF_NAME(signing_error)};
#undef VERIF_NAME
  for (auto& n : asymm)
    if (c == maidsafe::make_error_code(n.first)) return n.second;
  for (auto& n : names)
    if (c == maidsafe::make_error_code(n.first)) return n.second;
  using maidsafe::VaultManagerErrors;
  if (c == maidsafe::make_error_code(VaultManagerErrors::ipc_message_too_large)) return "ipc_message_too_large";
  if (c == maidsafe::make_error_code(VaultManagerErrors::failed_to_listen)) return "failed_to_listen";
  if (c == maidsafe::make_error_code(VaultManagerErrors::failed_to_connect)) return "failed_to_connect";
  return ErrName(c);
}
template <typename F>
std::string Try(F f) {
  try {
    return f();
  } catch (const maidsafe::maidsafe_error& e) {
    return "{\"err\":" + Q(ErrCode(e.code())) + "}";
  } catch (const std::system_error& e) {
    return "{\"err\":" + Q("sys:" + ErrCode(e.code())) + "}";
  } catch (const std::exception& e) {
    return "{\"err\":" + Q(std::string("std")) + ",\"what\":" + Q(std::string(e.what()).substr(0, 120)) + "}";
  } catch (...) {
    return "{\"err\":\"other\"}";
  }
}

using Args = std::vector<std::string>;
inline Args Split(const std::string& line) {
  std::istringstream is(line);
  Args a;
  std::string w;
  while (is >> w) a.push_back(w);
  return a;
}
// Runs 'f' for each input line; 'f' returns a JSON text.
inline int Loop(std::function<std::string(const Args&)> f) {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    Args a = Split(line);
    if (a.empty()) continue;
    alarm(15);  // a call that never returns ends the driver
    std::cout << Try([&] { return f(a); }) << '\n' << std::flush;
  }
  return 0;
}
}  // namespace proto
#endif

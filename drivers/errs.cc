// Driver for errors.
#include "proto.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/serialisation/serialisation.h"
using namespace maidsafe;

struct Entry {
  const char *cat, *name;
  std::error_code code;
  std::error_condition cond;
  std::function<maidsafe_error()> make;
  const std::error_category* own;
  std::function<bool()> thrown;  // as an exception of its own class, and of the common one
};
template <typename E, typename X>
Entry Make(const char* cat, const char* name, E e, const std::error_category& own, X*) {
  return {cat, name, make_error_code(e), make_error_condition(e), [e] { return maidsafe_error(MakeError(e)); }, &own, [e] {
            bool ok = false;
            try {
              throw MakeError(e);
            } catch (const X& x) {
              ok = x.code() == make_error_code(e) && e == x.code();
            }
            try {
              throw MakeError(e);
            } catch (const maidsafe_error& x) {
              return ok && x.code() == make_error_code(e);
            }
            return false;
          }};
}
#define E(C, X, N) Make(#C, #N, C##Errors::N, Get##C##Category(), static_cast<X*>(nullptr))
static std::vector<Entry>& All() {
  static std::vector<Entry> all = {
      E(Common, common_error, success),
      E(Common, common_error, pending_result),
      E(Common, common_error, unknown),
      E(Common, common_error, null_pointer),
      E(Common, common_error, invalid_identity),
      E(Common, common_error, invalid_key_size),
      E(Common, common_error, outside_of_bounds),
      E(Common, common_error, invalid_argument),
      E(Common, common_error, invalid_conversion),
      E(Common, common_error, file_too_large),
      E(Common, common_error, uninitialised),
      E(Common, common_error, already_initialised),
      E(Common, common_error, hashing_error),
      E(Common, common_error, symmetric_encryption_error),
      E(Common, common_error, symmetric_decryption_error),
      E(Common, common_error, compression_error),
      E(Common, common_error, uncompression_error),
      E(Common, common_error, cannot_invoke_from_this_thread),
      E(Common, common_error, cannot_exceed_limit),
      E(Common, common_error, unable_to_handle_request),
      E(Common, common_error, filesystem_io_error),
      E(Common, common_error, no_such_element),
      E(Common, common_error, serialisation_error),
      E(Common, common_error, parsing_error),
      E(Common, common_error, not_a_directory),
      E(Common, common_error, db_busy),
      E(Common, common_error, db_not_present),
      E(Common, common_error, db_error),
      E(Common, common_error, defaulted),
      E(Asymm, asymm_error, keys_generation_error),
      E(Asymm, asymm_error, keys_serialisation_error),
      E(Asymm, asymm_error, keys_parse_error),
      E(Asymm, asymm_error, invalid_private_key),
      E(Asymm, asymm_error, invalid_public_key),
      E(Asymm, asymm_error, data_empty),
      E(Asymm, asymm_error, invalid_file),
      E(Asymm, asymm_error, invalid_signature),
      E(Asymm, asymm_error, signature_empty),
      E(Asymm, asymm_error, encryption_error),
      E(Asymm, asymm_error, decryption_error),
      E(Asymm, asymm_error, signing_error),
      E(Passport, passport_error, id_already_exists),
      E(Encrypt, encrypt_error, bad_sequence),
      E(Encrypt, encrypt_error, no_data),
      E(Encrypt, encrypt_error, invalid_encryption_version),
      E(Encrypt, encrypt_error, failed_to_write),
      E(Encrypt, encrypt_error, failed_to_prepare_for_write),
      E(Encrypt, encrypt_error, failed_to_get_chunk),
      E(Encrypt, encrypt_error, failed_to_flush),
      E(Encrypt, encrypt_error, failed_to_decrypt),
      E(Encrypt, encrypt_error, failed_to_read),
      E(Encrypt, encrypt_error, encryptor_closed),
      E(Routing, routing_error, timed_out),
      E(Routing, routing_error, timer_cancelled),
      E(Routing, routing_error, not_in_range),
      E(Routing, routing_error, not_connected),
      E(Nfs, nfs_error, failed_to_get_data),
      E(Nfs, nfs_error, timed_out),
      E(Drive, drive_error, no_drive_letter_available),
      E(Drive, drive_error, failed_to_mount),
      E(Drive, drive_error, permission_denied),
      E(Drive, drive_error, no_such_file),
      E(Drive, drive_error, file_exists),
      E(Drive, drive_error, driver_not_installed),
      E(Vault, vault_error, failed_to_join_network),
      E(Vault, vault_error, failed_to_handle_request),
      E(Vault, vault_error, operation_not_supported),
      E(Vault, vault_error, permission_denied),
      E(Vault, vault_error, no_such_account),
      E(Vault, vault_error, low_space),
      E(Vault, vault_error, not_enough_space),
      E(Vault, vault_error, unique_data_clash),
      E(Vault, vault_error, data_available_not_given),
      E(Vault, vault_error, account_already_exists),
      E(Vault, vault_error, data_already_exists),
      E(Vault, vault_error, too_few_entries_to_resolve),
      E(VaultManager, vault_manager_error, connection_not_found),
      E(VaultManager, vault_manager_error, failed_to_connect),
      E(VaultManager, vault_manager_error, failed_to_listen),
      E(VaultManager, vault_manager_error, connection_aborted),
      E(VaultManager, vault_manager_error, ipc_message_too_large),
      E(VaultManager, vault_manager_error, timed_out),
      E(VaultManager, vault_manager_error, unvalidated_client),
      E(VaultManager, vault_manager_error, vault_exited_with_error),
      E(VaultManager, vault_manager_error, vault_terminated),
      E(Api, api_error, kPasswordFailure)};
  return all;
}
static const Entry& Find(const std::string& cat, const std::string& name) {
  for (auto& e : All())
    if (cat == e.cat && name == e.name) return e;
  throw std::runtime_error("no such error");
}
static std::string Show(const std::error_code& c) {
  return "{\"cat\":" + proto::Q(c.category().name()) + ",\"val\":" + std::to_string(c.value()) + ",\"msg\":" + proto::Q(c.message()) + "}";
}
static const char* B(bool b) { return b ? "true" : "false"; }

int main() {
  return proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") return "0";
    if (c == "toint") {
      auto& e = Find(a[1], a[2]);
      auto x = e.make();
      int n = ErrorToInt(x);
      auto y = IntToError(n);
      auto ser = Serialise(x);
      auto z = Parse<maidsafe_error>(ser);
      bool shrt = true;
      for (size_t k = 0; k < ser.size(); ++k) {
        SerialisedData part(ser.begin(), ser.begin() + long(k));
        try {
          Parse<maidsafe_error>(part);
          shrt = false;
        } catch (...) {
        }
      }
      return "{\"int\":" + std::to_string(n) + ",\"back\":" + B(y.code() == e.code && std::string(y.what()) == x.what()) +
             ",\"ser\":" + B(z.code() == e.code) + ",\"short\":" + B(shrt) + "}";
    }
    if (c == "fromint") return Show(IntToError(std::stoi(a[1])).code());
    if (c == "parse") return Show(Parse<maidsafe_error>(Serialise(int32_t(std::stoi(a[1])))).code());
    if (c == "foreign") {
      int v = ErrorToInt(maidsafe_error(std::stoi(a[1]), std::generic_category()));
      return std::to_string(v);
    }
    if (c == "code") {
      auto& e = Find(a[1], a[2]);
      auto x = e.make();
      return "{\"cat\":" + proto::Q(x.code().category().name()) + ",\"val\":" + std::to_string(x.code().value()) +
             ",\"msg\":" + proto::Q(x.code().message()) +
             ",\"what\":" + B(std::string(x.what()).find(x.code().message()) != std::string::npos) +
             ",\"cond\":" + B(x.code() == e.cond && x.code() == x.code().default_error_condition()) +
             ",\"own\":" + B(x.code().category() == *e.own && x.code() == e.code) + ",\"thrown\":" + B(e.thrown()) + "}";
    }
    if (c == "same") {
      auto &x = Find(a[1], a[2]), &y = Find(a[3], a[4]);
      return std::string("{\"code\":") + B(x.code == y.code) + ",\"cond\":" + B(x.cond == y.cond) + "}";
    }
    return "\"?\"";
  });
}

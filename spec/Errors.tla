------------------------------- MODULE Errors -------------------------------
(* The errors of the library: category, enumerator, value, name of the category, message; and their   *)
(* integer form: minus (100000 * number of the category + value).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Part   \* 1: integer and serialised forms, 2: codes, names and messages
Table == <<
  <<"Common", "success", 0, "MaidSafe Common", "Success">>,
  <<"Common", "pending_result", 1, "MaidSafe Common", "Result still pending">>,
  <<"Common", "unknown", 2, "MaidSafe Common", "Unknown error in Common">>,
  <<"Common", "null_pointer", 3, "MaidSafe Common", "nullptr passed">>,
  <<"Common", "invalid_identity", 4, "MaidSafe Common", "Invalid NodeID">>,
  <<"Common", "invalid_key_size", 5, "MaidSafe Common", "Invalid key size">>,
  <<"Common", "outside_of_bounds", 6, "MaidSafe Common", "Outside of bounds">>,
  <<"Common", "invalid_argument", 7, "MaidSafe Common", "One or more invalid arguments were passed">>,
  <<"Common", "invalid_conversion", 8, "MaidSafe Common", "Invalid conversion between types">>,
  <<"Common", "file_too_large", 9, "MaidSafe Common", "File too large">>,
  <<"Common", "uninitialised", 10, "MaidSafe Common", "Class is uninitialised.">>,
  <<"Common", "already_initialised", 11, "MaidSafe Common", "Class has already been initialised.">>,
  <<"Common", "hashing_error", 12, "MaidSafe Common", "Error during hashing">>,
  <<"Common", "symmetric_encryption_error", 13, "MaidSafe Common", "Error during symmetric encryption">>,
  <<"Common", "symmetric_decryption_error", 14, "MaidSafe Common", "Error during symmetric decryption">>,
  <<"Common", "compression_error", 15, "MaidSafe Common", "Error during compression">>,
  <<"Common", "uncompression_error", 16, "MaidSafe Common", "Error during uncompression">>,
  <<"Common", "cannot_invoke_from_this_thread", 17, "MaidSafe Common", "This function cannot be invoked from this thread">>,
  <<"Common", "cannot_exceed_limit", 18, "MaidSafe Common", "Cannot exceed specified limit">>,
  <<"Common", "unable_to_handle_request", 19, "MaidSafe Common", "Unable to handle request">>,
  <<"Common", "filesystem_io_error", 20, "MaidSafe Common", "Filesystem IO error">>,
  <<"Common", "no_such_element", 21, "MaidSafe Common", "Element does not exist">>,
  <<"Common", "serialisation_error", 22, "MaidSafe Common", "Error serialising to protocol buffer">>,
  <<"Common", "parsing_error", 23, "MaidSafe Common", "Error parsing from protocol buffer">>,
  <<"Common", "not_a_directory", 24, "MaidSafe Common", "Path is not a directory">>,
  <<"Common", "db_busy", 25, "MaidSafe Common", "The database file is locked">>,
  <<"Common", "db_not_present", 26, "MaidSafe Common", "Database not present">>,
  <<"Common", "db_error", 27, "MaidSafe Common", "Database error">>,
  <<"Common", "defaulted", 28, "MaidSafe Common", "Defaulted">>,
  <<"Asymm", "keys_generation_error", 1, "MaidSafe Asymmetric Crypto", "Error generating key pair">>,
  <<"Asymm", "keys_serialisation_error", 2, "MaidSafe Asymmetric Crypto", "Error serialising key pair">>,
  <<"Asymm", "keys_parse_error", 3, "MaidSafe Asymmetric Crypto", "Error parsing key pair">>,
  <<"Asymm", "invalid_private_key", 4, "MaidSafe Asymmetric Crypto", "Invalid private key">>,
  <<"Asymm", "invalid_public_key", 5, "MaidSafe Asymmetric Crypto", "Invalid public key">>,
  <<"Asymm", "data_empty", 6, "MaidSafe Asymmetric Crypto", "Input data is empty">>,
  <<"Asymm", "invalid_file", 7, "MaidSafe Asymmetric Crypto", "Input file is missing or empty">>,
  <<"Asymm", "invalid_signature", 8, "MaidSafe Asymmetric Crypto", "Invalid signature">>,
  <<"Asymm", "signature_empty", 9, "MaidSafe Asymmetric Crypto", "Signature is empty">>,
  <<"Asymm", "encryption_error", 10, "MaidSafe Asymmetric Crypto", "Error during asymmetric encryption">>,
  <<"Asymm", "decryption_error", 11, "MaidSafe Asymmetric Crypto", "Error during asymmetric decryption">>,
  <<"Asymm", "signing_error", 12, "MaidSafe Asymmetric Crypto", "Error during asymmetric signing">>,
  <<"Passport", "id_already_exists", 1, "MaidSafe Identity Ring", "ID already exists in the passport">>,
  <<"Encrypt", "bad_sequence", 1, "MaidSafe Encryption", "Bad sequence">>,
  <<"Encrypt", "no_data", 2, "MaidSafe Encryption", "No data">>,
  <<"Encrypt", "invalid_encryption_version", 3, "MaidSafe Encryption", "Invalid version of encryption algorithm">>,
  <<"Encrypt", "failed_to_write", 4, "MaidSafe Encryption", "Failed to write">>,
  <<"Encrypt", "failed_to_prepare_for_write", 5, "MaidSafe Encryption", "Failed to prepare for write">>,
  <<"Encrypt", "failed_to_get_chunk", 6, "MaidSafe Encryption", "Failed to get chunk">>,
  <<"Encrypt", "failed_to_flush", 7, "MaidSafe Encryption", "Failed to flush">>,
  <<"Encrypt", "failed_to_decrypt", 8, "MaidSafe Encryption", "Failed to decrypt">>,
  <<"Encrypt", "failed_to_read", 9, "MaidSafe Encryption", "Failed to read">>,
  <<"Encrypt", "encryptor_closed", 10, "MaidSafe Encryption", "Encryptor closed">>,
  <<"Routing", "timed_out", 1, "MaidSafe Routing", "Timed out">>,
  <<"Routing", "timer_cancelled", 2, "MaidSafe Routing", "Timer cancelled">>,
  <<"Routing", "not_in_range", 3, "MaidSafe Routing", "Not in range">>,
  <<"Routing", "not_connected", 4, "MaidSafe Routing", "Not connected">>,
  <<"Nfs", "failed_to_get_data", 1, "MaidSafe Network Filesystem", "Routing failed to return requested data">>,
  <<"Nfs", "timed_out", 2, "MaidSafe Network Filesystem", "Timed out">>,
  <<"Drive", "no_drive_letter_available", 1, "MaidSafe Drive", "There are no available drive letters left">>,
  <<"Drive", "failed_to_mount", 2, "MaidSafe Drive", "Failed to mount the drive">>,
  <<"Drive", "permission_denied", 3, "MaidSafe Drive", "Permission denied for given action">>,
  <<"Drive", "no_such_file", 4, "MaidSafe Drive", "No such file">>,
  <<"Drive", "file_exists", 5, "MaidSafe Drive", "File already exists">>,
  <<"Drive", "driver_not_installed", 6, "MaidSafe Drive", "CbFs driver is not installed">>,
  <<"Vault", "failed_to_join_network", 1, "MaidSafe Vault", "Failed to join network">>,
  <<"Vault", "failed_to_handle_request", 2, "MaidSafe Vault", "Failed to handle request">>,
  <<"Vault", "operation_not_supported", 3, "MaidSafe Vault", "Requested operation not supported">>,
  <<"Vault", "permission_denied", 4, "MaidSafe Vault", "Permission denied for request">>,
  <<"Vault", "no_such_account", 5, "MaidSafe Vault", "Account not known on this vault">>,
  <<"Vault", "low_space", 6, "MaidSafe Vault", "Running low on space in account">>,
  <<"Vault", "not_enough_space", 7, "MaidSafe Vault", "Not enough space in account">>,
  <<"Vault", "unique_data_clash", 8, "MaidSafe Vault", "Attempt to overwrite existing unique data">>,
  <<"Vault", "data_available_not_given", 9, "MaidSafe Vault", "Data is held by the network, but was not provided">>,
  <<"Vault", "account_already_exists", 10, "MaidSafe Vault", "Attempt to create an account which already exists">>,
  <<"Vault", "data_already_exists", 11, "MaidSafe Vault", "Attempt to put data which already exists">>,
  <<"Vault", "too_few_entries_to_resolve", 12, "MaidSafe Vault", "Attempt to resolve without having enough entries">>,
  <<"VaultManager", "connection_not_found", 1, "MaidSafe VaultManager", "IPC connection not found">>,
  <<"VaultManager", "failed_to_connect", 2, "MaidSafe VaultManager", "Failed to connect">>,
  <<"VaultManager", "failed_to_listen", 3, "MaidSafe VaultManager", "Failed to listen">>,
  <<"VaultManager", "connection_aborted", 4, "MaidSafe VaultManager", "Connection aborted">>,
  <<"VaultManager", "ipc_message_too_large", 5, "MaidSafe VaultManager", "IPC message too large">>,
  <<"VaultManager", "timed_out", 6, "MaidSafe VaultManager", "Timed out">>,
  <<"VaultManager", "unvalidated_client", 7, "MaidSafe VaultManager", "IPC message from unvalidated client refused">>,
  <<"VaultManager", "vault_exited_with_error", 8, "MaidSafe VaultManager", "Vault process exited with an error">>,
  <<"VaultManager", "vault_terminated", 9, "MaidSafe VaultManager", "Vault process required termination">>,
  <<"Api", "kPasswordFailure", 1, "Client", "Failed to validate password">>
>>
Cats == <<"Common", "Asymm", "Passport", "Encrypt", "Routing", "Nfs", "Drive", "Vault", "VaultManager", "Api">>
UnknownMessage == <<"Unknown error in Common", "Unknown error in Asymm", "Unknown error in Passport", "Unknown error in Encrypt",
                    "Unknown error in Routing", "Unknown error in NFS", "Unknown error in Drive", "Unknown error in Vault",
                    "Unknown error in VaultManager", "Unknown error in Client">>
Multiple == 100000
Rows == DOMAIN Table
CatNo(c) == CHOOSE i \in DOMAIN Cats : Cats[i] = c
RowOf(c, n) == CHOOSE i \in Rows : Table[i][1] = c /\ Table[i][2] = n
ByValue(c, v) == {i \in Rows : Table[i][1] = c /\ Table[i][3] = v}
NameOf(c) == Table[CHOOSE i \in Rows : Table[i][1] = c][4]
IntOf(i) == 0 - (Multiple * CatNo(Table[i][1]) + Table[i][3])

\* What an integer stands for: the error's category, value and message, or a refusal.
Decoded(v) ==
  LET n == (0 - v) \div Multiple  e == (0 - v) % Multiple IN
  IF v >= 0 \/ n \notin DOMAIN Cats THEN [err |-> "parsing_error"]
  ELSE LET c == Cats[n]  R == ByValue(c, e) IN
       [cat |-> NameOf(c), val |-> e, msg |-> IF R = {} THEN UnknownMessage[n] ELSE Table[CHOOSE i \in R : TRUE][5]]

Init0 == 0
Ops(s) == IF Part = 1
          THEN [n : {"toint"}, a : {<<Table[i][1], Table[i][2]>> : i \in Rows}]
               \cup [n : {"fromint", "parse"}, a : {<<IntOf(i) + d>> : i \in Rows, d \in {-1, 0, 1}}
                                        \cup {<<0 - Multiple * k + d>> : k \in 0..12, d \in {-2, -1, 0, 1, 2}} \cup {<<k>> : k \in -50..50}
                                        \cup {<<0 - IntOf(i)>> : i \in Rows} \cup {<<2147483647>>, <<-2147483647>>}]
               \cup [n : {"foreign"}, a : {<<0>>, <<1>>, <<22>>}]
          ELSE [n : {"code"}, a : {<<Table[i][1], Table[i][2]>> : i \in Rows}]
               \cup [n : {"same"}, a : {<<Table[i][1], Table[i][2], Table[j][1], Table[j][2]>> : i \in Rows, j \in Rows}]
Row(a) == Table[RowOf(a[1], a[2])]
Apply(s, o) ==
  [s |-> 0, r |->
   CASE o.n = "toint" -> [int |-> IntOf(RowOf(o.a[1], o.a[2])), back |-> TRUE, ser |-> TRUE, short |-> TRUE]
     [] o.n \in {"fromint", "parse"} -> Decoded(o.a[1])
     [] o.n = "foreign" -> [err |-> "serialisation_error"]
     [] o.n = "code" -> [cat |-> Row(o.a)[4], val |-> Row(o.a)[3], msg |-> Row(o.a)[5], what |-> TRUE, cond |-> TRUE, own |-> TRUE, thrown |-> TRUE]
     [] o.n = "same" -> LET same == o.a[1] = o.a[3] /\ o.a[2] = o.a[4] IN [code |-> same, cond |-> same]]

Inv(s) ==
  \* every integer names one error, every message one error of its category, every name one category
  /\ \A i, j \in Rows : i # j => IntOf(i) # IntOf(j)
  /\ \A i \in Rows : Decoded(IntOf(i)) = [cat |-> Table[i][4], val |-> Table[i][3], msg |-> Table[i][5]]
  /\ \A i, j \in Rows : i # j /\ Table[i][1] = Table[j][1] => Table[i][5] # Table[j][5]
  /\ \A i, j \in Rows : (Table[i][1] = Table[j][1]) = (Table[i][4] = Table[j][4])
StepInv(s, o, a) == TRUE
=============================================================================

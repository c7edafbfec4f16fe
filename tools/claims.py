NA = {}
HU = "Runs the real handles-utils code on every element of the stated finite input space; outside the bounds nothing is claimed. Trusted: the independent oracle in checks/hu and the unicode-normalization crate."
claim("C01 C02 C03 C04", "hu", ENUM, HU)
claim("C35", "avro", ENUM, "Runs the real helpers on every schema, record and corruption within the bounds; the apache-avro library is the trusted oracle for what a valid schema or datum is.")
SHIM = " The pallet is compiled unmodified from /repo against a small stand-in for Substrate FRAME (shim/sdk) in which all of the pallets' own unit tests pass; outside the stated alphabets and depths nothing is claimed."
claim("C30 C32", "trel", BFS, "Every sequence of scheduled transfers, claims, updates, spends and block steps within the bounds; each resulting state is compared with a ledger model." + SHIM)
claim("C31", "trel", ENUM, "All small schedules at every block, and all combinations of boundary values, compared with arithmetic in 128 bits." + SHIM)
claim("C05 C06 C07", "hnd", BFS, "Every sequence of claims, changes, retirements and block steps within the bounds, including every mismatch of signer, signed text and expiry; each resulting state is compared with a registry model." + SHIM)
claim("C08 C09 C10 C11 C12", "msa", BFS, "Every sequence of identity, delegation and signed calls and block steps within the bounds, plus every mismatch of signer, signed text, expiry and account one step around reached states; each resulting state is compared with a model of identities, delegations and used signatures. The handles registry, schemas and council are environment stand-ins in this check; registries of two to four signatures." + SHIM)
claim("C13 C14 C15", "cap", BFS, "Every sequence of stakes, unstakes, withdrawals, payments, epoch length changes and block steps within the bounds; each resulting state is compared with a ledger model." + SHIM)
claim("C20 C21 C22", "sch", BFS, "Every sequence of registrations through every entry point, namings, council motions and limit changes within the bounds, every request around reached states, every short model text and every short name; each resulting state is compared with a register model. serde_json is the trusted oracle for what a JSON text is; the council is a list of motions." + SHIM)
claim("C23 C24", "msg", BFS, "Every sequence of messages of both kinds and block steps within the bounds, every request by every kind of sender around reached states, and content identifiers of every shape; each resulting state is compared with a list of messages. Identities, grants and schemas are environment stand-ins in this check; multibase and cid are stand-ins for the crates of those names." + SHIM)
claim("C25 C38", "rpc", ENUM, "Runs the real query handlers over a scripted node for every small request and every answer of the runtime: every distribution of messages over a few blocks with every page size and start; every list of delegators with every combination of answers. The RPC server itself (transport, JSON framing) is a stand-in." + SHIM)
claim("C26 C27 C28 C29", "ss", BFS, "Every request by every kind of sender, signer, expiry, tampering, schema and state hash; every interleaving of writers that prepare and later send requests within the bounds; every short list of actions on every short list; every sequence of writes at numerically related identities, schemas and pages. Each resulting state is read back through the queries and compared with plain lists and maps. Identities, grants and schemas are environment stand-ins in this check." + SHIM)
claim("C36", "seal", ENUM, "Runs the real sealing loop and the real command line of the local chain under an explorer that owns time, the transaction pool, the operator's commands, how long a block takes and which of the merged streams is polled first; every sequence of these within the bounds is executed, and the record of the sealing engine must be an allowed interleaving with nothing left over. The sealing engine, the network and the RPC server are stand-ins (shim/node); the random poll order of merged streams is replaced by an explored choice.")
RT = " The runtime (runtime/frequency, runtime/common and all pallets) is compiled unmodified, once as for mainnet and once as for the local chain, against a small stand-in for Substrate (shim/sdk); parachain-only items, benchmarks and the wasm build are left out, and the pallets of Substrate that the property does not touch are stand-ins. Outside the stated alphabets and depths nothing is claimed."
claim("C16 C33", "rt", BFS, "Executes real signed transactions through the runtime's own extension pipeline: every call shape, signer, tip, epoch and capacity level around the fee; every kind of account record, nonce and call; every sequence of payments, key deletions, resent transactions and block steps within the bounds. Each resulting state is compared with an independent account of fees and effects." + RT)
claim("C17 C34", "rt", ENUM, "Executes real transactions through the runtime's own extension pipeline: every call shape and every call of the repository's pallets, every signer, tip, fee multiplier and balance around the fee; every passkey request with every binding, nonce, call and balance. Each resulting state is compared with an independent account of fees and effects." + RT)
claim("C18 C19", "rt", ENUM, "Asks the runtime's filters and its capacity list about every call there is, alone and in every batch shape within the bounds, and executes forbidden calls inside every nesting of wrapping calls within the bounds; verdicts are compared with tables written down from the documentation." + RT)

claim("C37", "ofw", BFS, "Every history of blocks with key changes and of worker runs within the bounds: late, skipped, repeated, told of any final block, answered wrongly, stopped before any access to their storage, or overlapped by another worker at any access (one overlap, the other worker running from start to end), and blocks abandoned for others; after each run the index is compared with the chain's own keys." + SHIM)
claim("C39", "mig", ENUM, "Every storage content within the bounds, written byte by byte as the old code stored it, at every storage version, is migrated by the real code in the real runtime once and twice, and the whole storage compared with what it should be; pallets/capacity/src/migration/v3.rs is not part of its crate and not checked." + RT)
claim("C40", "rt", BFS, "Every governed call by every authority (root, none, signed, every council and technical committee up to the stated size with every number of ayes), every governed call inside every wrapping a signed account can make, and every history of proposing, voting, closing and council changes within the bounds, executed in the real runtime; outcomes and storage are compared with a table of required approvals written down from the runtime's documentation. The collective pallet itself is a stand-in." + RT)
claim("C41", "rt", BFS, "Every history of real transactions within the bounds with all query interfaces of the runtime asked in every state and compared with a reference model; every call shape's fee quote compared with what is then charged; the events of every short block compared with what was executed." + RT)
claim("C42", "rt", BFS, "Every history of real transactions within the bounds executed in the real runtime, and every event deposited by this repository's pallets compared with the events that follow from the states before and after the transaction." + RT)
